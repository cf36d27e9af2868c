package spec

import (
	"bytes"
	"errors"
	"io"
	"strings"

	"gpgverif/harness/verif"

	"golang.org/x/crypto/openpgp/armor"
	"golang.org/x/crypto/openpgp/packet"
)

// ArmorText is the first armored block of a text: the lines from the first that
// begins one (a signed message header does not) to the first after it that ends
// it. There is none if reading the text fails.
func ArmorText(data []byte, fails bool) (string, bool) {
	lines, bad := verif.Lines(data)
	text := ""
	begun, ended := false, false
	for _, l := range lines {
		if !begun && strings.HasPrefix(l, "-----BEGIN PGP") && !strings.HasPrefix(l, "-----BEGIN PGP SIGNED") {
			begun = true
		}
		if begun && !ended {
			text += l + "\n"
			ended = strings.HasPrefix(l, "-----END PGP")
		}
	}
	return text, !bad && !fails && begun && ended
}

// Input is what a parser reads packets from: the body of the armored block if
// there is one (armored), else (where armor is not required) all of the input.
func Input(armorOnly bool, data []byte, fails bool) (rd io.Reader, armored, ok bool) {
	text, found := ArmorText(data, fails)
	if found {
		block, err := armor.Decode(bytes.NewReader([]byte(text)))
		if err == nil {
			return block.Body, true, true
		}
	}
	if armorOnly {
		return nil, false, false
	}
	return verif.NewDevice("reference", data, fails), false, true
}

// Stream is a packet stream: one entry per packet, in order, up to its end or
// the first packet that is broken.
func Stream(x *Ctx, rd io.Reader) ([]*Node, bool) {
	root := &Node{}
	r := packet.NewOpaqueReader(rd) // framing: golang.org/x/crypto
	for {
		op, err := r.Next()
		if errors.Is(err, io.EOF) {
			return root.Items, true
		}
		if err != nil {
			return root.Items, false
		}
		m, ok := Entry(x, op.Tag, op.Contents)
		if !ok {
			return root.Items, false
		}
		root.Add(m)
	}
}

// Entry is a packet of a stream: compressed data shows the packets in it.
func Entry(x *Ctx, tag byte, body []byte) (*Node, bool) {
	n, ok := PacketEntry(x, tag, body)
	if !ok || tag != 8 || Whole {
		return n, ok
	}
	var data []byte
	if len(body) > 1 {
		d, st := verif.Inflate(body[0], body[1:])
		if st == verif.TooLarge {
			return n, true
		}
		data = d
	}
	return n, inner(n, bytes.NewReader(data), x)
}
