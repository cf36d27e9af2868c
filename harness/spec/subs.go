package spec

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"gpgverif/harness/verif"

	"golang.org/x/crypto/openpgp/packet"
)

// Area is a sub-packet area: its sub-packets one after another.
func Area(x *Ctx, tag int, name string, body []byte) (*Node, bool) {
	n := &Node{Name: name, Note: bytesNote(int64(len(body))), Dump: Dump(body, x.Debug)}
	subs, err := packet.OpaqueSubpackets(body) // framing: golang.org/x/crypto
	if err != nil {
		return nil, false
	}
	for _, s := range subs {
		m, ok := SubEntry(x, tag, s.SubType, s.Contents)
		if !ok {
			return nil, false
		}
		n.Add(m)
	}
	return n, true
}

// SubEntry is one sub-packet, by the contract of Sub.
func SubEntry(x *Ctx, tag int, typ byte, body []byte) (*Node, bool) {
	if verif.Symbolic() {
		n, ok, _, _ := x.Opaque("sub", tag, typ, body)
		return n, ok
	}
	return Sub(x, tag, typ, New(body))
}

// Whole tells the verifier to take compressed data packets as a whole too: set
// where nothing looks into them.
var Whole bool

// PacketEntry is one packet, by the contract of Packet.
func PacketEntry(x *Ctx, tag byte, body []byte) (*Node, bool) {
	if verif.Symbolic() && (tag != 8 || Whole) {
		n, ok, _, _ := x.Opaque("packet", int(tag), 0, body)
		return n, ok
	}
	return Packet(x, int(tag), New(body))
}

// embedded is a signature in a signature, by the contract of Packet where the
// verifier has it.
func embedded(x *Ctx, c *Cur) (*Node, bool) {
	if verif.Bound("newTag02") {
		return PacketEntry(x, 2, c.B)
	}
	return Signature(x, 2, c)
}

// Opaque is the decoding of a packet or sub-packet as an unknown function of
// everything it may depend on; the octets are the times it leaves behind.
func (x *Ctx) Opaque(what string, tag int, typ byte, b []byte) (*Node, bool, []byte, []byte) {
	o := x.Opt
	m := &Node{
		Name:  verif.OpaqueString(what+".name", tag, typ, b, o.Cert, o.Debug, o.Integer, o.Literal, o.Marker, o.Private, o.UTC, x.Mode, x.Sig, x.Key),
		Value: verif.OpaqueString(what+".value", tag, typ, b, o.Cert, o.Debug, o.Integer, o.Literal, o.Marker, o.Private, o.UTC, x.Mode, x.Sig, x.Key),
		Note:  verif.OpaqueString(what+".note", tag, typ, b, o.Cert, o.Debug, o.Integer, o.Literal, o.Marker, o.Private, o.UTC, x.Mode, x.Sig, x.Key),
		Dump:  verif.OpaqueString(what+".dump", tag, typ, b, o.Cert, o.Debug, o.Integer, o.Literal, o.Marker, o.Private, o.UTC, x.Mode, x.Sig, x.Key),
	}
	m.Add(&Node{Name: verif.OpaqueString(what+".items", tag, typ, b, o.Cert, o.Debug, o.Integer, o.Literal, o.Marker, o.Private, o.UTC, x.Mode, x.Sig, x.Key)})
	ok := !verif.OpaqueBool(what+".bad", tag, typ, b, o.Cert, o.Debug, o.Integer, o.Literal, o.Marker, o.Private, o.UTC, x.Mode, x.Sig, x.Key)
	mode := int(verif.OpaqueU8(what+".mode", tag, typ, b, o.Cert, o.Debug, o.Integer, o.Literal, o.Marker, o.Private, o.UTC, x.Mode, x.Sig, x.Key))
	sig := verif.OpaqueBytes(what+".sig", 4, tag, typ, b, o.Cert, o.Debug, o.Integer, o.Literal, o.Marker, o.Private, o.UTC, x.Mode, x.Sig, x.Key)
	key := verif.OpaqueBytes(what+".key", 4, tag, typ, b, o.Cert, o.Debug, o.Integer, o.Literal, o.Marker, o.Private, o.UTC, x.Mode, x.Sig, x.Key)
	x.Mode = mode
	x.Sig = be32(sig)
	x.Key = be32(key)
	return m, ok, sig, key
}

// Sub is the specification of one sub-packet.
func Sub(x *Ctx, tag int, typ byte, c *Cur) (*Node, bool) {
	name := SubName(typ)
	n := header(name, c.B, x.Debug)
	t := typ & 0x7f
	if tag == 17 {
		if t == 1 {
			return n, image(n, c)
		}
		return n, true
	}
	switch t {
	case 2:
		b, ok := c.Take(4)
		if !ok {
			return nil, false
		}
		x.Sig = be32(b)
		return Date(b, name, x), true
	case 3:
		b, ok := c.Take(4)
		if !ok {
			return nil, false
		}
		return Expire(b, name, x.Sig, x), true
	case 9:
		b, ok := c.Take(4)
		if !ok {
			return nil, false
		}
		return Expire(b, name, x.Key, x), true
	case 4:
		return n, boolean(n, c, "Not exportable", "Exportable")
	case 7:
		return n, boolean(n, c, "Not revocable", "Revocablee")
	case 25:
		return n, boolean(n, c, "Not primary", "Primary")
	case 5:
		l, ok := c.Byte()
		if !ok {
			return nil, false
		}
		n.Add(&Node{Name: "Level", Value: fmt.Sprintf("%d", l)})
		a, ok := c.Byte()
		if !ok {
			return nil, false
		}
		n.Add(&Node{Name: "Trust amount", Value: fmt.Sprintf("%d", a)})
		return n, true
	case 6, 24, 26, 28:
		return Text(c.B, name, x.Debug), true
	case 11:
		for _, b := range c.B {
			n.Add(symItem(b, x))
		}
		return n, true
	case 21:
		for _, b := range c.B {
			n.Add(hashItem(b, x))
		}
		return n, true
	case 22:
		for _, b := range c.B {
			n.Add(compItem(b, x))
		}
		return n, true
	case 34:
		for _, b := range c.B {
			n.Add(aeadItem(b, x))
		}
		return n, true
	case 12:
		return n, revoker(n, c, x)
	case 16:
		b, ok := c.Take(8)
		if !ok {
			return nil, false
		}
		k := keyID(b)
		k.Name = name
		return k, true
	case 20:
		return n, notation(n, c, x)
	case 23:
		return n, flags23(n, c)
	case 27:
		return n, flags27(n, c)
	case 30:
		return n, flags30(n, c)
	case 29:
		return n, reason(n, c, x)
	case 31:
		p, ok := c.Byte()
		if !ok {
			return nil, false
		}
		n.Add(pubItem(p, x))
		h, ok := c.Byte()
		if !ok {
			return nil, false
		}
		n.Add(hashItem(h, x))
		n.Add(Raw(c.Left(), "Hash", true))
		return n, true
	case 32:
		s, ok := embedded(x, c)
		if !ok {
			return nil, false
		}
		n.Add(s)
		return n, true
	case 33, 35:
		v, ok := c.Byte()
		if !ok {
			return nil, false
		}
		note := unknown
		switch v {
		case 4:
			note = "need 20 octets length"
		case 5:
			note = "need 32 octets length"
		}
		n.Add(&Node{Name: "Version", Value: fmt.Sprintf("%d", v), Note: note})
		n.Add(Raw(c.Left(), "Fingerprint", true))
		return n, true
	case 37:
		n.Add(Raw(c.B, "certification digests", x.Cert))
		return n, true
	case 38:
		return n, keyBlock(n, c, x)
	}
	return n, true
}

func image(n *Node, c *Cur) bool {
	l, ok := c.Take(2)
	if !ok {
		return false
	}
	size := int64(l[0]) | int64(l[1])<<8
	if c.Gen == nil && size > int64(len(c.B)) {
		return false
	}
	ver, ok := c.Byte()
	if !ok {
		return false
	}
	v := &Node{Name: "Version", Value: fmt.Sprintf("%d", ver)}
	n.Add(v)
	if ver == 1 || ver >= 100 && ver <= 110 {
		if ver != 1 {
			v.Note = "private or experimental use"
		}
		enc, ok := c.Byte()
		if !ok {
			return false
		}
		m := &Node{Name: "Encoding", Value: unknown, Note: fmt.Sprintf("(enc %d)", enc)}
		if enc == 1 {
			m.Value = "JPEG"
		}
		n.Add(m)
	} else {
		v.Note = unknown
	}
	n.Add(&Node{Name: "Image data", Note: bytesNote(int64(len(c.B)) - size)})
	return true
}

func boolean(n *Node, c *Cur, no, yes string) bool {
	b, ok := c.Byte()
	if !ok {
		return false
	}
	n.Value = yes
	if b == 0 {
		n.Value = no
	}
	return true
}

func revoker(n *Node, c *Cur, x *Ctx) bool {
	k, ok := c.Byte()
	if !ok {
		return false
	}
	m := &Node{Name: "Class", Value: unknown, Dump: dump1(k, true), Kind: "code"}
	if k&0x80 != 0 {
		m.Value = "Normal"
		if k&0x40 != 0 {
			m.Value = "Sensitive"
		}
	}
	n.Add(m)
	p, ok := c.Byte()
	if !ok {
		return false
	}
	n.Add(pubItem(p, x))
	n.Add(Raw(c.Left(), "Fingerprint", true))
	return true
}

func flag(n *Node, text string) { n.Add(&Node{Name: "Flag", Value: text}) }

func unknownFlag(n *Node, i int, b byte) {
	if b != 0 {
		flag(n, fmt.Sprintf("Unknown flag%d(%#02x)", i, b))
	}
}

// moreFlags are the flag octets nothing is defined for.
func moreFlags(n *Node, c *Cur, from int) {
	if c.Gen != nil {
		c.Rest()
	}
	for _, b := range c.Left() {
		unknownFlag(n, from, b)
		from++
	}
}

func notation(n *Node, c *Cur, x *Ctx) bool {
	f, ok := c.Take(4)
	if !ok {
		return false
	}
	human := f[0]&0x80 != 0
	if human {
		flag(n, "Human-readable")
	}
	unknownFlag(n, 1, f[0]&0x7f)
	unknownFlag(n, 2, f[1])
	unknownFlag(n, 3, f[2])
	unknownFlag(n, 4, f[3])
	l, ok := c.Take(2)
	if !ok {
		return false
	}
	m, ok := c.Take(2)
	if !ok {
		return false
	}
	name, ok := c.Take(int64(be16(l)))
	if !ok {
		return false
	}
	n.Add(Text(name, "Name", x.Debug))
	val, ok := c.Take(int64(be16(m)))
	if !ok {
		return false
	}
	if human {
		n.Add(Text(val, "Value", x.Debug))
	} else {
		n.Add(&Node{Name: "Value", Dump: Dump(val, true)})
	}
	return true
}

func flags23(n *Node, c *Cur) bool {
	b, ok := c.Byte()
	if !ok {
		return false
	}
	if b&0x80 != 0 {
		flag(n, "No-modify")
	}
	unknownFlag(n, 1, b&0x7f)
	moreFlags(n, c, 2)
	return true
}

func flags27(n *Node, c *Cur) bool {
	b, ok := c.Byte()
	if !ok {
		return false
	}
	if b&0x01 != 0 {
		flag(n, "This key may be used to certify other keys.")
	}
	if b&0x02 != 0 {
		flag(n, "This key may be used to sign data.")
	}
	if b&0x04 != 0 {
		flag(n, "This key may be used to encrypt communications.")
	}
	if b&0x08 != 0 {
		flag(n, "This key may be used to encrypt storage.")
	}
	if b&0x10 != 0 {
		flag(n, "The private component of this key may have been split by a secret-sharing mechanism.")
	}
	if b&0x20 != 0 {
		flag(n, "This key may be used for authentication.")
	}
	unknownFlag(n, 1, b&0x40)
	if b&0x80 != 0 {
		flag(n, "The private component of this key may be in the possession of more than one person.")
	}
	b, ok = c.Byte()
	if !ok {
		return true
	}
	if b&0x04 != 0 {
		flag(n, "This key may be used as an additional decryption subkey (ADSK).")
	}
	if b&0x08 != 0 {
		flag(n, "This key may be used for timestamping.")
	}
	unknownFlag(n, 2, b&0xf3)
	moreFlags(n, c, 3)
	return true
}

func flags30(n *Node, c *Cur) bool {
	b, ok := c.Byte()
	if !ok {
		return false
	}
	if b&0x01 != 0 {
		flag(n, "Modification Detection (packets 18 and 19)")
	}
	if b&0x02 != 0 {
		flag(n, "AEAD Encrypted Data Packet (packet 20) and version 5 Symmetric-Key Encrypted Session Key Packets (packet 3)")
	}
	if b&0x04 != 0 {
		flag(n, "Version 5 Public-Key Packet format and corresponding new fingerprint format")
	}
	unknownFlag(n, 1, b&0xf8)
	moreFlags(n, c, 2)
	return true
}

func reason(n *Node, c *Cur, x *Ctx) bool {
	k, ok := c.Byte()
	if !ok {
		return false
	}
	name := "Unknown reason"
	switch {
	case k == 0:
		name = "No reason specified (key revocations or cert revocations)"
	case k == 1:
		name = "Key is superseded (key revocations)"
	case k == 2:
		name = "Key material has been compromised (key revocations)"
	case k == 3:
		name = "Key is retired and no longer used (key revocations)"
	case k == 32:
		name = "User ID resultrmation is no longer valid (cert revocations)"
	case k >= 100 && k <= 110:
		name = "(Private Use)"
	}
	n.Value = fmt.Sprintf("%s (%d)", name, k)
	if c.Rest() > 0 {
		n.Add(Text(c.Left(), "Additional resultrmation", x.Debug))
	}
	return true
}

func keyBlock(n *Node, c *Cur, x *Ctx) bool {
	t, ok := c.Byte()
	if !ok {
		return false
	}
	n.Add(&Node{Name: "Type", Value: fmt.Sprintf("%d", t)})
	k := Raw(c.Left(), "Key data", x.Debug)
	n.Add(k)
	if t != 0 {
		return true
	}
	y := *x // the packets of the key block have a context of their own
	y.Mode, y.Sig, y.Key = 0, 0, 0
	return inner(k, bytes.NewReader(c.Left()), &y)
}

// inner lists the packets of a stream below an entry.
func inner(n *Node, rd io.Reader, x *Ctx) bool {
	r := packet.NewOpaqueReader(rd) // framing: golang.org/x/crypto
	for {
		op, err := r.Next()
		if errors.Is(err, io.EOF) {
			return true
		}
		if err != nil {
			return false
		}
		m, ok := PacketEntry(x, op.Tag, op.Contents)
		if !ok {
			return false
		}
		n.Add(m)
	}
}
