package obl

import (
	"bytes"
	"errors"
	"io"
	"math/rand"

	"github.com/spiegel-im-spiegel/gpgpdump/armtext"
	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/tags"
	pgp "golang.org/x/crypto/openpgp/packet"

	"gpgverif/harness/spec"
	v "gpgverif/harness/verif"
)

// O_ArmText: armtext.Get returns exactly the first armored block.
func O_ArmText() {
	data := v.BytesBy("data", spec.GenText)
	fails := v.Bool("fails")
	buf, err := armtext.Get(v.NewDevice("data", data, fails))
	want, ok := spec.ArmorText(data, fails)
	v.CheckErr("armor text", err, !ok)
	if ok && err == nil {
		v.CheckStr("armtext", "armor text", buf.String(), want)
	}
}

// O_Parse: a parser reads the right octets and reports every packet in them.
// The verifier takes Packets.Parse of one packet, compressed ones included, by its
// contract: O_Entry and O_Tag*.
func O_Parse() {
	spec.Whole = v.Symbolic()
	cxt, x := world()
	data := v.BytesBy("data", func(r *rand.Rand) []byte { return spec.GenInput(r, *x) })
	fails := v.Bool("fails")
	armor := cxt.Armor()
	p, err := parse.New(cxt, v.NewDevice("data", data, fails))
	rd, armored, ok := spec.Input(armor, data, fails)
	v.CheckErr("input", err, !ok)
	if !ok || err != nil {
		return
	}
	if v.Case(armored) {
		stream(p, rd, x)
	} else {
		stream(p, rd, x)
	}
}

func stream(p *parse.Parser, rd io.Reader, x *spec.Ctx) {
	info, err := p.Parse()
	want, ok := spec.Stream(x, rd)
	v.CheckErr("stream", err, !ok)
	v.CheckItems("stream", info.Packets, want)
}

// O_ParseNil: no input, no parser.
func O_ParseNil() {
	p, err := parse.New(context.New(context.Set(context.ARMOR, v.Bool("armor"))), nil)
	v.CheckErr("nil reader", err, true)
	v.Check("stream", "nil reader", p == nil)
	var q *parse.Parser
	info, err := q.Parse()
	v.CheckErr("nil parser", err, false)
	v.Check("stream", "nil parser", info != nil && len(info.Packets) == 0)
}

// O_Entry: a compressed packet shows the packets in it, and the stream goes on
// behind it.
func O_Entry() {
	cxt, x := world()
	data := v.BytesBy("data", func(r *rand.Rand) []byte { return spec.GenStream8(r, *x) })
	r := pgp.NewOpaqueReader(bytes.NewReader(data))
	p, err := tags.NewPackets(cxt, bytes.NewReader(data))
	v.CheckErr("packets", err, false)
	if err != nil {
		return
	}
	op, ok := next(p, r)
	if !ok {
		return
	}
	v.Assume(op.Tag == 8)
	if v.Symbolic() {
		zipCase(op.Contents, v.Cases(6))
	}
	item, err := p.Parse()
	want, ok := spec.Entry(x, op.Tag, op.Contents)
	outcome("compressed", item, err, cxt, want, ok, x)
	if !ok || err != nil {
		return
	}
	spec.Whole = v.Symbolic()
	op, ok = next(p, r)
	if !ok {
		return
	}
	item, err = p.Parse()
	want, ok = spec.Entry(x, op.Tag, op.Contents)
	outcome("behind it", item, err, cxt, want, ok, x)
}

func next(p *tags.Packets, r *pgp.OpaqueReader) (*pgp.OpaquePacket, bool) {
	err := p.Next()
	op, e := r.Next()
	v.CheckErr("next", err, e != nil)
	if err != nil && e != nil {
		v.Check("stream", "end", errors.Is(err, io.EOF) == errors.Is(e, io.EOF))
	}
	return op, err == nil && e == nil
}

// zipCase partitions compressed data by its algorithm.
func zipCase(body []byte, k int) {
	if k == 0 {
		v.Assume(len(body) < 2)
		return
	}
	v.Assume(len(body) > 1)
	if k < 5 {
		v.Assume(int(body[0]) == k-1)
	} else {
		v.Assume(body[0] > 3)
	}
}
