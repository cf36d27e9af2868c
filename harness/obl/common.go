// Package obl holds the proof obligations: contracts (Hoare triples) over the
// functions of /repo, stated against package spec.
package obl

import (
	"math/rand"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/reader"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/tags"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/values"
	"golang.org/x/crypto/openpgp/packet"

	"gpgverif/harness/spec"
	v "gpgverif/harness/verif"
)

// world is an arbitrary context and the specification's view of it.
func world() (*context.Context, *spec.Ctx) {
	cert, debug, integer, literal := v.Bool("cert"), v.Bool("debug"), v.Bool("integer"), v.Bool("literal")
	marker, private, utc := v.Bool("marker"), v.Bool("private"), v.Bool("utc")
	cxt := context.New(
		context.Set(context.CERT, cert),
		context.Set(context.DEBUG, debug),
		context.Set(context.INTEGER, integer),
		context.Set(context.LITERAL, literal),
		context.Set(context.MARKER, marker),
		context.Set(context.PRIVATE, private),
		context.Set(context.UTC, utc),
		context.Set(context.GDUMP, v.Bool("gdump")),
		context.Set(context.ARMOR, v.Bool("armor")),
	)
	x := &spec.Ctx{}
	x.Cert = cert || debug
	x.Debug = debug
	x.Integer = integer || debug
	x.Literal = literal || debug
	x.Marker = marker || debug
	x.Private = private || debug
	x.UTC = utc
	x.Mode = int(v.U8("mode"))
	v.Assume(x.Mode <= 2)
	cxt.SymAlgMode = context.SymAlgMode(x.Mode)
	if v.Bool("sigset") {
		x.Sig = v.U32("sig")
		cxt.SigCreationTime = moment(x.Sig, utc)
	}
	if v.Bool("keyset") {
		x.Key = v.U32("key")
		cxt.KeyCreationTime = moment(x.Key, utc)
	}
	return cxt, x
}

func moment(sec uint32, utc bool) *values.DateTime {
	d, err := values.NewDateTime(reader.New([]byte{byte(sec >> 24), byte(sec >> 16), byte(sec >> 8), byte(sec)}), utc)
	if err != nil {
		panic("NewDateTime rejects four octets")
	}
	return d
}

// outcome compares the result of a Parse with the specification.
func outcome(label string, item *result.Item, err error, cxt *context.Context, want *spec.Node, ok bool, x *spec.Ctx) {
	v.CheckErr(label, err, !ok)
	if !ok || err != nil {
		return
	}
	v.CheckItem(label, item, want)
	v.Check("ctx", label+": mode", int(cxt.SymAlgMode) == x.Mode)
	v.Check("ctx", label+": signature time", cxt.SigCreationTime.UnixTime() == x.Sig)
	v.Check("ctx", label+": key time", cxt.KeyCreationTime.UnixTime() == x.Key)
	if cxt.SigCreationTime != nil {
		v.CheckStr("ctx", label+": signature time's zone", cxt.SigCreationTime.RFC3339(), spec.Clock(int64(x.Sig), x.UTC))
	}
	if cxt.KeyCreationTime != nil {
		v.CheckStr("ctx", label+": key time's zone", cxt.KeyCreationTime.RFC3339(), spec.Clock(int64(x.Key), x.UTC))
	}
	v.Check("ctx", label+": options", cxt.Cert() == x.Cert && cxt.Debug() == x.Debug && cxt.Integer() == x.Integer && cxt.Literal() == x.Literal &&
		cxt.Marker() == x.Marker && cxt.Private() == x.Private && cxt.UTC() == x.UTC)
}

// own gives the code octets of its own: what it does to them is not what the
// specification reads.
func own(b []byte) []byte {
	if v.Symbolic() {
		return b
	}
	return append([]byte{}, b...)
}

func packetOf(label string, tag uint8) {
	cxt, x := world()
	body := v.BytesBy("body", func(r *rand.Rand) []byte { return spec.GenPacket(r, *x, int(tag)) })
	if v.Symbolic() {
		split(tag, body)
	}
	item, err := tags.NewTag(&packet.OpaquePacket{Tag: tag, Contents: own(body)}, cxt).Parse()
	want, ok := spec.Packet(x, int(tag), spec.New(body))
	outcome(label, item, err, cxt, want, ok, x)
}

func subOf(label string, tag int, typ uint8) {
	cxt, x := world()
	body := v.BytesBy("body", func(r *rand.Rand) []byte { return spec.GenSub(r, *x, tag, typ) })
	if v.Symbolic() && tag == 2 && typ&0x7f == 32 && !v.Bound("newTag02") {
		split(2, body)
	}
	if tag == 2 && typ&0x7f == 38 {
		spec.Whole = v.Symbolic()
	}
	item, err := tags.NewSubs(cxt, &packet.OpaqueSubpacket{SubType: typ, Contents: own(body)}, values.TagID(tag)).Parse()
	want, ok := spec.Sub(x, tag, typ, spec.New(body))
	outcome(label, item, err, cxt, want, ok, x)
}

// split partitions the bodies of a packet into cases that together cover all
// of them; each case is proved on its own.
func split(tag uint8, body []byte) {
	switch tag {
	case 5, 6, 7, 14:
		keyCase(body, v.Cases(28))
	case 2:
		sigCase(body, v.Cases(37))
	}
}

func sigCase(body []byte, k int) {
	if k == 0 {
		v.Assume(len(body) == 0 || body[0] < 3 || body[0] > 5)
		return
	}
	k--
	switch {
	case k < 9:
		v.Pin(body, 0, 4)
		algCase(body, 2, k)
	case k < 18:
		v.Pin(body, 0, 5)
		algCase(body, 2, k-9)
	case k < 27:
		v.Pin(body, 0, 3)
		v.Pin(body, 1, 5)
		algCase(body, 15, k-18)
	default:
		v.Pin(body, 0, 3)
		if len(body) < 2 {
			v.Assume(k == 27)
			return
		}
		v.Assume(body[1] != 5)
		algCase(body, int(body[1])+10, k-27)
	}
}

func keyCase(body []byte, k int) {
	if k == 0 {
		v.Assume(len(body) == 0 || body[0] < 3 || body[0] > 5)
		return
	}
	k--
	ver, at := 3+k/9, 5
	if ver == 3 {
		at = 7
	}
	v.Pin(body, 0, byte(ver))
	algCase(body, at, k%9)
}

// algCase partitions by the public-key algorithm in octet at: 9 cases.
func algCase(body []byte, at, k int) {
	if k == 0 {
		v.Assume(len(body) <= at)
		return
	}
	v.Assume(len(body) > at)
	a := body[at]
	one := [...]byte{17, 16, 20, 18, 19, 22}
	switch {
	case k == 1:
		v.Assume(a >= 1 && a <= 3)
	case k == 8:
		v.Assume(a != 1 && a != 2 && a != 3 && a != 16 && a != 17 && a != 18 && a != 19 && a != 20 && a != 22)
	case v.Fixed(at):
		v.Pin(body, at, one[k-2])
	default:
		v.Assume(a == one[k-2])
	}
}
