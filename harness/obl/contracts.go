package obl

// Contract stubs: where the code calls one of these functions, the verifier
// uses the callee's contract instead of its body. The contracts themselves are
// the obligations O_Sub* and O_Tag*.

import (
	"errors"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/reader"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/tags"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/values"
	"golang.org/x/crypto/openpgp/packet"

	"gpgverif/harness/spec"
	v "gpgverif/harness/verif"
)

type stub struct {
	cxt  *context.Context
	what string
	tag  int
	typ  byte
	body []byte
}

// Contract_NewSubs stands for tags.NewSubs: O_Sub*.
func Contract_NewSubs(cxt *context.Context, osp *packet.OpaqueSubpacket, tagID values.TagID) tags.Subs {
	return &stub{cxt, "sub", int(tagID), osp.SubType, osp.Contents}
}

// Contract_NewTag stands for tags.NewTag: O_Tag*. Compressed data packets are
// looked into by their callers, so the function itself is used for them.
func Contract_NewTag(op *packet.OpaquePacket, cxt *context.Context) tags.Tags {
	if op.Tag == 8 && !spec.Whole {
		return tags.NewTag(&packet.OpaquePacket{Tag: 8, Contents: op.Contents}, cxt)
	}
	return &stub{cxt, "packet", int(op.Tag), 0, op.Contents}
}

// Contract_newTag02__O_Sub32 stands for tags.newTag02 in O_Sub32: O_Tag02.
func Contract_newTag02__O_Sub32(cxt *context.Context, tag values.TagID, body []byte) tags.Tags {
	return &stub{cxt, "packet", int(tag), 0, body}
}

func (s *stub) Parse() (*result.Item, error) {
	x := viewContext(s.cxt)
	n, ok, sig, key := x.Opaque(s.what, s.tag, s.typ, s.body)
	utc := s.cxt.UTC()
	if s.cxt.SigCreationTime != nil {
		v.CheckStr("ctx", "the signature time is kept in the requested zone", s.cxt.SigCreationTime.RFC3339(), spec.Clock(int64(s.cxt.SigCreationTime.UnixTime()), utc))
	}
	if s.cxt.KeyCreationTime != nil {
		v.CheckStr("ctx", "the key time is kept in the requested zone", s.cxt.KeyCreationTime.RFC3339(), spec.Clock(int64(s.cxt.KeyCreationTime.UnixTime()), utc))
	}
	s.cxt.SymAlgMode = context.SymAlgMode(x.Mode)
	s.cxt.SigCreationTime = after(sig, x.Sig, utc, s.what)
	s.cxt.KeyCreationTime = after(key, x.Key, utc, s.what)
	if !ok {
		return nil, errors.New(s.what)
	}
	return tree(n), nil
}

func after(b []byte, sec uint32, utc bool, what string) *values.DateTime {
	if sec == 0 && v.OpaqueBool(what+".unset", b) {
		return nil
	}
	d, err := values.NewDateTime(reader.New(b), utc)
	if err != nil {
		panic("NewDateTime rejects four octets")
	}
	return d
}

func viewContext(cxt *context.Context) *spec.Ctx {
	x := &spec.Ctx{}
	x.Cert = cxt.Cert()
	x.Debug = cxt.Debug()
	x.Integer = cxt.Integer()
	x.Literal = cxt.Literal()
	x.Marker = cxt.Marker()
	x.Private = cxt.Private()
	x.UTC = cxt.UTC()
	x.Mode = int(cxt.SymAlgMode)
	x.Sig = cxt.SigCreationTime.UnixTime()
	x.Key = cxt.KeyCreationTime.UnixTime()
	return x
}

func tree(n *spec.Node) *result.Item {
	i := &result.Item{Name: n.Name, Value: n.Value, Note: n.Note, Dump: n.Dump}
	i.Items = append(i.Items, &result.Item{Name: n.Items[0].Name})
	return i
}

// View_DateTime relates a stored time to the specification's seconds.
func View_DateTime(d *values.DateTime) uint32 { return d.UnixTime() }
