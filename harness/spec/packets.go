package spec

import (
	"fmt"
	"strconv"

	"gpgverif/harness/verif"
)

// Packet is the specification of one packet body.
func Packet(x *Ctx, tag int, c *Cur) (*Node, bool) {
	switch tag {
	case 1:
		return tag1(x, tag, c)
	case 2:
		return Signature(x, tag, c)
	case 3:
		return tag3(x, tag, c)
	case 4:
		return tag4(x, tag, c)
	case 5, 7:
		return tag5(x, tag, c)
	case 6, 14:
		return tag6(x, tag, c)
	case 8:
		return tag8(x, tag, c)
	case 9, 10, 12, 18, 19:
		return blob(x, tag, c)
	case 11:
		return tag11(x, tag, c)
	case 13:
		n := header(TagName(tag), c.B, x.Debug)
		n.Add(Text(c.B, "User ID", x.Debug))
		return n, true
	case 17:
		c.inventArea(x, tag, 0)
		n := header(TagName(tag), c.B, x.Debug)
		s, ok := Area(x, tag, "Subpacket", c.B)
		if !ok {
			return nil, false
		}
		n.Add(s)
		return n, true
	case 20:
		return tag20(x, tag, c)
	case 60, 61, 62, 63:
		return header(TagName(tag), c.B, x.Private), true
	}
	return header(TagName(tag), c.B, x.Debug), true
}

func tag1(x *Ctx, tag int, c *Cur) (*Node, bool) {
	x.Mode = 2
	n := header(TagName(tag), c.B, x.Debug)
	v, ok := c.Byte()
	if !ok {
		return nil, false
	}
	n.Add(version(v, 3, 0, x))
	k, ok := c.Take(8)
	if !ok {
		return nil, false
	}
	n.Add(keyID(k))
	p, ok := c.Byte()
	if !ok {
		return nil, false
	}
	n.Add(pubItem(p, x))
	if !SesMaterial(n, c, x, p) {
		return nil, false
	}
	trail(n, c, x)
	return n, true
}

func tag3(x *Ctx, tag int, c *Cur) (*Node, bool) {
	x.Mode = 1
	n := header(TagName(tag), c.B, x.Debug)
	v, ok := c.Byte()
	if !ok {
		return nil, false
	}
	n.Add(version(v, 4, 5, x))
	if v == 4 {
		s, ok := c.Byte()
		if !ok {
			return nil, false
		}
		n.Add(symItem(s, x))
		if _, ok := S2K(n, c, x); !ok {
			return nil, false
		}
	}
	trail(n, c, x)
	return n, true
}

func tag4(x *Ctx, tag int, c *Cur) (*Node, bool) {
	n := header(TagName(tag), c.B, x.Debug)
	h, ok := c.Take(4)
	if !ok {
		return nil, false
	}
	n.Add(version(h[0], 3, 0, x))
	n.Add(sigItem(h[1], x))
	n.Add(hashItem(h[2], x))
	n.Add(pubItem(h[3], x))
	k, ok := c.Take(8)
	if !ok {
		return nil, false
	}
	n.Add(keyID(k))
	f, ok := c.Byte()
	if !ok {
		return nil, false
	}
	s := &Node{Name: "Encrypted session key", Value: "other than one pass signature", Note: fmt.Sprintf("flag %#02x", f)}
	if f == 0 {
		s.Value = "another one pass signature"
	}
	n.Add(s)
	trail(n, c, x)
	return n, true
}

func tag5(x *Ctx, tag int, c *Cur) (*Node, bool) {
	n := header(TagName(tag), c.B, x.Debug)
	v, ok := c.Byte()
	if !ok {
		return nil, false
	}
	n.Add(version(v, 4, 5, x))
	p := &Node{Name: "Public-Key"}
	n.Add(p)
	pub, ok := PubKey(p, c, x, v)
	if !ok {
		return nil, false
	}
	s := &Node{Name: "Secret-Key"}
	n.Add(s)
	if !SecKey(s, c, x, v, pub) {
		return nil, false
	}
	trail(n, c, x)
	return n, true
}

func tag6(x *Ctx, tag int, c *Cur) (*Node, bool) {
	n := header(TagName(tag), c.B, x.Debug)
	v, ok := c.Byte()
	if !ok {
		return nil, false
	}
	n.Add(version(v, 4, 5, x))
	if _, ok := PubKey(n, c, x, v); !ok {
		return nil, false
	}
	trail(n, c, x)
	return n, true
}

// blob covers the packets whose body is one uninterpreted octet string.
func blob(x *Ctx, tag int, c *Cur) (*Node, bool) {
	n := header(TagName(tag), c.B, x.Debug)
	var d *Node
	switch tag {
	case 9:
		d = Raw(c.B, "Encrypted data", x.Debug)
		switch x.Mode {
		case 1:
			d.Value = "sym alg is specified in sym-key encrypted session key"
		case 2:
			d.Value = "sym alg is specified in pub-key encrypted session key"
		default:
			d.Value = "sym alg is IDEA, simple string-to-key"
		}
		x.Mode = 0
	case 10:
		d = Raw(c.B, "Literal data", x.Marker)
	case 12:
		d = Raw(c.B, "Trust", true)
	case 18:
		d = Raw(c.B, "Encrypted data", x.Debug)
		switch x.Mode {
		case 1:
			d.Note = "plain text + MDC SHA1(20 bytes); sym alg is specified in sym-key encrypted session key"
		case 2:
			d.Note = "plain text + MDC SHA1(20 bytes); sym alg is specified in pub-key encrypted session key"
		}
		x.Mode = 0
	default:
		d = Raw(c.B, "MDC", x.Debug)
		d.Note = "SHA-1 (20 bytes)"
	}
	n.Add(d)
	return n, true
}

func tag8(x *Ctx, tag int, c *Cur) (*Node, bool) {
	n := header(TagName(tag), c.B, x.Debug)
	a, ok := c.Byte()
	if !ok {
		return nil, false
	}
	n.Add(compItem(a, x))
	c.inventZip(x, a)
	if c.Rest() > 0 {
		d := Raw(c.Left(), "Compressed data", x.Debug)
		_, st := verif.Inflate(a, c.Left())
		if st == verif.Corrupt {
			return nil, false
		}
		if st == verif.TooLarge {
			d.Value = "<too laege decompressed data>"
		}
		n.Add(d)
	}
	return n, true
}

func tag11(x *Ctx, tag int, c *Cur) (*Node, bool) {
	n := header(TagName(tag), c.B, x.Debug)
	f, ok := c.Byte()
	if !ok {
		return nil, false
	}
	n.Add(Format(f))
	l, ok := c.Byte()
	if !ok {
		return nil, false
	}
	name, ok := c.Take(int64(l))
	if !ok {
		return nil, false
	}
	n.Add(Text(name, "File name", x.Literal))
	tm, ok := c.Take(4)
	if !ok {
		return nil, false
	}
	n.Add(FileDate(tm, x))
	n.Add(Raw(c.Left(), "Literal data", x.Literal))
	return n, true
}

func tag20(x *Ctx, tag int, c *Cur) (*Node, bool) {
	n := header(TagName(tag), c.B, x.Debug)
	h, ok := c.Take(4)
	if !ok {
		return nil, false
	}
	n.Add(version(h[0], 1, 0, x))
	n.Add(symItem(h[1], x))
	n.Add(aeadItem(h[2], x))
	size := uint64(0) // 2^(c+6), where representable
	if h[3] < 58 {
		size = uint64(1) << (uint(h[3]) + 6)
	}
	n.Add(&Node{Name: "Chunk size", Value: strconv.FormatUint(size, 10), Dump: dump1(h[3], true)})
	iv, ok := c.Take(AEADNonce(h[2]))
	if !ok {
		return nil, false
	}
	n.Add(&Node{Name: "IV", Dump: Dump(iv, true)})
	if c.Rest() > 0 {
		n.Add(Raw(c.Left(), "Encrypted data and authentication tag", x.Debug))
	}
	x.Mode = 0
	return n, true
}

// Signature is a signature packet. The creation time it finds is its own.
func Signature(x *Ctx, tag int, c *Cur) (*Node, bool) {
	saved := x.Sig
	x.Sig = 0
	n, ok := signature(x, tag, c)
	x.Sig = saved
	return n, ok
}

func signature(x *Ctx, tag int, c *Cur) (*Node, bool) {
	n := header(TagName(tag), c.B, x.Debug)
	v, ok := c.Byte()
	if !ok {
		return nil, false
	}
	n.Add(version(v, 4, 5, x))
	switch v {
	case 3:
		if !sig3(n, x, c) {
			return nil, false
		}
	case 4, 5:
		if !sig4(n, x, tag, c) {
			return nil, false
		}
	}
	trail(n, c, x)
	return n, true
}

func left16(b []byte) *Node { return &Node{Name: "Hash left 2 bytes", Dump: Dump(b, true)} }

func sig3(n *Node, x *Ctx, c *Cur) bool {
	l, ok := c.Byte()
	if !ok {
		return false
	}
	b, ok := c.Take(int64(l))
	if !ok {
		return false
	}
	h := &Node{Name: "Hashed material", Note: bytesNote(int64(l))}
	if l == 5 {
		h.Add(sigItem(b[0], x))
		h.Add(Date(b[1:], "Signature creation time", x))
	} else {
		h.Value = unknown
		h.Dump = Dump(b, x.Debug)
	}
	n.Add(h)
	k, ok := c.Take(8)
	if !ok {
		return false
	}
	n.Add(keyID(k))
	a, ok := c.Take(2)
	if !ok {
		return false
	}
	n.Add(pubItem(a[0], x))
	n.Add(hashItem(a[1], x))
	q, ok := c.Take(2)
	if !ok {
		return false
	}
	n.Add(left16(q))
	return SigMaterial(n, c, x, a[0])
}

func sig4(n *Node, x *Ctx, tag int, c *Cur) bool {
	h, ok := c.Take(3)
	if !ok {
		return false
	}
	n.Add(sigItem(h[0], x))
	n.Add(pubItem(h[1], x))
	n.Add(hashItem(h[2], x))
	if !area4(n, x, tag, c, "Hashed Subpacket") || !area4(n, x, tag, c, "Unhashed Subpacket") {
		return false
	}
	q, ok := c.Take(2)
	if !ok {
		return false
	}
	n.Add(left16(q))
	return SigMaterial(n, c, x, h[1])
}

func area4(n *Node, x *Ctx, tag int, c *Cur, name string) bool {
	c.inventArea(x, tag, 2)
	l, ok := c.Take(2)
	if !ok {
		return false
	}
	sz := be16(l)
	if sz == 0 {
		return true
	}
	b, ok := c.Take(int64(sz))
	if !ok {
		return false
	}
	s, ok := Area(x, tag, name, b)
	if !ok {
		return false
	}
	n.Add(s)
	return true
}
