// Package spec is the functional specification of the dump: what an OpenPGP
// reader must show for every input. It is written from RFC 4880, draft
// rfc4880bis and the documented output format, over its own cursor and its own
// tree type, and shares no code with the repository.
package spec

import (
	"fmt"
	"math/rand"
	"time"
	"unicode"
	"unicode/utf8"

	"gpgverif/harness/verif"
)

// Opt are the effective options (after --debug has been applied).
type Opt struct {
	Cert, Debug, Integer, Literal, Marker, Private, UTC bool
}

// Ctx is the state shared between packets.
type Ctx struct {
	Opt
	Mode int    // 0 none, 1 symmetric, 2 public-key
	Sig  uint32 // creation time of the current signature, 0: none
	Key  uint32 // creation time of the last key, 0: none
}

type Node = verif.Node

// Cur reads octets from the front of a body. With gen set (native input
// generation only) it invents the octets that the specification asks for.
type Cur struct {
	B   []byte
	Off int64
	Gen *rand.Rand
	Cut bool
}

func New(b []byte) *Cur { return &Cur{B: b} }

func (c *Cur) Rest() int64 {
	if c.Gen != nil {
		c.invent(0, true)
	}
	return int64(len(c.B)) - c.Off
}

// Take reads n octets; it fails when fewer are left.
func (c *Cur) Take(n int64) ([]byte, bool) {
	if c.Gen != nil {
		c.invent(n, false)
	}
	if n < 0 || n > int64(len(c.B))-c.Off {
		return nil, false
	}
	b := c.B[c.Off : c.Off+n]
	c.Off += n
	return b, true
}

// Byte reads one octet.
func (c *Cur) Byte() (byte, bool) {
	if c.Gen != nil {
		c.invent(1, false)
	}
	if c.Off >= int64(len(c.B)) {
		return 0, false
	}
	b := c.B[c.Off]
	c.Off++
	return b, true
}

// Left is the unread part.
func (c *Cur) Left() []byte { return c.B[c.Off:] }

func be16(b []byte) uint16 { return uint16(b[0])<<8 | uint16(b[1]) }
func be32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}
func be64(b []byte) uint64 {
	return uint64(b[0])<<56 | uint64(b[1])<<48 | uint64(b[2])<<40 | uint64(b[3])<<32 |
		uint64(b[4])<<24 | uint64(b[5])<<16 | uint64(b[6])<<8 | uint64(b[7])
}

// Dump is the lower-case hexadecimal dump of octets, empty when not asked for.
func Dump(b []byte, show bool) string {
	if !show {
		return ""
	}
	if !verif.Symbolic() {
		return fmt.Sprintf("% x", b)
	}
	s := ""
	for i, x := range b {
		if i > 0 {
			s += " "
		}
		s += fmt.Sprintf("%02x", x)
	}
	return s
}
func dump1(b byte, show bool) string {
	if !show {
		return ""
	}
	return fmt.Sprintf("%02x", b)
}
func bytesNote(n int64) string { return fmt.Sprintf("%d bytes", n) }

// Raw is an uninterpreted octet string.
func Raw(b []byte, name string, show bool) *Node {
	return &Node{Name: name, Note: bytesNote(int64(len(b))), Dump: Dump(b, show)}
}

// trail is what remains of a body, and must not be lost (C09).
func trail(n *Node, c *Cur, x *Ctx) {
	if c.Rest() > 0 {
		t := Raw(c.Left(), "Unknown data", x.Debug)
		t.Kind = "trail"
		n.Add(t)
	}
}

// header is the root entry of a packet or sub-packet.
func header(name string, b []byte, show bool) *Node {
	return &Node{Name: name, Note: bytesNote(int64(len(b))), Dump: Dump(b, show), Kind: "head"}
}

// Clock renders seconds since the epoch.
func Clock(sec int64, utc bool) string {
	t := time.Unix(sec, 0)
	if utc {
		return t.UTC().Format("2006-01-02T15:04:05Z07:00")
	}
	return t.Format("2006-01-02T15:04:05Z07:00")
}

// Date is a four-octet timestamp entry.
func Date(b []byte, name string, x *Ctx) *Node {
	return &Node{Name: name, Value: Clock(int64(be32(b)), x.UTC), Dump: Dump(b, x.Debug), Kind: "time"}
}

// FileDate is the modification time of literal data, null when zero.
func FileDate(b []byte, x *Ctx) *Node {
	n := &Node{Name: "Creation time", Value: "null", Dump: Dump(b, x.Debug), Kind: "time"}
	if be32(b) != 0 {
		n.Value = Clock(int64(be32(b)), x.UTC)
	}
	return n
}

// Expire is a validity period relative to a start.
func Expire(b []byte, name string, start uint32, x *Ctx) *Node {
	n := &Node{Name: name, Value: fmt.Sprintf("%v days after", float64(be32(b))/86400.0), Dump: Dump(b, x.Debug), Kind: "time"}
	if start != 0 {
		n.Note = Clock(int64(start)+int64(be32(b)), x.UTC)
	}
	return n
}

// Text is text with control characters made visible; octets that are not
// UTF-8 are only dumped.
func Text(b []byte, name string, show bool) *Node {
	if len(b) == 0 {
		return &Node{Name: name, Note: "0 byte", Kind: "text"}
	}
	if !utf8.Valid(b) {
		return &Node{Name: name, Note: "invalid text string", Dump: Dump(b, true), Kind: "text"}
	}
	s := ""
	for _, r := range string(b) {
		if unicode.IsControl(r) {
			s += fmt.Sprintf("(%U)", r)
		} else {
			s += string(r)
		}
	}
	return &Node{Name: name, Value: s, Dump: Dump(b, show), Kind: "text"}
}

// Format is the literal format octet.
func Format(f byte) *Node {
	n := &Node{Name: "Literal data format", Value: string(rune(f)), Note: "unknown", Kind: "fmt"}
	if f < 0x20 {
		n.Value = fmt.Sprintf("(%U)", rune(f))
	}
	switch f {
	case 'b':
		n.Note = "binary"
	case 't':
		n.Note = "text"
	case 'u':
		n.Note = "UTF-8 text"
	case 'l', '1':
		n.Note = "local"
	}
	return n
}

// Words and Nums are constants of the code that may matter.
var (
	Words [][]byte
	Nums  []uint64
)

// known is the beginning of a field of n octets, with one of the constants.
func known(r *rand.Rand, n int64) []byte {
	if len(Words) > 0 && r.Intn(6) == 0 {
		w := Words[r.Intn(len(Words))]
		switch {
		case int64(len(w)) <= n:
			return w
		case n == 1:
			return []byte{byte(len(w) + r.Intn(3)/2)}
		}
	}
	if len(Nums) > 0 && r.Intn(6) == 0 {
		k := Nums[r.Intn(len(Nums))]
		switch n {
		case 1:
			return []byte{byte(k)}
		case 2:
			return []byte{byte(k >> 8), byte(k)}
		case 4:
			return []byte{byte(k >> 24), byte(k >> 16), byte(k >> 8), byte(k)}
		}
	}
	return nil
}

// invent extends the body while generating inputs.
func (c *Cur) invent(n int64, probe bool) {
	if c.Cut || n > 1<<17 || n > 1100 && c.Gen.Intn(30) > 0 || n > 9000 && c.Gen.Intn(20) > 0 {
		return
	}
	if probe {
		if c.Off >= int64(len(c.B)) && c.Gen.Intn(3) == 0 {
			for k := c.Gen.Intn(6); k >= 0; k-- {
				c.B = append(c.B, byte(c.Gen.Intn(256)))
			}
		}
		return
	}
	if c.Gen.Intn(60) == 0 { // truncate here
		c.Cut = true
		return
	}
	c.B = append(c.B, known(c.Gen, n)...)
	for int64(len(c.B)) < c.Off+n {
		var v byte
		switch c.Gen.Intn(5) {
		case 0:
			v = byte(c.Gen.Intn(256))
		case 1, 2:
			v = byte(c.Gen.Intn(8))
		case 3:
			v = byte(c.Gen.Intn(40))
		default:
			v = []byte{0, 1, 3, 4, 5, 16, 17, 18, 19, 20, 22, 100, 101, 110, 111, 127, 128, 253, 254, 255}[c.Gen.Intn(20)]
		}
		if n > 8 {
			v = byte(c.Gen.Intn(256))
		}
		c.B = append(c.B, v)
	}
}
