package obl

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/reader"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/values"

	v "gpgverif/harness/verif"
)

// cursor is a reader in any state it can be in: its buffer and its position.
func cursor() (*reader.Reader, []byte, int64) {
	d := v.BytesBy("data", func(r *rand.Rand) []byte {
		b := make([]byte, r.Intn(10))
		r.Read(b)
		return b
	})
	p := within("position", int64(len(d)))
	r := reader.New(d)
	if p != 0 {
		_, err := r.Seek(p, 0)
		v.CheckErr("reader", err, false)
		at("start", r, d, p)
	}
	return r, d, p
}

// within is a number from 0 to n.
func within(name string, n int64) int64 {
	p := v.I64(name)
	if !v.Symbolic() {
		if p < 0 {
			p = ^p
		}
		p %= n + 1
	}
	v.Assume(p >= 0 && p <= n)
	return p
}

// near is any number; natively mostly one near the buffer.
func near(name string) int64 {
	n := v.I64(name)
	const max, min = 1<<63 - 1, -1 << 63
	if v.Symbolic() || n >= -64 && n <= 64 || n > max-64 || n < min+64 {
		return n
	}
	switch n & 15 {
	case 0, 4, 8, 12:
		return n
	case 1:
		return max - n>>4&15
	case 2:
		return min + n>>4&15
	}
	return n>>4&15 - 4
}

// at says that the reader has this buffer and this position.
func at(label string, r *reader.Reader, d []byte, p int64) {
	n := int64(len(d))
	v.Check("reader", label+": length", r.Len() == len(d) && r.Size() == n)
	v.Check("reader", label+": position", r.Rest() == n-p)
	v.CheckBytes("reader", label+": buffer", r.GetBody(), d)
	v.Check("reader", label+": range", r.Rest() >= 0 && r.Rest() <= r.Size())
}

func readerErr(err error, bad bool) { v.Check("reader", "error", (err != nil) == bad) }

// O_ReaderNew: a new reader starts at the first octet.
func O_ReaderNew() {
	d := v.Bytes("data")
	at("new", reader.New(d), d, 0)
}

// O_ReaderSeek: seeking goes to a valid position, or nowhere.
func O_ReaderSeek() {
	r, d, p := cursor()
	off, whence := near("offset"), int(v.I64("whence"))
	if !v.Symbolic() && whence&7 != 0 {
		whence = whence >> 3 & 3
	}
	base := int64(0)
	switch whence {
	case 1:
		base = p
	case 2:
		base = int64(len(d))
	}
	ok := whence >= 0 && whence <= 2 && off >= -base && off <= int64(len(d))-base
	q, err := r.Seek(off, whence)
	readerErr(err, !ok)
	if ok {
		v.Check("reader", "seek", q == base+off)
		at("seek", r, d, base+off)
	} else {
		at("failed seek", r, d, p)
	}
}

// O_ReaderBytes: exactly the next n octets, or nothing.
func O_ReaderBytes() {
	r, d, p := cursor()
	n := near("n")
	ok := n >= 0 && n <= int64(len(d))-p
	b, err := r.ReadBytes(n)
	readerErr(err, !ok)
	if ok {
		v.CheckBytes("reader", "octets", b, d[p:p+n])
		at("read", r, d, p+n)
	} else {
		at("failed read", r, d, p)
	}
}

// O_ReaderRead: the same through io.Reader.
func O_ReaderRead() {
	r, d, p := cursor()
	n := within("n", 1<<20)
	if !v.Symbolic() {
		n &= 15
	}
	b := make([]byte, n)
	ok := n <= int64(len(d))-p
	m, err := r.Read(b)
	readerErr(err, !ok)
	if ok {
		v.Check("reader", "count", int64(m) == n)
		v.CheckBytes("reader", "octets", b, d[p:p+n])
		at("read", r, d, p+n)
	} else {
		v.Check("reader", "count", m == 0)
		at("failed read", r, d, p)
	}
}

// O_ReaderReadAt: the same through io.ReaderAt.
func O_ReaderReadAt() {
	r, d, p := cursor()
	n, off := within("n", 1<<20), near("offset")
	if !v.Symbolic() {
		n &= 15
	}
	b := make([]byte, n)
	size := int64(len(d))
	ok := off >= 0 && off <= size && n <= size-off
	m, err := r.ReadAt(b, off)
	readerErr(err, !ok)
	if ok {
		v.Check("reader", "count", int64(m) == n)
		v.CheckBytes("reader", "octets", b, d[off:off+n])
		at("read", r, d, off+n)
		return
	}
	v.Check("reader", "count", m == 0)
	if off < 0 || off > size {
		at("failed seek", r, d, p)
	} else {
		at("failed read", r, d, off) // the existing tests rely on the seek
	}
}

// O_ReaderByte: exactly the next octet, or nothing.
func O_ReaderByte() {
	r, d, p := cursor()
	ok := p < int64(len(d))
	b, err := r.ReadByte()
	readerErr(err, !ok)
	if ok {
		v.Check("reader", "octet", b == d[p])
		at("read", r, d, p+1)
	} else {
		at("failed read", r, d, p)
	}
}

// O_ReaderToEOF: exactly the remaining octets.
func O_ReaderToEOF() {
	r, d, p := cursor()
	ok := p < int64(len(d))
	b, err := r.Read2EOF()
	readerErr(err, !ok)
	if ok {
		v.CheckBytes("reader", "octets", b, d[p:])
	}
	at("end", r, d, int64(len(d)))
}

// O_ReaderWriteTo: the whole buffer.
func O_ReaderWriteTo() {
	r, d, _ := cursor()
	w := &bytes.Buffer{}
	n, err := r.WriteTo(w)
	readerErr(err, false)
	v.Check("reader", "count", n == int64(len(d)))
	v.CheckBytes("reader", "octets", w.Bytes(), d)
	at("written", r, d, int64(len(d)))
}

// O_ReaderDump: the octets from a position on, and the reader stays.
func O_ReaderDump() {
	r, d, p := cursor()
	off := within("from", 1<<20)
	if !v.Symbolic() {
		off &= 15
	}
	s := r.DumpString(off)
	if off >= int64(len(d)) {
		v.CheckStr("dump", "beyond", s, "")
	} else {
		v.CheckStr("dump", "dump", s, hexOf(d[off:]))
	}
	at("dumped", r, d, p)
}

func hexOf(d []byte) string {
	if !v.Symbolic() {
		return fmt.Sprintf("% x", d)
	}
	t := ""
	for i := range d {
		if i > 0 {
			t += " "
		}
		t += fmt.Sprintf("%02x", d[i])
	}
	return t
}

// O_Dump: a dump is the hexadecimal of the octets, if asked for.
func O_Dump() {
	d, f := v.Bytes("data"), v.Bool("shown")
	s := values.DumpBytes(d, f).String()
	if f {
		v.CheckStr("dump", "dump", s, hexOf(d))
	} else {
		v.CheckStr("dump", "no dump", s, "")
	}
}

// O_DumpRest: a reader's dump is that of its remaining octets.
func O_DumpRest() {
	r, d, p := cursor()
	f := v.Bool("shown")
	s := values.Dump(r, f).String()
	if f {
		v.CheckStr("dump", "dump", s, hexOf(d[p:]))
	} else {
		v.CheckStr("dump", "no dump", s, "")
	}
	at("dumped", r, d, p)
}

// O_DumpByte: one octet.
func O_DumpByte() {
	b, f := v.U8("octet"), v.Bool("shown")
	w := ""
	if f {
		w = fmt.Sprintf("%02x", b)
	}
	v.CheckStr("dump", "octet", values.DumpByteString(b, f), w)
}
