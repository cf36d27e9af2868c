package spec

import (
	"bytes"
	"compress/flate"
	"compress/zlib"
	"math/rand"

	"golang.org/x/crypto/openpgp/armor"
)

// Generation of inputs for native runs: the specification itself is run over a
// cursor that invents the octets it is asked for.

var genDepth int

// GenPacket invents a packet body.
func GenPacket(r *rand.Rand, x Ctx, tag int) []byte {
	c := &Cur{Gen: r}
	defer func() { recover() }()
	Packet(&x, tag, c)
	return tweak(r, c.B)
}

// GenSub invents a sub-packet body.
func GenSub(r *rand.Rand, x Ctx, tag int, typ byte) []byte {
	c := &Cur{Gen: r}
	Sub(&x, tag, typ, c)
	return tweak(r, c.B)
}

// tweak sometimes truncates, extends or changes octets.
func tweak(r *rand.Rand, b []byte) []byte {
	switch r.Intn(12) {
	case 0:
		if len(b) > 0 {
			b = b[:r.Intn(len(b))]
		}
	case 1:
		for k := r.Intn(5); k >= 0; k-- {
			b = append(b, byte(r.Intn(256)))
		}
	case 2:
		if len(b) > 0 {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
	}
	return b
}

func (c *Cur) inventArea(x *Ctx, tag, width int) {
	if c.Gen == nil || c.Cut || c.Off < int64(len(c.B)) {
		return
	}
	b := genArea(c.Gen, x, tag)
	if width == 2 {
		c.B = append(c.B, byte(len(b)>>8), byte(len(b)))
	}
	c.B = append(c.B, b...)
}

func genArea(r *rand.Rand, x *Ctx, tag int) []byte {
	var b []byte
	if genDepth > 2 {
		return b
	}
	genDepth++
	defer func() { genDepth-- }()
	for k := r.Intn(4); k > 0; k-- {
		t := byte(r.Intn(40))
		if r.Intn(3) == 0 {
			t = []byte{2, 3, 9, 2, 16, 20, 27, 32}[r.Intn(8)]
		}
		if tag == 17 && r.Intn(2) == 0 {
			t = 1
		}
		if r.Intn(5) == 0 {
			t |= 0x80
		}
		y := *x
		s := GenSub(r, y, tag, t)
		if r.Intn(8) > 0 && len(s) == 0 && (t&0x7f == 2 || t&0x7f == 3 || t&0x7f == 9) {
			s = []byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))}
		}
		n := len(s) + 1
		if len(b)+n > 20000 {
			break
		}
		switch {
		case n < 192 && r.Intn(8) > 0:
			b = append(b, byte(n))
		case n >= 192 && n < 8384:
			b = append(b, byte((n-192)>>8+192), byte(n-192))
		default:
			b = append(b, 255, 0, 0, byte(n>>8), byte(n))
		}
		b = append(b, t)
		b = append(b, s...)
	}
	if r.Intn(400) == 0 { // an area of more than 2^15 octets
		n := 32700 + r.Intn(100) - len(b)
		if r.Intn(2) == 0 {
			n = 1 + r.Intn(65510-len(b))
		}
		b = append(b, 255, 0, 0, byte(n>>8), byte(n), 100)
		b = append(b, make([]byte, n-1)...)
	}
	if r.Intn(25) == 0 {
		b = append(b, byte(r.Intn(256)))
	}
	return b
}

// GenStream invents a packet stream.
func GenStream(r *rand.Rand, x Ctx) []byte {
	var b []byte
	for k := r.Intn(5); k > 0; k-- {
		t := r.Intn(21)
		if r.Intn(10) == 0 {
			t = r.Intn(64)
		}
		p := GenPacket(r, x, t)
		b = append(b, frame(r, t, p)...)
	}
	if r.Intn(12) == 0 && len(b) > 0 {
		b = b[:r.Intn(len(b))]
	}
	return b
}

// frame puts a packet header before a body.
func frame(r *rand.Rand, t int, p []byte) []byte {
	n := len(p)
	var h []byte
	if t < 16 && r.Intn(2) == 0 { // old format
		switch {
		case n < 256:
			h = []byte{0x80 | byte(t<<2), byte(n)}
		case n < 65536:
			h = []byte{0x81 | byte(t<<2), byte(n >> 8), byte(n)}
		default:
			h = []byte{0x82 | byte(t<<2), byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
		}
	} else {
		h = []byte{0xc0 | byte(t)}
		switch {
		case n < 192:
			h = append(h, byte(n))
		case n < 8384:
			h = append(h, byte((n-192)>>8+192), byte(n-192))
		default:
			h = append(h, 255, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
		}
	}
	return append(h, p...)
}

// inventZip invents compressed data. There is no bzip2 compressor in the
// standard library: a few fixed streams serve.
func (c *Cur) inventZip(x *Ctx, alg byte) {
	if c.Gen == nil || c.Cut || c.Off < int64(len(c.B)) || genDepth > 1 {
		return
	}
	genDepth++
	defer func() { genDepth-- }()
	r := c.Gen
	d := GenStream(r, *x)
	var w bytes.Buffer
	switch alg {
	case 0:
		w.Write(d)
	case 1:
		z, _ := flate.NewWriter(&w, r.Intn(10))
		z.Write(d)
		z.Close()
	case 2:
		z, _ := zlib.NewWriterLevel(&w, r.Intn(10))
		z.Write(d)
		z.Close()
	case 3:
		w.Write(bzips[r.Intn(len(bzips))])
	default:
		return
	}
	c.B = append(c.B, w.Bytes()...)
}

var bzips = [][]byte{
	[]byte("\x42\x5a\x68\x39\x17\x72\x45\x38\x50\x90\x00\x00\x00\x00"),
	[]byte("\x42\x5a\x68\x39\x31\x41\x59\x26\x53\x59\x4a\x2e\x24\x38\x00\x00\x04\x47\x0c\x08\x00\x00\x80\x40\x00\x38\x00\x04\x00\x00\x10\x20\x00\x22\x03\xd4\x7a\x84\x30\x21\x4c\x2b\x78\x7c\x5d\xc9\x14\xe1\x42\x41\x28\xb8\x90\xe0"),
	[]byte("\x42\x5a\x68\x39\x31\x41\x59\x26\x53\x59\x60\xa4\xa1\x05\x00\x00\x05\x41\x04\x60\x20\x38\x00\x00\x08\x20\x00\x31\x0c\x00\xd3\x4c\x0c\x81\x53\x92\xe1\x77\x24\x53\x85\x09\x06\x0a\x4a\x10\x50"),
	[]byte("\x42\x5a\x68\x39\x31\x41\x59\x26\x53\x59\xa9\xf7\xb7\x11\x00\x00\x06\x61\x0a\x42\x00\x44\x00\x2a\x24\x04\x00\x04\x00\x20\x00\x31\x00\xd3\x4d\x04\x34\x03\x24\x87\x21\x51\xe4\x4a\xf1\x77\x24\x53\x85\x09\x0a\x9f\x7b\x71\x10"),
	[]byte("\x42\x5a\x68\x39\x31\x41\x59\x26\x53\x59\xc8\x73\xc1\xc2\x00\x00\x00\xc0\x0c\x20\x00\x04\x00\x00\x40\x20\x00\x21\x98\x19\x84\x61\x77\x24\x53\x85\x09\x0c\x87\x3c\x1c\x20"),
	[]byte("\x42\x5a\x68\x39\x31\x41\x59\x26\x53\x59\x0c\xc9\x53\xb8\x00\x00\x04\xc0\x04\x38\x00\x00\x20\x20\x00\x20\xaa\x1e\xa0\xcd\x34\xe6\xa4\x9e\x2e\xe4\x8a\x70\xa1\x20\x19\x92\xa7\x70"),
	[]byte("\x42\x5a\x68\x39\x31\x41\x59\x26\x53\x59\xe3\xb8\x96\x68\x00\x00\x04\x40\x12\x64\x20\x08\x00\x10\x00\x20\x00\x22\x18\x68\x30\x05\x61\x0f\x30\xbb\x92\x29\xc2\x84\x87\x1d\xc4\xb3\x40"),
}

// GenText invents a text with or without armored blocks.
func GenText(r *rand.Rand) []byte {
	var w bytes.Buffer
	parts := []string{"-----BEGIN PGP", "-----BEGIN PGP SIGNED MESSAGE-----", "-----BEGIN PGP MESSAGE-----", "-----END PGP MESSAGE-----",
		"-----END PGP", "-----BEGIN PGP PUBLIC KEY BLOCK-----", "-----END PGP PUBLIC KEY BLOCK-----", "", "Version: 1", "Hash: SHA1",
		"- -----BEGIN PGP X", " -----BEGIN PGP X", "-----BEGIN", "-----END", "-----BEGIN PGP SIGNATURE-----", "-----END PGP SIGNATURE-----"}
	for k := r.Intn(12); k > 0; k-- {
		if r.Intn(3) > 0 {
			w.WriteString(parts[r.Intn(len(parts))])
		} else {
			for n := r.Intn(70); n > 0; n-- {
				w.WriteByte(byte(32 + r.Intn(95)))
			}
		}
		switch r.Intn(10) {
		case 0:
			w.WriteString("\r\n")
		case 1:
			if r.Intn(8) == 0 {
				for n := 66000 + r.Intn(9000); n > 0; n-- {
					w.WriteByte('A')
				}
			}
		case 2:
			w.WriteString(" ")
		default:
			w.WriteString("\n")
		}
	}
	return w.Bytes()
}

// GenInput invents the input of a parser.
func GenInput(r *rand.Rand, x Ctx) []byte {
	switch r.Intn(10) {
	case 0:
		return GenText(r)
	case 1, 2, 3:
		var w bytes.Buffer
		if r.Intn(3) == 0 {
			w.Write(GenText(r))
			w.WriteString("\n")
		}
		typ := []string{"PGP MESSAGE", "PGP PUBLIC KEY BLOCK", "PGP SIGNATURE"}[r.Intn(3)]
		z, _ := armor.Encode(&w, typ, nil)
		z.Write(GenStream(r, x))
		z.Close()
		if r.Intn(3) == 0 {
			w.WriteString("\n")
			w.Write(GenText(r))
		}
		return tweak(r, w.Bytes())
	}
	b := GenStream(r, x)
	if r.Intn(150) == 0 {
		b = append(b, frame(r, 11, bytes.Repeat([]byte{byte(r.Intn(256))}, 65000+r.Intn(9000)))...)
		b = append(b, GenStream(r, x)...)
	}
	return b
}

// GenStream8 invents a stream that begins with compressed data.
func GenStream8(r *rand.Rand, x Ctx) []byte {
	return append(frame(r, 8, GenPacket(r, x, 8)), GenStream(r, x)...)
}

// GenOption invents the name of an option in some letter case.
func GenOption(r *rand.Rand) []byte {
	names := []string{"armor", "cert", "debug", "gdump", "int", "literal", "marker", "private", "utc", "unknown", "", "arm", "integer", "debugs", " utc"}
	b := []byte(names[r.Intn(len(names))])
	for i := range b {
		if r.Intn(3) == 0 && b[i] > 'Z' {
			b[i] -= 32
		}
	}
	if r.Intn(12) == 0 {
		return tweak(r, b)
	}
	return b
}
