package verif

import (
	"encoding/json"
	"math/rand"
	"strings"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

// Items is an arbitrary list of result trees.
func Items(name string) []*result.Item {
	b := BytesBy(name, func(r *rand.Rand) []byte {
		switch r.Intn(40) {
		case 0: // a deep tree
			var b []byte
			n := 1 << uint(r.Intn(8))
			n += r.Intn(n)
			for i := 0; i < n; i++ {
				b = one(r, b)
			}
			return append(encode(r, b, 4), make([]byte, n)...)
		case 1: // a wide one
			var b []byte
			n := 1 << uint(r.Intn(10))
			n += r.Intn(n)
			for i := 0; i < n; i++ {
				b = append(one(r, b), 0)
			}
			return append(b, 0)
		}
		return encode(r, nil, 0)
	})
	l, _ := decode(b, 0)
	return l
}

// A list of trees in octets: 0 ends it, 1 is no item, else an item: four
// strings, each a length and that many octets, and the list below it.
func one(r *rand.Rand, b []byte) []byte {
	texts := []string{"", "", "a", "Name", "v 1", "\"q\\\n", "é", "<&>", "x: y (z)", "00 01 fe", "\t", "% d %s"}
	b = append(b, 2)
	for i := 0; i < 4; i++ {
		s := texts[r.Intn(len(texts))]
		if r.Intn(20) == 0 {
			s = strings.Repeat(s, r.Intn(60))
		}
		if len(s) > 255 {
			s = s[:255]
		}
		b = append(b, byte(len(s)))
		b = append(b, s...)
	}
	return b
}

func encode(r *rand.Rand, b []byte, lvl int) []byte {
	for n := r.Intn(5 - lvl); n > 0; n-- {
		if r.Intn(12) == 0 {
			b = append(b, 1)
			continue
		}
		b = encode(r, one(r, b), lvl+1)
	}
	return append(b, 0)
}

func decode(b []byte, lvl int) ([]*result.Item, []byte) {
	var l []*result.Item
	for len(b) > 0 && lvl < 300 {
		k := b[0]
		b = b[1:]
		if k == 0 {
			break
		}
		if k == 1 {
			l = append(l, nil)
			continue
		}
		i := &result.Item{}
		for _, p := range []*string{&i.Name, &i.Value, &i.Note, &i.Dump} {
			n := 0
			if len(b) > 0 {
				n = int(b[0])
				b = b[1:]
			}
			if n > len(b) {
				n = len(b)
			}
			*p = strings.ToValidUTF8(string(b[:n]), "?")
			b = b[n:]
		}
		i.Items, b = decode(b, lvl+1)
		l = append(l, i)
	}
	return l, b
}

// OpaqueItem is an unknown string that depends on a result tree and more.
func OpaqueItem(name string, i *result.Item, args ...interface{}) string { panic("opaque") }

// Invoke calls an unexported function of the code; verifier only.
func Invoke(name string, args ...interface{}) interface{} { panic("verifier only") }

// JSON is the JSON text the standard library makes of a value. The verifier
// takes it as an unknown function of the value and of how JSON shows its type,
// which must be the way it shows the type of like.
func JSON(x, like interface{}, prefix, indent string) string {
	var b []byte
	if prefix == "" && indent == "" {
		b, _ = json.Marshal(x)
	} else {
		b, _ = json.MarshalIndent(x, prefix, indent)
	}
	return string(b)
}
