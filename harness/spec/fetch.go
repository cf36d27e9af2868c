package spec

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"net/url"
	"strconv"
	"strings"
)

// GenUser invents a user name.
func GenUser(r *rand.Rand) []byte {
	const set = "abcXYZ019-"
	b := make([]byte, 1+r.Intn(8))
	for i := range b {
		b[i] = set[r.Intn(len(set))]
	}
	return b
}

// GenBadUser invents a user name that is none.
func GenBadUser(r *rand.Rand) []byte {
	b := GenUser(r)
	i := r.Intn(len(b))
	switch r.Intn(3) {
	case 0:
		b[i] = byte(r.Intn(32))
	case 1:
		b[i] = '%'
	case 2:
		b[i] = 0x7f
	}
	return b
}

// GenKeyID invents a key ID as users write it.
func GenKeyID(r *rand.Rand) []byte {
	const set = "0123456789abcdefABCDEF"
	s := ""
	switch r.Intn(4) {
	case 0:
		s = "0x"
	case 1:
		s = "0X"
	}
	for i := r.Intn(3); i >= 0; i-- {
		s += string(set[r.Intn(len(set))])
	}
	return []byte(s)
}

// GenAnswers invents pages of keys, separated by octets 0.
func GenAnswers(r *rand.Rand, id string) []byte {
	id = strings.TrimPrefix(strings.ToLower(id), "0x")
	var pages []string
	for n := 1 + r.Intn(4); n > 0; n-- {
		if r.Intn(25) == 0 {
			pages = append(pages, []string{"!", "", "{}", "[", "null", "[null]", `[{"key_id":1}]`}[r.Intn(7)])
			continue
		}
		k := 100
		switch r.Intn(8) {
		case 0:
			k = r.Intn(4)
		case 1:
			k = 99 + r.Intn(3)
		}
		s := "["
		for i := 0; i < k; i++ {
			if i > 0 {
				s += ","
			}
			m := fmt.Sprintf("%x", r.Intn(1<<12))
			if r.Intn(150) == 0 {
				m = id
			}
			if r.Intn(2) == 0 {
				m = strings.ToUpper(m)
			}
			switch r.Intn(30) {
			case 0:
				s += "null"
				continue
			case 1:
				s += fmt.Sprintf(`{"key_id":%q,"raw_key":null}`, m)
				continue
			}
			s += fmt.Sprintf(`{"id":%d,"key_id":%q,"raw_key":"k%d-%d","public_key":"p","subkeys":[{"key_id":%q,"raw_key":"sub"}]}`, i, m, len(pages), i, id)
		}
		pages = append(pages, s+"]")
	}
	return []byte(strings.Join(pages, "\x00"))
}

// Answer is what a server answers to a request: one of its pages.
func Answer(raw []byte, u string) ([]byte, bool) {
	pages := strings.Split(string(raw), "\x00")
	n := 1
	if w, err := url.Parse(u); err == nil && w.Host == "api.github.com" {
		q := w.Query()
		n, _ = strconv.Atoi(q.Get("page"))
		if q.Get("per_page") != "100" || len(q) != 2 || n < 1 {
			return nil, false
		}
	} else if raw == nil {
		h := fnv.New32()
		h.Write([]byte(u))
		return []byte(u), h.Sum32()%5 != 0
	}
	if n > len(pages) {
		return []byte("[]"), true
	}
	return []byte(pages[n-1]), pages[n-1] != "!"
}
