package spec

import (
	"bytes"
	"encoding/json"
	"strings"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"

	"gpgverif/harness/verif"
)

// Text is the text of an entry at a level: its line, its dump, the entries below.
func Text1(i *result.Item, indent string, lvl int) string {
	s := strings.Repeat(indent, lvl) + i.Name
	if i.Value != "" {
		s += ": " + i.Value
	}
	if i.Note != "" {
		s += " (" + i.Note + ")"
	}
	s += "\n"
	if i.Dump != "" {
		s += strings.Repeat(indent, lvl+1) + i.Dump + "\n"
	}
	for _, k := range i.Items {
		s += Below(k, indent, lvl+1)
	}
	return s
}

// Below is Text1, by its contract.
func Below(i *result.Item, indent string, lvl int) string {
	if i == nil {
		return ""
	}
	if verif.Symbolic() {
		return verif.OpaqueItem("text", i, indent, lvl)
	}
	return Text1(i, indent, lvl)
}

type infoShape struct {
	X []*itemShape `json:"Packet,omitempty"`
}
type itemShape struct {
	A string       `json:"name"`
	B string       `json:"value,omitempty"`
	C string       `json:"dump,omitempty"`
	D string       `json:"note,omitempty"`
	E []*itemShape `json:"Item,omitempty"`
}

// JSON is the JSON text of a result.
func JSON(i *result.Info, n int) string {
	if verif.Symbolic() {
		if n > 0 {
			return verif.JSON(i, (*infoShape)(nil), "", strings.Repeat(" ", n))
		}
		return verif.JSON(i, (*infoShape)(nil), "", "")
	}
	s := "{"
	if len(i.Packets) > 0 {
		s += `"Packet":` + jsonItems(i.Packets)
	}
	s += "}"
	if n > 0 {
		var w bytes.Buffer
		json.Indent(&w, []byte(s), "", strings.Repeat(" ", n))
		return w.String()
	}
	return s
}

func jsonItems(l []*result.Item) string {
	s := "["
	for n, i := range l {
		if n > 0 {
			s += ","
		}
		if i == nil {
			s += "null"
			continue
		}
		s += `{"name":` + quote(i.Name)
		if i.Value != "" {
			s += `,"value":` + quote(i.Value)
		}
		if i.Dump != "" {
			s += `,"dump":` + quote(i.Dump)
		}
		if i.Note != "" {
			s += `,"note":` + quote(i.Note)
		}
		if len(i.Items) > 0 {
			s += `,"Item":` + jsonItems(i.Items)
		}
		s += "}"
	}
	return s + "]"
}

func quote(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}
