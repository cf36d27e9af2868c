package obl

import (
	"bytes"
	"io"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"

	"gpgverif/harness/spec"
	v "gpgverif/harness/verif"
)

// Contract_ToString stands for (*result.Item).toString: O_ShowItem.
func Contract_ToString(i *result.Item, indent string, lvl int, buf *bytes.Buffer) *bytes.Buffer {
	if i != nil && buf != nil {
		buf.WriteString(v.OpaqueItem("text", i, indent, lvl))
	}
	return buf
}

// O_ShowItem: an entry is shown completely, at any level, behind what is there.
// The entries below it are shown by the same contract: induction over the depth
// of the tree.
func O_ShowItem() {
	l := v.Items("items")
	i := &result.Item{Name: v.String("name"), Value: v.String("value"), Note: v.String("note"), Dump: v.String("dump"), Items: l}
	indent := v.String("indent")
	if !v.Symbolic() {
		b := (&result.Info{Packets: []*result.Item{i, nil, i}}).ToString(indent)
		w := spec.Text1(i, indent, 0)
		v.CheckStr("output", "text", b.String(), w+w)
		return
	}
	lvl := v.Int("level")
	v.Assume(lvl >= 0 && lvl < 1<<40)
	before := v.String("before")
	buf := &bytes.Buffer{}
	buf.WriteString(before)
	r := v.Invoke("(*parse/result.Item).toString", i, indent, lvl, buf).(*bytes.Buffer)
	v.Check("output", "buffer", r == buf)
	v.CheckStr("output", "text", buf.String(), before+spec.Text1(i, indent, lvl))
	var none *result.Item
	r = v.Invoke("(*parse/result.Item).toString", none, indent, lvl, buf).(*bytes.Buffer)
	v.Check("output", "nil", r == buf)
	v.CheckStr("output", "nil text", buf.String(), before+spec.Text1(i, indent, lvl))
}

// O_ShowInfo: a result shows all its entries, in order.
func O_ShowInfo() {
	i := &result.Info{Packets: v.Items("items")}
	indent := v.String("indent")
	s, t := "", ""
	for _, k := range i.Packets {
		s += spec.Below(k, indent, 0)
	}
	for _, k := range i.Packets {
		t += spec.Below(k, "\t", 0)
	}
	v.CheckStr("output", "text", i.ToString(indent).String(), s)
	v.CheckStr("output", "tabs", i.String(), t)
	var none *result.Info
	v.CheckStr("output", "nil", none.ToString(indent).String(), "")
	v.CheckStr("output", "nil tabs", none.String(), "")
}

// O_ShowString: the text of one entry.
func O_ShowString() {
	l := v.Items("items")
	for _, i := range l {
		v.CheckStr("output", "item", i.String(), spec.Below(i, "\t", 0))
	}
}

// O_JSON: the JSON text of a result.
func O_JSON() {
	i := &result.Info{Packets: v.Items("items")}
	n := int(int8(v.U8("indent")))
	r, err := i.JSON(n)
	v.CheckErr("json", err, false)
	if err == nil {
		b, e := io.ReadAll(r)
		v.CheckErr("read", e, false)
		v.CheckStr("output", "json", string(b), spec.JSON(i, n))
	}
	var none *result.Info
	r, err = none.JSON(n)
	v.CheckErr("no json", err, false)
	if err == nil {
		b, e := io.ReadAll(r)
		v.CheckErr("read", e, false)
		v.CheckStr("output", "no json", string(b), "")
	}
}

// O_Add: an entry is added at the end, none is not, and nothing else changes.
func O_Add() {
	l := v.Items("items")
	name, value, note, dump := v.String("name"), v.String("value"), v.String("note"), v.String("dump")
	k := result.NewItem(result.Name(name), result.Value(value), result.Note(note), result.DumpStr(dump))
	v.CheckStr("output", "name", k.Name, name)
	v.CheckStr("output", "value", k.Value, value)
	v.CheckStr("output", "note", k.Note, note)
	v.CheckStr("output", "dump", k.Dump, dump)
	v.Check("output", "items", len(k.Items) == 0)
	i := &result.Info{Packets: l}
	j := &result.Item{Name: name, Items: l}
	i.Add(nil)
	j.Add(nil)
	i.Add(k)
	j.Add(k)
	added("packets", i.Packets, l, k)
	added("items", j.Items, l, k)
	v.CheckStr("output", "name", j.Name, name)
	v.Check("output", "rest", j.Value == "" && j.Note == "" && j.Dump == "")
	var none *result.Info
	none.Add(k)
	var nil1 *result.Item
	nil1.Add(k)
}

func added(label string, got, l []*result.Item, k *result.Item) {
	v.Check("output", label+": length", len(got) == len(l)+1)
	if len(got) != len(l)+1 {
		return
	}
	v.Check("output", label+": last", got[len(l)] == k)
	n := int(v.U32(label))
	if !v.Symbolic() && len(l) > 0 {
		n %= len(l)
	}
	if n < len(l) {
		v.CheckStr("output", label, spec.Below(got[n], " ", 0), spec.Below(l[n], " ", 0))
	}
}
