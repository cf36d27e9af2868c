package main

// Requests: URLs, headers, JSON answers.

import (
	"fmt"
	"go/types"
	"net/textproto"
	"net/url"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// inlineFn are library functions whose real bodies are executed.
var inlineFn = map[string]bool{
	"(*net/http.Request).WithContext": true,
	"(*net/http.Request).Context":     true,
	"(net/http.Header).Set":           true,
	"(net/http.Header).Add":           true,
	"(net/http.Header).Get":           true,
	"(net/http.Header).Del":           true,
	"(net/textproto.MIMEHeader).Set":  true,
	"(net/textproto.MIMEHeader).Add":  true,
	"(net/textproto.MIMEHeader).Get":  true,
	"(net/textproto.MIMEHeader).Del":  true,
	"(net/url.Values).Set":            true,
	"(net/url.Values).Add":            true,
	"(net/url.Values).Get":            true,
	"(net/url.Values).Del":            true,
	"(net/url.Values).Has":            true,
}

// escape applies an octet-wise escaping to a string; name is that of the
// escaping of unknown octets.
func escape(s *SStr, name string, f func(string) string) *SStr {
	out := lit("")
	for _, g := range s.segs {
		switch g.k {
		case sLit:
			out = catStr(out, lit(f(g.s)))
		case sDec:
			out = catStr(out, one(g))
		default:
			out = catStr(out, opq(name, one(g)))
		}
	}
	return out
}

func queryEscape(s *SStr) *SStr { return escape(s, "url.QueryEscape", url.QueryEscape) }

// plainSeg: are the octets known to be letters, digits and hyphens?
func (e *Engine) plainSeg(st *State, g Seg) bool {
	if g.k == sDec {
		return true
	}
	n, ts := flat(one(g))
	return e.decide(st, e.c.UF("plain@"+n, 0, ts...)) == 1
}

func (e *Engine) urlFields() []string {
	t := e.P.prog.ImportedPackage("net/url").Type("URL").Type().Underlying().(*types.Struct)
	var out []string
	for i := 0; i < t.NumFields(); i++ {
		out = append(out, t.Field(i).Name())
	}
	return out
}

// unknownURL is url.Parse of any text: it fails or gives unknown parts.
func (e *Engine) unknownURL(st *State, s *SStr) []Out {
	c := e.c
	n, ts := flat(s)
	bad := c.UF("url.bad@"+n, 0, ts...)
	var outs []Out
	if e.sat(st, bad) {
		ns := st.fork()
		ns.assume(bad)
		outs = append(outs, Out{ns, []Val{Nil{}, &VErr{msg: opq("errmsg"), is: map[string]*Term{}}}})
	}
	if e.sat(st, c.Not(bad)) {
		ns := st.fork()
		ns.assume(c.Not(bad))
		f := map[string]Val{"User": &VPoison{"user of an unknown URL"}}
		for _, x := range []string{"Scheme", "Opaque", "Host", "Path", "RawPath", "RawQuery", "Fragment", "RawFragment"} {
			f[x] = opq("url."+x, s)
		}
		for _, x := range []string{"OmitHost", "ForceQuery"} {
			f[x] = c.UF("url."+x+"@"+n, 0, ts...)
		}
		outs = append(outs, Out{ns, []Val{&VPtr{obj: e.alloc(ns, e.structOf("net/url", "URL", f))}, Nil{}}})
	}
	return outs
}

// parseURL is url.Parse of literals with plain parts in the path.
func (e *Engine) parseURL(st *State, s *SStr) (*VStruct, bool) {
	// plain parts stand as marks in a literal URL
	text := ""
	var parts []Seg
	for _, g := range s.segs {
		if g.k == sLit {
			if strings.Contains(g.s, "QxPxQ") {
				panic(unsup("URL"))
			}
			text += g.s
			continue
		}
		if !e.plainSeg(st, g) {
			panic(unsup("URL of unknown text"))
		}
		text += fmt.Sprintf("QxPxQ%dq", len(parts))
		parts = append(parts, g)
	}
	u, err := url.Parse(text)
	if err != nil {
		if len(parts) > 0 {
			panic(unsup("URL"))
		}
		return nil, false
	}
	for _, t := range []string{u.Scheme, u.Opaque, u.Host, u.RawPath, u.RawQuery, u.Fragment, u.RawFragment} {
		if strings.Contains(t, "QxPxQ") {
			panic(unsup("unknown text in a URL, but not in its path"))
		}
	}
	if u.User != nil {
		panic(unsup("URL with a user"))
	}
	path := lit("")
	rest := u.Path
	for i, g := range parts {
		a, b, ok := strings.Cut(rest, fmt.Sprintf("QxPxQ%dq", i))
		if !ok {
			panic(unsup("URL"))
		}
		path = catStr(path, lit(a), one(g))
		rest = b
	}
	path = catStr(path, lit(rest))
	return e.structOf("net/url", "URL", map[string]Val{
		"Scheme": lit(u.Scheme), "Opaque": lit(u.Opaque), "Host": lit(u.Host), "Path": path, "RawPath": lit(u.RawPath),
		"OmitHost": e.c.Bool(u.OmitHost), "ForceQuery": e.c.Bool(u.ForceQuery), "RawQuery": lit(u.RawQuery),
		"Fragment": lit(u.Fragment), "RawFragment": lit(u.RawFragment),
	}), true
}

func (e *Engine) urlOf(st *State, v Val, in ssa.Instruction) *VStruct {
	v = e.res(st, v)
	if _, ok := v.(Nil); ok {
		e.require(st, e.c.ff, "nil URL", pos(e, in))
		panic(deadState{})
	}
	s, ok := e.res(st, e.load(st, v, in)).(*VStruct)
	if !ok {
		panic(unsup("URL"))
	}
	return s
}

// values is a map from literal names to lists of strings.
func (e *Engine) values(st *State, v Val) map[string][]*SStr {
	v = e.res(st, v)
	out := map[string][]*SStr{}
	if _, ok := v.(Nil); ok {
		return out
	}
	m := e.mapOf(st, v)
	for i, k := range m.keys {
		if m.has != nil {
			if t, ok := m.has[i].(*Term); !ok || !t.IsTrue() {
				panic(unsup("query value that may be missing"))
			}
		}
		n := e.litArg(st, k)
		out[n] = []*SStr{}
		for _, g := range e.asList(st, e.res(st, m.vals[i])).segs {
			if g.k != lElem {
				panic(unsup("query values of unknown number"))
			}
			out[n] = append(out[n], e.str(st, g.v))
		}
	}
	return out
}

// jsonVal is what a JSON text has for a field: an unknown function of the text,
// the field's name and its index.
func (e *Engine) jsonVal(st *State, t types.Type, name string, as []*Term) Val {
	c := e.c
	switch x := t.Underlying().(type) {
	case *types.Basic:
		if x.Kind() == types.String {
			return one(Seg{k: sBytes, b: &VBytes{arr: c.AVar(name+".str", as...), off: c.I64(0), len: e.small(c.UF(name+".len", 64, as...))}})
		}
		if x.Kind() == types.Bool {
			return c.UF(name+".bool", 0, as...)
		}
	case *types.Pointer:
		if b, ok := x.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			return mkIte(c, c.UF(name+".null", 0, as...), Nil{}, &VPtr{obj: e.alloc(st, e.jsonVal(st, x.Elem(), name, as))})
		}
	}
	return &VPoison{"JSON of " + t.String()}
}

func (e *Engine) decodeJSON(st *State, s *SStr, t types.Type) (Val, *Term) {
	c := e.c
	n, ts := flat(s)
	bad := c.UF("json.bad@"+n, 0, ts...)
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		panic(unsup("JSON into %s", t))
	}
	pt, ok := sl.Elem().Underlying().(*types.Pointer)
	if !ok {
		panic(unsup("JSON into %s", t))
	}
	str, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		panic(unsup("JSON into %s", t))
	}
	g := &Gen{name: "json@" + n, ts: ts, n: e.small(c.UF("json.n@"+n, 64, ts...))}
	g.elem = func(st *State, ts []*Term, idx *Term) Val {
		as := append(append([]*Term{}, ts...), idx)
		v := &VStruct{make([]Val, str.NumFields())}
		for i := range v.f {
			f := str.Field(i)
			nm, _, _ := strings.Cut(reflect.StructTag(str.Tag(i)).Get("json"), ",")
			switch {
			case nm == "-" || !f.Exported():
				v.f[i] = e.zero(f.Type())
				continue
			case nm == "":
				nm = f.Name()
			}
			v.f[i] = e.jsonVal(st, f.Type(), "json."+strings.ToLower(nm)+"@"+n, as)
		}
		return mkIte(c, c.UF("json.nil@"+n, 0, as...), Nil{}, &VPtr{obj: e.alloc(st, v)})
	}
	return &VList{[]LSeg{{k: lGen, gen: g}}}, bad
}

func init() {
	I := intrinsics
	I["gpgverif/harness/verif.Plain"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		n, ts := flat(e.str(st, a[0]))
		return ret(st, e.c.UF("plain@"+n, 0, ts...))
	}
	I["net/textproto.CanonicalMIMEHeaderKey"] = litFn("canonicalheader", func(s []string) string { return textproto.CanonicalMIMEHeaderKey(s[0]) })
	I["net/http.CanonicalHeaderKey"] = I["net/textproto.CanonicalMIMEHeaderKey"]
	I["net/url.QueryEscape"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		return ret(st, queryEscape(e.str(st, a[0])))
	}
	I["net/url.PathEscape"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		return ret(st, escape(e.str(st, a[0]), "url.PathEscape", url.PathEscape))
	}
	I["(net/url.Values).Encode"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		m := e.values(st, a[0])
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		s, sep := lit(""), ""
		for _, k := range ks {
			for _, v := range m[k] {
				s = catStr(s, lit(sep+url.QueryEscape(k)+"="), queryEscape(v))
				sep = "&"
			}
		}
		return ret(st, s)
	}
	I["(*net/url.URL).Query"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		u := e.urlOf(st, a[0], in)
		for i, f := range e.urlFields() {
			if f != "RawQuery" {
				continue
			}
			if l, ok := e.str(st, u.f[i]).isLit(); !ok || l != "" {
				panic(unsup("query of a URL"))
			}
		}
		return ret(st, &VMapRef{e.alloc(st, &VMap{})})
	}
	I["(*net/url.URL).String"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		u := e.urlOf(st, a[0], in)
		var args []Val
		for i, f := range e.urlFields() {
			v := u.f[i]
			if p, ok := v.(*VPoison); ok {
				args = append(args, lit(p.why))
				continue
			}
			v = e.res(st, v)
			switch x := v.(type) {
			case Nil:
				if f != "User" {
					panic(unsup("URL"))
				}
				continue
			case *SStr, *Term:
				args = append(args, lit(f), x)
			default:
				panic(unsup("%T in a URL", v))
			}
		}
		return ret(st, opq("url.String", args...))
	}
	I["net/url.Parse"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		text := e.str(st, a[0])
		for _, g := range text.segs {
			if g.k != sLit && !e.plainSeg(st, g) {
				return e.unknownURL(st, text)
			}
		}
		u, ok := e.parseURL(st, text)
		if !ok {
			return ret(st, Nil{}, &VErr{msg: opq("errmsg"), is: map[string]*Term{}})
		}
		return ret(st, &VPtr{obj: e.alloc(st, u)}, Nil{})
	}
	trim := I["strings.TrimSpace"]
	I["strings.TrimSpace"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		s := e.str(st, a[0])
		if n := len(s.segs); n > 0 {
			x, y := s.segs[0], s.segs[n-1]
			if x.k == sLit && y.k == sLit && strings.TrimLeft(x.s, "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz")+"" != x.s &&
				strings.TrimRight(y.s, "!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz") != y.s {
				return ret(st, s)
			}
		}
		return trim(e, st, []Val{s}, in)
	}
	I["encoding/json.NewDecoder"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		s := e.content(st, a[0])
		return ret(st, &VPtr{obj: e.alloc(st, &VExt{"jsondec", []Val{s}})})
	}
	decode := func(e *Engine, st *State, s *SStr, dst Val, in ssa.Instruction) []Out {
		t, p := ifaceType(e, st, dst)
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			panic(unsup("JSON into %s", t))
		}
		v, bad := e.decodeJSON(st, s, pt.Elem())
		var outs []Out
		if e.sat(st, bad) {
			ns := st.fork()
			ns.assume(bad)
			e.store(ns, p, &VPoison{"JSON that failed to decode"}, in)
			outs = append(outs, Out{ns, []Val{&VErr{msg: opq("errmsg"), is: map[string]*Term{}}}})
		}
		if e.sat(st, e.c.Not(bad)) {
			ns := st.fork()
			ns.assume(e.c.Not(bad))
			e.store(ns, p, v, in)
			outs = append(outs, Out{ns, []Val{Nil{}}})
		}
		return outs
	}
	I["(*encoding/json.Decoder).Decode"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		x, ok := e.res(st, e.load(st, e.res(st, a[0]), in)).(*VExt)
		if !ok || x.kind != "jsondec" {
			panic(unsup("JSON decoder"))
		}
		s := x.f[0].(*SStr)
		outs := decode(e, st, s, a[1], in)
		for _, o := range outs {
			e.store(o.st, e.res(o.st, a[0]), &VExt{"jsondec.used", nil}, in)
		}
		return outs
	}
}
