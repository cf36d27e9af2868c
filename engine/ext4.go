package main

// Result trees and JSON.

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// items is an arbitrary list of result trees: the elements' texts are arbitrary
// and each may be missing; the lists below them are arbitrary too.
func (e *Engine) items(name string, ts []*Term, lvl int) *VList {
	c := e.c
	g := &Gen{name: "items@" + name, ts: ts, n: e.small(c.UF("items.n@"+name, 64, ts...))}
	g.elem = func(st *State, ts []*Term, idx *Term) Val {
		if lvl > 2 {
			panic(unsup("entries below the third level"))
		}
		as := append(append([]*Term{}, ts...), idx)
		str := func(f string) Val {
			return one(Seg{k: sBytes, b: &VBytes{arr: c.AVar("item."+f+"@"+name, as...), off: c.I64(0), len: e.small(c.UF("item."+f+".len@"+name, 64, as...))}})
		}
		return mkIte(c, c.UF("item.nil@"+name, 0, as...), Nil{}, &VPtr{obj: e.alloc(st, e.structOf(repoPath+"/parse/result", "Item", map[string]Val{
			"Name": str("name"), "Value": str("value"), "Note": str("note"), "Dump": str("dump"),
			"Items": e.items(name+".", as, lvl+1),
		}))})
	}
	return &VList{[]LSeg{{k: lGen, gen: g}}}
}

// deep is a value with everything it refers to.
func (e *Engine) deep(st *State, v Val, n int) []Val {
	if n > 8 {
		panic(unsup("deep value"))
	}
	v = e.res(st, v)
	var out []Val
	switch x := v.(type) {
	case *VPtr:
		return e.deep(st, e.load(st, x, nil), n+1)
	case *VStruct:
		for _, f := range x.f {
			out = append(out, e.deep(st, f, n+1)...)
		}
		return out
	case *VIface:
		return e.deep(st, x.v, n+1)
	case *VList:
		for _, g := range x.segs {
			switch g.k {
			case lGen:
				out = append(out, opq("list:"+g.gen.name, termVals(g.gen.ts)...))
			case lElem:
				out = append(out, lit("elem"))
				out = append(out, e.deep(st, g.v, n+1)...)
			default:
				panic(unsup("built list passed to an opaque function"))
			}
		}
		return append(out, lit("end"))
	case *VBytes:
		return []Val{e.asStr(st, x)}
	case *SStr, *Term:
		return []Val{x}
	case Nil:
		return []Val{lit("nil")}
	}
	panic(unsup("%T passed to an opaque function", v))
}

func termVals(ts []*Term) []Val {
	out := make([]Val, len(ts))
	for i, t := range ts {
		out[i] = t
	}
	return out
}

// shape is how JSON shows a type.
func (e *Engine) shape(t types.Type, seen []types.Type) string {
	for i, s := range seen {
		if types.Identical(s, t) {
			return fmt.Sprintf("^%d", len(seen)-i)
		}
	}
	for _, m := range []string{"MarshalJSON", "MarshalText"} {
		for _, x := range []types.Type{t, types.NewPointer(t)} {
			if o, _, _ := types.LookupFieldOrMethod(x, false, nil, m); o != nil {
				if _, ok := o.(*types.Func); ok {
					panic(unsup("own JSON encoding of %s", t))
				}
			}
		}
	}
	if _, ok := t.(*types.Named); ok {
		seen = append(append([]types.Type{}, seen...), t)
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		if x.Info()&types.IsString != 0 {
			return "s"
		}
		if x.Info()&types.IsBoolean != 0 {
			return "b"
		}
		if x.Info()&types.IsInteger != 0 {
			return "i"
		}
	case *types.Pointer:
		return "*" + e.shape(x.Elem(), seen)
	case *types.Slice:
		if b, ok := x.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return "base64"
		}
		return "[" + e.shape(x.Elem(), seen) + "]"
	case *types.Struct:
		r := "{"
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			if f.Embedded() {
				panic(unsup("JSON of embedded fields"))
			}
			if !f.Exported() {
				continue
			}
			tag := reflect.StructTag(x.Tag(i)).Get("json")
			name, opts, _ := strings.Cut(tag, ",")
			if name == "-" && opts == "" {
				continue
			}
			if name == "" {
				name = f.Name()
			}
			r += name + "," + opts + ":" + e.shape(f.Type(), seen) + ";"
		}
		return r + "}"
	}
	panic(unsup("JSON of %s", t))
}

func (e *Engine) jsonText(st *State, x Val, t types.Type, prefix, indent *SStr) *SStr {
	args := append([]Val{prefix, indent}, e.deep(st, x, 0)...)
	return opq("json:"+e.shape(t, nil), args...)
}

func ifaceType(e *Engine, st *State, v Val) (types.Type, Val) {
	i, ok := e.res(st, v).(*VIface)
	if !ok {
		panic(unsup("JSON of %T", e.res(st, v)))
	}
	return i.t, i.v
}

func init() {
	I := intrinsics
	V := "gpgverif/harness/verif."
	I[V+"Items"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		return ret(st, e.items(e.litArg(st, a[0]), nil, 0))
	}
	I[V+"OpaqueItem"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		args := append(e.deep(st, a[1], 0), e.opqArgs(st, a[2])...)
		return ret(st, opq("opq:"+e.litArg(st, a[0]), args...))
	}
	I[V+"Invoke"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		fn := e.P.named(e.litArg(st, a[0]))
		if fn == nil {
			panic(unsup("no function %s", e.litArg(st, a[0])))
		}
		var args []Val
		for _, x := range e.variadic(st, a[1]) {
			x = e.res(st, x)
			if i, ok := x.(*VIface); ok {
				x = i.v
			}
			args = append(args, x)
		}
		if len(args) != len(fn.Params) || fn.Signature.Results().Len() != 1 {
			panic(unsup("%s has changed", fn))
		}
		outs := e.exec(st, fn, args, nil)
		for i := range outs {
			outs[i].rets = []Val{&VIface{fn.Signature.Results().At(0).Type(), outs[i].rets[0]}}
		}
		return outs
	}
	I[V+"JSON"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		_, x := ifaceType(e, st, a[0])
		t, _ := ifaceType(e, st, a[1])
		return ret(st, e.jsonText(st, x, t, e.str(st, a[2]), e.str(st, a[3])))
	}
	I["encoding/json.Marshal"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		t, x := ifaceType(e, st, a[0])
		return ret(st, e.jsonText(st, x, t, lit(""), lit("")), Nil{})
	}
	I["encoding/json.MarshalIndent"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		t, x := ifaceType(e, st, a[0])
		return ret(st, e.jsonText(st, x, t, e.str(st, a[1]), e.str(st, a[2])), Nil{})
	}
	I["io.ReadAll"] = func(e *Engine, st *State, a []Val, in ssa.Instruction) []Out {
		s, bad := e.contentBad(st, a[0])
		return ret(st, s, mkIte(e.c, bad, &VErr{msg: opq("errmsg"), is: map[string]*Term{}}, Nil{}))
	}
	I["io/ioutil.ReadAll"] = I["io.ReadAll"]
}

// named finds a function of the code: pkg.f or (*pkg.T).m, pkg below the
// repository's path.
func (P *Prog) named(s string) *ssa.Function {
	ptr := strings.HasPrefix(s, "(*")
	if !ptr {
		i := strings.LastIndex(s, ".")
		if p := P.prog.ImportedPackage(repoPath + "/" + s[:i]); p != nil {
			return p.Func(s[i+1:])
		}
		return nil
	}
	recv, m, _ := strings.Cut(s[2:], ").")
	i := strings.LastIndex(recv, ".")
	p := P.prog.ImportedPackage(repoPath + "/" + recv[:i])
	if p == nil || p.Type(recv[i+1:]) == nil {
		return nil
	}
	return P.prog.LookupMethod(types.NewPointer(p.Type(recv[i+1:]).Type()), p.Pkg, m)
}
