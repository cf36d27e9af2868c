// Package verif is the contract language of the harness: symbolic inputs, checks
// and opaque functions. The deductive engine interprets these functions
// symbolically; natively they are backed by an input provider (see native.go).
package verif

import (
	"bufio"
	"bytes"
	"compress/bzip2"
	"compress/flate"
	"compress/zlib"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
)

// Node is the specification's view of one entry of the result.
type Node struct {
	Name  string
	Value string
	Dump  string
	Note  string
	Items []*Node
	Kind  string // which property family the entry belongs to
}

// Add appends a sub-entry.
func (n *Node) Add(m *Node) {
	if m != nil {
		n.Items = append(n.Items, m)
	}
}

// Failure is one failed check (native runs).
type Failure struct {
	Facet, Where, What string
}

// Provider supplies native inputs.
type Provider interface {
	Bytes(name string, gen func(r *rand.Rand) []byte) []byte
	Num(name string, bits int) uint64
}

// Run is the native run context.
type Run struct {
	P     Provider
	Fails []Failure
	Used  map[string]string
	N     int
}

// Log is called after every input.
var Log = func() {}

// Cur is the current native run.
var Cur *Run

type stop struct{}

// Do executes an obligation natively.
func Do(p Provider, f func()) (r *Run) {
	r = &Run{P: p, Used: map[string]string{}}
	Cur = r
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(stop); ok {
				return
			}
			r.Fails = append(r.Fails, Failure{"safety", "panic", fmt.Sprint(x)})
		}
	}()
	f()
	return r
}

func fail(facet, where, format string, a ...interface{}) {
	Cur.Fails = append(Cur.Fails, Failure{facet, where, fmt.Sprintf(format, a...)})
}

// Inputs.
func num(name, kind string, bits int) uint64 {
	v := Cur.P.Num(name, bits)
	defer Log()
	if bits < 64 {
		v &= 1<<uint(bits) - 1
	}
	Cur.Used[name] = fmt.Sprintf("%s:%d", kind, v)
	return v
}
func Bool(name string) bool  { return num(name, "bool", 1) == 1 }
func U8(name string) uint8   { return uint8(num(name, "u8", 8)) }
func U16(name string) uint16 { return uint16(num(name, "u16", 16)) }
func U32(name string) uint32 { return uint32(num(name, "u32", 32)) }
func I64(name string) int64  { return int64(num(name, "i64", 64)) }
func Int(name string) int    { return int(num(name, "i64", 64)) }

// BytesBy is Bytes with a generator of likely inputs for native runs.
func BytesBy(name string, gen func(r *rand.Rand) []byte) []byte {
	b := Cur.P.Bytes(name, gen)
	if b == nil {
		b = []byte{}
	}
	Cur.Used[name] = fmt.Sprintf("bytes:%x", b)
	Log()
	return b
}
func Bytes(name string) []byte  { return BytesBy(name, nil) }
func String(name string) string { return string(Bytes(name)) }

// Symbolic tells whether the deductive engine runs the harness.
func Symbolic() bool { return false }

// Undecided gives up the proof of this path: the verifier has no contract for what
// the code does.
func Undecided(why string) {}

// Bound tells whether the verifier uses the named contract of this obligation.
func Bound(name string) bool { return false }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(stop{})
	}
}

// Case is the identity; the engine splits on it.
func Case(b bool) bool { return b }

// Cases splits an obligation: the engine proves it once for every value below
// n. It and Pin are only reached when Symbolic.
func Cases(n int) int { panic("symbolic only") }

// Pin assumes that octet i of an input is x.
func Pin(b []byte, i int, x byte) { panic("symbolic only") }

// Fixed tells whether a number is known without regard to the inputs; it is
// only reached when Symbolic.
func Fixed(n int) bool { panic("symbolic only") }

// Checks.
func CheckErr(label string, err error, bad bool) {
	Cur.N++
	if (err != nil) != bad {
		fail("err", label, "error is %v, specified failure: %v", err, bad)
	}
}
func Check(facet, label string, ok bool) {
	Cur.N++
	if !ok {
		fail(facet, label, "assertion fails")
	}
}
func CheckStr(facet, label string, a, b string) {
	Cur.N++
	if a != b {
		fail(facet, label, "%q, specified %q", a, b)
	}
}
func CheckBytes(facet, label string, a, b []byte) {
	Cur.N++
	if string(a) != string(b) {
		fail(facet, label, "%x, specified %x", a, b)
	}
}
func CheckItem(label string, got *result.Item, want *Node) {
	Cur.N++
	cmp(label, got, want)
}
func CheckItems(label string, got []*result.Item, want []*Node) {
	Cur.N++
	cmps(label, got, want)
}

func kind(n *Node) string {
	if n == nil || n.Kind == "" {
		return "item"
	}
	return n.Kind
}

func cmp(w string, g *result.Item, n *Node) {
	if g == nil || n == nil {
		if (g == nil) != (n == nil) {
			fail(kind(n)+".struct", w, "an item is missing or unexpected")
		}
		return
	}
	k := kind(n)
	w += "/" + n.Name
	if g.Name != n.Name {
		fail(k+".name", w, "name %q, specified %q", g.Name, n.Name)
	}
	if g.Value != n.Value {
		fail(k+".value", w, "value %q, specified %q", g.Value, n.Value)
	}
	if g.Note != n.Note {
		fail(k+".note", w, "note %q, specified %q", g.Note, n.Note)
	}
	if g.Dump != n.Dump {
		if (g.Dump == "") != (n.Dump == "") {
			fail(k+".dumppres", w, "dump %q, specified %q", g.Dump, n.Dump)
		} else {
			fail(k+".dump", w, "dump %q, specified %q", g.Dump, n.Dump)
		}
	}
	cmps(w, g.Items, n.Items)
}

func cmps(w string, g []*result.Item, n []*Node) {
	for i := 0; i < len(g) || i < len(n); i++ {
		switch {
		case i >= len(g):
			fail(kind(n[i])+".struct", w, "missing entry %q", n[i].Name)
		case i >= len(n):
			nm := "nil"
			if g[i] != nil {
				nm = g[i].Name
			}
			fail("item.struct", w, "unexpected entry %q", nm)
			return
		default:
			if g[i] != nil && n[i] != nil && g[i].Name != n[i].Name && len(g) != len(n) {
				fail(kind(n[i])+".struct", w, "entry %q where %q is specified", g[i].Name, n[i].Name)
				return
			}
			cmp(w, g[i], n[i])
		}
	}
}

// CheckSame compares arbitrary values.
func CheckSame(facet, label string, a, b interface{}) {
	Cur.N++
	if !reflect.DeepEqual(a, b) {
		fail(facet, label, "%v, specified %v", a, b)
	}
}

// Opaque functions: deterministic but otherwise unknown functions of their
// arguments. They exist for contract stubs and are never called natively.
func OpaqueBool(name string, args ...interface{}) bool             { panic("opaque") }
func OpaqueU8(name string, args ...interface{}) uint8              { panic("opaque") }
func OpaqueU32(name string, args ...interface{}) uint32            { panic("opaque") }
func OpaqueString(name string, args ...interface{}) string         { panic("opaque") }
func OpaqueErr(name string, args ...interface{}) error             { panic("opaque") }
func OpaqueBytes(name string, n int64, args ...interface{}) []byte { panic("opaque") }

// Outcomes of Inflate.
const (
	Expanded = iota
	TooLarge
	Corrupt
)

// Inflate is what a compressed data packet expands to: for the uncompressed
// algorithm the data, for DEFLATE, ZLIB and BZip2 what the standard library
// makes of it, otherwise nothing.
func Inflate(alg byte, b []byte) ([]byte, int) {
	var r io.Reader
	switch alg {
	case 0:
		return b, Expanded
	case 1:
		r = flate.NewReader(bytes.NewReader(b))
	case 2:
		z, err := zlib.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, Corrupt
		}
		r = z
	case 3:
		r = bzip2.NewReader(bytes.NewReader(b))
	default:
		return nil, Expanded
	}
	var w bytes.Buffer
	n, err := io.CopyN(&w, r, 1<<30)
	switch {
	case n >= 1<<30:
		return nil, TooLarge
	case err != io.EOF:
		return nil, Corrupt
	}
	return w.Bytes(), Expanded
}

// Lines are the lines of a text as the standard library's scanner splits it,
// and whether it gives up on it.
func Lines(b []byte) ([]string, bool) {
	var l []string
	s := bufio.NewScanner(bytes.NewReader(b))
	for s.Scan() {
		l = append(l, s.Text())
	}
	return l, s.Err() != nil
}

// Plain tells whether a string has letters, digits and hyphens only.
func Plain(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '-') {
			return false
		}
	}
	return s != ""
}

// Device is an input that arrives in pieces and may fail behind its last octet.
type Device struct {
	data  []byte
	fails bool
	plan  uint32
}

// NewDevice is an input with the given octets. Nothing else is known of it: not how
// many of them one Read gives.
func NewDevice(name string, data []byte, fails bool) io.Reader {
	return &Device{data, fails, uint32(num(name+" pieces", "u8", 8)) % 8}
}

var errDevice = errors.New("the device fails")

func (d *Device) Read(b []byte) (int, error) {
	var end error = io.EOF
	if d.fails {
		end = errDevice
	}
	if len(d.data) == 0 {
		return 0, end
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := len(d.data)
	switch d.plan {
	case 1, 5:
		n = 1
	case 2, 6:
		n = (n + 1) / 2
	case 3, 7:
		n = 7
	}
	if n > len(d.data) {
		n = len(d.data)
	}
	n = copy(b, d.data[:n])
	d.data = d.data[n:]
	if len(d.data) == 0 && d.plan >= 4 && !d.fails {
		return n, end
	}
	return n, nil
}
