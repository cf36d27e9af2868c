package obl

import (
	"fmt"
	"strings"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"

	"gpgverif/harness/spec"
	v "gpgverif/harness/verif"
)

var optionNames = [...]string{"armor", "cert", "debug", "gdump", "int", "literal", "marker", "private", "utc"}
var optionCodes = [...]context.OptCode{context.ARMOR, context.CERT, context.DEBUG, context.GDUMP, context.INTEGER, context.LITERAL, context.MARKER, context.PRIVATE, context.UTC}

// options is a context with arbitrary options: each never set, off or on.
func options() (*context.Context, *[9]bool) {
	c := context.New()
	on := &[9]bool{}
	for i, k := range optionCodes {
		if v.Bool("set " + optionNames[i]) {
			on[i] = v.Bool(optionNames[i])
			c.Set(k, on[i])
		}
	}
	return c, on
}

// settings compares every option of a context.
func settings(label string, c *context.Context, on *[9]bool) {
	for i, k := range optionCodes {
		v.Check("option", label+": "+optionNames[i], c.Get(k) == on[i])
	}
	d := on[2]
	v.Check("option", label+": Armor", c.Armor() == on[0])
	v.Check("option", label+": Cert", c.Cert() == (on[1] || d))
	v.Check("option", label+": Debug", c.Debug() == d)
	v.Check("option", label+": GDump", c.GDump() == (on[3] || d))
	v.Check("option", label+": Integer", c.Integer() == (on[4] || d))
	v.Check("option", label+": Literal", c.Literal() == (on[5] || d))
	v.Check("option", label+": Marker", c.Marker() == (on[6] || d))
	v.Check("option", label+": Private", c.Private() == (on[7] || d))
	v.Check("option", label+": UTC", c.UTC() == on[8])
}

// O_OptionCode: setting by code, on any context.
func O_OptionCode() {
	c, on := options()
	settings("before", c, on)
	code, f := v.I64("code"), v.Bool("value")
	context.Set(context.OptCode(code), f)(c)
	for i, k := range optionCodes {
		if int64(k) == code {
			on[i] = f
		}
	}
	settings("after", c, on)
	v.Check("option", "zero", !c.Get(0))
}

// O_OptionName: setting by name, on any context.
func O_OptionName() {
	c, on := options()
	name, f := string(v.BytesBy("name", spec.GenOption)), v.Bool("value")
	code := context.GetOptCode(name)
	context.SetByString(name, f)(c)
	want := 0
	for i, n := range optionNames {
		if strings.ToLower(name) == n {
			on[i] = f
			want = int(optionCodes[i])
		}
	}
	v.Check("option", "code", int(code) == want)
	settings("after", c, on)
}

// O_OptionNew: a new context has everything off but what is asked for, in the
// order asked for; none at all is the same as no context.
func O_OptionNew() {
	a, b := int(v.U8("a")), int(v.U8("b"))
	v.Assume(a < 9 && b < 9)
	f, g := v.Bool("f"), v.Bool("g")
	c := context.New(context.Set(optionCodes[a], f), context.SetByString(optionNames[b], g))
	on := &[9]bool{}
	on[a] = f
	on[b] = g
	settings("new", c, on)
	v.Check("option", "mode", c.SymAlgMode == context.ModeNotSpecified && c.SigCreationTime == nil && c.KeyCreationTime == nil)
	settings("none", nil, &[9]bool{})
	var n *context.Context
	n.Set(context.DEBUG, true)
	settings("nil", n, &[9]bool{})
}

// O_OptionString: the text of a context.
func O_OptionString() {
	c, on := options()
	s := ""
	for i, n := range optionNames {
		if i > 0 {
			s += ","
		}
		f := on[i] || i > 0 && i < 8 && on[2]
		s += fmt.Sprintf("%s:%t", n, f)
	}
	v.CheckStr("option", "text", c.String(), s)
}

// O_OptionCodes: the code of an option has its name.
func O_OptionCodes() {
	k := v.I64("code")
	s := "unknown"
	if k > 0 && k < 10 {
		s = optionNames[k-1]
	}
	v.CheckStr("option", "name", context.OptCode(k).String(), s)
	v.Check("option", "codes", int(context.UNKNOWN) == 0 && int(context.ARMOR) == 1 && int(context.UTC) == 9)
}
