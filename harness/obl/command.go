package obl

// The command. The verifier runs the facade's own code against contracts of the
// libraries it is built on: cobra and pflag (the flags of a command line reach the
// variables registered for them, and the function of the named command is called),
// os.Open, the clipboard, and the fetching client. The parser is used by its
// contract, O_Parse. Natively the same obligations run the real libraries.

import (
	"bytes"
	stdcontext "context"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/atotto/clipboard"
	"github.com/spf13/cobra"
	"github.com/spf13/pflag"
	"github.com/spiegel-im-spiegel/fetch"
	"github.com/spiegel-im-spiegel/gocli/exitcode"
	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"
	"github.com/spiegel-im-spiegel/gpgpdump/hkp"
	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"

	"gpgverif/harness/spec"
	v "gpgverif/harness/verif"
)

const (
	kindBool = iota
	kindInt
	kindString
)

// flagOf is a flag on the command line, or one that may be there.
type flagOf struct {
	name, short string
	kind        int
	given       bool
	letter      bool // as its letter
	b           bool
	n           int
	s           string
}

// line is a command line and the world it runs in.
type line struct {
	sub   string // subcommand
	flags []*flagOf
	words []string

	on     [9]bool // options the parser gets
	file   string  // path
	data   []byte  // what is to be parsed
	noFile bool
	noClip bool
	clip   string
	bad    bool // the input is rejected
	broken bool // parsing fails
	items  []*result.Item
	server string // of hkp
	user   string
	key    string
	noKey  bool // fetching fails
	srv    *server
	parser *parse.Parser
	asked  int
}

var run *line

// The registered commands and flags.
type cmdOf struct {
	cmd, parent *cobra.Command
	own, all    *pflag.FlagSet
	args        []string
}
type varOf struct {
	fs          *pflag.FlagSet
	name, short string
	kind        int
	b           *bool
	n           *int
	s           *string
}

var (
	cmds []*cmdOf
	vars []*varOf
)

func cmdFor(c *cobra.Command) *cmdOf {
	for _, k := range cmds {
		if k.cmd == c {
			return k
		}
	}
	k := &cmdOf{cmd: c, own: &pflag.FlagSet{}, all: &pflag.FlagSet{}}
	cmds = append(cmds, k)
	return k
}

// sees tells whether a flag of one set is known to a command.
func sees(k *cmdOf, fs *pflag.FlagSet) bool {
	if k.own == fs {
		return true
	}
	for n := 0; n < 3; n++ {
		if k.all == fs {
			return true
		}
		if k.parent == nil {
			return false
		}
		k = cmdFor(k.parent)
	}
	return false
}

func lookup(fs *pflag.FlagSet, name string, kind int) *varOf {
	for _, k := range cmds {
		if k.own == fs || k.all == fs {
			for _, x := range vars {
				if x.name == name && x.kind == kind && (x.fs == fs || k.own == fs && sees(k, x.fs)) {
					return x
				}
			}
		}
	}
	return nil
}

func Contract_cobraFlags__O_Command(c *cobra.Command) *pflag.FlagSet           { return cmdFor(c).own }
func Contract_cobraPersistentFlags__O_Command(c *cobra.Command) *pflag.FlagSet { return cmdFor(c).all }
func Contract_cobraSetArgs__O_Command(c *cobra.Command, a []string)            { cmdFor(c).args = a }
func Contract_cobraSetIn__O_Command(c *cobra.Command, r io.Reader)             {}
func Contract_cobraSetOut__O_Command(c *cobra.Command, w io.Writer)            {}
func Contract_cobraSetErr__O_Command(c *cobra.Command, w io.Writer)            {}
func Contract_cobraMarkFlagFilename__O_Command(c *cobra.Command, name string, ext ...string) error {
	return nil
}
func Contract_cobraAddCommand__O_Command(c *cobra.Command, l ...*cobra.Command) {
	for _, k := range l {
		cmdFor(k).parent = c
	}
}

func Contract_pflagBoolVarP__O_Command(fs *pflag.FlagSet, p *bool, name, short string, d bool, usage string) {
	*p = d
	vars = append(vars, &varOf{fs: fs, name: name, short: short, kind: kindBool, b: p})
}
func Contract_pflagIntVarP__O_Command(fs *pflag.FlagSet, p *int, name, short string, d int, usage string) {
	*p = d
	vars = append(vars, &varOf{fs: fs, name: name, short: short, kind: kindInt, n: p})
}
func Contract_pflagStringVarP__O_Command(fs *pflag.FlagSet, p *string, name, short string, d string, usage string) {
	*p = d
	vars = append(vars, &varOf{fs: fs, name: name, short: short, kind: kindString, s: p})
}
func Contract_pflagBoolP__O_Command(fs *pflag.FlagSet, name, short string, d bool, usage string) *bool {
	p := new(bool)
	Contract_pflagBoolVarP__O_Command(fs, p, name, short, d, usage)
	return p
}
func Contract_pflagIntP__O_Command(fs *pflag.FlagSet, name, short string, d int, usage string) *int {
	p := new(int)
	Contract_pflagIntVarP__O_Command(fs, p, name, short, d, usage)
	return p
}
func Contract_pflagStringP__O_Command(fs *pflag.FlagSet, name, short string, d string, usage string) *string {
	p := new(string)
	Contract_pflagStringVarP__O_Command(fs, p, name, short, d, usage)
	return p
}
func Contract_pflagBoolVar__O_Command(fs *pflag.FlagSet, p *bool, name string, d bool, usage string) {
	Contract_pflagBoolVarP__O_Command(fs, p, name, "", d, usage)
}
func Contract_pflagIntVar__O_Command(fs *pflag.FlagSet, p *int, name string, d int, usage string) {
	Contract_pflagIntVarP__O_Command(fs, p, name, "", d, usage)
}
func Contract_pflagStringVar__O_Command(fs *pflag.FlagSet, p *string, name string, d string, usage string) {
	Contract_pflagStringVarP__O_Command(fs, p, name, "", d, usage)
}
func Contract_pflagBool__O_Command(fs *pflag.FlagSet, name string, d bool, usage string) *bool {
	return Contract_pflagBoolP__O_Command(fs, name, "", d, usage)
}
func Contract_pflagInt__O_Command(fs *pflag.FlagSet, name string, d int, usage string) *int {
	return Contract_pflagIntP__O_Command(fs, name, "", d, usage)
}
func Contract_pflagString__O_Command(fs *pflag.FlagSet, name string, d string, usage string) *string {
	return Contract_pflagStringP__O_Command(fs, name, "", d, usage)
}

var errFlag = errors.New("no such flag")

func Contract_pflagGetBool__O_Command(fs *pflag.FlagSet, name string) (bool, error) {
	if x := lookup(fs, name, kindBool); x != nil {
		return *x.b, nil
	}
	return false, errFlag
}
func Contract_pflagGetInt__O_Command(fs *pflag.FlagSet, name string) (int, error) {
	if x := lookup(fs, name, kindInt); x != nil {
		return *x.n, nil
	}
	return 0, errFlag
}
func Contract_pflagGetString__O_Command(fs *pflag.FlagSet, name string) (string, error) {
	if x := lookup(fs, name, kindString); x != nil {
		return *x.s, nil
	}
	return "", errFlag
}

// Contract_cobraExecute: the flags are set, and the command is run.
func Contract_cobraExecute__O_Command(c *cobra.Command) error {
	k := cmdFor(c)
	v.Check("command", "arguments", len(k.args) == 1 && k.args[0] == "the command line")
	if run.sub != "" {
		k = nil
		for _, x := range cmds {
			if x.parent != c {
				continue
			}
			if strings.HasPrefix(x.cmd.Use+" ", run.sub+" ") {
				k = x
			}
			for _, a := range x.cmd.Aliases {
				if a == run.sub {
					k = x
				}
			}
		}
		if k == nil {
			return errors.New("unknown command")
		}
	}
	if k.cmd.RunE == nil || k.cmd.Args != nil || k.cmd.PreRun != nil || k.cmd.PreRunE != nil || c.PersistentPreRun != nil || c.PersistentPreRunE != nil ||
		k.cmd.PostRunE != nil || c.PersistentPostRunE != nil || k.cmd.DisableFlagParsing {
		v.Undecided("another kind of command")
	}
	for _, f := range run.flags {
		var x *varOf
		for _, y := range vars {
			if sees(k, y.fs) && (y.name == f.name && !f.letter || y.short != "" && y.short == f.short && f.letter) {
				x = y
				break
			}
		}
		if x == nil || x.kind != f.kind {
			if f.given {
				return errors.New("unknown flag")
			}
			continue
		}
		if f.given {
			switch f.kind {
			case kindBool:
				*x.b = f.b
			case kindInt:
				*x.n = f.n
			case kindString:
				*x.s = f.s
			}
		}
	}
	return k.cmd.RunE(k.cmd, run.words)
}

// Contract_ioCopy is io.Copy to a writer that may fail.
func Contract_ioCopy__O_Command(w io.Writer, r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	n, e := w.Write(b)
	if e != nil {
		return int64(n), e
	}
	return int64(n), err
}

func Contract_fmtFprintf__O_Command(w io.Writer, format string, a ...interface{}) (int, error) {
	return w.Write([]byte(v.OpaqueString("printed", format) + "\n"))
}

func Contract_fmtFprintln__O_Command(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(v.OpaqueString("printed line") + "\n"))
}

// Contract_osOpen: the file of the command line, if it is there.
func Contract_osOpen__O_Command(path string) (*os.File, error) {
	v.CheckStr("command", "path", path, run.file)
	if run.noFile {
		return nil, os.ErrNotExist
	}
	return os.Stdin, nil
}
func Contract_osClose__O_Command(f *os.File) error { return nil }
func Contract_osReadFile__O_Command(path string) ([]byte, error) {
	v.CheckStr("command", "path", path, run.file)
	if run.noFile {
		return nil, os.ErrNotExist
	}
	return run.data, nil
}
func Contract_clipboardReadAll__O_Command() (string, error) {
	if run.noClip {
		return "", errors.New("no clipboard")
	}
	return run.clip, nil
}

// Contract_parseNew: the parser of some input with some options.
func Contract_parseNew__O_Command(cxt *context.Context, r io.Reader) (*parse.Parser, error) {
	run.asked++
	settings("parser", cxt, &run.on)
	if f, ok := r.(*os.File); ok {
		v.Check("command", "file", f != nil && run.file != "")
	} else {
		b, err := io.ReadAll(r)
		v.CheckErr("input", err, false)
		v.CheckBytes("command", "input", b, run.data)
	}
	if run.bad {
		return nil, errors.New("bad input")
	}
	p := &parse.Parser{}
	run.parser = p
	return p, nil
}
func Contract_parserParse__O_Command(p *parse.Parser) (*result.Info, error) {
	if p != run.parser || p == nil {
		v.Undecided("a parser of unknown input")
	}
	info := &result.Info{Packets: run.items}
	if run.broken {
		return info, errors.New("broken packet")
	}
	return info, nil
}

func Contract_signalContext__O_Command(parent stdcontext.Context, sig ...os.Signal) stdcontext.Context {
	return run.srv.ctx
}
func Contract_contextBackground__O_Command() stdcontext.Context          { return &caller{} }
func Contract_fetchNew__O_Command(opts ...fetch.ClientOpts) fetch.Client { return run.srv }

// Contract_hkpFetch: O_HKP.
func Contract_hkpFetch__O_Command(s *hkp.Server, ctx stdcontext.Context, cli fetch.Client, user string) (io.ReadCloser, error) {
	v.CheckStr("command", "key server", s.String(), run.server)
	v.CheckStr("command", "user", user, run.user)
	v.Check("command", "client", ctx == run.srv.ctx && cli == run.srv)
	run.asked++
	if run.noKey {
		return nil, errors.New("no key")
	}
	return io.NopCloser(bytes.NewReader(run.data)), nil
}

// Contract_githubGetKey: O_GitHub*.
func Contract_githubGetKey__O_Command(ctx stdcontext.Context, cli fetch.Client, user, key string) ([]byte, error) {
	v.CheckStr("command", "user", user, run.user)
	v.CheckStr("command", "key", key, run.key)
	v.Check("command", "client", ctx == run.srv.ctx && cli == run.srv)
	run.asked++
	if run.noKey {
		return nil, errors.New("no key")
	}
	return run.data, nil
}
func Contract_githubGet__O_Command(ctx stdcontext.Context, cli fetch.Client, user string) ([]byte, error) {
	return Contract_githubGetKey__O_Command(ctx, cli, user, "")
}

// output is what the command writes to, if it can be written to.
type output struct {
	b      *bytes.Buffer
	fails  bool
	failed bool
}

func (o *output) Write(b []byte) (int, error) {
	if o.fails {
		o.failed = true
		return 0, errors.New("broken output")
	}
	return o.b.Write(b)
}

// flag puts a flag on the command line, perhaps.
func (l *line) flag(name, short string, kind int) *flagOf {
	f := &flagOf{name: name, short: short, kind: kind}
	f.given = v.Bool("--" + name)
	if short != "" {
		f.letter = v.Bool("-" + short)
	}
	switch kind {
	case kindBool:
		f.b = v.Bool(name)
	case kindInt:
		f.n = v.Int(name)
		if !v.Symbolic() {
			if f.n %= 100000; name == "indent" {
				f.n %= 300
			}
		}
	}
	l.flags = append(l.flags, f)
	return f
}

func (f *flagOf) on() bool { return f.given && f.b }

func (f *flagOf) text(d string) string {
	if f.given {
		return f.s
	}
	return d
}

func (f *flagOf) num(d int) int {
	if f.given {
		return f.n
	}
	return d
}

// args is the command line for the real libraries.
func (l *line) args() []string {
	if v.Symbolic() {
		return []string{"the command line"}
	}
	var a []string
	if l.sub != "" {
		a = append(a, l.sub)
	}
	for _, f := range l.flags {
		if !f.given {
			continue
		}
		s := "--" + f.name
		if f.letter {
			s = "-" + f.short
		}
		switch f.kind {
		case kindBool:
			if !f.b || len(l.words)%2 == 1 {
				s += "=" + strconv.FormatBool(f.b)
			}
			a = append(a, s)
		case kindInt:
			a = append(a, s+"="+strconv.Itoa(f.n))
		case kindString:
			if f.letter {
				a = append(a, s, f.s)
			} else {
				a = append(a, s+"="+f.s)
			}
		}
	}
	return append(append(a, "--"), l.words...)
}

// global are the flags of all commands.
func (l *line) global() (jsn, indent *flagOf) {
	jsn = l.flag("json", "j", kindBool)
	indent = l.flag("indent", "", kindInt)
	for i, n := range optionNames {
		if n == "gdump" {
			continue
		}
		short := n[:1]
		if n == "debug" {
			short = ""
		}
		l.on[i] = l.flag(n, short, kindBool).on()
	}
	return
}

// render is the text of the parsed packets.
func render(info *result.Info, jsn bool, n int) string {
	if jsn {
		return spec.JSON(info, n)
	}
	s, indent := "", "\t"
	if n > 0 {
		indent = strings.Repeat(" ", n)
	}
	for _, k := range info.Packets {
		s += spec.Below(k, indent, 0)
	}
	return s
}

// parsed is what the parser makes of the data.
func (l *line) parsed() (*result.Info, bool) {
	if v.Symbolic() {
		return &result.Info{Packets: l.items}, !l.bad && !l.broken
	}
	c := context.New()
	for i, k := range optionCodes {
		c.Set(k, l.on[i])
	}
	p, err := parse.New(c, bytes.NewReader(l.data))
	if err != nil {
		return nil, false
	}
	info, err := p.Parse()
	return info, err == nil
}

func (l *line) input() {
	if v.Symbolic() {
		l.data = v.Bytes("data")
		l.bad, l.broken = v.Bool("bad input"), v.Bool("broken packet")
		l.items = v.Items("items")
		return
	}
	l.data = v.BytesBy("data", func(r *rand.Rand) []byte { return spec.GenInput(r, spec.Ctx{}) })
}

// execute runs the command and compares what it writes and its status.
func (l *line) execute(stdin []byte, want func() (string, bool)) {
	run = l
	cmds, vars = nil, nil
	out := &output{b: &bytes.Buffer{}, fails: v.Bool("output fails")}
	exit := facade.Execute(rwi.New(rwi.WithReader(bytes.NewReader(stdin)), rwi.WithWriter(out), rwi.WithErrorWriter(&bytes.Buffer{})), l.args())
	text, ok := want()
	if out.fails {
		text = ""
	}
	if out.failed && ok {
		ok = false
	}
	debug := l.on[2]
	if ok {
		v.Check("command", "success", exit == exitcode.Normal)
		v.CheckStr("command", "output", out.b.String(), text)
		return
	}
	if debug {
		v.Check("command", "reported", exit == exitcode.Normal)
		v.Check("command", "the error is printed", out.failed || out.b.Len() > 0)
		return
	}
	v.Check("command", "failure", exit == exitcode.Abnormal)
	v.CheckStr("command", "no output", out.b.String(), "")
}

// O_Command: the command itself.
func O_Command() {
	l := &line{}
	jsn, indent := l.global()
	version := l.flag("version", "v", kindBool).on()
	clip := l.flag("clipboard", "", kindBool).on()
	f := l.flag("file", "f", kindString)
	l.input()
	l.noFile = v.Bool("no file")
	stdin := l.data
	if v.Symbolic() {
		f.s = v.String("path")
		l.noClip = v.Bool("no clipboard")
		l.clip = v.String("text")
	} else {
		dir, err := os.MkdirTemp("", "verif")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		f.s = filepath.Join(dir, "in")
		if !l.noFile {
			os.WriteFile(f.s, l.data, 0o600)
		}
		if f.given {
			stdin = []byte("not this")
		}
		l.clip, err = clipboard.ReadAll()
		l.noClip = err != nil
	}
	l.file = f.text("")
	if clip {
		l.data = []byte(l.clip)
		l.on[0] = true
	}
	l.execute(stdin, func() (string, bool) {
		switch {
		case version:
			l.on[2] = false
			return "", true
		case clip && l.file != "", clip && l.noClip, l.file != "" && l.noFile:
			return "", false
		}
		info, ok := l.parsed()
		if !ok {
			return "", false
		}
		return render(info, jsn.on(), indent.num(0)), true
	})
}

// fetched is the output for what was fetched.
func (l *line) fetched(ok bool, raw bool, jsn, indent *flagOf) (string, bool) {
	if !ok {
		return "", false
	}
	if raw {
		return string(l.data), true
	}
	info, ok := l.parsed()
	if !ok {
		return "", false
	}
	return render(info, jsn.on(), indent.num(0)), true
}

// network stands in for the network, natively.
type network struct{ l *line }

func (n network) RoundTrip(r *http.Request) (*http.Response, error) {
	n.l.srv.calls++
	n.l.srv.u = r.URL
	if n.l.noKey {
		return &http.Response{StatusCode: 404, Body: io.NopCloser(strings.NewReader("")), Request: r, Header: http.Header{}}, nil
	}
	b := n.l.data
	if r.URL.Host == "api.github.com" {
		b, _ = json.Marshal([]map[string]string{{"key_id": "1f1f", "raw_key": "x"}, {"key_id": n.l.key, "raw_key": string(n.l.data)}})
	}
	return &http.Response{StatusCode: 200, Body: io.NopCloser(bytes.NewReader(b)), Request: r, Header: http.Header{}}, nil
}

func (l *line) net() {
	l.noKey = v.Bool("no key")
	l.srv = newServer(nil)
	if !v.Symbolic() {
		http.DefaultTransport = network{l}
	}
}

// words are the arguments of a command that needs exactly one.
func (l *line) one(gen func(*rand.Rand) []byte) bool {
	s := string(v.BytesBy("user", gen))
	l.user = s
	n := v.U8("words")
	if !v.Symbolic() && n > 3 {
		n = 1
	}
	switch n {
	case 0:
		return false
	case 1:
		l.words = []string{s}
		return true
	default:
		l.words = []string{s, v.String("more")}
		return false
	}
}

func genHost(r *rand.Rand) []byte { return append(spec.GenUser(r), ".example"...) }

// called is a subcommand under one of its names.
func called(names ...string) string {
	if v.Symbolic() {
		return names[v.Cases(3)]
	}
	return names[int(v.U8("name"))%3]
}

// name is a name the real network code accepts, natively.
func name(b []byte) string {
	if v.Symbolic() {
		return string(b)
	}
	for i, c := range b {
		if c != '.' && (c|0x20 < 'a' || c|0x20 > 'z') {
			b[i] = 'a' + c%26
		}
	}
	return string(b) + "x"
}

// O_CommandHKP: keys from a key server.
func O_CommandHKP() {
	l := &line{sub: called("hkp", "h", "h")}
	jsn, indent := l.global()
	l.on[0] = true
	host := l.flag("keyserver", "", kindString)
	host.s = name(v.BytesBy("host", genHost))
	port := l.flag("port", "", kindInt)
	secure := l.flag("secure", "", kindBool).on()
	raw := l.flag("raw", "", kindBool).on()
	l.input()
	l.net()
	one := l.one(spec.GenUser)
	if !v.Symbolic() && port.n < 1 {
		port.n = 80
	}
	scheme := "http"
	if secure {
		scheme = "https"
	}
	h := host.text("keys.gnupg.net")
	l.server = (&url.URL{Scheme: scheme, Host: h + ":" + strconv.Itoa(port.num(11371))}).String()
	l.execute(nil, func() (string, bool) {
		return l.fetched(one && h != "" && !l.noKey, raw, jsn, indent)
	})
	if !v.Symbolic() && one {
		v.Check("command", "request", l.srv.calls == 1 && l.srv.u.String() == l.server+"/pks/lookup?op=get&search="+url.QueryEscape(l.user))
	}
}

// O_CommandGitHub: keys from GitHub.
func O_CommandGitHub() {
	l := &line{sub: called("github", "gh", "g")}
	jsn, indent := l.global()
	l.on[0] = true
	key := l.flag("keyid", "", kindString)
	key.s = string(v.BytesBy("key", spec.GenKeyID))
	raw := l.flag("raw", "", kindBool).on()
	l.input()
	l.net()
	one := l.one(spec.GenUser)
	v.Assume(v.Symbolic() || v.Plain(l.user))
	l.key = key.text("")
	if !v.Symbolic() {
		l.key = strings.TrimPrefix(strings.ToLower(l.key), "0x")
		l.data = []byte(strings.ToValidUTF8(string(l.data), "?"))
	}
	l.execute(nil, func() (string, bool) {
		return l.fetched(one && !l.noKey, raw, jsn, indent)
	})
}

// O_CommandFetch: packets from anywhere.
func O_CommandFetch() {
	l := &line{sub: called("fetch", "fch", "f")}
	jsn, indent := l.global()
	raw := l.flag("raw", "", kindBool).on()
	l.input()
	l.net()
	one := l.one(genHost)
	if !v.Symbolic() {
		l.user = "http://" + name([]byte(l.user)) + "/a?b=c"
		if len(l.words) > 0 {
			l.words[0] = l.user
		}
	}
	u, err := fetch.URL(l.user)
	if v.Symbolic() && err == nil {
		b, ok := l.srv.page(u.String())
		l.data, l.noKey = b, !ok
	}
	l.execute(nil, func() (string, bool) {
		return l.fetched(one && err == nil && !l.noKey, raw, jsn, indent)
	})
	if one && err == nil {
		v.Check("request", "calls", l.srv.calls == 1 && l.srv.posts == 0)
		if l.srv.calls == 1 {
			v.CheckStr("request", "url", l.srv.u.String(), u.String())
		}
	}
}

// O_CommandVersion: the version is not an output.
func O_CommandVersion() {
	l := &line{sub: called("version", "ver", "v")}
	l.global()
	l.on[2] = false
	l.execute(nil, func() (string, bool) { return "", true })
}
