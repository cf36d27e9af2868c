package main

// A z3 process in assumption mode: every term is defined once at level 0, path
// conditions are passed as assumption literals.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Solver struct {
	c        *TC
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	defd     map[int]string // term id -> smt expression name
	lits     map[int]string
	decl     map[string]bool
	axioms   int
	Axioms   []*Term
	queries  int
	unknown  int
	tm       time.Duration
	cache    map[string]int
	timeout  int // ms, one-shot queries
	seed     int // of the solver
	quick    int // ms, incremental queries
	dl       time.Time
	lia      *LIA
	models   []*Mdl
	cores    [][]int
	hits     int
	disagree int
	shots    int
	shotT    time.Duration
	dead     bool
	buf      strings.Builder
	log      io.Writer
	backend  string
}

var solverBin = "z3-new"

func NewSolver(c *TC) *Solver {
	s := &Solver{c: c, cache: map[string]int{}, timeout: 10000, quick: 400}
	s.lia = &LIA{s: s}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(solverBin, "-in", "-smt2")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = w
	s.out = bufio.NewReader(r)
	s.defd = map[int]string{}
	s.lits = map[int]string{}
	s.decl = map[string]bool{}
	s.axioms = 0
	s.buf.Reset()
	if p := os.Getenv("VERIF_SMTLOG"); p != "" {
		f, _ := os.OpenFile(p, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		s.log = f
	}
	s.put("(set-option :produce-models true)\n(set-option :produce-unsat-assumptions true)\n(set-option :timeout %d)\n(set-option :smt.random_seed %d)\n(set-option :sat.random_seed %d)\n", s.quick, s.seed, s.seed)
}

func (s *Solver) put(f string, a ...interface{}) { fmt.Fprintf(&s.buf, f, a...) }
func (s *Solver) flush() {
	if s.log != nil {
		io.WriteString(s.log, s.buf.String())
	}
	io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
}
func (s *Solver) Close() {
	if s.dead && s.lia != nil {
		s.lia.Close()
	}
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}
func qn(n string) string {
	n = strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, n)
	return "|" + n + "|"
}

func (s *Solver) def(t *Term) string {
	if n, ok := s.defd[t.id]; ok {
		return n
	}
	var ex string
	switch t.op {
	case OConst:
		if t.w == 0 {
			ex = fmt.Sprint(t.val == 1)
		} else {
			ex = fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
		}
		s.defd[t.id] = ex
		return ex
	case OVar:
		n := qn(t.name)
		if !s.decl[n] {
			s.decl[n] = true
			s.put("(declare-const %s %s)\n", n, sortOf(t.w))
		}
		s.defd[t.id] = n
		return n
	}
	args := make([]string, len(t.args))
	for i, a := range t.args {
		args[i] = s.def(a)
	}
	switch t.op {
	case OUF:
		var ss []string
		key := t.name
		for _, a := range t.args {
			ss = append(ss, sortOf(a.w))
			key += fmt.Sprintf("_%d", a.w)
		}
		n := qn(fmt.Sprintf("%s_%d", key, t.w))
		if !s.decl[n] {
			s.decl[n] = true
			s.put("(declare-fun %s (%s) %s)\n", n, strings.Join(ss, " "), sortOf(t.w))
		}
		ex = "(" + n + " " + strings.Join(args, " ") + ")"
	case OZext:
		ex = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, args[0])
	case OSext:
		ex = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, args[0])
	case OExtract:
		ex = fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+t.w-1, t.val, args[0])
	case OIte:
		ex = "(ite " + strings.Join(args, " ") + ")"
	default:
		n, ok := opNames[t.op]
		if !ok {
			panic(fmt.Sprintf("smt: op %d", t.op))
		}
		ex = "(" + n + " " + strings.Join(args, " ") + ")"
	}
	n := fmt.Sprintf("t%d", t.id)
	s.put("(define-fun %s () %s %s)\n", n, sortOf(t.w), ex)
	s.defd[t.id] = n
	return n
}

func (s *Solver) lit(t *Term) string {
	if n, ok := s.lits[t.id]; ok {
		return n
	}
	d := s.def(t)
	n := fmt.Sprintf("p%d", t.id)
	s.put("(declare-const %s Bool)\n(assert (=> %s %s))\n", n, n, d)
	s.lits[t.id] = n
	return n
}

const (
	Unsat = iota
	Sat
	Unknown
)

// Check decides satisfiability of the conjunction.
func (s *Solver) Check(conj []*Term) int {
	return s.check(conj, nil, nil)
}

func (s *Solver) check(conj []*Term, vals []*Term, res *[]uint64) int {
	seen := map[int]bool{}
	var ts []*Term
	for _, t := range conj {
		if t.IsTrue() || seen[t.id] {
			continue
		}
		if t.IsFalse() || seen[s.c.Not(t).id] {
			return Unsat
		}
		seen[t.id] = true
		ts = append(ts, t)
	}
	key := ""
	if vals == nil {
		ids := make([]int, len(ts))
		for i, t := range ts {
			ids[i] = t.id
		}
		sortInts(ids)
		var sb strings.Builder
		for _, i := range ids {
			sb.WriteString(strconv.Itoa(i))
			sb.WriteByte(',')
		}
		key = sb.String()
		if r, ok := s.cache[key]; ok {
			return r
		}
	}
	if vals == nil {
		if s.refutedBefore(seen) {
			s.cache[key] = Unsat
			return Unsat
		}
		if s.witness(ts) {
			s.cache[key] = Sat
			return Sat
		}
	}
	t0 := time.Now()
	if t := stopAt.Load(); !s.dl.IsZero() && t0.After(s.dl) || t != 0 && t0.UnixNano() > t+20e9 {
		panic(unsup("timeout"))
	}
	defer func() { s.tm += time.Since(t0) }()
	s.queries++
	if vals == nil && s.lia != nil {
		if core, ok := s.lia.unsat(ts); ok {
			if core != nil {
				s.cores = append(s.cores, core)
			}
			s.cache[key] = Unsat
			return Unsat
		}
		if s.lia.found {
			s.lia.found = false
			s.cache[key] = Sat
			return Sat
		}
	}
	for attempt := 0; ; attempt++ {
		if s.cmd == nil {
			s.start()
		}
		for s.axioms < len(s.Axioms) {
			d := s.def(s.Axioms[s.axioms])
			s.put("(assert %s)\n", d)
			s.axioms++
		}
		var ls []string
		for _, t := range ts {
			ls = append(ls, s.lit(t))
		}
		var vs []string
		for _, v := range vals {
			vs = append(vs, s.def(v))
		}
		s.put("(check-sat-assuming (%s))\n", strings.Join(ls, " "))
		s.flush()
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.cmd.Wait()
			s.cmd = nil
			if attempt > 0 {
				s.unknown++
				return Unknown
			}
			continue
		}
		line = strings.TrimSpace(line)
		r := Unknown
		switch {
		case line == "sat":
			r = Sat
		case line == "unsat":
			r = Unsat
		case strings.HasPrefix(line, "(error"):
			fmt.Fprintln(os.Stderr, "solver:", line)
			s.Close()
			s.unknown++
			return Unknown
		}
		if r == Unknown {
			s.Close() // drop what the process has accumulated
			r = s.oneShot(ts, vals, res)
			if key != "" {
				s.cache[key] = r
			}
			return r
		}
		if slowLog {
			fmt.Fprintf(os.Stderr, "Q %d %d %.3f\n", s.queries, r, time.Since(t0).Seconds())
		}
		if vals == nil {
			if r == Sat {
				s.learn(ts)
			} else {
				s.learnCore()
			}
		}
		if r == Sat && vals != nil && len(vs) > 0 {
			s.put("(get-value (%s))\n", strings.Join(vs, " "))
			s.flush()
			txt := s.readSexp()
			*res = parseValues(txt, len(vs))
		}
		if key != "" {
			s.cache[key] = r
		}
		return r
	}
}

// Model asks for values of terms in a model of conj.
func (s *Solver) Model(conj []*Term, vals []*Term) ([]uint64, int) {
	var res []uint64
	r := s.check(conj, vals, &res)
	return res, r
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	started := false
	inq := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return sb.String()
		}
		sb.WriteByte(b)
		if b == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
		}
		if started && depth == 0 {
			s.out.ReadString('\n')
			return sb.String()
		}
	}
}

// parseValues parses ((e v) (e v) ...) taking the last token of each pair.
func parseValues(txt string, n int) []uint64 {
	out := make([]uint64, 0, n)
	depth := 0
	start := 0
	inq := false
	for i := 0; i < len(txt); i++ {
		switch ch := txt[i]; {
		case ch == '|':
			inq = !inq
		case inq:
		case ch == '(':
			depth++
			if depth == 2 {
				start = i
			}
		case ch == ')':
			depth--
			if depth == 1 {
				p := strings.TrimSpace(txt[start+1 : i])
				if strings.HasSuffix(p, ")") && strings.LastIndex(p, "(- ") >= 0 {
					out = append(out, -parseConst(strings.TrimSuffix(p[strings.LastIndex(p, "(- ")+3:], ")")))
					continue
				}
				j := strings.LastIndexAny(p, " \n")
				out = append(out, parseConst(strings.TrimSpace(p[j+1:])))
			}
		}
	}
	return out
}
func parseConst(v string) uint64 {
	switch {
	case v != "" && v[0] >= '0' && v[0] <= '9':
		x, _ := strconv.ParseUint(strings.TrimRight(v, ")"), 10, 64)
		return x
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		x, _ := strconv.ParseUint(v[2:], 16, 64)
		return x
	case strings.HasPrefix(v, "#b"):
		x, _ := strconv.ParseUint(v[2:], 2, 64)
		return x
	}
	return 0
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// script is a self-contained query: only what the conjunction mentions, and the
// axioms about the same symbols.
func (s *Solver) script(conj, vals []*Term) string {
	f := &Solver{c: s.c, defd: map[int]string{}, lits: map[int]string{}, decl: map[string]bool{}}
	syms := map[string]bool{}
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OVar || t.op == OUF {
			syms[t.name] = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range conj {
		walk(t)
	}
	used := map[int]bool{}
	var ax []*Term
	for again := true; again; {
		again = false
		for i, a := range s.Axioms {
			if used[i] {
				continue
			}
			ns := map[string]bool{}
			collect(a, ns, map[int]bool{})
			hit := false
			for n := range ns {
				if syms[n] {
					hit = true
				}
			}
			if hit {
				used[i] = true
				ax = append(ax, a)
				walk(a)
				again = true
			}
		}
	}
	f.put("(set-option :produce-models true)\n(set-logic ALL)\n")
	for _, a := range append(ax, conj...) {
		d := f.def(a)
		f.put("(assert %s)\n", d)
	}
	var vs []string
	for _, v := range vals {
		vs = append(vs, f.def(v))
	}
	f.put("(check-sat)\n")
	if len(vs) > 0 {
		f.put("(get-value (%s))\n", strings.Join(vs, " "))
	}
	return f.buf.String()
}

func collect(t *Term, m map[string]bool, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == OVar || t.op == OUF {
		m[t.name] = true
	}
	for _, a := range t.args {
		collect(a, m, seen)
	}
}

// oneShot decides a self-contained query with a fresh z3, then with cvc5.
func (s *Solver) oneShot(ts, vals []*Term, res *[]uint64) int {
	s.shots++
	t0 := time.Now()
	defer func() { s.shotT += time.Since(t0) }()
	q := s.script(ts, vals)
	if d := os.Getenv("VERIF_SLOW"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d_%d.smt2", d, os.Getpid(), s.queries), []byte(q), 0o644)
	}
	for _, b := range [][]string{
		{solverBin, "-in", "-smt2", fmt.Sprintf("-t:%d", s.timeout)},
		{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s.timeout)},
	} {
		cmd := exec.Command(b[0], b[1:]...)
		cmd.Stdin = strings.NewReader(q)
		out, _ := cmd.Output()
		txt := string(out)
		switch {
		case strings.HasPrefix(txt, "unsat"):
			return Unsat
		case strings.HasPrefix(txt, "sat"):
			if vals != nil && len(vals) > 0 {
				*res = parseValues(txt[3:], len(vals))
				if len(*res) != len(vals) {
					continue
				}
			}
			return Sat
		}
	}
	s.unknown++
	return Unknown
}

var slowLog = os.Getenv("VERIF_QLOG") != ""
