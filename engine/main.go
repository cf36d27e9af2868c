package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

type Result struct {
	Name    string              `json:"name"`
	Status  string              `json:"status"` // proved | refuted | unknown
	Why     string              `json:"why,omitempty"`
	Fails   []*Failure          `json:"fails,omitempty"`
	Hints   []map[string]string `json:"hints,omitempty"` // inputs that lead to where the engine gave up
	Oblig   map[string]int      `json:"obligations"`
	Used    []string            `json:"functions"`
	Trusted []string            `json:"trusted"`
	Queries int                 `json:"queries"`
	SolverS float64             `json:"solver_s"`
	Hits    int                 `json:"reused_answers"`
	Lia     int                 `json:"linear_refutations"`
	LiaSat  int                 `json:"linear_witnesses"`
	LiaMiss int                 `json:"-"`
	Shots   int                 `json:"fresh_queries"`
	ShotS   float64             `json:"fresh_s"`
	WallS   float64             `json:"wall_s"`
	Reach   int                 `json:"checks_reached"`
	MapRng  bool                `json:"map_order,omitempty"`
	Cases   int                 `json:"cases,omitempty"`
	bound   bool                // a contract of this obligation only was used
	cases   int
}

// merge adds the result of one case.
func (r *Result) merge(o *Result, idx int) {
	r.Cases++
	for k, v := range o.Oblig {
		r.Oblig[k] += v
	}
	set := func(a, b []string) []string {
		m := map[string]bool{}
		for _, x := range append(append([]string{}, a...), b...) {
			m[x] = true
		}
		out := []string{}
		for x := range m {
			out = append(out, x)
		}
		sort.Strings(out)
		return out
	}
	r.Used, r.Trusted = set(r.Used, o.Used), set(r.Trusted, o.Trusted)
	r.Queries += o.Queries
	r.SolverS += o.SolverS
	r.Hits += o.Hits
	r.Lia += o.Lia
	r.LiaSat += o.LiaSat
	r.LiaMiss += o.LiaMiss
	r.Shots += o.Shots
	r.ShotS += o.ShotS
	r.WallS += o.WallS
	r.Reach += o.Reach
	r.MapRng = r.MapRng || o.MapRng
	r.Hints = append(r.Hints, o.Hints...)
	for _, f := range o.Fails {
		f.Case = idx
		r.Fails = append(r.Fails, f)
	}
	if o.Why != "" && o.Why != "no check reached" {
		if r.Why != "" {
			r.Why += "; "
		}
		r.Why += fmt.Sprintf("case %d: %s", idx, o.Why)
	}
	switch {
	case o.Status == "refuted":
		r.Status = o.Status
	case o.Status == "unknown" && r.Status == "proved" && o.Why != "no check reached":
		r.Status = o.Status
	}
}

func load(dir, path string) (*Prog, *ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0")}
	ps, err := packages.Load(cfg, path)
	if err != nil {
		return nil, nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, nil, fmt.Errorf("%v", p.Errors)
		}
	}
	prog := ssa.NewProgram(ps[0].Fset, ssa.InstantiateGenerics)
	seen := map[*packages.Package]bool{}
	var main *ssa.Package
	P := &Prog{prog: prog, info: map[*ssa.Function]*fnInfo{}, built: map[*ssa.Package]bool{}, impl: map[string]*ssa.Function{}}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, d := range p.Imports {
			visit(d)
		}
		if p.Types == nil || p.IllTyped {
			return
		}
		sp := prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		if p == ps[0] {
			main = sp
		}
		switch p.PkgPath {
		case repoPath + "/parse/result":
			P.item, _ = infoOf(p.Types.Scope().Lookup("Item"))
		case "gpgverif/harness/verif":
			P.node, P.nodeKind = infoOf(p.Types.Scope().Lookup("Node"))
		}
	}
	visit(ps[0])
	return P, main, nil
}

func infoOf(o types.Object) (itemInfo, int) {
	if o == nil {
		return itemInfo{n: -1}, -1
	}
	s, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return itemInfo{n: -1}, -1
	}
	return itemInfo{n: s.NumFields(), name: fieldIdx(s, "Name"), value: fieldIdx(s, "Value"), dump: fieldIdx(s, "Dump"),
		note: fieldIdx(s, "Note"), subs: fieldIdx(s, "Items")}, fieldIdx(s, "Kind")
}

func runOne(P *Prog, main *ssa.Package, fn *ssa.Function, lim time.Duration, trace bool, idx int, inline bool, seed int) (res *Result) {
	res = &Result{Name: fn.Name(), Oblig: map[string]int{}}
	t0 := time.Now()
	used, trusted := map[string]bool{}, map[string]bool{}
	pass := func(rev bool) (again bool) {
		e := NewEngine(P)
		e.dl = t0.Add(lim)
		e.s.dl = t0.Add(lim + 20*time.Second)
		e.mapRev = rev
		e.caseIdx = idx
		e.inline = inline
		e.trace = trace
		e.s.seed = seed
		defer func() { e.s.dead = true; e.s.Close() }()
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case caseReq:
					res.cases = x.n
					return
				case unsupErr:
					res.Why = x.why
				case forkReq:
					res.Why = "unresolved fork"
				default:
					res.Why = fmt.Sprintf("internal: %v", r)
					if trace {
						fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
					}
				}
				if trace {
					for i := len(e.stack) - 1; i >= 0 && i > len(e.stack)-12; i-- {
						fmt.Fprintln(os.Stderr, "  in", e.stack[i])
					}
				}
				if len(e.lastWhy) > 0 {
					res.Why += " (" + e.lastWhy + ")"
				}
			}
			if res.Why == "" && len(e.drops) > 0 {
				res.Why = e.drops[0]
				if n := len(e.drops); n > 1 {
					res.Why += fmt.Sprintf(" (and %d other paths)", n-1)
				}
			}
			res.Hints = append(res.Hints, e.hints...)
			for k, v := range e.oblig {
				res.Oblig[k] += v
			}
			for k := range e.used {
				used[k] = true
			}
			for k := range e.trusted {
				trusted[k] = true
			}
			// where a loop of the code does not go in step with the
			// specification's, the two may only be arranged differently
			for _, f := range e.fails {
				if f.Facet == "loop" {
					for _, g := range e.fails {
						g.Soft = true
					}
				}
			}
			res.Fails = append(res.Fails, e.fails...)
			res.Queries += e.s.queries
			res.Shots += e.s.shots
			res.Hits += e.s.hits
			res.Lia += e.s.lia.wins
			res.LiaSat += e.s.lia.sats
			res.LiaMiss += e.s.lia.miss
			if e.s.disagree > 0 {
				fmt.Fprintln(os.Stderr, "model evaluation disagrees", e.s.disagree)
			}
			res.ShotS += e.s.shotT.Seconds()
			res.SolverS += e.s.tm.Seconds()
			res.Reach += e.reach
			res.MapRng = res.MapRng || e.mapRng
			again = e.mapRng
			res.bound = len(e.bound) > 0
		}()
		e.bindContracts(main, fn.Name())
		st := &State{heap: map[int]Val{}}
		for _, o := range e.exec(st, fn, nil, nil) {
			// contracts start from the package variables as initialised: they have to stay so
			for id, v := range o.st.heap {
				if n, ok := e.owned[id]; ok && key(v) != key(e.base[id]) {
					e.drops = append(e.drops, "changes the package-level state of "+n)
					break
				}
			}
		}
		return
	}
	if pass(false) && res.Why == "" {
		pass(true)
	}
	if res.cases > 0 {
		return
	}
	res.Status = "proved"
	if res.Reach == 0 && res.Why == "" {
		res.Why = "no check reached"
	}
	if res.Why != "" {
		res.Status = "unknown"
	}
	for _, f := range res.Fails {
		if f.Status == "refuted" {
			res.Status = "refuted"
		} else if res.Status == "proved" {
			res.Status = "unknown"
		}
	}
	for k := range used {
		res.Used = append(res.Used, k)
	}
	for k := range trusted {
		res.Trusted = append(res.Trusted, k)
	}
	sort.Strings(res.Used)
	sort.Strings(res.Trusted)
	res.WallS = time.Since(t0).Seconds()
	return
}

// bindContracts registers the contract stubs (functions of the obligation package
// named Contract_...) whose doc comment names the function they stand for.
func (e *Engine) bindContracts(main *ssa.Package, obl string) {
	for _, m := range main.Members {
		fn, ok := m.(*ssa.Function)
		if ok && strings.HasPrefix(fn.Name(), "View_") && fn.Signature.Params().Len() == 1 {
			e.views = append(e.views, fn)
			sort.Slice(e.views, func(i, j int) bool { return e.views[i].Name() < e.views[j].Name() })
		}
		if !ok || !strings.HasPrefix(fn.Name(), "Contract_") {
			continue
		}
		// Contract_f__O_x holds for the calls in O_x only
		n, only, _ := strings.Cut(strings.TrimPrefix(fn.Name(), "Contract_"), "__")
		world := only == "O_Command" // for all of these obligations
		if only != "" && only != obl && !(world && strings.HasPrefix(obl, only)) || only != "" && !world && e.inline {
			continue
		}
		t, ok := contractNames[n]
		if !ok || only != "" && !world && !e.P.defined(t) {
			continue
		}
		e.contr[t] = fn
		if only != "" && !world {
			e.bound[n] = true
		}
	}
}

// stopAt is when all work is to end, in nanoseconds; 0 is never.
var stopAt atomic.Int64

var contractNames = map[string]string{
	"NewTag":                repoPath + "/parse/tags.NewTag",
	"NewSubs":               repoPath + "/parse/tags.NewSubs",
	"newTag02":              repoPath + "/parse/tags.newTag02",
	"ToString":              "(*" + repoPath + "/parse/result.Item).toString",
	"cobraFlags":            "(*github.com/spf13/cobra.Command).Flags",
	"cobraPersistentFlags":  "(*github.com/spf13/cobra.Command).PersistentFlags",
	"cobraSetArgs":          "(*github.com/spf13/cobra.Command).SetArgs",
	"cobraSetIn":            "(*github.com/spf13/cobra.Command).SetIn",
	"cobraSetOut":           "(*github.com/spf13/cobra.Command).SetOut",
	"cobraSetErr":           "(*github.com/spf13/cobra.Command).SetErr",
	"cobraMarkFlagFilename": "(*github.com/spf13/cobra.Command).MarkFlagFilename",
	"cobraAddCommand":       "(*github.com/spf13/cobra.Command).AddCommand",
	"cobraExecute":          "(*github.com/spf13/cobra.Command).Execute",
	"pflagBoolVarP":         "(*github.com/spf13/pflag.FlagSet).BoolVarP",
	"pflagIntVarP":          "(*github.com/spf13/pflag.FlagSet).IntVarP",
	"pflagStringVarP":       "(*github.com/spf13/pflag.FlagSet).StringVarP",
	"pflagBoolP":            "(*github.com/spf13/pflag.FlagSet).BoolP",
	"pflagIntP":             "(*github.com/spf13/pflag.FlagSet).IntP",
	"pflagStringP":          "(*github.com/spf13/pflag.FlagSet).StringP",
	"pflagBoolVar":          "(*github.com/spf13/pflag.FlagSet).BoolVar",
	"pflagIntVar":           "(*github.com/spf13/pflag.FlagSet).IntVar",
	"pflagStringVar":        "(*github.com/spf13/pflag.FlagSet).StringVar",
	"pflagBool":             "(*github.com/spf13/pflag.FlagSet).Bool",
	"pflagInt":              "(*github.com/spf13/pflag.FlagSet).Int",
	"pflagString":           "(*github.com/spf13/pflag.FlagSet).String",
	"pflagGetBool":          "(*github.com/spf13/pflag.FlagSet).GetBool",
	"pflagGetInt":           "(*github.com/spf13/pflag.FlagSet).GetInt",
	"pflagGetString":        "(*github.com/spf13/pflag.FlagSet).GetString",
	"ioCopy":                "io.Copy",
	"fmtFprintf":            "fmt.Fprintf",
	"fmtFprintln":           "fmt.Fprintln",
	"contextBackground":     "context.Background",
	"osOpen":                "os.Open",
	"osClose":               "(*os.File).Close",
	"osReadFile":            "os.ReadFile",
	"clipboardReadAll":      "github.com/atotto/clipboard.ReadAll",
	"signalContext":         "github.com/spiegel-im-spiegel/gocli/signal.Context",
	"fetchNew":              "github.com/spiegel-im-spiegel/fetch.New",
	"parseNew":              repoPath + "/parse.New",
	"githubGetKey":          repoPath + "/github.GetKey",
	"githubGet":             repoPath + "/github.Get",
	"parserParse":           "(*" + repoPath + "/parse.Parser).Parse",
	"hkpFetch":              "(*" + repoPath + "/hkp.Server).Fetch",
}

// defined tells whether a package function exists.
func (P *Prog) defined(name string) bool {
	i := strings.LastIndex(name, ".")
	p := P.prog.ImportedPackage(name[:i])
	return p != nil && p.Func(name[i+1:]) != nil
}

func main() {
	dir := flag.String("dir", "/verif/harness", "harness module")
	pkg := flag.String("pkg", "gpgverif/harness/obl", "obligation package")
	re := flag.String("run", "", "regexp of obligations")
	out := flag.String("out", "", "report file")
	lim := flag.Duration("t", 120*time.Second, "limit per obligation")
	trace := flag.Bool("trace", false, "")
	total := flag.Duration("total", 0, "limit for all obligations together")
	facet := flag.String("facet", "", "end after a few refutations of these facets")
	par := flag.Int("par", runtime.NumCPU(), "")
	only := flag.Int("case", -1, "only this case")
	flag.Parse()
	defer startProfile()()
	t0 := time.Now()
	P, mp, err := load(*dir, *pkg)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	rx := regexp.MustCompile("^(" + *re + ")$")
	if *re == "" {
		rx = regexp.MustCompile(".")
	}
	var fns []*ssa.Function
	for _, m := range mp.Members {
		if fn, ok := m.(*ssa.Function); ok && strings.HasPrefix(fn.Name(), "O_") && rx.MatchString(fn.Name()) {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	fmt.Fprintf(os.Stderr, "loaded in %.1fs, %d obligations\n", time.Since(t0).Seconds(), len(fns))
	results := make([]*Result, len(fns))
	sem := make(chan bool, *par)
	if *total > 0 {
		stopAt.Store(t0.Add(*total).UnixNano())
	}
	var want *regexp.Regexp
	if *facet != "" {
		want = regexp.MustCompile(*facet)
	}
	var enough atomic.Int32
	var wg sync.WaitGroup
	run := func(fn *ssa.Function, idx int, inline bool) *Result {
		sem <- true
		defer func() { <-sem }()
		if t := stopAt.Load(); t != 0 && time.Now().UnixNano() > t {
			return &Result{Name: fn.Name(), Status: "unknown", Why: "not begun: out of time, or enough refutations", Oblig: map[string]int{}}
		}
		r := runOne(P, mp, fn, *lim, *trace, idx, inline, 0)
		if t := stopAt.Load(); strings.HasPrefix(r.Why, "timeout") && len(r.Fails) == 0 && (t == 0 || time.Now().Add(time.Minute).UnixNano() < t) {
			// the solver was unlucky, perhaps: once more, with another seed
			q := runOne(P, mp, fn, *lim, *trace, idx, inline, 7)
			q.WallS += r.WallS
			q.SolverS += r.SolverS
			r = q
		}
		for _, f := range r.Fails {
			if want != nil && f.Status == "refuted" && !f.Soft && len(f.Model) > 0 && want.MatchString(f.Facet) {
				if enough.Add(1) == 3 {
					t := time.Now().Add(10 * time.Second).UnixNano()
					if o := stopAt.Load(); o == 0 || t < o {
						stopAt.Store(t)
					}
				}
				break
			}
		}
		return r
	}
	show := func(r *Result) {
		fmt.Fprintf(os.Stderr, "%-34s %-8s %6.1fs q=%d+%d lia %d/%d/%d (%.1fs, fresh %d %.1fs) reach=%d %s\n", r.Name, r.Status, r.WallS, r.Queries, r.Hits, r.Lia, r.LiaSat, r.LiaMiss, r.SolverS, r.Shots, r.ShotS, r.Reach, r.Why)
		for k, f := range r.Fails {
			if k < 8 {
				fmt.Fprintf(os.Stderr, "    %s %s at %s: %s %v\n", f.Status, f.Facet, f.Pos, f.What, f.Model)
			}
		}
	}
	all := func(fn *ssa.Function, inline bool) *Result {
		r := run(fn, *only, inline)
		if r.cases == 0 {
			return r
		}
		t := &Result{Name: r.Name, Status: "proved", Oblig: map[string]int{}}
		sub := make([]*Result, r.cases)
		var sw sync.WaitGroup
		for k := range sub {
			sw.Add(1)
			go func(k int) {
				defer sw.Done()
				sub[k] = run(fn, k, inline)
				if *trace || sub[k].WallS > 20 {
					fmt.Fprintf(os.Stderr, "case %d: ", k)
					show(sub[k])
				}
			}(k)
		}
		sw.Wait()
		for k, x := range sub {
			t.merge(x, k)
			t.bound = t.bound || x.bound
		}
		if t.Reach == 0 && t.Why == "" {
			t.Status, t.Why = "unknown", "no check reached"
		}
		return t
	}
	for i := range fns {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := all(fns[i], false)
			if r.bound && r.Status != "proved" {
				// not by that contract: look at the callee itself
				show(r)
				r = all(fns[i], true)
			}
			results[i] = r
			show(r)
		}(i)
	}
	wg.Wait()
	if *out != "" {
		b, _ := json.MarshalIndent(map[string]interface{}{"results": results, "wall_s": time.Since(t0).Seconds()}, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
}
