// Command native runs obligations on concrete inputs against the real code:
// replay of a counterexample, search around it, and generated inputs.
package main

import (
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"gpgverif/harness/obl"
	"gpgverif/harness/spec"
	"gpgverif/harness/verif"
)

type inputs map[string]string

// fixed replays given inputs; missing ones are zero.
type fixed struct{ in inputs }

func (p fixed) Bytes(name string, gen func(*rand.Rand) []byte) []byte {
	b, _ := hex.DecodeString(strings.TrimPrefix(p.in[name], "bytes:"))
	return b
}
func (p fixed) Num(name string, bits int) uint64 {
	s := p.in[name]
	if i := strings.IndexByte(s, ':'); i >= 0 {
		s = s[i+1:]
	}
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		w, _ := strconv.ParseInt(s, 10, 64)
		v = uint64(w)
	}
	return v
}

// fuzz invents inputs, optionally near given ones.
type fuzz struct {
	r    *rand.Rand
	near inputs
}

func (p fuzz) Bytes(name string, gen func(*rand.Rand) []byte) []byte {
	r := p.r
	if s, ok := p.near[name]; ok && r.Intn(4) > 0 {
		b, _ := hex.DecodeString(strings.TrimPrefix(s, "bytes:"))
		b = append([]byte{}, b...)
		for k := r.Intn(4); k > 0; k-- {
			switch r.Intn(5) {
			case 0:
				b = append(b, octet(r))
			case 1:
				if len(b) > 0 {
					b = b[:r.Intn(len(b)+1)]
				}
			case 2:
				for n := r.Intn(40); n > 0; n-- {
					b = append(b, octet(r))
				}
			default:
				if len(b) > 0 {
					b[r.Intn(len(b))] = octet(r)
				}
			}
		}
		return b
	}
	if gen != nil && r.Intn(10) > 0 {
		b := gen(r)
		if len(spec.Words) > 0 && r.Intn(10) == 0 {
			w := spec.Words[r.Intn(len(spec.Words))]
			i := r.Intn(len(b) + 1)
			j := i
			if r.Intn(2) == 0 {
				j = i + r.Intn(len(b)-i+1)
			}
			b = append(append(append([]byte{}, b[:i]...), w...), b[j:]...)
		}
		return b
	}
	if len(spec.Words) > 0 && r.Intn(5) == 0 {
		return append([]byte{}, spec.Words[r.Intn(len(spec.Words))]...)
	}
	n := r.Intn(24)
	switch r.Intn(10) {
	case 0:
		n = 0
	case 1:
		n = r.Intn(300)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = octet(r)
	}
	return b
}
func octet(r *rand.Rand) byte {
	switch r.Intn(4) {
	case 0:
		return byte(r.Intn(8))
	case 1:
		return byte(r.Intn(128))
	}
	return byte(r.Intn(256))
}
func (p fuzz) Num(name string, bits int) uint64 {
	r := p.r
	if s, ok := p.near[name]; ok && r.Intn(4) > 0 {
		return fixed{p.near}.Num(name, bits) + 0*uint64(len(s))
	}
	switch {
	case bits == 1:
		return uint64(r.Intn(2))
	case bits == 8 && r.Intn(2) == 0:
		return uint64(r.Intn(4))
	}
	if len(spec.Nums) > 0 && r.Intn(6) == 0 {
		return spec.Nums[r.Intn(len(spec.Nums))]
	}
	switch r.Intn(6) {
	case 0:
		return uint64(r.Intn(4))
	case 1:
		return uint64(int64(r.Intn(64) - 20))
	case 2:
		return uint64(r.Intn(300))
	case 3:
		return r.Uint64() >> uint(r.Intn(64))
	case 4:
		return ^uint64(0) - uint64(r.Intn(4))
	}
	return r.Uint64()
}

type fail struct {
	Obligation string `json:"obligation"`
	Facet      string `json:"facet"`
	Where      string `json:"where"`
	What       string `json:"what"`
	Inputs     inputs `json:"inputs"`
	Before     *fail  `json:"before,omitempty"` // the run before this one, for code that remembers
}

// options that C10 quantifies over
var optNames = []string{"cert", "debug", "integer", "literal", "marker", "private", "utc", "gdump"}

// run executes one obligation once.
func run(name string, p verif.Provider, opts bool) ([]fail, inputs, int) {
	running, started = name, time.Now()
	r := verif.Do(p, obl.All[name])
	var fs []fail
	in := inputs(r.Used)
	for _, f := range r.Fails {
		fs = append(fs, fail{name, f.Facet, f.Where, f.What, in, nil})
	}
	if opts && len(fs) > 0 {
		if _, ok := in["debug"]; ok { // does the failure depend on an option?
			off := inputs{}
			for k, v := range in {
				off[k] = v
			}
			for _, o := range optNames {
				if _, ok := off[o]; ok {
					off[o] = "bool:0"
				}
			}
			q := verif.Do(fixed{off}, obl.All[name])
			a, b := map[string]bool{}, map[string]bool{}
			for _, f := range r.Fails {
				a[f.Facet+f.Where] = true
			}
			for _, f := range q.Fails {
				b[f.Facet+f.Where] = true
			}
			for _, f := range r.Fails {
				if strings.HasSuffix(f.Facet, ".dump") || f.Facet == "ctx" {
					continue
				}
				if !b[f.Facet+f.Where] {
					fs = append(fs, fail{name, "opt." + f.Facet, f.Where, f.What + " (with all options off it does not fail)", in, nil})
				}
			}
			for _, f := range q.Fails {
				if strings.HasSuffix(f.Facet, ".dump") || f.Facet == "ctx" {
					continue
				}
				if !a[f.Facet+f.Where] {
					fs = append(fs, fail{name, "opt." + f.Facet, f.Where, f.What + " (with the options of the other run it does not fail)", off, nil})
				}
			}
		}
	}
	return fs, in, r.N
}

// watchdog: a run that does not end is a failure.
var (
	running string
	started = time.Now()

	patience = 20 * time.Second
)

func watch(out *report, re *regexp.Regexp) {
	for {
		time.Sleep(time.Second)
		if time.Since(started) > patience && running != "" {
			if re.MatchString("progress") {
				out.Fails = append(out.Fails, fail{running, "progress", "run", fmt.Sprintf("no result after %v", patience), inputs(verif.Cur.Used), nil})
			}
			emit(out)
			os.Exit(0)
		}
	}
}

type report struct {
	Runs     int            `json:"runs"`
	Distinct int            `json:"distinct"`
	Checks   int            `json:"checks"`
	Per      map[string]int `json:"per_obligation"`
	Fails    []fail         `json:"fails"`
	Sample   []fail         `json:"samples"`
}

func main() {
	obs := flag.String("obl", "", "comma separated obligations")
	rep := flag.String("replay", "", "file with {obligation, inputs}")
	n := flag.Int("n", 1000, "runs per obligation")
	secs := flag.Float64("secs", 20, "time limit")
	seed := flag.Int64("seed", 1, "")
	near := flag.String("near", "", "file with {obligation, inputs}")
	facet := flag.String("facet", ".", "facets of interest")
	last := flag.String("last", "", "write the inputs of the current run to this file")
	flag.DurationVar(&patience, "patience", patience, "a run that takes longer does not end")
	dict := flag.String("dict", "", "file with {words, nums}")
	flag.Parse()
	if *dict != "" {
		var d struct {
			Words []string `json:"words"`
			Nums  []uint64 `json:"nums"`
		}
		readJSON(*dict, &d)
		for _, w := range d.Words {
			b, _ := hex.DecodeString(w)
			spec.Words = append(spec.Words, b)
		}
		spec.Nums = d.Nums
	}
	if *last != "" {
		verif.Log = func() {
			b, _ := json.Marshal(fail{Obligation: running, Facet: "safety", Where: "run", What: "the process dies", Inputs: verif.Cur.Used})
			os.WriteFile(*last, b, 0o600)
		}
	}
	time.Local = time.FixedZone("TEST", 9*3600+1800) // local time differs from UTC
	re := regexp.MustCompile(*facet)
	out := &report{Per: map[string]int{}, Fails: []fail{}}
	go watch(out, re)
	if *rep != "" {
		var f fail
		readJSON(*rep, &f)
		if obl.All[f.Obligation] == nil {
			fmt.Fprintln(os.Stderr, "no such obligation:", f.Obligation)
			os.Exit(2)
		}
		if b := f.Before; b != nil && obl.All[b.Obligation] != nil {
			run(b.Obligation, fixed{b.Inputs}, true)
		}
		fs, _, k := run(f.Obligation, fixed{f.Inputs}, true)
		out.Runs, out.Checks = 1, k
		for _, g := range fs {
			if re.MatchString(g.Facet) {
				out.Fails = append(out.Fails, g)
			}
		}
		emit(out)
		return
	}
	var nf fail
	if *near != "" {
		readJSON(*near, &nf)
	}
	names := strings.Split(*obs, ",")
	sort.Strings(names)
	dist := map[uint64]bool{}
	end := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	seen := map[string]int{}
	var prev fail
	one := func(nm string, p fuzz) {
		fs, in, c := run(nm, p, true)
		out.Runs++
		out.Checks += c
		out.Per[nm]++
		if c > 0 {
			h := fnv.New64a()
			ks := make([]string, 0, len(in))
			for x := range in {
				ks = append(ks, x)
			}
			sort.Strings(ks)
			fmt.Fprint(h, nm)
			for _, x := range ks {
				fmt.Fprint(h, x, in[x])
			}
			dist[h.Sum64()] = true
			if len(out.Sample) < 2 && out.Runs > 2*len(names) && len(fs) == 0 {
				out.Sample = append(out.Sample, fail{Obligation: nm, Inputs: in})
			}
		}
		for _, f := range fs {
			if !re.MatchString(f.Facet) {
				continue
			}
			key := f.Obligation + f.Facet
			if seen[key]++; seen[key] <= 2 {
				if prev.Obligation != "" {
					f.Before = &fail{Obligation: prev.Obligation, Inputs: prev.Inputs}
				}
				out.Fails = append(out.Fails, f)
			}
		}
		prev = fail{Obligation: nm, Inputs: in}
	}
	for k := 0; k < *n; k++ {
		for i, nm := range names {
			if obl.All[nm] == nil {
				continue
			}
			if time.Now().After(end) {
				k = *n
				break
			}
			p := fuzz{r: rand.New(rand.NewSource(*seed*1000003 + int64(k)*1009 + int64(i)))}
			if nf.Obligation == nm {
				p.near = nf.Inputs
			}
			one(nm, p)
			if k%3 == 2 && nf.Obligation == "" { // again, with inputs like these: does the code remember?
				p.near = prev.Inputs
				one(nm, p)
			}
			if len(out.Fails) >= 6 {
				k = *n
				break
			}
		}
	}
	out.Distinct = len(dist)
	emit(out)
}

func readJSON(f string, v interface{}) {
	b, err := os.ReadFile(f)
	if err == nil {
		err = json.Unmarshal(b, v)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
func emit(v interface{}) {
	b, _ := json.MarshalIndent(v, "", " ")
	fmt.Println(string(b))
}
