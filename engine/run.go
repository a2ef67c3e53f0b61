package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"gosym/exec"
	"gosym/smt"
	"gosym/solve"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Open names an obligation that was not settled.
type Open struct {
	Kind, Label, Pos, Status string
	N                        int
}

// Report is the outcome of one harness run.
type Report struct {
	Harness, Case   string
	Bounds          map[string]string
	Funcs           []string
	Blocks, Edges   int
	Forks, Merges   int
	Paths           int
	Asserts         int
	Pruned          int
	Obligations     int
	Proved          int
	Trivial         int
	ByHow           map[string]int
	Open            []Open
	Reached         map[string]int
	Witnessed       []string
	Unwitnessed     []string
	Samples         []string
	NativeRuns      int64
	Compared        int
	Diffs           []string
	AxiomChecks     int
	AxiomBad        []string
	Stats           map[string]*smt.Stat
	Notes           []string
	Incomplete      string
	LoadSec, ExeSec float64
	SolveSec        float64
	Violation       *Violation
	Error           string
}

// Violation is a confirmed counterexample.
type Violation struct {
	Harness, Case, Kind, Label, Pos, Why, Inputs, How string
	Replay                                            json.RawMessage
}

func loadProg(dir string) (*ssa.Program, *ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	ps, err := packages.Load(cfg, "./h")
	if err != nil {
		return nil, nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, nil, fmt.Errorf("%v", p.Errors[0])
		}
	}
	prog, pk := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	for _, p := range prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), repoPfx) || strings.HasPrefix(p.Pkg.Path(), "vharness") {
			p.Build()
		}
	}
	return prog, pk[0], nil
}

const repoPfx = "github.com/Wieku/gosu-pp"

func runOne(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	name := fs.String("h", "", "harness")
	cs := fs.String("case", "", "fixed choices name=v,...")
	tier := fs.String("tier", "quick", "")
	bin := fs.String("replay", "", "replay binary")
	outp := fs.String("out", "", "report file")
	seed := fs.Int64("seed", 1, "")
	secs := fs.Float64("sec", 0, "total seconds")
	workers := fs.Int("j", 2, "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	rep := &Report{Harness: *name, Case: *cs, ByHow: map[string]int{}, Bounds: map[string]string{}}
	defer func() {
		b, _ := json.MarshalIndent(rep, "", " ")
		if *outp != "" {
			os.WriteFile(*outp, b, 0o644)
		} else {
			fmt.Println(string(b))
		}
	}()
	hs, err := harnesses()
	if err != nil {
		rep.Error = err.Error()
		return 2
	}
	var h *Harness
	for _, x := range hs {
		if x.Name == *name {
			h = x
		}
	}
	if h == nil {
		rep.Error = "no such harness"
		return 2
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				rep.Error = fmt.Sprintf("engine: %v", r)
				if *verbose {
					debug.PrintStack()
				}
			}
		}()
		runHarness(h, rep, *cs, *tier == "thorough", *bin, *seed, *secs, *workers, *verbose)
	}()
	if rep.Error != "" {
		return 2
	}
	return 0
}

func tnum(h *Harness, k string, thorough bool, def int) int {
	n := h.num(k, def)
	if thorough {
		n = h.num("thorough-"+k, n)
	}
	return n
}

func runHarness(h *Harness, rep *Report, cs string, thorough bool, bin string, seed int64, secs float64, workers int, verbose bool) {
	t0 := time.Now()
	if secs == 0 {
		secs = float64(tnum(h, "sec", thorough, 100))
		if thorough && h.get("thorough-sec", "") == "" {
			secs *= 5
		}
	}
	prog, pkg, err := loadProg(filepath.Join(root(), "harness"))
	if err != nil {
		rep.Error = "load: " + err.Error()
		return
	}
	rep.LoadSec = time.Since(t0).Seconds()
	fn := pkg.Func(h.Name)
	if fn == nil {
		rep.Error = "harness function not found"
		return
	}
	end := t0.Add(time.Duration(secs * float64(time.Second)))
	cfg := exec.Config{
		Unroll:    tnum(h, "unroll", thorough, 64),
		SortNet:   h.get("sort", "") == "net",
		SymUnroll: tnum(h, "symunroll", thorough, 0),
		Feas:      h.get("feas", "bits"),
		FeasMs:    h.num("feasms", 400),
		Merge:     h.get("merge", "noint"),
		MaxStates: tnum(h, "states", thorough, 400000),
		Deadline:  t0.Add(time.Duration(secs * 0.6 * float64(time.Second))),
		Thorough:  thorough,
		Fix:       map[string]int64{},
		Decide:    new(solve.Ranges).Decide,
	}
	for _, kv := range strings.Split(cs, ",") {
		if p := strings.SplitN(kv, "=", 2); len(p) == 2 {
			n, _ := strconv.ParseInt(p[1], 10, 64)
			cfg.Fix[p[0]] = n
		}
	}
	rep.Bounds["loop iterations"] = fmt.Sprint(cfg.Unroll)
	for _, b := range h.D["bound"] {
		rep.Bounds[b] = "harness"
	}
	e := exec.New(prog, cfg)
	e.RepoPfx, e.HarnPfx = repoPfx, "vharness"
	defer e.Close()
	if verbose {
		smt.DebugErr = func(s, out, script string) {
			if len(out) > 600 {
				out = out[:600]
			}
			fmt.Fprintln(os.Stderr, "SOLVER ERROR", s, out)
			os.WriteFile("/tmp/bad.smt2", []byte(script), 0o644)
		}
	}
	rep.Incomplete = e.RunMain(pkg.Func("init"), fn)
	e.Close()
	rep.ExeSec = time.Since(t0).Seconds() - rep.LoadSec
	rep.Blocks, rep.Edges, rep.Forks, rep.Merges = e.Blocks, e.Edges, e.Forks, e.Merges
	rep.Asserts, rep.Pruned, rep.Reached, rep.Paths = e.Asserts, e.PrunedN, e.Reached, e.DoneStates
	for f := range e.Funcs {
		if strings.Contains(f, "gosu-pp") {
			rep.Funcs = append(rep.Funcs, strings.ReplaceAll(f, repoPfx+"/", ""))
		}
	}
	sort.Strings(rep.Funcs)
	for n := range e.Notes {
		rep.Notes = append(rep.Notes, n)
	}
	sort.Strings(rep.Notes)
	if verbose {
		for p, n := range exec.ForkSites {
			if n > 20 {
				fmt.Fprintf(os.Stderr, "  forks %6d %s\n", n, p)
			}
		}
		fmt.Fprintf(os.Stderr, "%s %s: exec %.1fs blocks %d forks %d merges %d(fail %d) paths %d asserts %d obls %d feasq %d ranged %d pruned %d incomplete=%q\n", h.Name, cs, rep.ExeSec, e.Blocks, e.Forks, e.Merges, e.MergeFails, e.DoneStates, e.Asserts, len(e.Obls), e.FeasQ, e.RangeN, e.PrunedN, rep.Incomplete)
		for u, n := range e.Unsupported {
			fmt.Fprintln(os.Stderr, "  unsupported", n, u)
		}
	}
	t1 := time.Now()
	c := &solve.Ctx{
		E: e, R: &solve.Runner{Bin: bin, Harness: h.Name, Thorough: thorough},
		Rng:      rand.New(rand.NewSource(seed)),
		PerObl:   time.Duration(tnum(h, "perobl", thorough, 15)) * time.Second,
		Deadline: end, Workers: workers,
		Exact:   len(h.D["noexact"]) == 0,
		NoPairs: len(h.D["nopairs"]) > 0,
		Draws:   tnum(h, "draws", thorough, 48),
		Reals:   len(h.D["real"]) > 0 || os.Getenv("GOSYM_REALS") != "",
		Lemmas:  len(h.D["lemmas"]) > 0,
	}
	viol := func(r *solve.Result) {
		v := &Violation{Harness: h.Name, Case: cs, How: r.How, Why: r.Resp.Why(), Inputs: describe(e, r.Model), Replay: c.R.Request(r.Model)}
		if r.Obl != nil {
			v.Kind, v.Label, v.Pos = r.Obl.Kind, r.Obl.Label, r.Obl.Pos
		}
		rep.Violation = v
	}
	wit, missing, bad := c.Witness(4 * time.Second)
	if bad != nil {
		viol(bad)
	} else {
		for l, m := range wit {
			rep.Witnessed = append(rep.Witnessed, l)
			if len(rep.Samples) < 3 {
				rep.Samples = append(rep.Samples, l+": "+describe(e, m))
			}
		}
		sort.Strings(rep.Witnessed)
		sort.Strings(rep.Samples)
		rep.Unwitnessed = missing
		if e.Asserts > 0 {
			rep.Trivial = e.Asserts
			for _, o := range e.Obls {
				if o.Kind == "assert" {
					rep.Trivial--
				}
			}
		}
		rs := c.DecideAll(e.Obls)
		open := map[string]*Open{}
		for _, r := range rs {
			rep.Obligations++
			if verbose && r.Status != solve.Proved {
				fmt.Fprintf(os.Stderr, "  %-13s %s %q %s [%s] %.1fs %s\n", r.Status, r.Obl.Kind, r.Obl.Label, r.Obl.Pos, r.How, r.Sec, r.Resp.Why())
				if r.Status == solve.Mismatch || os.Getenv("GOSYM_SHOW") != "" {
					fmt.Fprintf(os.Stderr, "     bad: %s\n     in: %s\n", r.Obl.Bad.String(), describe(e, r.Model))
					if os.Getenv("GOSYM_SHOW") == "3" {
						smt.Walk(func(t *smt.Term) {
							if len(t.Args) > 0 {
								fmt.Fprintf(os.Stderr, "     #%d =", t.ID)
								for _, a := range t.Args {
									if len(a.Args) > 0 {
										fmt.Fprintf(os.Stderr, " #%d", a.ID)
									} else {
										fmt.Fprintf(os.Stderr, " %s", a)
									}
								}
								fmt.Fprintf(os.Stderr, " <- %.90s\n", t)
							}
						}, r.Obl.Bad)
					}
					if os.Getenv("GOSYM_SHOW") == "2" {
						for _, p := range r.Obl.PC {
							fmt.Fprintf(os.Stderr, "     pc: %s\n", p.String())
						}
					}
				}
			}
			switch r.Status {
			case solve.Proved:
				rep.Proved++
				rep.ByHow[r.How]++
			case solve.Violated:
				if rep.Violation == nil {
					viol(r)
				}
			default:
				k := r.Obl.Kind + r.Obl.Label + r.Obl.Pos + string(r.Status)
				if open[k] == nil {
					open[k] = &Open{r.Obl.Kind, r.Obl.Label, r.Obl.Pos, string(r.Status), 0}
				}
				open[k].N++
			}
		}
		for _, o := range open {
			rep.Open = append(rep.Open, *o)
		}
		sort.Slice(rep.Open, func(i, j int) bool {
			a, b := rep.Open[i], rep.Open[j]
			return a.Kind+a.Label+a.Pos < b.Kind+b.Label+b.Pos
		})
		rep.Compared, rep.Diffs = c.Validate()
	}
	rep.AxiomChecks, rep.AxiomBad = c.AxiomN, c.AxiomBad
	rep.NativeRuns = c.R.N
	rep.Stats = smt.Stats
	rep.SolveSec = time.Since(t1).Seconds()
	if verbose {
		fmt.Fprintf(os.Stderr, "  solve %.1fs: %d/%d proved %v, trivially true %d, witnessed %d, unwitnessed %v, compared %d diffs %v axioms %d bad %v\n", rep.SolveSec, rep.Proved, rep.Obligations, rep.ByHow, rep.Trivial, len(rep.Witnessed), rep.Unwitnessed, rep.Compared, rep.Diffs, rep.AxiomChecks, rep.AxiomBad)
		if rep.Violation != nil {
			fmt.Fprintf(os.Stderr, "  VIOLATION %s %s: %s\n   inputs %s\n", rep.Violation.Label, rep.Violation.Pos, rep.Violation.Why, rep.Violation.Inputs)
		}
	}
}

// describe renders an input assignment.
func describe(e *exec.Engine, m smt.Model) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	strs := map[string][]byte{}
	for _, k := range ks {
		v := m[k]
		switch e.InputKind[k] {
		case "f64":
			out = append(out, fmt.Sprintf("%s=%v", k, math.Float64frombits(v)))
		case "f32":
			out = append(out, fmt.Sprintf("%s=%v", k, math.Float32frombits(uint32(v))))
		case "bool":
			out = append(out, fmt.Sprintf("%s=%v", k, v != 0))
		case "byte":
			i := strings.LastIndexByte(k, '.')
			n, _ := strconv.Atoi(k[i+1:])
			b := strs[k[:i]]
			for len(b) <= n {
				b = append(b, ' ')
			}
			if v != 0 {
				b[n] = byte(v)
			}
			strs[k[:i]] = b
		default:
			out = append(out, fmt.Sprintf("%s=%d", k, int64(v)))
		}
	}
	for k, b := range strs {
		out = append(out, fmt.Sprintf("%s=%q", k, b))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}
