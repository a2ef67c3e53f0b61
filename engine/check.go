package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"gosym/smt"
)

type job struct {
	h   *Harness
	cs  string
	rep *Report
}

// cases expands "//gosym:cases name n [name n]" into fixed choices.
func cases(h *Harness, thorough bool) []string {
	out := []string{""}
	ds := h.D["cases"]
	if thorough && len(h.D["thorough-cases"]) > 0 {
		ds = h.D["thorough-cases"]
	}
	for _, p := range pairs(ds) {
		n, _ := strconv.Atoi(p[1])
		var next []string
		for _, o := range out {
			for i := 0; i < n; i++ {
				s := fmt.Sprintf("%s=%d", p[0], i)
				if o != "" {
					s = o + "," + s
				}
				next = append(next, s)
			}
		}
		out = next
	}
	return out
}

func pairs(ds []string) [][]string {
	f := strings.Fields(strings.Join(ds, " "))
	var out [][]string
	for i := 0; i+1 < len(f); i += 2 {
		out = append(out, f[i:i+2])
	}
	return out
}

func check(args []string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	var ids []string
	for _, a := range args {
		switch a {
		case "--thorough":
			tier = "thorough"
		case "--quick":
			tier = "quick"
		default:
			ids = append(ids, a)
		}
	}
	if tier != "thorough" {
		tier = "quick"
	}
	id := ids[0]
	only := ""
	if len(ids) > 1 {
		only = ids[1]
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	hs, err := harnesses()
	if err != nil {
		fmt.Fprintln(os.Stderr, "gosym:", err)
		return 2
	}
	var jobs []*job
	for _, h := range hs {
		for _, p := range h.props() {
			if p == id && (only == "" || only == h.Name) {
				if h.get("tier", "") == "thorough" && tier != "thorough" {
					continue
				}
				for _, c := range cases(h, tier == "thorough") {
					jobs = append(jobs, &job{h: h, cs: c})
				}
			}
		}
	}
	if len(jobs) == 0 {
		fmt.Fprintln(os.Stderr, "gosym: no harness for", id)
		return 2
	}
	tmp, err := os.MkdirTemp("", "gosym-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, "gosym:", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "replay")
	b := exec.Command("go", "build", "-o", bin, "./cmd/replay")
	b.Dir = filepath.Join(root(), "harness")
	if out, err := b.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "gosym: the harness does not build against /repo: %v\n%s", err, out)
		return 2
	}
	ncpu := runtime.NumCPU()
	par := ncpu
	if par > len(jobs) {
		par = len(jobs)
	}
	workers := (ncpu + par - 1) / par
	if workers < 2 {
		workers = 2
	}
	self, _ := os.Executable()
	limit := 700 * time.Second
	if tier == "thorough" {
		limit = 100 * time.Minute
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	ch := make(chan *job)
	var wg sync.WaitGroup
	verbose := os.Getenv("GOSYM_V") != ""
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				if ctx.Err() != nil {
					j.rep = &Report{Harness: j.h.Name, Case: j.cs, Incomplete: "not started: another harness reported a violation or the time limit was reached"}
					continue
				}
				out := filepath.Join(tmp, fmt.Sprintf("%s-%s.json", j.h.Name, strings.NewReplacer(",", "_", "=", "_").Replace(j.cs)))
				a := []string{"run", "-h", j.h.Name, "-case", j.cs, "-tier", tier, "-replay", bin, "-out", out, "-seed", fmt.Sprint(seed), "-j", fmt.Sprint(workers)}
				if verbose {
					a = append(a, "-v")
				}
				c := exec.CommandContext(ctx, self, a...)
				c.Env = append(os.Environ(), "GOMEMLIMIT=3500MiB")
				c.Stderr = os.Stderr
				c.Run()
				r := &Report{Harness: j.h.Name, Case: j.cs}
				if d, err := os.ReadFile(out); err != nil || json.Unmarshal(d, r) != nil {
					if ctx.Err() != nil {
						r.Incomplete = "stopped: another harness reported a violation or the time limit was reached"
					} else {
						r.Error = "no report"
					}
				}
				j.rep = r
				if r.Violation != nil && !isKnown(id, r.Violation) {
					cancel()
				}
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	return finish(id, tier, seed, jobs, time.Since(t0).Seconds())
}

// known findings: lines "finding: property=C00 | harness=H | label=L | text".
func isKnown(id string, v *Violation) bool { _, ok := knownText(id, v); return ok }

func knownText(id string, v *Violation) (string, bool) {
	b, err := os.ReadFile(filepath.Join(root(), "known-findings.txt"))
	if err != nil {
		return "", false
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " | ", 4)
		if len(f) != 4 {
			continue
		}
		if strings.TrimSpace(f[0]) == "property="+id && strings.TrimSpace(f[1]) == "harness="+v.Harness && strings.TrimSpace(f[2]) == "label="+v.Label {
			return strings.TrimSpace(f[3]), true
		}
	}
	return "", false
}

func finish(id, tier string, seed int64, jobs []*job, wall float64) int {
	ev := filepath.Join(root(), "evidence")
	os.MkdirAll(filepath.Join(ev, "replay"), 0o755)
	funcs := map[string]bool{}
	stats := map[string]*smt.Stat{}
	how := map[string]int{}
	var blocks, edges, forks, merges, paths, asserts, trivial, obls, proved, compared, axioms int
	var native int64
	var samples, openL, unw, diffs, axbad, incompl, errs, notes []string
	reached := map[string]int{}
	witnessed := map[string]bool{}
	var hsum []map[string]interface{}
	viol := 0
	rc := 0
	noteSet := map[string]bool{}
	for _, j := range jobs {
		r := j.rep
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		for k, s := range r.Stats {
			if stats[k] == nil {
				stats[k] = &smt.Stat{}
			}
			t := stats[k]
			t.Queries += s.Queries
			t.Sat += s.Sat
			t.Unsat += s.Unsat
			t.Unknown += s.Unknown
			t.Nanos += s.Nanos
		}
		for k, n := range r.ByHow {
			how[k] += n
		}
		for k, n := range r.Reached {
			reached[k] += n
		}
		for _, n := range r.Notes {
			noteSet[n] = true
		}
		blocks += r.Blocks
		edges += r.Edges
		forks += r.Forks
		merges += r.Merges
		paths += r.Paths
		asserts += r.Asserts
		trivial += r.Trivial
		obls += r.Obligations
		proved += r.Proved
		compared += r.Compared
		axioms += r.AxiomChecks
		native += r.NativeRuns
		tag := r.Harness
		if r.Case != "" {
			tag += "[" + r.Case + "]"
		}
		for _, s := range r.Samples {
			if len(samples) < 12 {
				if len(s) > 600 {
					s = s[:600] + "..."
				}
				samples = append(samples, tag+" "+s)
			}
		}
		for _, o := range r.Open {
			if len(openL) < 60 {
				openL = append(openL, fmt.Sprintf("%s: %s %q %s: %s x%d", tag, o.Kind, o.Label, o.Pos, o.Status, o.N))
			}
		}
		for _, l := range r.Witnessed {
			witnessed[l] = true
		}
		for _, d := range r.Diffs {
			diffs = append(diffs, tag+": "+d)
		}
		axbad = append(axbad, r.AxiomBad...)
		if r.Incomplete != "" {
			incompl = append(incompl, tag+": "+r.Incomplete)
		}
		if r.Error != "" {
			errs = append(errs, tag+": "+r.Error)
		}
		hsum = append(hsum, map[string]interface{}{"harness": r.Harness, "case": r.Case, "what": strings.TrimSpace(j.h.Doc), "bounds": r.Bounds, "blocks": r.Blocks, "paths": r.Paths, "assertions": r.Asserts, "queries_proved": r.Proved, "queries": r.Obligations, "exec_s": round(r.ExeSec), "solve_s": round(r.SolveSec)})
		if v := r.Violation; v != nil {
			p := filepath.Join(ev, "replay", fmt.Sprintf("%s-%s.json", id, r.Harness))
			os.WriteFile(p, v.Replay, 0o644)
			if txt, ok := knownText(id, v); ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, txt)
				continue
			}
			if viol == 0 || rc == 0 {
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
				fmt.Printf("  harness %s: %s\n  obligation: %s %q %s\n  input: %s\n", tag, v.Why, v.Kind, v.Label, v.Pos, v.Inputs)
			}
			viol++
			rc = 1
		}
	}
	for l := range reached {
		if !witnessed[l] {
			unw = append(unw, l)
		}
	}
	sort.Strings(unw)
	for n := range noteSet {
		notes = append(notes, n)
	}
	sort.Strings(notes)
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var q, qs, qu, qk, ns int64
	solv := map[string]interface{}{}
	for k, s := range stats {
		q += s.Queries
		qs += s.Sat
		qu += s.Unsat
		qk += s.Unknown
		ns += s.Nanos
		solv[k] = map[string]interface{}{"queries": s.Queries, "sat": s.Sat, "unsat": s.Unsat, "unknown": s.Unknown, "seconds": round(float64(s.Nanos) / 1e9)}
	}
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]interface{}{
		"states":                        blocks,
		"transitions":                   edges,
		"traces_validated_against_impl": native,
		"samples":                       samples,
		"symbolic_forks":                forks,
		"state_merges":                  merges,
		"completed_paths":               paths,
		"assertion_instances":           asserts,
		"assertion_instances_settled_by_simplification": trivial,
		"queries_generated":                             obls,
		"queries_discharged":                            proved,
		"discharged_by":                                 how,
		"reduced_bound_or_inconclusive":                 openL,
		"exploration_cut_short":                         incompl,
		"functions_encoded":                             fl,
		"labels_reached":                                len(reached),
		"labels_witnessed_natively":                     len(witnessed),
		"labels_without_witness":                        unw,
		"observations_compared_with_real_code":          compared,
		"observation_differences":                       diffs,
		"axiom_instances_checked_on_inputs":             axioms,
		"axiom_instances_false":                         axbad,
		"solver_queries":                                q,
		"solver_unsat":                                  qu,
		"solver_sat":                                    qs,
		"solver_unknown":                                qk,
		"solver_seconds":                                round(float64(ns) / 1e9),
		"solvers":                                       solv,
		"harnesses":                                     hsum,
		"model_notes":                                   notes,
	}
	doc := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": assumptions, "wall_s": round(wall), "violations": viol,
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	os.WriteFile(filepath.Join(ev, id+".json"), append(b, '\n'), 0o644)
	st := "held within the stated bounds"
	if rc != 0 {
		st = "VIOLATED"
	}
	fmt.Printf("%s %s: %s; %d harness runs, %d blocks, %d assertions (%d settled by simplification), %d/%d queries proved, %d open, %d native runs, %.1fs\n", id, tier, st, len(jobs), blocks, asserts, trivial, proved, obls, len(openL), native, wall)
	if rc == 0 && len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "gosym:", e)
		}
		if len(errs) == len(jobs) {
			return 2
		}
	}
	return rc
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

var assumptions = []string{
	"go/ssa (x/tools v0.52.0) represents the source faithfully; amd64 semantics without fused multiply-add",
	"library calls listed in DESIGN.md (strings, strconv, bufio, x/text, math) behave as modelled; numeric text is modelled by its value",
	"named math functions (pow, log, sin, ...) are uninterpreted in proofs, apart from range and order axioms; counterexamples are evaluated with the real functions",
	"results hold within the bounds each harness states; anything in reduced_bound_or_inconclusive or exploration_cut_short is outside the claim",
}
