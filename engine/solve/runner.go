// Package solve decides obligations with SMT solvers and replays every
// candidate counterexample on the real code.
package solve

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"

	"gosym/smt"
)

// Failure is one failed assertion of a native run.
type Failure struct{ Kind, Label, Detail string }

// Resp is the outcome of a native run.
type Resp struct {
	Failures  []Failure
	Observed  map[string][]string
	Reached   map[string]int
	Abandoned bool
	Hang      bool
	Panic     string
	PanicPos  []string
	Crash     string
	Inputs    map[string]uint64
}

// Bad reports whether the native run broke the property.
func (r Resp) Bad() bool {
	return len(r.Failures) > 0 || r.Panic != "" || r.Hang || r.Crash != ""
}

// Why describes a failing run.
func (r Resp) Why() string {
	switch {
	case r.Hang:
		return "does not terminate"
	case r.Crash != "":
		return "crash: " + r.Crash
	case r.Panic != "":
		p := ""
		for _, x := range r.PanicPos {
			if strings.Contains(x, "/repo/") {
				p = " at " + x
				break
			}
		}
		return "panic: " + r.Panic + p
	case len(r.Failures) > 0:
		f := r.Failures[0]
		s := f.Label
		if f.Detail != "" {
			s += " (" + f.Detail + ")"
		}
		return s
	}
	return ""
}

// Runner runs one harness natively.
type Runner struct {
	Bin      string
	Harness  string
	Thorough bool
	N        int64 // native runs
}

type req struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Draw    int64             `json:"draw,omitempty"`
}

// Request renders the replay file for a model.
func (r *Runner) Request(m smt.Model) []byte {
	b, _ := json.MarshalIndent(r.req(m), "", " ")
	return append(b, '\n')
}

func (r *Runner) req(m smt.Model) req {
	in := map[string]uint64{}
	for k, v := range m {
		in[k] = v
	}
	if r.Thorough {
		in["thorough"] = 1
	}
	return req{r.Harness, in, 0}
}

// Draw runs the harness on drawn inputs; fix holds the given ones.
func (r *Runner) Draw(fix smt.Model, seed int64, n int) []Resp {
	var rs []req
	for i := 0; i < n; i++ {
		q := r.req(fix)
		q.Draw = seed*1000 + int64(i) + 1
		rs = append(rs, q)
	}
	atomic.AddInt64(&r.N, int64(n))
	out, _ := r.exec(rs)
	return out
}

// Run executes the models natively.
func (r *Runner) Run(ms []smt.Model) []Resp {
	if len(ms) == 0 {
		return nil
	}
	var rs []req
	for _, m := range ms {
		rs = append(rs, r.req(m))
	}
	atomic.AddInt64(&r.N, int64(len(ms)))
	out, err := r.exec(rs)
	if len(out) == len(ms) {
		return out
	}
	if len(ms) == 1 {
		if len(out) == 1 {
			return out
		}
		return []Resp{{Crash: err}}
	}
	var all []Resp
	for _, m := range ms {
		o, err := r.exec([]req{r.req(m)})
		if len(o) == 1 {
			all = append(all, o[0])
		} else {
			all = append(all, Resp{Crash: err})
		}
	}
	return all
}

func (r *Runner) exec(rs []req) ([]Resp, string) {
	b, _ := json.Marshal(rs)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(20+len(rs))*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", "ulimit -v 8000000; exec "+r.Bin)
	cmd.Stdin = bytes.NewReader(b)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	var out []Resp
	if json.Unmarshal(so.Bytes(), &out) == nil {
		return out, ""
	}
	msg := se.String()
	if i := strings.Index(msg, "\n"); i > 0 {
		msg = msg[:i]
	}
	if len(msg) > 200 {
		msg = msg[:200]
	}
	return nil, fmt.Sprintf("%v: %s", err, msg)
}
