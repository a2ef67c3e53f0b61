// Command replay runs one harness natively on recorded inputs against the
// real code and reports the failures as JSON.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"vharness/sym"
)

type req struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Draw    int64             `json:"draw,omitempty"`
}

type resp struct {
	Inputs    map[string]uint64 `json:",omitempty"`
	Failures  []sym.Failure
	Observed  map[string][]string
	Reached   map[string]int
	Abandoned bool
	Hang      bool
	Panic     string
	PanicPos  []string
}

func run(r req) (out resp) {
	sym.In = r.Inputs
	if sym.In == nil {
		sym.In = map[string]uint64{}
	}
	sym.Draw = nil
	if r.Draw != 0 {
		sym.Draw = rand.New(rand.NewSource(r.Draw))
		out.Inputs = sym.In
	}
	sym.Failures = nil
	sym.Observed = map[string][]float64{}
	sym.Reached = map[string]int{}
	fn := all[r.Harness]
	if fn == nil {
		out.Panic = "no harness " + r.Harness
		return
	}
	defer func() {
		p := recover()
		out.Failures = sym.Failures
		out.Reached = sym.Reached
		out.Observed = map[string][]string{}
		for k, v := range sym.Observed {
			for _, x := range v {
				out.Observed[k] = append(out.Observed[k], fmt.Sprintf("%v", x))
			}
		}
		if p == nil {
			return
		}
		if _, ok := p.(sym.Abandoned); ok {
			out.Abandoned = true
			return
		}
		out.Panic = fmt.Sprint(p)
		for _, l := range strings.Split(string(debug.Stack()), "\n") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, ".go:"); i > 0 && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "cmd/replay") {
				if k := strings.Index(l, " +"); k > 0 {
					l = l[:k]
				}
				out.PanicPos = append(out.PanicPos, l)
			}
		}
	}()
	fn()
	return
}

// try draws again, within limits, while the assumptions do not hold.
func try(r req) resp {
	if r.Draw == 0 {
		return run(r)
	}
	given, t := r.Inputs, time.Now()
	for k := 0; ; k++ {
		r.Inputs = map[string]uint64{}
		for n, v := range given {
			r.Inputs[n] = v
		}
		x := run(r)
		if !x.Abandoned || k == 200 || time.Since(t) > 100*time.Millisecond {
			return x
		}
		r.Draw += 1 << 40
	}
}

func main() {
	debug.SetMaxStack(64 << 20)
	debug.SetMemoryLimit(2 << 30)
	var rs []req
	var b []byte
	var err error
	if len(os.Args) > 1 {
		b, err = ioutil.ReadFile(os.Args[1])
	} else {
		b, err = ioutil.ReadAll(os.Stdin)
	}
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &rs); err != nil {
		var one req
		if err2 := json.Unmarshal(b, &one); err2 != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		rs = []req{one}
	}
	var out []resp
	bad := false
	for _, r := range rs {
		ch := make(chan resp, 1)
		go func() { ch <- try(r) }()
		var x resp
		select {
		case x = <-ch:
		case <-time.After(10 * time.Second):
			x = resp{Hang: true}
			out = append(out, x)
			json.NewEncoder(os.Stdout).Encode(out)
			os.Exit(0)
		}
		if len(x.Failures) > 0 || x.Panic != "" {
			bad = true
		}
		out = append(out, x)
	}
	json.NewEncoder(os.Stdout).Encode(out)
	if len(os.Args) > 1 && bad {
		os.Exit(1)
	}
}
