package smt

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Verdict int

const (
	Unknown Verdict = iota
	Sat
	Unsat
)

func (v Verdict) String() string { return [...]string{"unknown", "sat", "unsat"}[v] }

type Stat struct {
	Queries int64
	Unsat   int64
	Sat     int64
	Unknown int64
	Nanos   int64
}

var Stats = map[string]*Stat{}
var statMu sync.Mutex

func record(kind string, v Verdict, d time.Duration) {
	statMu.Lock()
	s := Stats[kind]
	if s == nil {
		s = &Stat{}
		Stats[kind] = s
	}
	statMu.Unlock()
	atomic.AddInt64(&s.Queries, 1)
	atomic.AddInt64(&s.Nanos, int64(d))
	switch v {
	case Sat:
		atomic.AddInt64(&s.Sat, 1)
	case Unsat:
		atomic.AddInt64(&s.Unsat, 1)
	default:
		atomic.AddInt64(&s.Unknown, 1)
	}
}

var solverCmd = map[string][]string{
	"z3":     {"z3", "-in", "-smt2"},
	"z3-new": {"z3-new", "-in", "-smt2"},
	"cvc5":   {"cvc5", "--lang=smt2", "--fp-exp"},
}

// Query is a prepared solver run.
type Query struct {
	Solver string
	mode   Mode
	script string
	vs     []*Term
	triv   bool
}

// Prepare renders a query (it reads the term table; see the caller's lock).
func Prepare(solver string, m Mode, ts []*Term) *Query {
	return PrepareAll([]string{solver}, m, ts)[0]
}

// PrepareAll renders the same query for several solvers.
func PrepareAll(solvers []string, m Mode, ts []*Term) []*Query {
	triv := false
	for _, t := range ts {
		if t.IsFalse() {
			triv = true
		}
	}
	var script string
	var vs []*Term
	if !triv {
		script, vs = Script(m, ts, true)
	}
	var out []*Query
	for _, s := range solvers {
		sc := script
		if s == "cvc5" {
			sc = "(set-logic ALL)\n" + sc
		}
		out = append(out, &Query{s, m, sc, vs, triv})
	}
	return out
}

// Run executes the query.
func (q *Query) Run(timeout time.Duration) (Verdict, Model) { return q.RunStop(timeout, nil) }

// RunStop is Run with early cancellation.
func (q *Query) RunStop(timeout time.Duration, stop chan struct{}) (Verdict, Model) {
	if q.triv {
		return Unsat, nil
	}
	return runScript(q.Solver, q.mode, q.script, q.vs, timeout, stop)
}

// Check runs one query in its own solver process.
func Check(solver string, m Mode, ts []*Term, timeout time.Duration) (Verdict, Model) {
	return Prepare(solver, m, ts).Run(timeout)
}

func runScript(solver string, m Mode, script string, vs []*Term, timeout time.Duration, stop chan struct{}) (Verdict, Model) {
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	if stop != nil {
		go func() {
			select {
			case <-stop:
				cancel()
			case <-ctx.Done():
			}
		}()
	}
	c := solverCmd[solver]
	args := append([]string(nil), c[1:]...)
	switch solver {
	case "cvc5":
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()+100))
	default:
		args = append(args, fmt.Sprintf("-T:%d", int(timeout.Seconds())+1), "-memory:4000")
	}
	cmd := exec.CommandContext(ctx, c[0], args...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	s := string(out)
	v := Unknown
	var mod Model
	line := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		line = s[:i]
	}
	switch strings.TrimSpace(line) {
	case "sat":
		v = Sat
	case "unsat":
		v = Unsat
	}
	if v == Sat && len(vs) > 0 {
		rest := s[len(line):]
		if strings.Contains(rest, "(error") {
			v = Unknown
		} else {
			mod = parseModel(rest, vs, m)
			if mod == nil {
				v = Unknown
			}
		}
	} else if v == Sat {
		mod = Model{}
	}
	if v == Unknown && strings.Contains(s, "(error") && ctx.Err() == nil {
		if DebugErr != nil {
			DebugErr(solver, s, script)
		}
	}
	record(solver+"/"+m.String(), v, time.Since(t0))
	return v, mod
}

// RunText runs a script whose only answer is its verdict.
func RunText(solver, kind, script string, timeout time.Duration, stop chan struct{}) Verdict {
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	go func() {
		select {
		case <-stop:
			cancel()
		case <-ctx.Done():
		}
	}()
	c := solverCmd[solver]
	args := append([]string(nil), c[1:]...)
	if solver != "cvc5" {
		args = append(args, fmt.Sprintf("-T:%d", int(timeout.Seconds())+1), "-memory:4000")
	}
	cmd := exec.CommandContext(ctx, c[0], args...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.Output()
	v := Unknown
	switch strings.TrimSpace(strings.SplitN(string(out), "\n", 2)[0]) {
	case "sat":
		v = Sat
	case "unsat":
		v = Unsat
	}
	if strings.Contains(string(out), "(error") && ctx.Err() == nil && DebugErr != nil {
		DebugErr(solver, string(out), script)
	}
	record(solver+"/"+kind, v, time.Since(t0))
	return v
}

var DebugErr func(solver, out, script string)

// parseModel parses ((|x| val) ...) in order.
func parseModel(s string, vs []*Term, m Mode) Model {
	toks := tokenize(s)
	i := 0
	var parse func() interface{}
	parse = func() interface{} {
		if i >= len(toks) {
			return nil
		}
		t := toks[i]
		i++
		if t == "(" {
			var l []interface{}
			for i < len(toks) && toks[i] != ")" {
				l = append(l, parse())
			}
			i++
			return l
		}
		return t
	}
	top, ok := parse().([]interface{})
	if !ok || len(top) != len(vs) {
		return nil
	}
	mod := Model{}
	for k, e := range top {
		l, ok := e.([]interface{})
		if !ok || len(l) != 2 {
			return nil
		}
		v, ok := parseVal(l[1])
		if !ok {
			return nil
		}
		mod[vs[k].Name] = v
	}
	return mod
}

func parseVal(x interface{}) (uint64, bool) {
	switch v := x.(type) {
	case string:
		switch {
		case v == "true":
			return 1, true
		case v == "false":
			return 0, true
		case strings.HasPrefix(v, "#x"):
			u, err := strconv.ParseUint(v[2:], 16, 64)
			return u, err == nil
		case strings.HasPrefix(v, "#b"):
			u, err := strconv.ParseUint(v[2:], 2, 64)
			return u, err == nil
		}
	case []interface{}:
		if len(v) == 3 {
			if s, ok := v[1].(string); ok && strings.HasPrefix(s, "bv") {
				u, err := strconv.ParseUint(s[2:], 10, 64)
				return u, err == nil
			}
		}
	}
	return 0, false
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			if j < 0 {
				return out
			}
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// Session is an incremental solver process used for feasibility queries.
type Session struct {
	solver  string
	mode    Mode
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	p       *printer
	timeout int
	n       int
}

func NewSession(solver string, m Mode, timeoutMs int) *Session {
	return &Session{solver: solver, mode: m, timeout: timeoutMs}
}

func (s *Session) start() error {
	c := solverCmd[s.solver]
	s.cmd = exec.Command(c[0], c[1:]...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<20)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.p = newPrinter(s.mode)
	fmt.Fprintf(s.in, "(set-option :produce-models true)\n(set-option :timeout %d)\n%s", s.timeout, prelude(s.mode))
	return nil
}

func (s *Session) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check decides the conjunction of ts; a model is returned when satisfiable.
func (s *Session) Check(ts []*Term, wantModel bool) (Verdict, Model) {
	for _, t := range ts {
		if t.IsFalse() {
			return Unsat, nil
		}
	}
	t0 := time.Now()
	s.n++
	if s.n%2000 == 0 { // bound solver memory
		s.Close()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	s.p.sb.Reset()
	s.p.lower(ts...)
	s.p.sb.WriteString("(push 1)\n")
	for _, t := range ts {
		fmt.Fprintf(s.p.sb, "(assert %s)\n", s.p.names[t.ID])
	}
	s.p.sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, s.p.sb.String()); err != nil {
		s.Close()
		return Unknown, nil
	}
	kill := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond*4+2*time.Second, func() {
		if c := s.cmd; c != nil {
			c.Process.Kill()
		}
	})
	defer kill.Stop()
	line, err := s.out.ReadString('\n')
	v := Unknown
	switch strings.TrimSpace(line) {
	case "sat":
		v = Sat
	case "unsat":
		v = Unsat
	}
	if err != nil || strings.Contains(line, "error") {
		if DebugErr != nil {
			DebugErr(s.solver+"-session", line, s.p.sb.String())
		}
		s.Close()
		record(s.solver+"/session-"+s.mode.String(), Unknown, time.Since(t0))
		return Unknown, nil
	}
	var mod Model
	if v == Sat && wantModel {
		vs := Vars(ts...)
		mod = Model{}
		if len(vs) > 0 {
			q := "(get-value ("
			for _, x := range vs {
				q += varQueryName(x, s.mode) + " "
			}
			io.WriteString(s.in, q+"))\n")
			depth, buf := 0, strings.Builder{}
			for {
				b, err := s.out.ReadByte()
				if err != nil {
					s.Close()
					return Unknown, nil
				}
				buf.WriteByte(b)
				if b == '|' {
					str, _ := s.out.ReadString('|')
					buf.WriteString(str)
					continue
				}
				if b == '(' {
					depth++
				}
				if b == ')' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			s.out.ReadString('\n')
			mod = parseModel(buf.String(), vs, s.mode)
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	record(s.solver+"/session-"+s.mode.String(), v, time.Since(t0))
	return v, mod
}
