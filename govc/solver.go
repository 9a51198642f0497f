package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Solver discharges verification conditions. A persistent z3 answers the many
// small questions (reset between queries, so nothing is shared); hard ones go
// to a portfolio of independent one-shot processes.
type Solver struct {
	quickBad int
	p       *Pool
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	memo    map[string]string
	quickMs int
	fastMs  int
	hardMs  int
	seconds float64
	queries int
	byName  map[string]int
	dumpDir string
	ndump   int
	stop    *atomic.Bool
}

var portfolioSem = make(chan struct{}, 8)

func NewSolver(p *Pool, hardMs int) *Solver {
	return &Solver{p: p, memo: map[string]string{}, quickMs: 400, fastMs: 2500, hardMs: hardMs, byName: map[string]int{}}
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2", "-memory:4000")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<20)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
}
func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// ask sends one complete script to the persistent solver.
func (s *Solver) ask(script string, ms int) string {
	if d := os.Getenv("GOVC_DUMPALL"); d != "" {
		s.ndump++
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, s.ndump), []byte(script+"(check-sat)\n"), 0644)
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0).Seconds()
		s.seconds += d
		s.queries++
		if d > 1 && os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "  slow query %.1fs of %d ms\n", d, ms)
		}
	}()
	if s.cmd == nil {
		s.start()
	}
	cmd := s.cmd
	w := time.AfterFunc(time.Duration(ms)*time.Millisecond*3+3*time.Second, func() { cmd.Process.Kill() })
	defer w.Stop()
	_, err := fmt.Fprintf(s.in, "(reset)\n(set-option :timeout %d)\n%s(check-sat)\n(echo \"<done>\")\n", ms, script)
	res := ""
	if err == nil {
		for {
			line, e := s.out.ReadString('\n')
			if e != nil {
				err = e
				break
			}
			line = strings.TrimSpace(line)
			if line == "<done>" {
				break
			}
			if strings.HasPrefix(line, "(error") {
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "solver:", line)
					os.WriteFile("/tmp/govc_err.smt2", []byte(script), 0644)
				}
				if strings.Contains(line, "memory") || strings.Contains(line, "canceled") || strings.Contains(line, "timeout") {
					continue
				}
				res = "error"
				continue
			}
			if res == "" {
				res = line
			}
		}
	}
	if err != nil {
		s.Close()
		return "unknown"
	}
	if res == "error" && os.Getenv("GOVC_DEBUG") == "" {
		return "unknown"
	}
	return res
}

func key(pcs []*Term, goal *Term) string {
	ids := make([]int, len(pcs))
	for i, t := range pcs {
		ids[i] = t.ID
	}
	sort.Ints(ids)
	g := 0
	if goal != nil {
		g = goal.ID
	}
	return fmt.Sprint(ids, g)
}

// quickSat is used to prune paths: anything but "unsat" keeps the path.
func (s *Solver) quickSat(pcs []*Term) string {
	k := "q" + key(pcs, nil)
	if r, ok := s.memo[k]; ok {
		return r
	}
	r := "unknown"
	if !s.stopped() {
		// once quantified assumptions have proved costly, look at the others first
		if s.quickBad >= 3 {
			var ground []*Term
			for _, t := range pcs {
				if !s.quantified(t) {
					ground = append(ground, t)
				}
			}
			if len(ground) < len(pcs) {
				r = s.ask(s.p.Build(ground), s.quickMs)
				if r != "unsat" {
					r = s.ask(s.p.Build(pcs), s.quickMs/5)
				}
				s.memo[k] = r
				return r
			}
		}
		r = s.ask(s.p.Build(pcs), s.quickMs)
		if r == "unknown" {
			s.quickBad++
		}
	}
	s.memo[k] = r
	return r
}

func (s *Solver) quantified(t *Term) bool { return s.p.hasQ(t) }

func (s *Solver) stopped() bool { return s.stop != nil && s.stop.Load() }

func (s *Solver) sat(pcs []*Term) string {
	r := s.ask(s.p.Build(pcs), s.fastMs)
	return r
}

// relevant keeps the assumptions that share symbols (transitively) with the goal.
func (s *Solver) relevant(pcs []*Term, goal *Term) []*Term {
	syms := make([]map[string]bool, len(pcs))
	for i, t := range pcs {
		syms[i] = s.symbols(t)
	}
	cur := map[string]bool{}
	for k := range s.symbols(goal) {
		cur[k] = true
	}
	in := make([]bool, len(pcs))
	for ch := true; ch; {
		ch = false
		for i := range pcs {
			if in[i] {
				continue
			}
			hit := len(syms[i]) == 0
			for k := range syms[i] {
				if cur[k] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				ch = true
				for k := range syms[i] {
					cur[k] = true
				}
			}
		}
	}
	var out []*Term
	for i, t := range pcs {
		if in[i] {
			out = append(out, t)
		}
	}
	return out
}

func (s *Solver) symbols(t *Term) map[string]bool {
	out := map[string]bool{}
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op == "var" || (t.Op == "app" && len(t.Args) == 0) {
			out[t.S] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
		for _, f := range t.facts {
			rec(f)
		}
	}
	rec(t)
	return out
}

func (s *Solver) proveFast(pcs []*Term, goal *Term) (string, string) {
	k := "f" + key(pcs, goal)
	if r, ok := s.memo[k]; ok {
		return r, "z3"
	}
	r := "unknown"
	if !s.stopped() {
		r = s.ask(s.p.Build(append(s.relevant(pcs, goal), s.p.Not(goal))), s.fastMs)
	}
	s.memo[k] = r
	return r, "z3"
}

func (s *Solver) prove(pcs []*Term, goal *Term) (string, string) {
	k := "p" + key(pcs, goal)
	if r, ok := s.memo[k]; ok {
		return r, "memo"
	}
	neg := s.p.Not(goal)
	rel := s.relevant(pcs, goal)
	sc := s.p.Build(append(append([]*Term{}, rel...), neg))
	r := s.ask(sc, s.fastMs)
	name := "z3-5.3"
	if r == "sat" && len(rel) != len(pcs) {
		// the dropped assumptions may be contradictory
		sc = s.p.Build(append(append([]*Term{}, pcs...), neg))
		r = s.ask(sc, s.fastMs)
	}
	if r != "unsat" && r != "sat" && !s.stopped() {
		r, name = s.portfolio(sc, s.hardMs)
	}
	s.byName[name]++
	if r != "unsat" && s.dumpDir != "" {
		s.ndump++
		os.WriteFile(fmt.Sprintf("%s/vc%d.smt2", s.dumpDir, s.ndump), []byte(sc+"(check-sat)\n"), 0644)
	}
	s.memo[k] = r
	return r, name
}

type pf struct {
	name string
	args []string
	pre  string
}

var solvers = []pf{
	{"z3-5.3", []string{"z3-new", "-memory:4000"}, ""},
	{"cvc5", []string{"cvc5", "--nl-ext-tplanes", "--force-logic=ALL"}, "(set-logic ALL)\n"},
	{"z3-4.8", []string{"z3", "-memory:4000"}, ""},
	{"z3-5.3-arith2", []string{"z3-new", "-memory:4000", "smt.arith.solver=2"}, ""},
}

func (s *Solver) portfolio(script string, ms int) (string, string) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0).Seconds()
		s.seconds += d
		if d > 1 && os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "  slow portfolio %.1fs of %d ms\n", d, ms)
		}
	}()
	f, err := os.CreateTemp("", "govc*.smt2")
	if err != nil {
		return "unknown", "none"
	}
	defer os.Remove(f.Name())
	f.WriteString("(set-logic ALL)\n" + portable(script) + "(check-sat)\n")
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond+2*time.Second)
	defer cancel()
	type ans struct{ r, n string }
	ch := make(chan ans, len(solvers))
	var wg sync.WaitGroup
	for _, sv := range solvers {
		sv := sv
		wg.Add(1)
		go func() {
			defer wg.Done()
			select {
			case portfolioSem <- struct{}{}:
			case <-ctx.Done():
				ch <- ans{"unknown", sv.name}
				return
			}
			defer func() { <-portfolioSem }()
			c2, cancel2 := context.WithTimeout(ctx, time.Duration(ms)*time.Millisecond)
			defer cancel2()
			out, _ := exec.CommandContext(c2, sv.args[0], append(append([]string{}, sv.args[1:]...), f.Name())...).Output()
			r := "unknown"
			for _, l := range strings.Split(string(out), "\n") {
				l = strings.TrimSpace(l)
				if l == "sat" || l == "unsat" {
					r = l
					break
				}
				if strings.HasPrefix(l, "(error") {
					break
				}
			}
			ch <- ans{r, sv.name}
		}()
	}
	res := ans{"unknown", "portfolio"}
	for range solvers {
		a := <-ch
		if a.r == "sat" || a.r == "unsat" {
			res = a
			break
		}
	}
	cancel()
	return res.r, res.n
}

// portable replaces constant arrays of uninterpreted values, which not every
// solver reads, by named arrays with an axiom.
func portable(script string) string {
	const ca = "((as const (Array Int Str)) |lit:|)"
	if !strings.Contains(script, ca) {
		return script
	}
	k := strings.Index(script, "(define-fun ")
	if k2 := strings.Index(script, "(assert "); k < 0 || (k2 >= 0 && k2 < k) {
		k = k2
	}
	if k < 0 {
		return script
	}
	return script[:k] + "(declare-fun zarr!Str () (Array Int Str))\n(assert (forall ((q Int)) (= (select zarr!Str q) |lit:|)))\n" +
		strings.ReplaceAll(script[k:], ca, "zarr!Str")
}

// model evaluates terms in a model of the assertions; nil when none is found.
type Model struct {
	s      *Solver
	script string
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	ok     bool
	p      *Pool
	cache  map[int]string
}

func (s *Solver) model(asserts []*Term, extra []*Term, ms int) *Model {
	sc := s.p.Build(append(append([]*Term{}, asserts...), extra...))
	m := &Model{s: s, p: s.p, cache: map[int]string{}}
	m.cmd = exec.Command("z3-new", "-in", "-smt2", "-memory:4000")
	m.in, _ = m.cmd.StdinPipe()
	o, _ := m.cmd.StdoutPipe()
	m.out = bufio.NewReaderSize(o, 1<<20)
	if m.cmd.Start() != nil {
		return nil
	}
	time.AfterFunc(time.Duration(ms)*time.Millisecond+20*time.Second, func() { m.cmd.Process.Kill() })
	fmt.Fprintf(m.in, "(set-option :timeout %d)\n(set-option :model.completion true)\n%s(check-sat)\n", ms, sc)
	for {
		line, err := m.out.ReadString('\n')
		if err != nil {
			return nil
		}
		line = strings.TrimSpace(line)
		if line == "sat" || line == "unknown" {
			break
		}
		if line == "unsat" {
			m.Close()
			return nil
		}
	}
	m.ok = true
	return m
}
func (m *Model) Close() {
	m.in.Close()
	m.cmd.Process.Kill()
	m.cmd.Wait()
}

// Eval gives the value of t as SMT text. New symbols are declared on the fly.
func (m *Model) Eval(t *Term) string {
	if t.Op == "int" {
		return t.I.String()
	}
	if v, ok := m.cache[t.ID]; ok {
		return v
	}
	fmt.Fprintf(m.in, "(eval %s :completion true)\n(echo \"<done>\")\n", m.p.sexp(t, nil))
	var sb strings.Builder
	for {
		line, err := m.out.ReadString('\n')
		if err != nil {
			return ""
		}
		if strings.TrimSpace(line) == "<done>" {
			break
		}
		sb.WriteString(line)
	}
	v := strings.TrimSpace(sb.String())
	m.cache[t.ID] = v
	return v
}
