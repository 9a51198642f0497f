package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The check of one property: verify every contract that carries it, and look
// for a failing input of the real code for each obligation not discharged.

type knownFinding struct {
	prop, obl, what string
}

func loadKnown(path string) []knownFinding {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		var k knownFinding
		rest := strings.Fields(l[6:])
		i := 0
		for ; i < len(rest); i++ {
			if strings.HasPrefix(rest[i], "property=") {
				k.prop = rest[i][9:]
			} else if strings.HasPrefix(rest[i], "obligation=") {
				k.obl = rest[i][11:]
			} else {
				break
			}
		}
		k.what = strings.Join(rest[i:], " ")
		out = append(out, k)
	}
	return out
}

type finding struct {
	Property   string      `json:"property"`
	Contract   string      `json:"contract"`
	Obligation string      `json:"obligation"`
	Reason     string      `json:"reason"`
	Target     string      `json:"function,omitempty"`
	Found      string      `json:"failing_input_found_by,omitempty"`
	Outcome    string      `json:"outcome_on_real_code,omitempty"`
	Args       []string    `json:"arguments,omitempty"`
	Input      interface{} `json:"input,omitempty"`
	HowTo      string      `json:"how_to_replay,omitempty"`
	Verifier   []string    `json:"verifier_output,omitempty"`
	Tried      []string    `json:"tried,omitempty"`
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	root := fs.String("root", "/verif", "")
	tier := fs.String("tier", "", "quick or thorough")
	noev := fs.Bool("noevidence", false, "")
	if len(args) == 0 || strings.HasPrefix(args[0], "-") {
		fmt.Println("usage: govc check ID [-tier quick|thorough]")
		return 2
	}
	id := args[0]
	fs.Parse(args[1:])
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	t0 := time.Now()
	ck := &checker{id: id, repo: *repo, root: *root, tier: *tier, seed: seed, t0: t0}
	ck.outDir = filepath.Join(*root, "out", id)
	os.RemoveAll(ck.outDir)
	os.MkdirAll(ck.outDir, 0755)
	hard, budget := 10000, 400*time.Second
	ck.limit = 780 * time.Second
	if *tier == "thorough" {
		hard, budget = 60000, 1500*time.Second
		ck.limit = 7200 * time.Second
	}
	known := loadKnown(filepath.Join(*root, "known_findings.txt"))
	s, err := openSession(*repo, filepath.Join(*root, "contracts"), func(c *Contract) bool { return c.hasProp(id) })
	if s == nil || s.cs == nil {
		fmt.Println("cannot read the contracts:", err)
		return 2
	}
	ck.s = s
	tmp, _ := os.MkdirTemp("", "govc")
	defer os.RemoveAll(tmp)
	ck.rp = &Replayer{cs: s.cs, dir: tmp, bins: map[string]string{}, errs: map[string]string{}}
	var fnd []*finding
	if err != nil || s.pr == nil {
		// the contracts can no longer be attached to the code
		fnd = append(fnd, &finding{Property: id, Obligation: "load", Reason: err.Error()})
	} else {
		var sel []*Contract
		for _, c := range s.pr.contracts {
			if c.hasProp(id) && !c.Helper {
				sel = append(sel, c)
			}
		}
		for _, f := range s.cs.Files {
			for _, c := range f.Cts {
				if c.hasProp(id) && c.Broken != "" {
					fnd = append(fnd, &finding{Property: id, Contract: c.ID, Obligation: "contract-attaches-to-code", Reason: "the contract no longer compiles against the code: " + c.Broken})
				}
			}
		}
		ck.res = s.verifyAll(sel, hard, budget)
		var mu sync.Mutex
		var wg sync.WaitGroup
		sem := make(chan struct{}, max(2, runtime.NumCPU()/2))
		for _, r := range ck.res {
			fo := ck.failing(r)
			if len(fo) == 0 {
				continue
			}
			r := r
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				x := ck.investigate(r, fo, known)
				mu.Lock()
				fnd = append(fnd, x...)
				mu.Unlock()
			}()
		}
		wg.Wait()
	}
	sort.SliceStable(fnd, func(i, j int) bool {
		if (fnd[i].Found != "") != (fnd[j].Found != "") {
			return fnd[i].Found != ""
		}
		if fnd[i].Contract != fnd[j].Contract {
			return fnd[i].Contract < fnd[j].Contract
		}
		return fnd[i].Obligation < fnd[j].Obligation
	})
	nv, nk := 0, 0
	var viols []*finding
	for _, f := range fnd {
		isK := false
		for _, k := range known {
			if k.prop == id && k.obl == f.Contract+"/"+f.Obligation {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, k.what, k.obl)
				isK = true
				nk++
				break
			}
		}
		if !isK {
			viols = append(viols, f)
		}
	}
	for i, f := range viols {
		nv++
		path := filepath.Join(ck.outDir, fmt.Sprintf("%02d.json", i+1))
		js, _ := json.MarshalIndent(f, "", " ")
		os.WriteFile(path, js, 0644)
		if f.Found == "" {
			fmt.Printf("failed obligation %s/%s: %s\n", f.Contract, f.Obligation, f.Reason)
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, path)
		} else {
			fmt.Printf("failed obligation %s/%s: on the real code: %s with %s\n", f.Contract, f.Obligation, f.Outcome, strings.Join(f.Args, " | "))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		}
	}
	if !*noev {
		ck.evidence(nv, nk)
	}
	tot, dis := ck.counts()
	fmt.Printf("property %s (%s): %d/%d obligations discharged over %d contracts, %d violations, %d known findings, %.1fs\n", id, *tier, dis, tot, len(ck.res), nv, nk, time.Since(t0).Seconds())
	if nv > 0 {
		return 1
	}
	return 0
}

type checker struct {
	id, repo, root, tier, outDir string
	seed                         int64
	t0                           time.Time
	limit                        time.Duration
	s                            *session
	rp                           *Replayer
	res                          []*Result
}

func (ck *checker) left() time.Duration { return ck.limit - time.Since(ck.t0) }

// relevant: every clause of a contract used as a lemma counts, otherwise only
// the clauses carrying the property.
func (ck *checker) relevant(r *Result, props []string) bool {
	if !r.Ct.hasProp(ck.id) || r.Ct.Modular {
		return true
	}
	for _, p := range props {
		if p == ck.id {
			return true
		}
	}
	return false
}

type failedObl struct {
	name, reason string
	o            *Obl
}

func (ck *checker) failing(r *Result) []failedObl {
	var out []failedObl
	if r.Unsupported != "" {
		out = append(out, failedObl{"verifiable", "outside the verifier's reach: " + r.Unsupported, nil})
	}
	for _, o := range r.Obls {
		if !ck.relevant(r, o.Props) {
			continue
		}
		if o.Status != "" {
			out = append(out, failedObl{o.Name, o.Status + ": " + o.Reason, o})
		} else if o.Cover && !o.Covered && r.Unsupported == "" {
			out = append(out, failedObl{o.Name, "vacuous: the situation can no longer occur", o})
		}
	}
	return out
}

func (ck *checker) labels(r *Result) []string {
	out := []string{"-"}
	for _, l := range r.Ct.Labels {
		ps := r.Ct.Props
		if x, ok := r.Ct.EnsProps[l]; ok {
			ps = x
		}
		if ck.relevant(r, ps) {
			out = append(out, l)
		}
	}
	return out
}

func shortTerm(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func (ck *checker) investigate(r *Result, fo []failedObl, known []knownFinding) []*finding {
	ct := r.Ct
	isKnown := func(label string) bool {
		for _, k := range known {
			if k.prop == ck.id && k.obl == ct.ID+"/"+label {
				return true
			}
		}
		return false
	}
	var out []*finding
	tgt := ""
	if ct.Target != nil {
		tgt = fnName(ct.Target)
	}
	var labels []string
	for _, l := range ck.labels(r) {
		if !isKnown(l) {
			labels = append(labels, l)
		}
	}
	byName := map[string]*finding{}
	open := 0
	for _, f := range fo {
		x := &finding{Property: ck.id, Contract: ct.ID, Obligation: f.name, Reason: f.reason, Target: tgt}
		if f.o != nil && len(f.o.Failed) > 0 {
			vc := f.o.Failed[0]
			x.Verifier = append(x.Verifier, "goal: "+shortTerm(r.eng.p.Show(vc.goal)))
			for _, t := range vc.pcs {
				x.Verifier = append(x.Verifier, "under: "+shortTerm(r.eng.p.Show(t)))
			}
		}
		out = append(out, x)
		byName[f.name] = x
		if !isKnown(f.name) {
			open++
		}
	}
	if open == 0 {
		return out
	}
	if len(ct.Stubs) > 0 {
		for _, x := range out {
			x.Tried = append(x.Tried, "not replayed: the contract assumes contracts of functions it calls, which a run would not obey")
		}
		return out
	}
	found := false
	report := func(how string, in *replayIn, ro replayOut) bool {
		lbl := ""
		switch {
		case strings.HasPrefix(ro.Result, "fail "):
			lbl = strings.TrimSpace(ro.Result[5:])
		case strings.HasPrefix(ro.Result, "panic") && !ct.MayPanic && ck.relevant(r, ct.Props):
			lbl = "no-panic"
		default:
			return false
		}
		if isKnown(lbl) {
			return false
		}
		x := byName[lbl]
		if x == nil {
			// the failing input shows another clause: attach it to the first open obligation
			for _, f := range fo {
				if !isKnown(f.name) && byName[f.name].Found == "" {
					x = byName[f.name]
					break
				}
			}
		}
		if x == nil || x.Found != "" {
			return true
		}
		x.Found, x.Outcome, x.Args, x.Input = how, ro.Result, ro.Args, in
		x.HowTo = fmt.Sprintf("save \"input\" as in.json; %s/bin/govc replay -ct %s in.json", ck.root, ct.ID)
		found = true
		return true
	}
	note := func(s string) {
		for _, x := range out {
			x.Tried = append(x.Tried, s)
		}
	}
	tryVC := func(e *Eng, o *Obl, how string) bool {
		for i, vc := range o.Failed {
			if i >= 3 || ck.left() < 60*time.Second {
				break
			}
			in := e.extract(vc, 5000)
			if in == nil {
				note(how + ": no model for " + o.Name)
				continue
			}
			in.Labels = labels
			ro := ck.rp.run(ct, in, 20)
			note(fmt.Sprintf("%s: model of %s replayed: %s %s", how, o.Name, ro.Result, shortTerm(ro.Err)))
			if report(how, in, ro) {
				return true
			}
		}
		return false
	}
	for _, f := range fo {
		if f.o != nil && f.o.Status != "" && !isKnown(f.name) {
			tryVC(r.eng, f.o, "counterexample of the failed obligation")
		}
	}
	// bounded unrolling removes the effect of missing invariants
	if !found && ck.left() > 150*time.Second {
		for _, k := range []int{2, 4} {
			if found || ck.left() < 120*time.Second {
				break
			}
			br := verifyContract(ck.s.pr, ct, 4000, 60*time.Second, k)
			if br.Unsupported != "" {
				note(fmt.Sprintf("bounded run (%d): %s", k, br.Unsupported))
			}
			for _, o := range br.Obls {
				if o.Status != "" && ck.relevant(r, o.Props) && !isKnown(o.Name) {
					if tryVC(br.eng, o, fmt.Sprintf("counterexample with loops unrolled %d times", k)) {
						break
					}
				}
			}
		}
	}
	if !found && ck.left() > 90*time.Second {
		secs := 25.0
		if ck.tier == "thorough" {
			secs = 120
		}
		in := &replayIn{Contract: ct.Name, Fuzz: 50000000, Seed: ck.seed, Budget: secs, Ints: r.Dict[0], Strs: r.Dict[1], MayPanic: ct.MayPanic || !ck.relevant(r, ct.Props), Labels: labels}
		ro := ck.rp.run(ct, in, secs+10)
		note(fmt.Sprintf("random inputs under the contract's precondition: %s %s", ro.Result, shortTerm(ro.Err)))
		report("random inputs under the contract's precondition", in, ro)
	}
	return out
}

func (ck *checker) counts() (tot, dis int) {
	for _, r := range ck.res {
		if r.Unsupported != "" {
			tot++
		}
		for _, o := range r.Obls {
			if !ck.relevant(r, o.Props) {
				continue
			}
			tot++
			if o.Status == "" && (!o.Cover || o.Covered) {
				dis++
			}
		}
	}
	return
}

func (ck *checker) evidence(nv, nk int) {
	tot, dis := ck.counts()
	uni := func(f func(r *Result) []string) []string {
		m := map[string]bool{}
		for _, r := range ck.res {
			for _, x := range f(r) {
				m[x] = true
			}
		}
		out := []string{}
		for k := range m {
			out = append(out, k)
		}
		sort.Strings(out)
		return out
	}
	under := uni(func(r *Result) []string {
		var x []string
		if r.Ct.Target != nil {
			x = append(x, fnName(r.Ct.Target))
		}
		return x
	})
	inl := uni(func(r *Result) []string { return r.Inlined })
	hav := uni(func(r *Result) []string { return r.Havocked })
	mod := uni(func(r *Result) []string { return r.Modelled })
	abs := uni(func(r *Result) []string { return r.Abstracted })
	by := map[string]int{}
	secs, q, inv, loops, vcs, paths, covers := 0.0, 0, 0, 0, 0, 0, 0
	var per []map[string]interface{}
	for _, r := range ck.res {
		for k, v := range r.BySolver {
			by[k] += v
		}
		secs += r.SolverSecs
		q += r.Queries
		inv += r.Invariants
		paths += r.Paths
		for _, n := range r.Loops {
			loops += n
		}
		names := []string{}
		for _, o := range r.Obls {
			if !ck.relevant(r, o.Props) {
				continue
			}
			vcs += o.VCs
			if o.Cover {
				covers++
			}
			st := "discharged"
			if o.Status != "" {
				st = o.Status
			} else if o.Cover && !o.Covered {
				st = "not covered"
			}
			names = append(names, fmt.Sprintf("%s: %s (%d conditions)", o.Name, st, o.VCs))
		}
		per = append(per, map[string]interface{}{"contract": r.Ct.ID, "obligations": names, "paths": r.Paths, "solver_s": r.SolverSecs})
	}
	assum := []string{
		"the Go SSA translation (golang.org/x/tools/go/ssa) and govc's own condition generator are trusted",
		"integers: fixed-width with wrap-around for the Go integer types (checked semantics, not mathematical integers); decimal.Decimal values are exact rationals with Div rounded to the configured precision; floats are reals",
		"Go memory model is sequential: no other goroutine changes the arguments while the verified function runs",
		"slices, strings and maps hold at most 2^40 elements; allocation never fails",
		"package-level variables never written by the module hold the value their initialiser computes",
	}
	for _, h := range hav {
		assum = append(assum, "assumed: "+h)
	}
	for _, h := range abs {
		assum = append(assum, "abstracted: "+h)
	}
	for _, r := range ck.res {
		assum = append(assum, ck.assumes(r.Ct)...)
	}
	ev := map[string]interface{}{
		"property": ck.id, "tier": ck.tier, "seed": ck.seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": tot, "discharged": dis,
			"checker_cmd":                    fmt.Sprintf("bin/govc check %s -tier %s", ck.id, ck.tier),
			"trusted_base":                   append([]string{"go/ssa x/tools v0.52.0", "govc (/verif/govc)", "Z3 5.3.2", "Z3 4.8.12", "cvc5 1.1.2"}, prefixAll("library model: ", mod)...),
			"functions_under_contract":       under,
			"functions_verified_by_inlining": inl,
			"known_findings_suppressed":      nk,
			"verification_conditions":        vcs,
			"cover_obligations":              covers,
			"symbolic_paths":                 paths,
			"loops_summarised":               loops,
			"loop_invariants_proved":         inv,
			"solver_queries":                 q,
			"solver_seconds":                 secs,
			"queries_by_solver":              by,
			"contracts":                      per,
		},
		"assumptions": assum, "wall_s": time.Since(ck.t0).Seconds(), "violations": nv,
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(ck.root, "evidence"), 0755)
	os.WriteFile(filepath.Join(ck.root, "evidence", ck.id+".json"), js, 0644)
}

func prefixAll(p string, l []string) []string {
	var out []string
	for _, x := range l {
		out = append(out, p+x)
	}
	return out
}

// assumes lists the unproved assumptions written in a contract.
func (ck *checker) assumes(ct *Contract) []string {
	b, err := os.ReadFile(ct.File)
	if err != nil {
		return nil
	}
	var out []string
	ls := strings.Split(string(b), "\n")
	for i := ct.Line; i < len(ls) && !strings.HasPrefix(ls[i], "}"); i++ {
		t := strings.TrimSpace(ls[i])
		if strings.HasPrefix(t, "//@ assume") {
			out = append(out, "contract "+ct.ID+" assumes: "+strings.TrimSpace(t[10:]))
		}
	}
	return out
}

// cmdReplay runs a contract on a recorded input.
func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	root := fs.String("root", "/verif/contracts", "")
	id := fs.String("ct", "", "")
	fs.Parse(args)
	if fs.NArg() != 1 {
		fmt.Println("usage: govc replay -ct CONTRACT input.json")
		return 2
	}
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	in := &replayIn{}
	if json.Unmarshal(b, in) != nil || in.Contract == "" {
		var f struct{ Input *replayIn }
		json.Unmarshal(b, &f)
		in = f.Input
	}
	s, err := openSession(*repo, *root, func(c *Contract) bool { return c.ID == *id })
	if err != nil {
		fmt.Println(err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "govc")
	defer os.RemoveAll(tmp)
	rp := &Replayer{cs: s.cs, dir: tmp, bins: map[string]string{}, errs: map[string]string{}}
	for _, c := range s.pr.contracts {
		if c.ID == *id {
			ro := rp.run(c, in, 60)
			fmt.Println(ro.Result, ro.Err)
			for _, a := range ro.Args {
				fmt.Println(a)
			}
			if strings.HasPrefix(ro.Result, "fail") || strings.HasPrefix(ro.Result, "panic") {
				return 1
			}
		}
	}
	return 0
}
