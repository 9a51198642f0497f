package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
)

type session struct {
	repo, root string
	cs         *Contracts
	pr         *Program
	loadErrs   []string
	loadSecs   float64
	pkgsN      int
}

func openSession(repo, root string, want func(c *Contract) bool) (*session, error) {
	t0 := time.Now()
	cs, err := loadContracts(repo, root)
	if err != nil {
		return nil, err
	}
	s := &session{repo: repo, root: root, cs: cs}
	keepModFile(repo)
	dirs := map[string]bool{}
	for _, f := range cs.Files {
		for _, c := range f.Cts {
			if want(c) {
				if _, err := os.Stat(filepath.Join(repo, f.Rel)); err == nil {
					dirs[modPath+"/"+f.Rel] = true
				} else {
					c.Broken = "package directory is gone"
				}
			}
		}
	}
	var pats []string
	for d := range dirs {
		pats = append(pats, d)
	}
	sort.Strings(pats)
	if len(pats) == 0 {
		return s, fmt.Errorf("no contract selected")
	}
	for try := 0; try < 8; try++ {
		_, pk, err := loadProgram(repo, pats, cs.overlay())
		if err != nil {
			return s, err
		}
		changed, other := cs.blank(pk)
		if changed {
			continue
		}
		s.loadErrs = other
		if len(other) > 0 {
			return s, fmt.Errorf("the repository does not type-check: %s", strings.Join(other[:min(len(other), 3)], "; "))
		}
		packages.Visit(pk, nil, func(p *packages.Package) { s.pkgsN++ })
		s.pr = buildProgram(pk)
		cs.bind(s.pr)
		s.loadSecs = time.Since(t0).Seconds()
		return s, nil
	}
	return s, fmt.Errorf("contract files do not compile")
}

func (c *Contract) hasProp(id string) bool {
	for _, p := range c.Props {
		if p == id {
			return true
		}
	}
	for _, ps := range c.EnsProps {
		for _, p := range ps {
			if p == id {
				return true
			}
		}
	}
	return false
}

func oblHas(o *Obl, id string) bool {
	for _, p := range o.Props {
		if p == id {
			return true
		}
	}
	return false
}

// verifyAll verifies the selected contracts and the modular contracts they rely on.
func (s *session) verifyAll(sel []*Contract, hardMs int, budget time.Duration) []*Result {
	var mu sync.Mutex
	var out []*Result
	done := map[string]bool{}
	queue := append([]*Contract{}, sel...)
	for len(queue) > 0 {
		var wg sync.WaitGroup
		sem := make(chan struct{}, max(2, runtime.NumCPU()-2))
		for _, c := range queue {
			if done[c.ID] || c.Broken != "" || c.FuzzOnly {
				continue
			}
			done[c.ID] = true
			c := c
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				h := hardMs
				if c.HardMs > 0 {
					h = c.HardMs
				}
				r := verifyContract(s.pr, c, h, budget, 0)
				mu.Lock()
				out = append(out, r)
				mu.Unlock()
			}()
		}
		wg.Wait()
		queue = nil
		for _, r := range out {
			for _, u := range r.UsedCt {
				if !done[u] {
					for _, c := range s.pr.contracts {
						if c.ID == u {
							queue = append(queue, c)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Ct.ID < out[j].Ct.ID })
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: govc verify|check|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
		dropModFile()
	case "check":
		rc := cmdCheck(os.Args[2:])
		dropModFile()
		os.Exit(rc)
	case "replay":
		rc := cmdReplay(os.Args[2:])
		dropModFile()
		os.Exit(rc)
	case "list":
		cs, err := loadContracts("/repo", "/verif/contracts")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, f := range cs.Files {
			for _, c := range f.Cts {
				fmt.Println(c.ID, c.Props, c.EnsProps)
			}
		}
	default:
		os.Exit(2)
	}
}

var modDir string

// keepModFile: the go command works on a copy of go.mod, so that it never
// rewrites the repository's.
func keepModFile(repo string) {
	if modDir != "" {
		return
	}
	d, err := os.MkdirTemp("", "govcmod")
	if err != nil {
		return
	}
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, n))
		if err == nil {
			err = os.WriteFile(filepath.Join(d, n), b, 0644)
		}
		if err != nil {
			os.RemoveAll(d)
			return
		}
	}
	modDir = d
	os.Setenv("GOFLAGS", "-mod=mod -modfile="+filepath.Join(d, "go.mod"))
}

func dropModFile() {
	if modDir != "" {
		os.RemoveAll(modDir)
	}
}

func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	root := fs.String("root", "/verif/contracts", "")
	ctre := fs.String("ct", ".", "")
	prop := fs.String("prop", "", "")
	hard := fs.Int("hard", 10000, "")
	bud := fs.Int("budget", 200, "")
	bounded := fs.Int("bounded", 0, "")
	verbose := fs.Bool("v", false, "")
	replay := fs.Bool("replay", false, "")
	fs.Parse(args)
	re := regexp.MustCompile(*ctre)
	want := func(c *Contract) bool { return re.MatchString(c.ID) && (*prop == "" || c.hasProp(*prop)) }
	s, err := openSession(*repo, *root, want)
	if err != nil {
		fmt.Println("load:", err)
		if s == nil || s.pr == nil {
			os.Exit(2)
		}
	}
	for id, m := range s.cs.Broken {
		fmt.Println("BROKEN", id, m)
	}
	fmt.Printf("loaded in %.1fs, %d packages, division precision %d\n", s.loadSecs, s.pkgsN, s.pr.divPrecision)
	var sel []*Contract
	for _, c := range s.pr.contracts {
		if want(c) {
			sel = append(sel, c)
		}
	}
	var res []*Result
	if *bounded > 0 {
		for _, c := range sel {
			res = append(res, verifyContract(s.pr, c, *hard, time.Duration(*bud)*time.Second, *bounded))
		}
	} else {
		res = s.verifyAll(sel, *hard, time.Duration(*bud)*time.Second)
	}
	var rp *Replayer
	if *replay {
		d, _ := os.MkdirTemp("", "govcreplay")
		defer os.RemoveAll(d)
		rp = &Replayer{cs: s.cs, dir: d, bins: map[string]string{}, errs: map[string]string{}}
	}
	bad := 0
	for _, r := range res {
		fails := 0
		for _, o := range r.Obls {
			if o.Status != "" || (o.Cover && !o.Covered) {
				fails++
			}
		}
		st := "ok  "
		if fails > 0 || r.Unsupported != "" {
			st = "FAIL"
			bad++
		}
		fmt.Printf("%s %-60s obl=%d paths=%d %.1fs (solver %.1fs, %d queries)\n", st, r.Ct.ID, len(r.Obls), r.Paths, r.Seconds, r.SolverSecs, r.Queries)
		if r.Unsupported != "" {
			fmt.Println("    UNSUPPORTED:", r.Unsupported)
		}
		for _, o := range r.Obls {
			if o.Status != "" {
				fmt.Printf("    %s %s (%s) vcs=%d\n", strings.ToUpper(o.Status), o.Name, o.Reason, o.VCs)
				if *verbose && len(o.Failed) > 0 {
					vc := o.Failed[0]
					fmt.Println("      goal:", r.eng.p.Show(vc.goal))
					for _, t := range vc.pcs {
						fmt.Println("      pc:", r.eng.p.Show(t))
					}
				}
				if rp != nil {
					for _, vc := range o.Failed {
						if in := r.eng.extract(vc, 5000); in != nil {
							js, _ := json.Marshal(in)
							ro := rp.run(r.Ct, in, 20)
							fmt.Println("      replay:", ro.Result, ro.Err, string(js)[:min(len(js), 600)])
							if ro.Err != "" {
								fmt.Println(ro.Raw)
							}
							break
						} else {
							fmt.Println("      no model")
						}
					}
				}
			} else if o.Cover && !o.Covered {
				fmt.Println("    NOT COVERED", o.Name)
			} else if *verbose {
				fmt.Println("    ok", o.Name, o.VCs, o.Solver)
			}
		}
		if rp != nil && *bounded == 0 && *verbose {
			ro := rp.run(r.Ct, &replayIn{Contract: r.Ct.Name, Fuzz: 20000, Seed: 1, Budget: 5, Ints: r.Dict[0], Strs: r.Dict[1], MayPanic: r.Ct.MayPanic}, 30)
			fmt.Println("    fuzz:", ro.Result, ro.Err, ro.Args)
			if ro.Err != "" {
				fmt.Println(ro.Raw)
			}
		}
		if *verbose {
			fmt.Println("    inlined:", r.Inlined)
			fmt.Println("    havocked:", r.Havocked)
			fmt.Println("    modelled:", r.Modelled)
			fmt.Println("    abstracted:", r.Abstracted)
			fmt.Println("    loops:", r.Loops, "invariants", r.Invariants)
		}
	}
	if bad > 0 {
		dropModFile()
		os.Exit(1)
	}
}
