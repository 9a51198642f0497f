package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Result of verifying one contract.
type Result struct {
	Ct          *Contract
	Obls        []*Obl
	Unsupported string
	Inlined     []string
	Havocked    []string
	Modelled    []string
	Abstracted  []string
	UsedCt      []string
	Loops       map[string]int
	Invariants  int
	Paths       int
	Seconds     float64
	SolverSecs  float64
	Queries     int
	BySolver    map[string]int
	eng         *Eng
	Dict        [2][]string
}

func (e *Eng) symbolic(ct *Contract) (outs []*State) {
	st := e.newState()
	fn := ct.Func
	var args []Value
	for _, p := range fn.Params {
		v := e.fresh(p.Type(), "in:"+p.Name(), true)
		args = append(args, v)
		e.inputs = append(e.inputs, inputVal{p.Name(), p.Type(), v})
	}
	f := e.newFrame(fn, args, nil)
	f.spec = true
	st.frames = []*Frame{f}
	st.stopAt = 1
	e.ct = ct
	e.record = true
	return e.run(st)
}

func verifyContract(pr *Program, ct *Contract, hardMs int, budget time.Duration, bounded int) (res *Result) {
	t0 := time.Now()
	e := NewEng(pr, hardMs)
	e.bounded = bounded
	if ct.FastMs > 0 {
		e.sv.fastMs = ct.FastMs
	}
	if ct.Strings {
		e.p.theory = true
	}
	if d := os.Getenv("GOVC_DUMP"); d != "" {
		e.sv.dumpDir = d
	}
	e.deadline = func() bool { return time.Since(t0) > budget }
	res = &Result{Ct: ct, eng: e}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok {
					res.Unsupported = u.Msg
					return
				}
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				res.Unsupported = fmt.Sprintf("internal: %v", r)
			}
		}()
		outs := e.symbolic(ct)
		n := 0
		for _, o := range outs {
			if o.status == "ret" {
				n++
			}
		}
		e.npaths = len(outs)
		if n == 0 && bounded == 0 {
			o := e.obl("cover:returns", ct.Props)
			o.Cover = true
			o.VCs = 1
		}
	}()
	e.sv.Close()
	res.Seconds = time.Since(t0).Seconds()
	for _, n := range e.oblOrder {
		res.Obls = append(res.Obls, e.obls[n])
	}
	if bounded == 0 && res.Unsupported == "" {
		for _, l := range ct.Labels {
			if e.obls[l] == nil {
				ps := ct.Props
				if p, ok := ct.EnsProps[l]; ok {
					ps = p
				}
				res.Obls = append(res.Obls, &Obl{Name: "cover:" + l, Cover: true, Props: ps})
			}
		}
	}
	keys := func(m map[string]bool) []string {
		var out []string
		for k := range m {
			out = append(out, k)
		}
		sort.Strings(out)
		return out
	}
	res.Inlined, res.Havocked, res.Modelled, res.Abstracted, res.UsedCt = keys(e.inlined), keys(e.havocked), keys(e.modelled), keys(e.abstracted), keys(e.usedCt)
	res.Loops, res.Invariants, res.Paths = e.loopsSeen, e.invCount, e.npaths
	res.SolverSecs, res.Queries, res.BySolver = e.sv.seconds, e.sv.queries, e.sv.byName
	// constants seen: the dictionary of the random search
	di, ds := map[string]bool{}, map[string]bool{}
	for _, t := range e.p.tab {
		if t.Op == "int" && t.I.IsInt64() && len(di) < 200 && t.I.Int64() < allocBase || t.Op == "int" && t.I.BitLen() > 21 && t.I.BitLen() < 40 {
			di[t.I.String()] = true
		}
		if t.Op == "str" && len(ds) < 60 && len(t.S) < 200 {
			ds[t.S] = true
		}
	}
	res.Dict = [2][]string{keys(di), keys(ds)}
	return res
}

// ---------------------------------------------------------------- models to inputs

type extractor struct {
	e    *Eng
	m    *Model
	ids  map[string]int
	n    int
	strs map[string]string
	st   *State
}

func parseInt(s string) *big.Int {
	s = strings.TrimSpace(s)
	neg := false
	if strings.HasPrefix(s, "(-") {
		neg = true
		s = strings.TrimSuffix(strings.TrimSpace(s[2:]), ")")
		s = strings.TrimSpace(s)
	}
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		return new(big.Int)
	}
	if neg {
		n.Neg(n)
	}
	return n
}

func parseRat(s string) *big.Rat {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "(-") {
		r := parseRat(s[2 : len(s)-1])
		return r.Neg(r)
	}
	if strings.HasPrefix(s, "(/") {
		in := strings.TrimSpace(s[2 : len(s)-1])
		a, b := splitSexp(in)
		x, y := parseRat(a), parseRat(b)
		if y.Sign() == 0 {
			return new(big.Rat)
		}
		return x.Quo(x, y)
	}
	r, ok := new(big.Rat).SetString(strings.TrimSuffix(s, "?"))
	if !ok {
		return new(big.Rat)
	}
	return r
}
func splitSexp(s string) (string, string) {
	d := 0
	for i, c := range s {
		if c == '(' {
			d++
		}
		if c == ')' {
			d--
		}
		if c == ' ' && d == 0 {
			return s[:i], s[i+1:]
		}
	}
	return s, "1"
}

func (x *extractor) int(t *Term) *big.Int { return parseInt(x.m.Eval(t)) }

func (x *extractor) str(t *Term) string {
	v := x.m.Eval(t)
	if x.e.p.theory {
		if len(v) >= 2 && v[0] == '"' {
			return unescapeSMT(v[1 : len(v)-1])
		}
		return ""
	}
	if s, ok := x.strs[v]; ok {
		return s
	}
	// an uninterpreted string: invent one of the right length
	n := int64(-1)
	lt := x.e.p.App("str_len", "Int", t)
	if r := x.m.Eval(lt); r != "" && !strings.HasPrefix(r, "(error") {
		n = parseInt(r).Int64()
	}
	s := fmt.Sprintf("s%d", len(x.strs))
	if n >= 0 && n < 5000 {
		for int64(len(s)) < n {
			s += "x"
		}
		if n == 0 {
			s = ""
		} else if int64(len(s)) > n {
			s = s[int64(len(s))-n:]
		}
	}
	x.strs[v] = s
	return s
}

func unescapeSMT(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '"' && i+1 < len(s) && s[i+1] == '"' {
			b.WriteByte('"')
			i++
			continue
		}
		if s[i] == '\\' && i+2 < len(s) && s[i+1] == 'u' && s[i+2] == '{' {
			j := strings.IndexByte(s[i:], '}')
			var n int
			fmt.Sscanf(s[i+3:i+j], "%x", &n)
			b.WriteByte(byte(n))
			i += j
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func (x *extractor) val(v Value, t types.Type, depth int) interface{} {
	e := x.e
	if depth > 12 {
		return nil
	}
	t = types.Unalias(t)
	if isDecimal(t) {
		return parseRat(x.m.Eval(v.(*Term))).RatString()
	}
	if isBigInt(t) || isTime(t) || isUUID(t) {
		return x.int(v.(*Term)).String()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		tm := v.(*Term)
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.m.Eval(tm) == "true"
		case u.Info()&types.IsString != 0:
			return x.str(tm)
		case u.Info()&types.IsFloat != 0:
			return parseRat(x.m.Eval(tm)).RatString()
		default:
			return x.int(tm).String()
		}
	case *types.Pointer:
		p := v.(*PtrV)
		r := x.int(p.Ref)
		if r.Sign() == 0 {
			return nil
		}
		k := typeKey(t) + r.String()
		if id, ok := x.ids[k]; ok {
			return map[string]interface{}{"$ref": id}
		}
		x.n++
		id := x.n
		x.ids[k] = id
		e.inSpec++
		var inner interface{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(Unsupported); !ok {
						panic(r)
					}
				}
			}()
			inner = x.val(e.load(x.st, p), p.Elem, depth+1)
		}()
		e.inSpec--
		return map[string]interface{}{"$id": id, "v": inner}
	case *types.Slice:
		s := v.(*SliceV)
		if x.int(s.Ref).Sign() == 0 {
			return nil
		}
		n := x.int(s.Len).Int64()
		if n > 300 {
			n = 300
		}
		out := []interface{}{}
		e.inSpec++
		for i := int64(0); i < n; i++ {
			out = append(out, x.val(e.load(x.st, e.elemPtr(s, e.p.Int(i))), s.Elem, depth+1))
		}
		e.inSpec--
		return out
	case *types.Struct:
		sv := v.(*StructV)
		m := map[string]interface{}{}
		for i, f := range sv.Fs {
			m[u.Field(i).Name()] = x.val(f, u.Field(i).Type(), depth+1)
		}
		return m
	case *types.Array:
		a := v.(*ArrV)
		out := []interface{}{}
		for i := int64(0); i < a.N && i < 300; i++ {
			k := 0
			el := e.build(a.Elem, func(l Leaf) *Term { k++; return e.p.Select(a.Ls[k-1], e.p.Int(i)) })
			out = append(out, x.val(el, a.Elem, depth+1))
		}
		return out
	case *types.Map:
		m := v.(*MapV)
		r := x.int(m.Ref)
		if r.Sign() == 0 {
			return nil
		}
		x.n++
		kv := [][2]interface{}{}
		seen := map[string]bool{}
		e.inSpec++
		for _, kt := range x.keyTerms(m) {
			id := x.m.Eval(kt)
			if seen[id] || strings.HasPrefix(id, "(error") {
				continue
			}
			seen[id] = true
			val, has := e.mapGetT(x.st, m, kt)
			if x.m.Eval(has) != "true" {
				continue
			}
			kv = append(kv, [2]interface{}{x.val(e.unmapKey(kt, m.T.Key()), m.T.Key(), depth+1), x.val(val, m.T.Elem(), depth+1)})
		}
		e.inSpec--
		return map[string]interface{}{"$id": x.n, "kv": kv}
	case *types.Interface:
		iv := v.(*IfaceV)
		if x.int(iv.Tag).Sign() == 0 {
			return nil
		}
		return map[string]interface{}{"err": 1}
	}
	return nil
}

// keyTerms: ground terms used as keys of maps with this key type.
func (x *extractor) keyTerms(m *MapV) []*Term {
	ks, _ := x.e.keySortOf(m.T)
	srt := arrSort(ks, "Bool")
	var out []*Term
	seen := map[int]bool{}
	for _, t := range x.e.p.tab {
		if (t.Op == "select" || t.Op == "store") && t.Args[0].Sort == srt && !t.bnd && !seen[t.Args[1].ID] {
			seen[t.Args[1].ID] = true
			out = append(out, t.Args[1])
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	if len(out) > 60 {
		out = out[:60]
	}
	return out
}

type replayIn struct {
	Contract string
	Args     []interface{}
	Anys     []interface{}
	Fuzz     int
	Seed     int64
	Budget   float64
	Ints     []string
	Strs     []string
	MayPanic bool
	Labels   []string
}

func (e *Eng) extract(vc *VC, ms int) *replayIn {
	// prefer small inputs
	var small []*Term
	lim := e.p.Int(6)
	for _, t := range e.p.tab {
		_ = t
	}
	for _, in := range e.inputs {
		if s, ok := in.v.(*SliceV); ok {
			small = append(small, e.p.Le(s.Len, lim))
		}
	}
	asserts := append(append([]*Term{}, vc.pcs...), e.p.Not(vc.goal))
	m := e.sv.model(asserts, small, ms)
	if m == nil && len(small) > 0 {
		m = e.sv.model(asserts, nil, ms)
	}
	if m == nil {
		return nil
	}
	defer m.Close()
	x := &extractor{e: e, m: m, ids: map[string]int{}, strs: map[string]string{}}
	x.st = e.newState()
	for _, t := range e.p.tab {
		if t.Op == "str" && !e.p.theory {
			v := m.Eval(t)
			if !strings.HasPrefix(v, "(error") {
				x.strs[v] = t.S
			}
		}
	}
	out := &replayIn{Contract: e.ct.Name, MayPanic: e.ct.MayPanic, Args: []interface{}{}, Anys: []interface{}{}}
	for _, in := range e.inputs {
		out.Args = append(out.Args, x.val(in.v, in.t, 0))
	}
	for _, a := range vc.state.anys {
		out.Anys = append(out.Anys, x.val(a.v, a.t, 0))
	}
	return out
}

// ---------------------------------------------------------------- running contracts on the real code

type Replayer struct {
	cs   *Contracts
	mu   sync.Mutex
	bins map[string]string // rel -> test binary
	dir  string
	errs map[string]string
}

func (r *Replayer) binary(rel string) (string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if b, ok := r.bins[rel]; ok {
		if b == "" {
			return "", fmt.Errorf("%s", r.errs[rel])
		}
		return b, nil
	}
	r.bins[rel] = ""
	ov := r.cs.overlay()
	repl := map[string]string{}
	i := 0
	write := func(dest string, b []byte) {
		i++
		f := filepath.Join(r.dir, fmt.Sprintf("ov%s_%d.go", strings.ReplaceAll(rel, "/", "_"), i))
		os.WriteFile(f, b, 0644)
		repl[dest] = f
	}
	for dest, b := range ov {
		write(dest, b)
	}
	var reg []string
	pk := ""
	for _, f := range r.cs.Files {
		if f.Rel != rel {
			continue
		}
		pk = f.Pkg
		for _, c := range f.Cts {
			if c.Broken == "" {
				reg = append(reg, fmt.Sprintf("%q: %s,", c.Name, c.Name))
			}
		}
	}
	t := strings.Replace(replayText, "package PKG", "package "+pk, 1)
	t = strings.Replace(t, "//REGISTRY", strings.Join(reg, "\n"), 1)
	dir := filepath.Join(r.cs.repo, rel)
	write(filepath.Join(dir, "zz_vc_replay_test.go"), []byte(t))
	// the package's own tests are not needed
	own, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
	for _, o := range own {
		repl[o] = ""
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ovf := filepath.Join(r.dir, strings.ReplaceAll(rel, "/", "_")+".overlay.json")
	os.WriteFile(ovf, js, 0644)
	bin := filepath.Join(r.dir, strings.ReplaceAll(rel, "/", "_")+".test")
	c := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, modPath+"/"+rel)
	c.Dir = r.cs.repo
	out, err := c.CombinedOutput()
	if err != nil {
		if len(out) > 2000 {
			out = out[:2000]
		}
		r.errs[rel] = string(out)
		return "", fmt.Errorf("%s", out)
	}
	r.bins[rel] = bin
	return bin, nil
}

type replayOut struct {
	Result string
	Args   []string
	Raw    string
	Err    string
}

func (r *Replayer) run(ct *Contract, in *replayIn, secs float64) replayOut {
	rel, _ := filepath.Rel(modPath, ct.Pkg)
	bin, err := r.binary(rel)
	if err != nil {
		return replayOut{Err: "build: " + err.Error()}
	}
	js, _ := json.MarshalIndent(in, "", " ")
	f, _ := os.CreateTemp(r.dir, "in*.json")
	f.Write(js)
	f.Close()
	scratch, _ := os.MkdirTemp(r.dir, "cwd")
	defer os.RemoveAll(scratch)
	c := exec.Command("timeout", fmt.Sprint(int(secs+20)), bin, "-test.run", "^TestVCReplay$", "-test.v")
	c.Dir = scratch
	c.Env = append(os.Environ(), "VC_REPLAY="+f.Name(), "HOME="+scratch, "TMPDIR="+scratch)
	var ob bytes.Buffer
	c.Stdout = &ob
	c.Stderr = &ob
	c.Run()
	o := replayOut{Raw: ob.String()}
	for _, l := range strings.Split(o.Raw, "\n") {
		if strings.HasPrefix(l, "VCRESULT ") && o.Result == "" {
			o.Result = l[9:]
		}
		if strings.HasPrefix(l, "VCARG ") {
			o.Args = append(o.Args, l[6:])
		}
	}
	if o.Result == "" {
		o.Err = "no result"
		if len(o.Raw) > 1500 {
			o.Raw = o.Raw[:1500]
		}
	}
	return o
}
