package main

import (
	"slices"
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func intConst(i int64) *big.Int { return big.NewInt(i) }

func fnName(fn *ssa.Function) string {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	s := o.RelString(nil)
	return strings.ReplaceAll(s, "github.com/tdex-network/tdex-daemon/", "")
}

// fullName is the name models and policies are keyed by.
func fullName(fn *ssa.Function) string {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	return o.RelString(nil)
}

func (e *Eng) invoke(s *State, c *ssa.CallCommon, fnv Value, args []Value, call ssa.Instruction) []*State {
	if c.IsInvoke() {
		iv, ok := fnv.(*IfaceV)
		if !ok {
			unsupported("invoke on %T", fnv)
		}
		return e.invokeMethod(s, iv, c.Method, args, call)
	}
	fv, ok := fnv.(*FuncV)
	if !ok {
		unsupported("call of %T", fnv)
	}
	if fv.Bi != nil {
		return e.builtin(s, fv.Bi, c, args, call)
	}
	return e.callFn(s, fv, args, call, c.Signature())
}

func (e *Eng) invokeMethod(s *State, iv *IfaceV, m *types.Func, args []Value, call ssa.Instruction) []*State {
	p := e.p
	if isZeroT(iv.Tag) {
		if s.topSpec() || e.pureDepth > 0 {
			s.status = "dead"
			return nil
		}
		e.safety(s, "nil-interface-call", p.False)
		s.status = "dead"
		return nil
	}
	if iv.CT != nil && iv.Conc != nil {
		fn := e.prog.lookupMethod(iv.CT, m)
		if fn == nil {
			unsupported("no method %s on %s", m.Name(), iv.CT)
		}
		return e.callFn(s, &FuncV{Fn: fn}, append([]Value{iv.Conc}, args...), call, fn.Signature)
	}
	nn := p.Not(p.Eq(iv.Tag, p.Int(0)))
	e.safety(s, "nil-interface-call", nn)
	s.assume(p, nn)
	sig := m.Type().(*types.Signature)
	recv := sig.Recv().Type()
	name := typeKey(recv) + "." + m.Name()
	if s.status != "" {
		return nil
	}
	if m.Name() == "Error" && sig.Params().Len() == 0 && sig.Results().Len() == 1 {
		name = "error.Error"
	}
	opaque := e.ct.opaqueMethod(name)
	if opaque != "" || e.prog.isObserver(name) || name == "error.Error" {
		ts := []*Term{iv.Tag, iv.Ref}
		for i, a := range args {
			ts = append(ts, e.contentTerms(s, a, sig.Params().At(i).Type())...)
		}
		e.havocked["observer "+name] = true
		rs := e.ufResults(s, "obs:"+name, sig.Results(), ts)
		if strings.HasSuffix(opaque, "!") {
			e.havocked["result of "+name+" assumed not nil unless it fails"] = true
			e.nonNilUnlessFailed(rs)
		}
		e.setResult(s, call, rs)
		return nil
	}
	e.havocked["interface method "+name+" (unknown implementation: arbitrary result)"] = true
	e.havocResult(s, call, sig, m.Name())
	return nil
}

// contentTerms describes an argument by content (slices by their rows).
func isPtrElem(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (e *Eng) contentTerms(s *State, v Value, t types.Type) []*Term {
	return e.contentTermsAt(s, v, t, 0)
}

func (e *Eng) contentTermsAt(s *State, v Value, t types.Type, depth int) []*Term {
	switch x := v.(type) {
	case *SliceV:
		_, isFn := x.Elem.Underlying().(*types.Signature)
		_, isSl := x.Elem.Underlying().(*types.Slice)
		if isFn || isSl || isPtrElem(x.Elem) {
			// few elements: by their content
			if x.Len.Op == "int" && x.Len.I.IsInt64() && x.Len.I.Int64() <= 4 {
				out := []*Term{x.Len}
				for i := int64(0); i < x.Len.I.Int64(); i++ {
					out = append(out, e.contentTermsAt(s, e.load(s, e.elemPtr(x, e.p.Int(i))), x.Elem, depth)...)
				}
				return out
			}
			if isSl {
				return []*Term{x.Ref, x.Off, x.Len}
			}
		}
		rows := e.rowsOf(s, x)
		return append(append([]*Term{}, rows...), x.Off, x.Len)
	case *PtrV:
		// an object allocated on this path: by its content
		if pt, ok := t.Underlying().(*types.Pointer); ok && x.Ref != nil && x.Ref.Op == "int" && x.Ref.I.Sign() > 0 && depth < 2 {
			if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
				return append([]*Term{e.p.Int(-1)}, e.contentTermsAt(s, e.load(s, x), pt.Elem(), depth+1)...)
			}
		}
	case *MapV:
		r, vr := e.mapRow(s, x)
		return append([]*Term{r}, vr...)
	case *StructV:
		var out []*Term
		st := t.Underlying().(*types.Struct)
		for i, f := range x.Fs {
			out = append(out, e.contentTermsAt(s, f, st.Field(i).Type(), depth)...)
		}
		return out
	case *FuncV:
		if x.Fn != nil {
			return []*Term{e.p.Str(fullName(x.Fn))}
		}
		return nil
	case *IfaceV:
		if x.Conc != nil && x.CT != nil {
			if _, ok := x.Conc.(*PtrV); !ok {
				return append([]*Term{x.Tag}, e.contentTermsAt(s, x.Conc, x.CT, depth)...)
			}
		}
		return []*Term{x.Tag, x.Ref}
	}
	return e.flatten(v, t)
}

func (e *Eng) ufResults(s *State, name string, res *types.Tuple, ts []*Term) []Value {
	var out []Value
	// argument sorts become part of the symbol so that variadic uses differ
	var sb strings.Builder
	for _, t := range ts {
		sb.WriteString(t.Sort)
	}
	sig := fmt.Sprintf("/%d", len(ts))
	if strings.Contains(name, "obs:") {
		sig = ""
	} else {
		sig = "/" + sb.String()
	}
	for i := 0; i < res.Len(); i++ {
		pre := fmt.Sprintf("%s%s#%d", name, sig, i)
		v := e.build(res.At(i).Type(), func(l Leaf) *Term {
			return e.typed(e.p.App(pre+l.Path, l.Sort, ts...), l, true)
		})
		e.attachWF(v)
		out = append(out, v)
	}
	return out
}

// nonNilUnlessFailed attaches to pointer results that they are not nil when the
// last result reports success (nil error or true), or unconditionally if there is none.
func (e *Eng) nonNilUnlessFailed(rs []Value) {
	p := e.p
	ok := p.True
	if n := len(rs); n > 1 {
		switch x := rs[n-1].(type) {
		case *IfaceV:
			ok = p.Eq(x.Tag, p.Int(0))
		case *Term:
			if x.Sort == "Bool" {
				ok = x
			}
		}
	}
	for _, r := range rs {
		if x, isP := r.(*PtrV); isP {
			f := p.Imp(ok, p.Not(p.Eq(x.Ref, p.Int(0))))
			if !slices.Contains(x.Ref.facts, f) {
				x.Ref.facts = append(x.Ref.facts, f)
			}
		}
	}
}

func (e *Eng) havocResult(s *State, call ssa.Instruction, sig *types.Signature, name string) {
	var rs []Value
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, e.fresh(sig.Results().At(i).Type(), "ret:"+name, true))
	}
	e.setResult(s, call, rs)
}

func (e *Eng) callFn(s *State, fv *FuncV, args []Value, call ssa.Instruction, sig *types.Signature) []*State {
	if fv.Fn == nil {
		if fv.Recv != nil {
			return e.invokeMethod(s, fv.Recv, fv.Method, args, call)
		}
		e.havocked["unknown function value"] = true
		e.havocResult(s, call, sig, "fv")
		return nil
	}
	fn := fv.Fn
	name := fullName(fn)
	if len(s.frames) > 60 {
		unsupported("call depth in %s", name)
	}
	// specification vocabulary
	if short := fn.Name(); strings.HasPrefix(short, "vc") || (fn.Origin() != nil && strings.HasPrefix(fn.Origin().Name(), "vc")) {
		if e.prog.isSpecFn(fn) {
			if r, ok := e.vocab(s, fn, args, call); ok {
				return r
			}
		}
	}
	if st := e.stubFor(s, fn); st != nil {
		e.havocked["contract of "+name+" assumed as stated by "+st.Name()] = true
		nf := e.newFrame(st, args, nil)
		nf.call = call
		nf.spec = true
		s.frames = append(s.frames, nf)
		return e.enter(s)
	}
	// bound method wrappers: (T).M$bound has FreeVars [recv]
	if m, ok := models[name]; ok {
		rs, ok := m(e, s, fn, args)
		if ok {
			e.modelled[name] = true
			if s.status == "" {
				e.setResult(s, call, rs)
			}
			return nil
		}
	}
	// contract being applied: the target call is replaced by havoc
	f := s.top()
	if f.mode == "apply" && e.prog.contractFor(fn) != nil && e.prog.contractFor(fn).Func == f.fn {
		return e.applyTarget(s, fn, call)
	}
	if ct := e.prog.contractFor(fn); ct != nil && ct.Modular && !(e.ct != nil && e.ct.Target == fn && !e.onStack(s, fn)) {
		if !(f.spec && f.fn == ct.Func) {
			e.usedCt[ct.ID] = true
			nf := e.newFrame(ct.Func, args, nil)
			nf.mode = "apply"
			nf.spec = true
			nf.call = call
			s.frames = append(s.frames, nf)
			return e.enter(s)
		}
	}
	if e.prog.isRec(fn) {
		e.setResult(s, call, e.recApp(s, fn, args))
		return nil
	}
	pol := e.prog.policy(fn)
	if e.ct.isOpaque(fn) {
		pol = "pure"
	}
	switch pol {
	case "inline":
		if fn.Blocks == nil {
			pol = "havoc"
			break
		}
		depth := 0
		for _, fr := range s.frames {
			if fr.fn == fn {
				depth++
			}
		}
		if depth > 8 {
			unsupported("recursion in %s without a contract", name)
		}
		spec := e.pureDepth > 0
		if !e.prog.isSpecFn(fn) && !spec {
			e.inlined[fnName(fn)] = true
		}
		nf := e.newFrame(fn, args, fv.Bind)
		nf.call = call
		nf.spec = e.prog.isSpecFn(fn) || spec
		s.frames = append(s.frames, nf)
		return e.enter(s)
	case "pure":
		var ts []*Term
		for i, a := range args {
			ts = append(ts, e.contentTerms(s, a, paramType(fn, i))...)
		}
		e.havocked["pure function "+name] = true
		rs := e.ufResults(s, name, fn.Signature.Results(), ts)
		if e.ct != nil && e.ct.isNonNil(fn) {
			e.havocked["result of "+name+" assumed not nil unless it fails"] = true
			e.nonNilUnlessFailed(rs)
		}
		e.setResult(s, call, rs)
		return nil
	}
	e.havocked["external "+name+" (arbitrary result, no effect on modelled state)"] = true
	if os.Getenv("GOVC_DEBUG") != "" && e.record {
		fmt.Fprintln(os.Stderr, "  havoc call", name)
	}
	e.havocResult(s, call, fn.Signature, fn.Name())
	return nil
}

// paramType: the type of parameter i, the receiver first (bodies of external
// functions are not built, so fn.Params may be empty).
func paramType(fn *ssa.Function, i int) types.Type {
	if i < len(fn.Params) {
		return fn.Params[i].Type()
	}
	sig := fn.Signature
	if r := sig.Recv(); r != nil {
		if i == 0 {
			return r.Type()
		}
		i--
	}
	if i < sig.Params().Len() {
		return sig.Params().At(i).Type()
	}
	return nil
}

func (e *Eng) onStack(s *State, fn *ssa.Function) bool {
	for _, f := range s.frames {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (e *Eng) newFrame(fn *ssa.Function, args []Value, bind []Value) *Frame {
	f := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]Value{}, active: map[*ssa.BasicBlock]bool{}, unroll: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		if i < len(bind) {
			f.env[v] = bind[i]
		}
	}
	return f
}

// enter handles functions whose entry block is a loop header (none in Go SSA).
func (e *Eng) enter(s *State) []*State { return nil }

// ---------------------------------------------------------------- pure evaluation

func (e *Eng) tryPure(s *State, fv *FuncV, args []Value) (v Value, ok bool) {
	d := e.pureDepth
	is := e.inSpec
	rec := e.record
	defer func() {
		if r := recover(); r != nil {
			if u, isU := r.(Unsupported); isU {
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "  template unsupported:", u.Msg)
				}
				e.pureDepth = d
				e.inSpec = is
				e.record = rec
				v, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	return e.evalPure(s, fv, args), true
}

// evalPure runs a side-effect free function on every path and merges the results.
func (e *Eng) evalPure(s *State, fv *FuncV, args []Value) Value {
	if fv.Fn == nil {
		unsupported("pure evaluation of an unknown function")
	}
	c := s.clone()
	c.mods = nil
	c.trial = nil
	c.status = ""
	nf := e.newFrame(fv.Fn, args, fv.Bind)
	nf.spec = true
	c.frames = append(c.frames, nf)
	c.stopAt = len(c.frames)
	base := len(c.pcs)
	rec := e.record
	e.record = false
	e.pureDepth++
	outs := e.run(c)
	e.pureDepth--
	e.record = rec
	sigR := fv.Fn.Signature.Results()
	if sigR.Len() != 1 {
		unsupported("pure function with %d results", sigR.Len())
	}
	t := sigR.At(0).Type()
	var leaves []mergeLeaf
	for _, o := range outs {
		if o.status != "ret" {
			continue
		}
		leaves = append(leaves, mergeLeaf{o.pcs[base:], e.flatten(o.rets[0], t)})
		// slices allocated by specification code stay readable: adopt its heap rows
		if len(outs) == 1 {
			s.adopt(o)
		}
	}
	acc := e.mergeTree(leaves, 0)
	if acc == nil {
		return e.fresh(t, "undef", true)
	}
	if len(outs) == 1 {
		return outs[0].rets[0]
	}
	v, _ := e.unflatten(t, acc)
	return v
}

type mergeLeaf struct {
	pcs []*Term
	ts  []*Term
}

// mergeTree rebuilds the decision tree of a set of paths.
func (e *Eng) mergeTree(ls []mergeLeaf, k int) []*Term {
	p := e.p
	if len(ls) == 0 {
		return nil
	}
	if len(ls) == 1 {
		return ls[0].ts
	}
	for {
		same := true
		for _, l := range ls {
			if k >= len(l.pcs) || l.pcs[k] != ls[0].pcs[k] {
				same = false
				break
			}
		}
		if !same {
			break
		}
		k++
	}
	var cond *Term
	var a, b []mergeLeaf
	if k < len(ls[0].pcs) {
		cond = ls[0].pcs[k]
		n := p.Not(cond)
		for _, l := range ls {
			switch {
			case k < len(l.pcs) && l.pcs[k] == cond:
				a = append(a, l)
			case k < len(l.pcs) && l.pcs[k] == n:
				b = append(b, l)
			default:
				cond = nil
			}
			if cond == nil {
				break
			}
		}
	}
	var x, y []*Term
	if cond != nil && len(b) > 0 {
		x, y = e.mergeTree(a, k+1), e.mergeTree(b, k+1)
	} else {
		last := ls[0]
		k2 := min(k, len(last.pcs))
		cond = p.And(last.pcs[k2:]...)
		x, y = last.ts, e.mergeTree(ls[1:], k)
	}
	out := make([]*Term, len(x))
	for i := range x {
		out[i] = p.Ite(cond, x[i], y[i])
	}
	return out
}

// adopt keeps objects newly allocated by a single-path specification evaluation.
func (s *State) adopt(o *State) {
	if s.mods != nil {
		return
	}
	s.heap = o.heap
	s.nalloc = o.nalloc
}

// mkForall builds a guarded universal quantifier.
func (e *Eng) mkForall(lo, hi *Term, f func(i *Term) *Term) *Term {
	p := e.p
	if lo.Op == "int" && hi.Op == "int" {
		n := new(big.Int).Sub(hi.I, lo.I).Int64()
		if n <= 40 {
			var cs []*Term
			for i := int64(0); i < n; i++ {
				cs = append(cs, f(p.Add(lo, p.Int(i))))
			}
			return p.And(cs...)
		}
	}
	// the last ones apart: [lo, n+c) is [lo, n) and n .. n+c-1
	var last []*Term
	if n, c := splitConst(hi); hi.Op != "int" && c.Sign() > 0 && c.Cmp(big.NewInt(2)) <= 0 && lo != n {
		for k := int64(0); k < c.Int64(); k++ {
			i := p.Add(n, p.Int(k))
			last = append(last, p.Imp(p.Le(lo, i), f(i)))
		}
		hi = n
	}
	q := p.BVar("Int")
	p.qlo[q.ID], p.qhi[q.ID] = lo, hi
	body := f(q)
	guard := []*Term{p.mk("<=", "Bool", []*Term{lo, q}, ""), p.Lt(q, hi)}
	return p.And(append(last, p.ForallT(q, p.Imp(p.And(guard...), body), p.rangeFacts(body, q)))...)
}

// recApp applies a recursive specification function as an uninterpreted symbol
// with its definition attached.
func (e *Eng) recApp(s *State, fn *ssa.Function, args []Value) []Value {
	p := e.p
	name := fnName(fn)
	var ts []*Term
	for i, a := range args {
		ts = append(ts, e.recTerms(s, a, fn.Params[i].Type())...)
	}
	res := fn.Signature.Results().At(0).Type()
	ls := e.leaves(res)
	if len(ls) != 1 {
		unsupported("recursive specification %s must return a scalar", name)
	}
	// small concrete arguments: just run it
	conc := true
	for _, t := range ts {
		if t.Sort == "Int" && t.Op != "int" {
			conc = false
		}
	}
	t := e.typed(p.App("rec:"+name, ls[0].Sort, ts...), ls[0], false)
	_ = conc
	if len(t.facts) == 0 && e.recDepth[name] < 2 {
		t.facts = append(t.facts, p.True)
		e.recDepth[name]++
		// the definition holds on every path: not under the conditions of this one
		d := s.clone()
		d.pcs, d.pcSet = nil, map[int]bool{}
		body, ok := e.tryPure(d, &FuncV{Fn: fn}, args)
		e.recDepth[name]--
		if ok {
			t.facts = []*Term{p.mk("=", "Bool", []*Term{t, term(body)}, "")}
			if term(body).Sort == "Bool" {
				t.facts = []*Term{p.Eq(t, term(body))}
			}
		} else {
			t.facts = nil
		}
	}
	return []Value{t}
}

func (e *Eng) recTerms(s *State, v Value, t types.Type) []*Term {
	return e.recTermsAt(s, v, t, 0)
}

func (e *Eng) recTermsAt(s *State, v Value, t types.Type, depth int) []*Term {
	switch x := v.(type) {
	case *PtrV:
		if n, ok := x.Elem.Underlying().(*types.Struct); ok {
			var out []*Term
			nx := e.norm(x)
			if depth < 2 && x.Ref != nil && !isZeroT(x.Ref) {
				// what it points to, and what that points to
				if sv, ok := e.loadQuiet(s, nx).(*StructV); ok && len(sv.Fs) == n.NumFields() {
					for i, f := range sv.Fs {
						if _, ok := n.Field(i).Type().Underlying().(*types.Signature); ok {
							continue
						}
						out = append(out, e.recTermsAt(s, f, n.Field(i).Type(), depth+1)...)
					}
					return append(out, x.Ref)
				}
			}
			for _, l := range e.leaves(x.Elem) {
				out = append(out, e.loadLeaf(s, nx, e.rootKey(nx), l))
			}
			return append(out, x.Ref)
		}
	case *SliceV:
		rows := e.rowsOf(s, x)
		out := append(append([]*Term{}, rows...), x.Off, x.Len)
		if pt, ok := x.Elem.Underlying().(*types.Pointer); ok {
			// elements are pointers: the pointed-to heaps matter too
			for _, l := range e.leaves(pt.Elem()) {
				out = append(out, e.heapArr(s, "*"+typeKey(pt.Elem())+l.Path, arrSort("Int", l.Sort)))
			}
		}
		return out
	case *StructV:
		var out []*Term
		st := t.Underlying().(*types.Struct)
		for i, f := range x.Fs {
			out = append(out, e.recTermsAt(s, f, st.Field(i).Type(), depth)...)
		}
		return out
	case *MapV:
		r, vr := e.mapRow(s, x)
		out := append([]*Term{r}, vr...)
		if pt, ok := x.T.Elem().Underlying().(*types.Pointer); ok {
			for _, l := range e.leaves(pt.Elem()) {
				out = append(out, e.heapArr(s, "*"+typeKey(pt.Elem())+l.Path, arrSort("Int", l.Sort)))
			}
		}
		return out
	case *FuncV:
		unsupported("function argument of a recursive specification")
	}
	return e.flatten(v, t)
}

// ---------------------------------------------------------------- obligations

type VC struct {
	pcs   []*Term
	goal  *Term
	state *State
}

type Obl struct {
	Name   string
	Props  []string
	VCs    int
	Failed []*VC
	Status string // "", "failed", "unknown"
	Reason string
	Solver map[string]int
	Cover  bool
	Covered bool
}

func (e *Eng) obl(name string, props []string) *Obl {
	o := e.obls[name]
	if o == nil {
		o = &Obl{Name: name, Props: props, Solver: map[string]int{}}
		e.obls[name] = o
		e.oblOrder = append(e.oblOrder, name)
	}
	return o
}

func (e *Eng) oblige(s *State, name string, goal *Term, safety bool) {
	if !e.record {
		return
	}
	if safety && e.ct != nil && e.ct.MayPanic {
		return
	}
	props := e.curProps(name)
	o := e.obl(name, props)
	o.VCs++
	if goal == e.p.True {
		return
	}
	if o.Status == "failed" && len(o.Failed) >= 4 {
		return
	}
	r, solver := e.sv.prove(s.pcs, goal)
	o.Solver[solver]++
	switch r {
	case "unsat":
		return
	case "sat":
		o.Status = "failed"
		o.Reason = "counterexample"
	default:
		if o.Status == "" {
			o.Status = "unknown"
		}
		o.Reason = r
	}
	o.Failed = append(o.Failed, &VC{pcs: append([]*Term{}, s.pcs...), goal: goal, state: s.clone()})
}

func (e *Eng) curProps(name string) []string {
	if e.ct == nil {
		return nil
	}
	lbl := strings.TrimPrefix(name, "cover:")
	if ps, ok := e.ct.EnsProps[lbl]; ok {
		return ps
	}
	return e.ct.Props
}

func (e *Eng) cover(s *State, name string) {
	if !e.record {
		return
	}
	o := e.obl("cover:"+name, e.curProps(name))
	o.Cover = true
	o.VCs++
	if o.Covered {
		return
	}
	r := e.sv.sat(s.pcs)
	if r != "unsat" {
		o.Covered = true
	}
}

// provableInv is used for invariants written by the user: the other solvers are
// asked when the first one gives no answer.
func (e *Eng) provableInv(s *State, goal *Term) bool {
	if e.provable(s, goal) {
		return true
	}
	r, _ := e.sv.proveFast(s.pcs, goal)
	if r == "sat" || r == "unsat" || e.sv.stopped() {
		return r == "unsat"
	}
	k := "i" + key(s.pcs, goal)
	if r, ok := e.sv.memo[k]; ok {
		return r == "unsat"
	}
	r, _ = e.sv.portfolio(e.p.Build(append(e.sv.relevant(s.pcs, goal), e.p.Not(goal))), 4000)
	e.sv.memo[k] = r
	return r == "unsat"
}

func (e *Eng) provable(s *State, goal *Term) bool {
	if goal == e.p.True || s.pcSet[goal.ID] {
		return true
	}
	if goal == e.p.False {
		return e.sv.quickSat(s.pcs) == "unsat"
	}
	r, _ := e.sv.proveFast(s.pcs, goal)
	return r == "unsat"
}

// ---------------------------------------------------------------- vocabulary

func (e *Eng) vocab(s *State, fn *ssa.Function, args []Value, call ssa.Instruction) ([]*State, bool) {
	p := e.p
	name := fn.Name()
	if fn.Origin() != nil {
		name = fn.Origin().Name()
	}
	apply := s.top().mode == "apply"
	set := func(v Value) ([]*State, bool) {
		e.setResult(s, call, []Value{v})
		return nil, true
	}
	switch name {
	case "vcRequires":
		c := e.boolArg(s, args[0])
		if apply {
			lbl := "pre:" + fnName(e.prog.contractByFn(s.top().fn).Target)
			e.obligeAlways(s, lbl, c)
		}
		s.assume(p, c)
		return nil, true
	case "vcAssume":
		s.assume(p, e.boolArg(s, args[0]))
		return nil, true
	case "vcPure", "vcB":
		return set(e.evalPure(s, args[0].(*FuncV), nil))
	case "vcTarget": // marks the end of the precondition
		if !apply {
			e.cover(s, "precondition")
			if os.Getenv("GOVC_DEBUG") != "" && e.record {
				fmt.Fprintln(os.Stderr, "  target reached, pcs:", len(s.pcs))
			}
		}
		return nil, true
	case "vcEnsures":
		c := e.boolArg(s, args[1])
		if apply {
			s.assume(p, c)
			return nil, true
		}
		e.oblige(s, args[0].(*Term).S, c, false)
		s.assume(p, c)
		return nil, true
	case "vcLemma": // proved, then used
		c := e.boolArg(s, args[1])
		if !apply {
			e.oblige(s, args[0].(*Term).S, c, false)
		}
		s.assume(p, c)
		return nil, true
	case "vcCover":
		if !apply {
			cv := e.boolArg(s, args[1])
			if cv != p.False && e.record {
				c := s.clone()
				c.assume(p, cv)
				if c.status == "" {
					e.cover(c, args[0].(*Term).S)
				} else {
					o := e.obl("cover:"+args[0].(*Term).S, e.curProps(args[0].(*Term).S))
					o.Cover = true
				}
			} else if e.record {
				o := e.obl("cover:"+args[0].(*Term).S, e.curProps(args[0].(*Term).S))
				o.Cover = true
			}
		}
		return nil, true
	case "vcRunGo": // the k-th goroutine started so far runs now, from start to end
		k := term(args[0])
		if k.Op != "int" {
			unsupported("vcRunGo of a computed index")
		}
		e.abstracted["goroutines run when the contract says so, one after the other (no interleaving)"] = true
		i := k.I.Int64()
		if i < 0 {
			i += int64(len(s.gos)) // counted from the end
		}
		if i >= 0 && i < int64(len(s.gos)) {
			d := s.gos[i]
			return e.invoke(s, &d.instr, d.fn, d.args, nil), true
		}
		return nil, true
	case "vcInvariant":
		iv := args[0].(*IfaceV)
		if !apply {
			s.invs = append(s.invs, iv.Conc.(*FuncV))
		}
		return nil, true
	case "vcModifies":
		sv := args[0].(*SliceV)
		if apply {
			n := sv.Len.I.Int64()
			for i := int64(0); i < n; i++ {
				iv := e.load(s, e.elemPtr(sv, p.Int(i))).(*IfaceV)
				s.top().allocs = append(s.top().allocs, &PtrV{Elem: iv.CT, Ref: p.Int(0)})
				s.top().modVals = append(s.top().modVals, iv)
			}
		}
		return nil, true
	case "vcForall", "vcExists":
		f := args[2].(*FuncV)
		ex := name == "vcExists"
		t := e.mkForall(term(args[0]), term(args[1]), func(i *Term) *Term {
			b := term(e.evalPure(s, f, []Value{i}))
			if ex {
				b = p.Not(b)
			}
			return b
		})
		if ex {
			t = p.Not(t)
		}
		return set(t)
	case "vcForallStr", "vcForallU32":
		f := args[0].(*FuncV)
		srt := "Str"
		if name == "vcForallU32" {
			srt = "Int"
		}
		q := p.BVar(srt)
		body := term(e.evalPure(s, f, []Value{q}))
		var g []*Term
		if srt == "Int" {
			g = append(g, p.mk("<=", "Bool", []*Term{p.Int(0), q}, ""), p.mk("<=", "Bool", []*Term{q, p.Int(1<<32 - 1)}, ""))
		}
		return set(p.ForallT(q, p.Imp(p.And(g...), body), p.rangeFacts(body, q)))
	case "vcForallKey": // vcForallKey(m, func(k K) bool): every possible key
		mv := args[0].(*MapV)
		f := args[1].(*FuncV)
		ks, _ := e.keySortOf(mv.T)
		q := p.BVar(ks)
		body := term(e.evalPure(s, f, []Value{e.unmapKey(q, mv.T.Key())}))
		var g []*Term
		// packed tuples: pack(unpack(q)) == q
		if kl := e.leaves(mv.T.Key()); len(kl) > 1 {
			g = append(g, p.mk("=", "Bool", []*Term{e.mapKey(e.unmapKey(q, mv.T.Key()), mv.T.Key()), q}, ""))
		}
		return set(p.ForallT(q, p.Imp(p.And(g...), body), p.rangeFacts(body, q)))
	case "vcIte":
		c := term(args[0])
		rt := fn.Signature.Results().At(0).Type()
		a, b := e.flatten(args[1], rt), e.flatten(args[2], rt)
		var ts []*Term
		for i := range a {
			ts = append(ts, p.Ite(c, a[i], b[i]))
		}
		v, _ := e.unflatten(rt, ts)
		return set(v)
	case "vcAny":
		t := fn.Signature.Results().At(0).Type()
		v := e.fresh(t, "any", true)
		s.anys = append(s.anys, anyVal{t, v})
		return set(v)
	case "vcErr": // an arbitrary error
		iv := e.fresh(types.Universe.Lookup("error").Type(), "err", true).(*IfaceV)
		s.anys = append(s.anys, anyVal{types.Universe.Lookup("error").Type(), iv})
		return set(iv)
	case "vcKeys":
		sl := e.keysOf(s, args[0].(*MapV))
		return set(sl)
	case "vcCloneMap":
		m := args[0].(*MapV)
		n := &MapV{T: m.T, Ref: e.newRef(s)}
		pr, vals, sorts, ks := e.mapKeys(m.T)
		row, vr := e.mapRow(s, m)
		h := e.heapArr(s, pr, arrSort("Int", arrSort(ks, "Bool")))
		row = p.Ite(p.Eq(m.Ref, p.Int(0)), p.ConstArr(row.Sort, p.False), row)
		s.setHeap(pr, p.Store(h, n.Ref, row), n.Ref)
		for i, v := range vals {
			h := e.heapArr(s, v, sorts[i])
			s.setHeap(v, p.Store(h, n.Ref, vr[i]), n.Ref)
		}
		hl := e.heapArr(s, pr+"#", arrSort("Int", "Int"))
		s.setHeap(pr+"#", p.Store(hl, n.Ref, e.mapLen(s, m)), n.Ref)
		if ks, ok := s.mapK[m.Ref.ID]; ok {
			s.mapK[n.Ref.ID] = ks
		}
		return set(n)
	case "vcCloneSlice":
		sl := args[0].(*SliceV)
		n := &SliceV{Elem: sl.Elem, Ref: e.newRef(s), Off: sl.Off, Len: sl.Len, Cap: sl.Cap}
		e.setRows(s, sl.Elem, n.Ref, e.rowsOf(s, sl))
		return set(n)
	case "vcEqSlices": // same length and content
		a, b := args[0].(*SliceV), args[1].(*SliceV)
		ra, rb := e.rowsOf(s, a), e.rowsOf(s, b)
		same := a.Off == b.Off
		for i := range ra {
			same = same && ra[i] == rb[i]
		}
		lens := p.Eq(a.Len, b.Len)
		if same {
			return set(lens)
		}
		// the same rows at the same offset have the same content
		ident := []*Term{p.Eq(a.Off, b.Off)}
		for k := range ra {
			ident = append(ident, p.Eq(ra[k], rb[k]))
		}
		return set(p.And(lens, p.Or(p.And(ident...), e.mkForall(p.Int(0), a.Len, func(i *Term) *Term {
			var cs []*Term
			for k := range ra {
				cs = append(cs, p.Eq(p.Select(ra[k], p.Add(a.Off, i)), p.Select(rb[k], p.Add(b.Off, i))))
			}
			return p.And(cs...)
		}))))
	case "vcSame": // same object / same interface value
		a, b := args[0].(*IfaceV), args[1].(*IfaceV)
		if a.CT != nil && b.CT != nil {
			fa, fb := e.flatten(a.Conc, a.CT), e.flatten(b.Conc, b.CT)
			if len(fa) != len(fb) {
				return set(p.False)
			}
			var cs []*Term
			for i := range fa {
				cs = append(cs, p.Eq(fa[i], fb[i]))
			}
			return set(p.And(cs...))
		}
		return set(p.And(p.Eq(a.Tag, b.Tag), p.Eq(a.Ref, b.Ref)))
	case "vcOld": // p existed before the call (not freshly allocated)
		return set(p.True)
	// exact mathematics
	case "vcR": // uint64 -> real
		return set(&StructV{T: fn.Signature.Results().At(0).Type(), Fs: []Value{p.ToReal(term(args[0])), p.True}})
	}
	if strings.HasPrefix(name, "vcQ") {
		return e.vocabQ(s, name, fn, args, call)
	}
	return nil, false
}

// obligeAlways records a call-site precondition as an obligation of the contract being verified.
func (e *Eng) obligeAlways(s *State, name string, c *Term) {
	sp := s.top().spec
	e.oblige(s, name, c, false)
	_ = sp
}

// applyTarget: results and modified locations become arbitrary.
func (e *Eng) applyTarget(s *State, fn *ssa.Function, call ssa.Instruction) []*State {
	f := s.top()
	for _, iv := range f.modVals {
		switch x := iv.Conc.(type) {
		case *PtrV:
			e.store(s, x, e.fresh(x.Elem, "mod", false))
		case *SliceV:
			var rows []*Term
			for _, r := range e.rowsOf(s, x) {
				rows = append(rows, e.p.Fresh("mod", r.Sort))
			}
			e.setRows(s, x.Elem, x.Ref, rows)
		case *MapV:
			pr, vals, sorts, ks := e.mapKeys(x.T)
			h := e.heapArr(s, pr, arrSort("Int", arrSort(ks, "Bool")))
			s.setHeap(pr, e.p.Store(h, x.Ref, e.p.Fresh("mod", arrSort(ks, "Bool"))), x.Ref)
			for i, v := range vals {
				h := e.heapArr(s, v, sorts[i])
				s.setHeap(v, e.p.Store(h, x.Ref, e.p.Fresh("mod", elemSort(sorts[i]))), x.Ref)
			}
			hl := e.heapArr(s, pr+"#", arrSort("Int", "Int"))
			s.setHeap(pr+"#", e.p.Store(hl, x.Ref, e.p.Ranged(e.p.Fresh("mod", "Int"), bZero, bigMaxLen)), x.Ref)
			delete(s.mapK, x.Ref.ID)
		default:
			unsupported("modifies %T", iv.Conc)
		}
	}
	var rs []Value
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		rs = append(rs, e.fresh(res.At(i).Type(), "res:"+fn.Name(), false))
	}
	e.setResult(s, call, rs)
	return nil
}

// exact rationals in specifications: type vcQ (opaque at run time a *big.Rat)
func (e *Eng) vocabQ(s *State, name string, fn *ssa.Function, args []Value, call ssa.Instruction) ([]*State, bool) {
	p := e.p
	set := func(v Value) ([]*State, bool) {
		e.setResult(s, call, []Value{v})
		return nil, true
	}
	switch name {
	case "vcQu", "vcQi": // from uint64 / int64
		return set(p.ToReal(term(args[0])))
	case "vcQd": // from decimal
		return set(term(args[0]))
	case "vcQfrac": // vcQfrac(a, b int64)
		a, b := term(args[0]), term(args[1])
		return set(p.RDiv(p.ToReal(a), p.ToReal(b)))
	case "vcQadd":
		return set(p.Add(term(args[0]), term(args[1])))
	case "vcQsub":
		return set(p.Sub(term(args[0]), term(args[1])))
	case "vcQmul":
		return set(p.Mul(term(args[0]), term(args[1])))
	case "vcQdiv":
		return set(p.RDiv(term(args[0]), term(args[1])))
	case "vcQle":
		return set(p.Le(term(args[0]), term(args[1])))
	case "vcQlt":
		return set(p.Lt(term(args[0]), term(args[1])))
	case "vcQeq":
		return set(p.Eq(term(args[0]), term(args[1])))
	case "vcQint": // uint64 of the integer part
		return set(e.wrap(p.ToInt(term(args[0])), types.Typ[types.Uint64]))
	case "vcQfloor":
		return set(p.ToReal(p.ToInt(term(args[0]))))
	}
	return nil, false
}

// ---------------------------------------------------------------- builtins

func (e *Eng) builtin(s *State, b *ssa.Builtin, c *ssa.CallCommon, args []Value, call ssa.Instruction) []*State {
	p := e.p
	set := func(v Value) []*State {
		e.setResult(s, call, []Value{v})
		return nil
	}
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if b.Name() == "cap" {
				return set(x.Cap)
			}
			return set(x.Len)
		case *Term:
			if x.Sort == "Str" {
				return set(e.strLen(x))
			}
			return set(p.Ranged(p.Fresh("chanlen", "Int"), bZero, bigMaxLen))
		case *MapV:
			if ks, ok := s.mapK[x.Ref.ID]; ok {
				return set(p.Int(int64(len(ks))))
			}
			return set(e.mapLen(s, x))
		case *ArrV:
			return set(p.Int(x.N))
		case *PtrV:
			return set(p.Int(x.Elem.Underlying().(*types.Array).Len()))
		}
	case "append":
		return e.doAppend(s, args, c, call)
	case "copy":
		dst := args[0].(*SliceV)
		var srcRows []*Term
		var off, n *Term
		switch src := args[1].(type) {
		case *SliceV:
			srcRows = e.rowsOf(s, src)
			off, n = src.Off, src.Len
		case *Term:
			srcRows = []*Term{p.App("str_bytes", arrSort("Int", "Int"), src)}
			off, n = p.Int(0), e.strLen(src)
		}
		cnt := p.Ite(p.Le(dst.Len, n), dst.Len, n)
		rows := e.rowsOf(s, dst)
		for i := range rows {
			rows[i] = e.copyRow(rows[i], dst.Off, srcRows[i], off, cnt)
		}
		e.setRows(s, dst.Elem, dst.Ref, rows)
		return set(cnt)
	case "delete":
		m := args[0].(*MapV)
		e.mapDelete(s, m, args[1])
		return nil
	case "print", "println", "close":
		return nil
	case "recover":
		return set(e.zero(b.Type().(*types.Signature).Results().At(0).Type()))
	case "ssa:wrapnilchk":
		return set(args[0])
	case "min", "max":
		r := term(args[0])
		for _, a := range args[1:] {
			x := term(a)
			if b.Name() == "min" {
				r = p.Ite(p.Le(r, x), r, x)
			} else {
				r = p.Ite(p.Le(r, x), x, r)
			}
		}
		return set(r)
	}
	unsupported("builtin %s on %T", b.Name(), args[0])
	return nil
}

// copyRow: dst with n elements of src copied in.
func (e *Eng) copyRow(dst, doff, src, soff, n *Term) *Term {
	p := e.p
	if isZeroT(n) {
		return dst
	}
	if n.Op == "int" && n.I.Int64() <= 64 {
		for i := int64(0); i < n.I.Int64(); i++ {
			dst = p.Store(dst, p.Add(doff, p.Int(i)), p.Select(src, p.Add(soff, p.Int(i))))
		}
		return dst
	}
	r := p.App("copyrow:"+dst.Sort, dst.Sort, dst, doff, src, soff, n)
	if len(r.facts) == 0 && !r.bnd {
		q := p.BVar("Int")
		in := p.And(p.Le(doff, q), p.Lt(q, p.Add(doff, n)))
		r.facts = append(r.facts, p.Forall(q, p.mk("=", "Bool", []*Term{p.mk("select", elemSort(r.Sort), []*Term{r, q}, ""),
			p.Ite(in, p.Select(src, p.Add(p.Sub(q, doff), soff)), p.Select(dst, q))}, "")))
	}
	return r
}

func (e *Eng) doAppend(s *State, args []Value, c *ssa.CallCommon, call ssa.Instruction) []*State {
	p := e.p
	a := args[0].(*SliceV)
	var bRows []*Term
	var bOff, bLen *Term
	switch b := args[1].(type) {
	case *SliceV:
		bRows = e.rowsOf(s, b)
		bOff, bLen = b.Off, b.Len
	case *Term:
		bRows = []*Term{p.App("str_bytes", arrSort("Int", "Int"), b)}
		if b.Op == "str" {
			row := p.ConstArr(arrSort("Int", "Int"), p.Int(0))
			for i := 0; i < len(b.S); i++ {
				row = p.Store(row, p.Int(int64(i)), p.Int(int64(b.S[i])))
			}
			bRows[0] = row
		}
		bOff, bLen = p.Int(0), e.strLen(b)
	}
	aRows := e.rowsOf(s, a)
	ref := e.newRef(s)
	var rows []*Term
	for i := range aRows {
		base := aRows[i]
		off := a.Off
		if !isZeroT(off) {
			// re-base to offset 0
			z := e.zeroLeaf(base.Sort)
			base = e.copyRow(z, p.Int(0), base, off, a.Len)
		}
		rows = append(rows, e.copyRow(base, a.Len, bRows[i], bOff, bLen))
	}
	e.setRows(s, a.Elem, ref, rows)
	n := p.Add(a.Len, bLen)
	// append(nil, empty...) stays nil
	rr := ref
	if a.Len.Op != "int" || bLen.Op != "int" {
		rr = p.Ite(p.And(p.Eq(a.Ref, p.Int(0)), p.Eq(n, p.Int(0))), p.Int(0), ref)
		if bLen.Op == "int" && bLen.I.Sign() > 0 {
			rr = ref
		}
	} else if isZeroT(n) {
		rr = a.Ref
	}
	e.setResult(s, call, []Value{&SliceV{Elem: a.Elem, Ref: rr, Off: p.Int(0), Len: n, Cap: n}})
	e.abstracted["append always copies: no two live slices share spare capacity"] = true
	return nil
}

var _ = sort.Strings

func (e *Eng) boolArg(s *State, v Value) *Term {
	if f, ok := v.(*FuncV); ok {
		return term(e.evalPure(s, f, nil))
	}
	return term(v)
}
