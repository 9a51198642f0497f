package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type boxed struct {
	v Value
	t types.Type
}

// Eng is one verification session: one contract, one term pool, one solver.
type Eng struct {
	ndumpInv int
	p           *Pool
	prog        *Program
	sv          *Solver
	leafC       map[string][]Leaf
	boxes       map[int]boxed
	nbox        int
	tagIDs      map[string]int
	tagType     map[int]types.Type
	funcByRef   map[int]*FuncV
	nfunc       int
	interiorTab map[string]*Term
	interiorPtr map[int]*PtrV
	initHeap    map[string]*Term // heap after package initialisation
	initDone    map[*ssa.Package]bool
	globalOK    map[*ssa.Global]bool
	ct          *Contract
	record      bool // obligations are recorded
	obls        map[string]*Obl
	oblOrder    []string
	inlined     map[string]bool
	havocked    map[string]bool
	modelled    map[string]bool
	usedCt      map[string]bool
	abstracted  map[string]bool
	npaths      int
	nsteps      int
	inputs      []inputVal
	anys        []Value
	pureDepth   int
	globalDone  map[*ssa.Global]bool
	initNext    int64
	bounded     int
	cutoff      bool
	recDepth    map[string]int
	uid         int
	deadline    func() bool
	curFn       string
	invFailed   []string
	loopsSeen   map[string]int
	invCount    int
	entryParams []Value
	termKeys    map[string]bool // map key terms seen, for model extraction
	strTheory   bool
	pbVals      map[string]types.Type
	encoded     map[int]Value
	memo        map[string]Value
	inSpec      int
	dict        map[string]bool
}

type inputVal struct {
	name string
	t    types.Type
	v    Value
}

type deferred struct {
	call  *ssa.Defer
	fn    Value
	args  []Value
	instr ssa.CallCommon
}

type Frame struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	env    map[ssa.Value]Value
	defers []deferred
	call   ssa.Instruction // call instruction in the caller waiting for the result
	active map[*ssa.BasicBlock]bool
	unroll map[*ssa.BasicBlock]int
	mode   string // "" normal, "apply" contract application at a call site
	spec   bool   // this frame (and its callees) is specification code
	allocs []*PtrV
	modVals []*IfaceV
	onRet  func(e *Eng, st *State, rets []Value) // post-processing instead of env assignment
}

type State struct {
	frames []*Frame
	heap   map[string]*Term
	pcs    []*Term
	pcSet  map[int]bool
	nalloc int64
	status string // "", "ret", "backedge", "exit", "panic", "dead"
	rets   []Value
	mapK   map[int][]Value // concrete key lists for maps built on this path (by ref ID); nil when unknown
	iters  map[int]int
	trial  *trialCtx
	stopAt int // depth at which return stops the run
	notes  []string
	anys   []anyVal
	invs   []*FuncV
	mods   map[string]*modInfo
	lets   map[string]Value
	panicV string
	lastNow *Term
	gos     []deferred // goroutines started on this path, in order
	chans   map[int][]Value // what channels made on this path hold
}

type anyVal struct {
	t types.Type
	v Value
}

type modInfo struct {
	refs []*Term
	srt  string
}

type trialCtx struct {
	loop  *Loop
	depth int
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{lastNow: st.lastNow, gos: st.gos, chans: st.chans, nalloc: st.nalloc, status: st.status, rets: st.rets, trial: st.trial, stopAt: st.stopAt, panicV: st.panicV}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Value, len(f.env)+8)
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred{}, f.defers...)
		g.active = map[*ssa.BasicBlock]bool{}
		for k, v := range f.active {
			g.active[k] = v
		}
		g.unroll = map[*ssa.BasicBlock]int{}
		for k, v := range f.unroll {
			g.unroll[k] = v
		}
		n.frames[i] = &g
	}
	n.heap = make(map[string]*Term, len(st.heap)+8)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.pcs = append([]*Term{}, st.pcs...)
	n.pcSet = make(map[int]bool, len(st.pcSet)+8)
	for k := range st.pcSet {
		n.pcSet[k] = true
	}
	n.mapK = make(map[int][]Value, len(st.mapK))
	for k, v := range st.mapK {
		n.mapK[k] = v
	}
	if st.mods != nil {
		n.mods = make(map[string]*modInfo, len(st.mods))
		for k, v := range st.mods {
			n.mods[k] = &modInfo{refs: append([]*Term{}, v.refs...), srt: v.srt}
		}
	}
	n.notes = append([]string{}, st.notes...)
	n.anys = append([]anyVal{}, st.anys...)
	n.invs = append([]*FuncV{}, st.invs...)
	return n
}

func (st *State) assume(p *Pool, t *Term) bool {
	if t == p.True || st.pcSet[t.ID] {
		return true
	}
	if t == p.False || st.pcSet[p.Not(t).ID] {
		st.status = "dead"
		return false
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			if !st.assume(p, a) {
				return false
			}
		}
		return true
	}
	st.pcs = append(st.pcs, t)
	st.pcSet[t.ID] = true
	return true
}

// ---------------------------------------------------------------- heap

func (e *Eng) heapArr(st *State, key, srt string) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	if t, ok := e.initHeap[key]; ok {
		return t
	}
	return e.initArr(key, srt)
}

// initArr is the heap before the contract's function starts. Slices found there
// start where their array starts: their offsets are 0.
func (e *Eng) initArr(key, srt string) *Term {
	if strings.HasSuffix(key, ".off") {
		x := srt
		n := 0
		for strings.HasPrefix(x, "(Array ") {
			x = elemSort(x)
			n++
		}
		if x == "Int" && n > 0 {
			return e.constNest(srt)
		}
	}
	return e.p.Var("H0:"+key, srt)
}

func (e *Eng) constNest(srt string) *Term {
	if !strings.HasPrefix(srt, "(Array ") {
		return e.p.Int(0)
	}
	return e.p.ConstArr(srt, e.constNest(elemSort(srt)))
}

func isInitArr(t *Term) bool {
	for t.Op == "select" {
		t = t.Args[0]
	}
	return t.Op == "var" && strings.HasPrefix(t.S, "H0:")
}

func (st *State) setHeap(key string, t *Term, ref *Term) {
	st.heap[key] = t
	if st.mods != nil {
		m := st.mods[key]
		if m == nil {
			m = &modInfo{srt: t.Sort}
			st.mods[key] = m
		}
		for _, r := range m.refs {
			if r == ref {
				return
			}
		}
		m.refs = append(m.refs, ref)
	}
}

func (e *Eng) nilCheck(st *State, ref *Term, what string) bool {
	p := e.p
	c := p.Not(p.Eq(ref, p.Int(0)))
	if c == p.True {
		return true
	}
	if e.pureDepth > 0 || e.inSpec > 0 {
		return true
	}
	e.safety(st, "nil-deref", c)
	return st.assume(p, c)
}

// safety registers an absence-of-panic obligation.
func (e *Eng) safety(st *State, kind string, c *Term) {
	if e.pureDepth > 0 || e.inSpec > 0 || st.topSpec() {
		return
	}
	if c == e.p.True || st.pcSet[c.ID] {
		return
	}
	e.oblige(st, "nopanic:"+kind+":"+e.where(st), c, true)
}
func (st *State) topSpec() bool { return len(st.frames) > 0 && st.top().spec }

func (e *Eng) where(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if !f.spec {
			return fnName(f.fn)
		}
	}
	return "contract"
}

func (e *Eng) load(st *State, ptr *PtrV) Value {
	ptr = e.norm(ptr)
	p := e.p
	if !e.nilCheck(st, ptr.Ref, "load") {
		return e.zero(ptr.Elem)
	}
	root := e.rootKey(ptr)
	if at, ok := ptr.Elem.Underlying().(*types.Array); ok && ptr.Root == "" && ptr.Path == "" && ptr.Idx == nil && !isSpecial(ptr.Elem) {
		// root array objects live in the slice heap
		av := &ArrV{Elem: at.Elem(), N: at.Len()}
		for _, l := range e.leaves(at.Elem()) {
			key := "[]" + typeKey(at.Elem()) + l.Path
			h := e.heapArr(st, key, arrSort("Int", arrSort("Int", l.Sort)))
			av.Ls = append(av.Ls, p.Select(h, ptr.Ref))
		}
		return av
	}
	v := e.build(ptr.Elem, func(l Leaf) *Term {
		return e.loadLeaf(st, ptr, root, l)
	})
	e.attachWF(v)
	return v
}

func isSpecial(t types.Type) bool { return isDecimal(t) || isBigInt(t) || isTime(t) || isUUID(t) }

func (e *Eng) loadLeaf(st *State, ptr *PtrV, root string, l Leaf) *Term {
	p := e.p
	key := root + ptr.Path + l.Path
	srt := l.Sort
	if ptr.AIdx != nil {
		srt = arrSort("Int", srt)
	}
	if ptr.Idx != nil {
		srt = arrSort("Int", srt)
	}
	if strings.HasPrefix(root, "G:") {
		// globals: one cell
		h := e.heapArr(st, key, arrSort("Int", srt))
		t := p.Select(h, ptr.Ref)
		if ptr.AIdx != nil {
			t = p.Select(t, ptr.AIdx)
		}
		return e.typedSel(t, l)
	}
	h := e.heapArr(st, key, arrSort("Int", srt))
	t := p.Select(h, ptr.Ref)
	if ptr.Idx != nil {
		t = p.Select(t, ptr.Idx)
	}
	if ptr.AIdx != nil {
		t = p.Select(t, ptr.AIdx)
	}
	return e.typedSel(t, l)
}
func (e *Eng) typedSel(t *Term, l Leaf) *Term {
	if t.Op != "select" && t.Op != "var" {
		return t
	}
	return e.typed(t, l, isInitArr(t))
}

func (e *Eng) store(st *State, ptr *PtrV, v Value) {
	ptr = e.norm(ptr)
	p := e.p
	if !e.nilCheck(st, ptr.Ref, "store") {
		return
	}
	root := e.rootKey(ptr)
	if at, ok := ptr.Elem.Underlying().(*types.Array); ok && ptr.Root == "" && ptr.Path == "" && ptr.Idx == nil && !isSpecial(ptr.Elem) {
		av := v.(*ArrV)
		for i, l := range e.leaves(at.Elem()) {
			key := "[]" + typeKey(at.Elem()) + l.Path
			h := e.heapArr(st, key, arrSort("Int", arrSort("Int", l.Sort)))
			st.setHeap(key, p.Store(h, ptr.Ref, av.Ls[i]), ptr.Ref)
		}
		return
	}
	ls := e.leaves(ptr.Elem)
	ts := e.flatten(v, ptr.Elem)
	if len(ls) != len(ts) {
		unsupported("store shape %s", ptr.Elem)
	}
	for i, l := range ls {
		e.storeLeaf(st, ptr, root, l, ts[i])
	}
}
func (e *Eng) storeLeaf(st *State, ptr *PtrV, root string, l Leaf, t *Term) {
	p := e.p
	key := root + ptr.Path + l.Path
	srt := l.Sort
	if ptr.AIdx != nil {
		srt = arrSort("Int", srt)
	}
	if ptr.Idx != nil {
		srt = arrSort("Int", srt)
	}
	h := e.heapArr(st, key, arrSort("Int", srt))
	if t.Sort != l.Sort && l.Sort == "Real" && t.Sort == "Int" {
		t = p.ToReal(t)
	}
	nv := t
	if ptr.Idx != nil || ptr.AIdx != nil {
		a := p.Select(h, ptr.Ref)
		if ptr.Idx != nil && ptr.AIdx != nil {
			b := p.Select(a, ptr.Idx)
			nv = p.Store(a, ptr.Idx, p.Store(b, ptr.AIdx, t))
		} else if ptr.Idx != nil {
			nv = p.Store(a, ptr.Idx, t)
		} else {
			nv = p.Store(a, ptr.AIdx, t)
		}
	}
	st.setHeap(key, p.Store(h, ptr.Ref, nv), ptr.Ref)
}

func (e *Eng) newRef(st *State) *Term {
	st.nalloc++
	return e.p.Int(st.nalloc)
}

func (e *Eng) alloc(st *State, t types.Type) *PtrV {
	ptr := &PtrV{Elem: t, Ref: e.newRef(st)}
	if at, ok := t.Underlying().(*types.Array); ok && !isSpecial(t) {
		for _, l := range e.leaves(at.Elem()) {
			key := "[]" + typeKey(at.Elem()) + l.Path
			s2 := arrSort("Int", l.Sort)
			h := e.heapArr(st, key, arrSort("Int", s2))
			st.setHeap(key, e.p.Store(h, ptr.Ref, e.zeroLeaf(s2)), ptr.Ref)
		}
		return ptr
	}
	for _, l := range e.leaves(t) {
		key := "*" + typeKey(t) + l.Path
		h := e.heapArr(st, key, arrSort("Int", l.Sort))
		st.setHeap(key, e.p.Store(h, ptr.Ref, e.zeroLeaf(l.Sort)), ptr.Ref)
	}
	return ptr
}

func (e *Eng) makeSlice(st *State, elem types.Type, n, c *Term) *SliceV {
	ref := e.newRef(st)
	for _, l := range e.leaves(elem) {
		key := "[]" + typeKey(elem) + l.Path
		s2 := arrSort("Int", l.Sort)
		h := e.heapArr(st, key, arrSort("Int", s2))
		st.setHeap(key, e.p.Store(h, ref, e.zeroLeaf(s2)), ref)
	}
	return &SliceV{Elem: elem, Ref: ref, Off: e.p.Int(0), Len: n, Cap: c}
}

func (e *Eng) elemPtr(s *SliceV, i *Term) *PtrV {
	return &PtrV{Elem: s.Elem, Root: "[]" + typeKey(s.Elem), Ref: s.Ref, Idx: e.p.Add(s.Off, i)}
}

// rowsOf returns the content arrays of a slice.
func (e *Eng) rowsOf(st *State, s *SliceV) []*Term {
	var out []*Term
	for _, l := range e.leaves(s.Elem) {
		key := "[]" + typeKey(s.Elem) + l.Path
		h := e.heapArr(st, key, arrSort("Int", arrSort("Int", l.Sort)))
		out = append(out, e.p.Select(h, s.Ref))
	}
	return out
}
func (e *Eng) setRows(st *State, elem types.Type, ref *Term, rows []*Term) {
	for i, l := range e.leaves(elem) {
		key := "[]" + typeKey(elem) + l.Path
		h := e.heapArr(st, key, arrSort("Int", arrSort("Int", l.Sort)))
		st.setHeap(key, e.p.Store(h, ref, rows[i]), ref)
	}
}

// ---------------------------------------------------------------- operands

func (e *Eng) val(st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return &FuncV{Fn: x}
	case *ssa.Builtin:
		return &FuncV{Bi: x}
	case *ssa.Global:
		return e.globalPtr(x)
	case *ssa.FreeVar:
		if r, ok := st.top().env[v]; ok {
			return r
		}
	}
	r, ok := st.top().env[v]
	if !ok {
		unsupported("undefined value %s in %s", v.Name(), st.top().fn)
	}
	return r
}

func (e *Eng) globalPtr(g *ssa.Global) *PtrV {
	e.needInit(g)
	el := g.Type().Underlying().(*types.Pointer).Elem()
	return &PtrV{Elem: el, Root: "G:" + g.Pkg.Pkg.Path() + "." + g.Name(), Ref: e.p.Int(1)}
}

func (e *Eng) constVal(c *ssa.Const) Value {
	p := e.p
	if c.Value == nil {
		return e.zero(c.Type())
	}
	return e.constOf(c.Value, c.Type(), p)
}
func (e *Eng) constOf(v constant.Value, t types.Type, p *Pool) Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if _, isI := t.Underlying().(*types.Interface); isI {
			unsupported("const iface")
		}
		unsupported("const %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return p.Bool(constant.BoolVal(v))
	case b.Info()&types.IsString != 0:
		return p.Str(constant.StringVal(v))
	case b.Info()&types.IsInteger != 0:
		v = constant.ToInt(v)
		i, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			unsupported("const int %s", v)
		}
		return p.BigInt(i)
	case b.Info()&types.IsFloat != 0:
		r, ok := new(big.Rat).SetString(constant.ToFloat(v).ExactString())
		if !ok {
			unsupported("const float %s", v)
		}
		return p.Real(r)
	}
	unsupported("const %s", t)
	return nil
}

func term(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		unsupported("scalar expected, got %T", v)
	}
	return t
}

// wrap brings a mathematical integer into the range of Go type t.
func (e *Eng) wrap(x *Term, t types.Type) *Term {
	lo, hi := intRange(t)
	if lo == nil {
		return x
	}
	if x.lo != nil && x.hi != nil && x.lo.Cmp(lo) >= 0 && x.hi.Cmp(hi) <= 0 {
		return x
	}
	p := e.p
	m := new(big.Int).Sub(hi, lo)
	m.Add(m, big.NewInt(1))
	if x.Op == "int" {
		r := new(big.Int).Sub(x.I, lo)
		r.Mod(r, m)
		return p.BigInt(r.Add(r, lo))
	}
	// one subtraction / addition suffices?
	if x.lo != nil && x.hi != nil {
		if x.hi.Cmp(new(big.Int).Add(hi, m)) <= 0 && x.lo.Cmp(new(big.Int).Sub(lo, m)) >= 0 {
			r := x
			if x.hi.Cmp(hi) > 0 {
				r = p.Ite(p.Le(x, p.BigInt(hi)), x, p.Sub(x, p.BigInt(m)))
			}
			if x.lo.Cmp(lo) < 0 {
				r = p.Ite(p.Lt(x, p.BigInt(lo)), p.Add(x, p.BigInt(m)), r)
			}
			r.lo, r.hi = lo, hi
			if r.Op == "ite" {
				return r
			}
			return r
		}
	}
	var r *Term
	if lo.Sign() == 0 {
		r = p.Mod(x, p.BigInt(m))
	} else {
		r = p.Add(p.Mod(p.Sub(x, p.BigInt(lo)), p.BigInt(m)), p.BigInt(lo))
	}
	return p.Ranged(r, lo, hi)
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// truncDiv is Go's truncated division.
func (e *Eng) truncDiv(a, b *Term) *Term {
	p := e.p
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() >= 0 {
		return p.Div(a, b)
	}
	ab := func(x *Term) *Term { return p.Ite(p.Le(p.Int(0), x), x, p.Neg(x)) }
	q := p.Div(ab(a), ab(b))
	same := p.Eq(p.Le(p.Int(0), a), p.Lt(p.Int(0), b))
	return p.Ite(same, q, p.Neg(q))
}

func (e *Eng) binop(st *State, op token.Token, a, b Value, ta, tb, tr types.Type) Value {
	p := e.p
	switch op {
	case token.EQL, token.NEQ:
		t := ta
		if _, ok := ta.Underlying().(*types.Interface); ok {
			if _, ok2 := tb.Underlying().(*types.Interface); !ok2 {
				b = e.makeIface(st, b, tb)
			}
		} else if _, ok := tb.Underlying().(*types.Interface); ok {
			a = e.makeIface(st, a, ta)
			t = tb
		}
		r := e.eqVal(a, b, t)
		if op == token.NEQ {
			return p.Not(r)
		}
		return r
	}
	x, y := term(a), term(b)
	if isStr(ta) {
		switch op {
		case token.ADD:
			return e.strCat(x, y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			f := func(u, v *Term) *Term {
				if u.Op == "str" && v.Op == "str" {
					return p.Bool(u.S < v.S)
				}
				if p.theory {
					return p.Smt("str.<", "Bool", u, v)
				}
				return p.App("str_lt", "Bool", u, v)
			}
			switch op {
			case token.LSS:
				return f(x, y)
			case token.GTR:
				return f(y, x)
			case token.LEQ:
				return p.Not(f(y, x))
			default:
				return p.Not(f(x, y))
			}
		}
		unsupported("string op %s", op)
	}
	switch op {
	case token.LSS:
		return p.Lt(x, y)
	case token.LEQ:
		return p.Le(x, y)
	case token.GTR:
		return p.Lt(y, x)
	case token.GEQ:
		return p.Le(y, x)
	}
	if x.Sort == "Bool" {
		switch op {
		case token.AND:
			return p.And(x, y)
		case token.OR:
			return p.Or(x, y)
		}
	}
	if isFloat(ta) {
		e.abstracted["float64 arithmetic treated as exact reals"] = true
		switch op {
		case token.ADD:
			return p.Add(x, y)
		case token.SUB:
			return p.Sub(x, y)
		case token.MUL:
			return p.Mul(x, y)
		case token.QUO:
			return p.RDiv(x, y)
		}
	}
	switch op {
	case token.ADD:
		return e.wrap(p.Add(x, y), tr)
	case token.SUB:
		return e.wrap(p.Sub(x, y), tr)
	case token.MUL:
		return e.wrap(p.Mul(x, y), tr)
	case token.QUO:
		nz := p.Not(p.Eq(y, p.Int(0)))
		e.safety(st, "div-by-zero", nz)
		st.assume(p, nz)
		return e.wrap(e.truncDiv(x, y), tr)
	case token.REM:
		nz := p.Not(p.Eq(y, p.Int(0)))
		e.safety(st, "div-by-zero", nz)
		st.assume(p, nz)
		if x.lo != nil && x.lo.Sign() >= 0 && y.lo != nil && y.lo.Sign() >= 0 {
			return p.Mod(x, y)
		}
		return e.wrap(p.Sub(x, p.Mul(y, e.truncDiv(x, y))), tr)
	case token.SHL:
		if y.Op == "int" {
			return e.wrap(p.Mul(x, p.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(y.I.Int64())))), tr)
		}
	case token.SHR:
		if y.Op == "int" {
			return p.Div(x, p.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(y.I.Int64()))))
		}
	case token.AND:
		if x.Op == "int" && y.Op == "int" {
			return p.BigInt(new(big.Int).And(x.I, y.I))
		}
		if x.Op == "int" {
			x, y = y, x
		}
		if y.Op == "int" && y.I.Sign() >= 0 && x.lo != nil && x.lo.Sign() >= 0 {
			// low mask
			m := new(big.Int).Add(y.I, big.NewInt(1))
			if m.BitLen() > 0 && new(big.Int).And(m, y.I).Sign() == 0 {
				return p.Mod(x, p.BigInt(m))
			}
			// single bit
			if y.I.Sign() > 0 && new(big.Int).And(y.I, new(big.Int).Sub(y.I, big.NewInt(1))).Sign() == 0 {
				return p.Mul(y, p.Mod(p.Div(x, y), p.Int(2)))
			}
		}
	case token.OR:
		if x.Op == "int" && y.Op == "int" {
			return p.BigInt(new(big.Int).Or(x.I, y.I))
		}
	}
	t := p.App("bit_"+op.String(), "Int", x, y)
	lo, hi := intRange(tr)
	return p.Ranged(t, lo, hi)
}

func (e *Eng) strCat(x, y *Term) *Term {
	p := e.p
	if x.Op == "str" && y.Op == "str" {
		return p.Str(x.S + y.S)
	}
	if x.Op == "str" && x.S == "" {
		return y
	}
	if y.Op == "str" && y.S == "" {
		return x
	}
	if p.theory {
		return p.Smt("str.++", "Str", x, y)
	}
	return p.App("str_cat", "Str", x, y)
}
func (e *Eng) strLen(x *Term) *Term {
	p := e.p
	if x.Op == "str" {
		return p.Int(int64(len(x.S)))
	}
	if p.theory {
		return p.Ranged(p.Smt("str.len", "Int", x), bZero, bigMaxLen)
	}
	if x.Op == "app" && x.S == "str_cat" {
		return p.Add(e.strLen(x.Args[0]), e.strLen(x.Args[1]))
	}
	t := p.Ranged(p.App("str_len", "Int", x), bZero, bigMaxLen)
	if len(t.facts) == 0 && !x.bnd {
		t.facts = append(t.facts, p.Eq(p.mk("=", "Bool", []*Term{t, p.Int(0)}, ""), p.Eq(x, p.Str(""))))
	}
	return t
}

func (e *Eng) tagOf(t types.Type) *Term {
	k := typeKey(t)
	id, ok := e.tagIDs[k]
	if !ok {
		id = len(e.tagIDs) + 1
		e.tagIDs[k] = id
		e.tagType[id] = t
	}
	return e.p.Int(int64(id))
}

func (e *Eng) makeIface(st *State, v Value, t types.Type) *IfaceV {
	if iv, ok := v.(*IfaceV); ok {
		return iv
	}
	tag := e.tagOf(t)
	if ptr, ok := v.(*PtrV); ok {
		ts := e.flatten(ptr, t)
		return &IfaceV{Tag: tag, Ref: ts[0], Conc: v, CT: t}
	}
	// boxes are immutable, so their references are global (not per path) and
	// content-addressed: equal content gives equal box, so equality and map keys
	// work on boxed scalars
	var ref *Term
	if tm, ok := v.(*Term); ok && tag.Op == "int" {
		if tm.Op == "int" || tm.Op == "str" {
			k := fmt.Sprintf("box|%d|%d", tag.ID, tm.ID)
			if r, ok := e.interiorTab[k]; ok {
				ref = r
			} else {
				ref = e.newBox()
				e.interiorTab[k] = ref
			}
		} else {
			tk := typeKey(t)
			ref = e.p.App("box:"+tk, "Int", tm)
			if len(ref.facts) == 0 && !ref.bnd {
				ref.facts = append(ref.facts, e.p.mk("=", "Bool", []*Term{e.p.App("unbox:"+tk, tm.Sort, ref), tm}, ""))
			}
		}
	} else {
		ref = e.newBox()
	}
	e.boxes[ref.ID] = boxed{v, t}
	return &IfaceV{Tag: tag, Ref: ref, Conc: v, CT: t}
}

// newBox: a reference no path shares with anything else.
func (e *Eng) newBox() *Term {
	e.nbox++
	return e.p.Int(1<<40 + int64(e.nbox))
}

// ---------------------------------------------------------------- running

// run executes st until every path stops; the stopped states are returned.
func (e *Eng) run(st *State) []*State {
	work := []*State{st}
	var done []*State
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for s.status == "" {
			e.nsteps++
			if e.nsteps%64 == 0 && e.deadline != nil && e.deadline() {
				unsupported("time budget of the symbolic execution exhausted")
			}
			more := e.step(s)
			work = append(work, more...)
		}
		if s.status != "dead" {
			done = append(done, s)
			if len(done) > 6000 {
				unsupported("too many paths")
			}
		}
	}
	return done
}

// jump moves s to block b; returns extra states.
func (e *Eng) jump(s *State, b *ssa.BasicBlock) []*State {
	f := s.top()
	from := f.block
	// leaving summarised loops
	ls := e.prog.loopsOf(f.fn)
	for h := range f.active {
		if l := ls[h]; l != nil && !l.body[b] {
			delete(f.active, h)
		}
	}
	for h := range f.unroll {
		if l := ls[h]; l != nil && !l.body[b] {
			delete(f.unroll, h)
		}
	}
	if s.trial != nil && s.trial.depth == len(s.frames) && !s.trial.loop.body[b] {
		s.status = "exit"
		f.prev, f.block, f.pc = from, b, 0
		return nil
	}
	f.prev = from
	f.block = b
	f.pc = 0
	// phis
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		idx := -1
		for i, pr := range b.Preds {
			if pr == from {
				idx = i
			}
		}
		vals = append(vals, e.val(s, ph.Edges[idx]))
		phis = append(phis, ph)
	}
	for i, ph := range phis {
		f.env[ph] = vals[i]
	}
	f.pc = len(phis)
	l := ls[b]
	if l == nil {
		return nil
	}
	if l.body[from] && f.active[b] {
		// back edge of a summarised loop
		s.status = "backedge"
		if s.trial != nil && (s.trial.loop.header != b || s.trial.depth != len(s.frames)) {
			// of a loop inside the one that is tried: its summary covers it
			s.status = "dead"
		}
		return nil
	}
	if e.canUnroll(s, l) || s.drains(l) {
		f.unroll[b]++
		if f.unroll[b] > 400 {
			unsupported("unrolling limit in %s", f.fn)
		}
		return nil
	}
	if e.bounded > 0 {
		f.unroll[b]++
		if f.unroll[b] > e.bounded+1 {
			s.status = "dead"
			e.cutoff = true
		}
		return nil
	}
	return e.summarize(s, l)
}

func (st *State) setChan(id int, q []Value) {
	n := map[int][]Value{id: q}
	for k, v := range st.chans {
		if k != id {
			n[k] = v
		}
	}
	st.chans = n
}

// drains: the loop starts by receiving and there are channels whose content is
// known; each iteration takes from one.
func (st *State) drains(l *Loop) bool {
	if len(st.chans) == 0 {
		return false
	}
	for _, in := range l.header.Instrs {
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.ARROW {
			return true
		}
	}
	return false
}

// canUnroll: the header's exit test is decided by what is known.
func (e *Eng) canUnroll(s *State, l *Loop) bool {
	h := l.header
	last, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		// header without a test: look at whether the body decides concretely;
		// unroll only small constant loops
		return false
	}
	c := s.clone()
	c.mods = nil
	f := c.top()
	defer func(r bool) { e.record = r }(e.record)
	e.record = false
	for f.pc < len(h.Instrs)-1 {
		in := h.Instrs[f.pc]
		if _, ok := in.(ssa.CallInstruction); ok {
			if _, ok := in.(*ssa.Call).Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		}
		d := len(c.frames)
		more := e.step(c)
		if len(more) > 0 || c.status != "" || len(c.frames) != d {
			return false
		}
	}
	v := term(e.val(c, last.Cond))
	if in, ok := last.Cond.(ssa.Instruction); !ok || !l.body[in.Block()] {
		// the test is the same in every round
		stay := l.body[h.Succs[0]] && h.Succs[0] != h
		if stay && (v == e.p.True || c.pcSet[v.ID]) || !stay && (v == e.p.False || c.pcSet[e.p.Not(v).ID]) {
			return false
		}
	}
	if isVal(v) {
		return true
	}
	if c.pcSet[v.ID] || c.pcSet[e.p.Not(v).ID] {
		return true
	}
	return false
}

func (e *Eng) step(s *State) []*State {
	f := s.top()
	if f.pc >= len(f.block.Instrs) {
		unsupported("fell off block")
	}
	in := f.block.Instrs[f.pc]
	f.pc++
	p := e.p
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
	case *ssa.Alloc:
		f.env[x] = e.alloc(s, x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		f.env[x] = e.binop(s, x.Op, e.val(s, x.X), e.val(s, x.Y), x.X.Type(), x.Y.Type(), x.Type())
	case *ssa.UnOp:
		v := e.val(s, x.X)
		switch x.Op {
		case token.MUL:
			pv, ok := v.(*PtrV)
			if !ok {
				unsupported("load through %T", v)
			}
			f.env[x] = e.load(s, pv)
		case token.NOT:
			f.env[x] = p.Not(term(v))
		case token.SUB:
			if term(v).Sort == "Real" {
				f.env[x] = p.Neg(term(v))
			} else {
				f.env[x] = e.wrap(p.Neg(term(v)), x.Type())
			}
		case token.XOR:
			t := term(v)
			if isUnsigned(x.Type()) {
				_, hi := intRange(x.Type())
				f.env[x] = p.Sub(p.BigInt(hi), t)
			} else {
				f.env[x] = p.Sub(p.Int(-1), t)
			}
		case token.ARROW:
			if ct, ok := v.(*Term); ok && s.chans != nil {
				if q, ok := s.chans[ct.ID]; ok {
					if len(q) == 0 { // nobody will ever send: the receiver waits for good
						e.abstracted["a goroutine waiting for good on a channel is not followed"] = true
						s.status = "dead"
						return nil
					}
					s.setChan(ct.ID, q[1:])
					if x.CommaOk {
						f.env[x] = &TupleV{Vs: []Value{q[0], e.p.True}}
					} else {
						f.env[x] = q[0]
					}
					break
				}
			}
			e.abstracted["channel receive yields an arbitrary value"] = true
			if x.CommaOk {
				f.env[x] = e.freshTyped(s, x.Type(), "recv")
			} else {
				f.env[x] = e.freshTyped(s, x.Type(), "recv")
			}
		default:
			unsupported("unop %s", x.Op)
		}
	case *ssa.ChangeType:
		f.env[x] = e.retype(e.val(s, x.X), x.Type())
	case *ssa.ChangeInterface:
		f.env[x] = e.val(s, x.X)
	case *ssa.Convert:
		f.env[x] = e.convert(s, e.val(s, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		f.env[x] = e.convert(s, e.val(s, x.X), x.X.Type(), x.Type())
	case *ssa.SliceToArrayPointer:
		unsupported("slice to array pointer")
	case *ssa.MakeInterface:
		f.env[x] = e.makeIface(s, e.val(s, x.X), x.X.Type())
	case *ssa.MakeClosure:
		fv := &FuncV{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.Bind = append(fv.Bind, e.val(s, b))
		}
		f.env[x] = fv
	case *ssa.MakeMap:
		ref := e.newRef(s)
		mv := &MapV{T: x.Type().Underlying().(*types.Map), Ref: ref}
		e.initMap(s, mv)
		s.mapK[ref.ID] = []Value{}
		f.env[x] = mv
	case *ssa.MakeChan:
		ch := e.newRef(s)
		f.env[x] = ch
		if s.trial == nil && e.pureDepth == 0 {
			s.setChan(ch.ID, []Value{})
		}
	case *ssa.MakeSlice:
		n, c := term(e.val(s, x.Len)), term(e.val(s, x.Cap))
		ok := p.And(p.Le(p.Int(0), n), p.Le(n, c))
		e.safety(s, "makeslice", ok)
		if !s.assume(p, ok) {
			return nil
		}
		f.env[x] = e.makeSlice(s, x.Type().Underlying().(*types.Slice).Elem(), n, c)
	case *ssa.FieldAddr:
		pv, ok := e.val(s, x.X).(*PtrV)
		if !ok {
			unsupported("fieldaddr on %T", e.val(s, x.X))
		}
		pv = e.norm(pv)
		if !e.nilCheck(s, pv.Ref, "field") {
			return nil
		}
		stt := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		fl := stt.Field(x.Field)
		np := *pv
		np.Root = e.rootKey(pv)
		np.Path += "." + fl.Name()
		np.Elem = fl.Type()
		f.env[x] = &np
	case *ssa.Field:
		sv, ok := e.val(s, x.X).(*StructV)
		if !ok || len(sv.Fs) == 0 {
			unsupported("field of %T", e.val(s, x.X))
		}
		f.env[x] = sv.Fs[x.Field]
	case *ssa.IndexAddr:
		i := term(e.val(s, x.Index))
		switch b := e.val(s, x.X).(type) {
		case *SliceV:
			ok := p.And(p.Le(p.Int(0), i), p.Lt(i, b.Len))
			e.safety(s, "index", ok)
			if e.pureDepth == 0 {
				if !s.assume(p, ok) {
					return nil
				}
			}
			f.env[x] = e.elemPtr(b, i)
		case *PtrV:
			b = e.norm(b)
			at := b.Elem.Underlying().(*types.Array)
			ok := p.And(p.Le(p.Int(0), i), p.Lt(i, p.Int(at.Len())))
			e.safety(s, "index", ok)
			if e.pureDepth == 0 {
				if !s.assume(p, ok) {
					return nil
				}
			}
			if b.Root == "" && b.Path == "" && b.Idx == nil {
				f.env[x] = &PtrV{Elem: at.Elem(), Root: "[]" + typeKey(at.Elem()), Ref: b.Ref, Idx: i}
			} else {
				if b.AIdx != nil {
					unsupported("nested array address")
				}
				np := *b
				np.Root = e.rootKey(b)
				np.Path += "[]"
				np.AIdx = i
				np.Elem = at.Elem()
				f.env[x] = &np
			}
		default:
			unsupported("indexaddr on %T", b)
		}
	case *ssa.Index:
		i := term(e.val(s, x.Index))
		switch b := e.val(s, x.X).(type) {
		case *ArrV:
			ok := p.And(p.Le(p.Int(0), i), p.Lt(i, p.Int(b.N)))
			e.safety(s, "index", ok)
			if e.pureDepth == 0 {
				s.assume(p, ok)
			}
			k := 0
			f.env[x] = e.build(b.Elem, func(l Leaf) *Term {
				t := e.typed(p.Select(b.Ls[k], i), l, false)
				k++
				return t
			})
		case *Term: // string
			f.env[x] = e.strAt(s, b, i)
		default:
			unsupported("index %T", b)
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			m := e.val(s, x.X).(*MapV)
			v, ok := e.mapGet(s, m, e.val(s, x.Index))
			if x.CommaOk {
				f.env[x] = &TupleV{[]Value{v, ok}}
			} else {
				f.env[x] = v
			}
		} else {
			f.env[x] = e.strAt(s, term(e.val(s, x.X)), term(e.val(s, x.Index)))
		}
	case *ssa.MapUpdate:
		m := e.val(s, x.Map).(*MapV)
		if !e.nilCheck(s, m.Ref, "map") {
			return nil
		}
		e.mapSet(s, m, e.val(s, x.Key), e.val(s, x.Value))
	case *ssa.Slice:
		return e.sliceOp(s, x)
	case *ssa.Store:
		pv, ok := e.val(s, x.Addr).(*PtrV)
		if !ok {
			unsupported("store through %T", e.val(s, x.Addr))
		}
		e.store(s, pv, e.val(s, x.Val))
	case *ssa.Extract:
		tv, ok := e.val(s, x.Tuple).(*TupleV)
		if !ok {
			unsupported("extract from %T", e.val(s, x.Tuple))
		}
		f.env[x] = tv.Vs[x.Index]
	case *ssa.TypeAssert:
		return e.typeAssert(s, x)
	case *ssa.Range:
		f.env[x] = e.mkIter(s, e.val(s, x.X), x.X.Type())
	case *ssa.Next:
		return e.next(s, x)
	case *ssa.Select:
		e.abstracted["select statement: any case may be taken"] = true
		f.env[x] = e.freshTyped(s, x.Type(), "select")
		tv := f.env[x].(*TupleV)
		i := term(tv.Vs[0])
		n := len(x.States)
		lo := 0
		if !x.Blocking {
			lo = -1
		}
		s.assume(p, p.And(p.Le(p.Int(int64(lo)), i), p.Lt(i, p.Int(int64(n)))))
	case *ssa.Send:
		if ct, ok := e.val(s, x.Chan).(*Term); ok && s.chans != nil {
			if q, ok := s.chans[ct.ID]; ok {
				s.setChan(ct.ID, append(append([]Value{}, q...), e.val(s, x.X)))
				break
			}
		}
		e.abstracted["channel send has no effect"] = true
	case *ssa.Go:
		d := deferred{instr: x.Call, fn: e.val(s, x.Call.Value)}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(s, a))
		}
		if s.trial != nil || e.pureDepth > 0 {
			e.abstracted["goroutine started in a loop of "+e.where(s)+" not followed"] = true
			break
		}
		s.gos = append(append([]deferred{}, s.gos...), d)
	case *ssa.Defer:
		d := deferred{instr: x.Call}
		if x.Call.IsInvoke() {
			d.fn = e.val(s, x.Call.Value)
		} else {
			d.fn = e.val(s, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(s, a))
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			f.pc-- // come back for the rest
			return e.invoke(s, &d.instr, d.fn, d.args, nil)
		}
	case *ssa.Panic:
		return e.doPanic(s, "explicit")
	case *ssa.Return:
		var rs []Value
		for _, r := range x.Results {
			rs = append(rs, e.val(s, r))
		}
		return e.doReturn(s, rs)
	case *ssa.Jump:
		return e.jump(s, f.block.Succs[0])
	case *ssa.If:
		c := term(e.val(s, x.Cond))
		return e.branch(s, c, f.block.Succs[0], f.block.Succs[1])
	case *ssa.Call:
		fnv := e.val0(s, &x.Call)
		var args []Value
		for _, a := range x.Call.Args {
			args = append(args, e.val(s, a))
		}
		return e.invoke(s, &x.Call, fnv, args, x)
	default:
		unsupported("instruction %T", in)
	}
	return nil
}

func (e *Eng) val0(s *State, c *ssa.CallCommon) Value { return e.val(s, c.Value) }

func (e *Eng) freshTyped(s *State, t types.Type, prefix string) Value {
	v := e.fresh(t, prefix, false)
	e.attachWF(v)
	return v
}

func (e *Eng) doPanic(s *State, kind string) []*State {
	if !s.topSpec() && e.inSpec == 0 && e.pureDepth == 0 {
		e.oblige(s, "nopanic:"+kind+":"+e.where(s), e.p.False, true)
	}
	s.status = "panic"
	return nil
}

func (e *Eng) doReturn(s *State, rs []Value) []*State {
	f := s.top()
	if len(s.frames) <= s.stopAt {
		s.status = "ret"
		s.rets = rs
		return nil
	}
	s.frames = s.frames[:len(s.frames)-1]
	if f.onRet != nil {
		f.onRet(e, s, rs)
		return nil
	}
	e.setResult(s, f.call, rs)
	return nil
}

func (e *Eng) setResult(s *State, call ssa.Instruction, rs []Value) {
	if call == nil {
		return
	}
	v, ok := call.(ssa.Value)
	if !ok {
		return
	}
	cf := s.top()
	switch len(rs) {
	case 0:
	case 1:
		cf.env[v] = rs[0]
	default:
		cf.env[v] = &TupleV{rs}
	}
}

func (e *Eng) branch(s *State, c *Term, bt, bf *ssa.BasicBlock) []*State {
	p := e.p
	if s.pcSet[c.ID] {
		c = p.True
	} else if s.pcSet[p.Not(c).ID] {
		c = p.False
	}
	if c == p.True {
		return e.jump(s, bt)
	}
	if c == p.False {
		return e.jump(s, bf)
	}
	var canT, canF = true, true
	if e.pureDepth == 0 {
		canT = e.feasible(s, c)
		if canT {
			canF = e.feasible(s, p.Not(c))
		}
	}
	if canT && canF {
		o := s.clone()
		o.assume(p, p.Not(c))
		s.assume(p, c)
		var out []*State
		if o.status == "" {
			out = append(out, e.jump(o, bf)...)
			out = append(out, o)
		}
		if s.status == "" {
			out = append(out, e.jump(s, bt)...)
		}
		return out
	}
	if canT {
		s.assume(p, c)
		if s.status == "" {
			return e.jump(s, bt)
		}
		return nil
	}
	s.assume(p, p.Not(c))
	if s.status == "" {
		return e.jump(s, bf)
	}
	return nil
}

func (e *Eng) feasible(s *State, c *Term) bool {
	if c.bnd {
		return true
	}
	return e.sv.quickSat(append(append([]*Term{}, s.pcs...), c)) != "unsat"
}

func (e *Eng) strAt(s *State, x, i *Term) *Term {
	p := e.p
	ok := p.And(p.Le(p.Int(0), i), p.Lt(i, e.strLen(x)))
	e.safety(s, "index", ok)
	s.assume(p, ok)
	if x.Op == "str" && i.Op == "int" {
		return p.Int(int64(x.S[i.I.Int64()]))
	}
	if p.theory {
		return p.Ranged(p.Smt("str.to_code", "Int", p.Smt("str.at", "Str", x, i)), bZero, big.NewInt(255))
	}
	return p.Ranged(p.App("str_at", "Int", x, i), bZero, big.NewInt(255))
}

func (e *Eng) retype(v Value, t types.Type) Value {
	switch x := v.(type) {
	case *StructV:
		n := *x
		n.T = t
		return &n
	case *PtrV:
		if p, ok := t.Underlying().(*types.Pointer); ok {
			n := *x
			if typeKey(n.Elem) != typeKey(p.Elem()) && n.Root == "" {
				n.Root = "*" + typeKey(n.Elem)
			}
			n.Elem = p.Elem()
			return &n
		}
	case *SliceV:
		if sl, ok := t.Underlying().(*types.Slice); ok && typeKey(sl.Elem()) != typeKey(x.Elem) {
			unsupported("slice retype %s", t)
		}
	}
	return v
}

func (e *Eng) convert(s *State, v Value, from, to types.Type) Value {
	p := e.p
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case fb != nil && tb != nil:
		fi, ti := fb.Info(), tb.Info()
		x, ok := v.(*Term)
		if !ok {
			break
		}
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return e.wrap(x, to)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			e.abstracted["int to float conversion treated as exact"] = true
			return p.ToReal(x)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return x
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			e.abstracted["float to int conversion treated as exact truncation"] = true
			return e.wrap(e.truncReal(x), to)
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return x
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return p.App("str_of_rune", "Str", x)
		}
	case fb != nil && fb.Info()&types.IsString != 0:
		if sl, ok := to.Underlying().(*types.Slice); ok {
			x := term(v)
			n := e.strLen(x)
			r := e.makeSlice(s, sl.Elem(), n, n)
			if x.Op == "str" {
				bs := []byte(x.S)
				row := e.p.ConstArr(arrSort("Int", "Int"), p.Int(0))
				for i, b := range bs {
					row = p.Store(row, p.Int(int64(i)), p.Int(int64(b)))
				}
				e.setRows(s, sl.Elem(), r.Ref, []*Term{row})
			} else {
				e.setRows(s, sl.Elem(), r.Ref, []*Term{p.App("str_bytes", arrSort("Int", "Int"), x)})
			}
			return r
		}
	case tb != nil && tb.Info()&types.IsString != 0:
		if sv, ok := v.(*SliceV); ok {
			return e.strOfBytes(s, sv)
		}
	}
	if _, ok := from.Underlying().(*types.Pointer); ok {
		return v
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	unsupported("convert %s to %s", from, to)
	return nil
}

func (e *Eng) strOfBytes(s *State, sv *SliceV) *Term {
	p := e.p
	row := e.rowsOf(s, sv)[0]
	// string([]byte(x)) == x
	if row.Op == "app" && row.S == "str_bytes" && isZeroT(sv.Off) && sv.Len == e.strLen(row.Args[0]) {
		return row.Args[0]
	}
	// concrete
	if sv.Len.Op == "int" && sv.Len.I.Int64() <= 256 {
		var b []byte
		ok := true
		for i := int64(0); i < sv.Len.I.Int64(); i++ {
			c := p.Select(row, p.Add(sv.Off, p.Int(i)))
			if c.Op != "int" {
				ok = false
				break
			}
			b = append(b, byte(c.I.Int64()))
		}
		if ok {
			return p.Str(string(b))
		}
	}
	if isZeroT(sv.Len) {
		return p.Str("")
	}
	t := p.App("bytes_str", "Str", row, sv.Off, sv.Len)
	if len(t.facts) == 0 && !t.bnd {
		t.facts = append(t.facts, p.Eq(e.strLen(t), sv.Len))
	}
	return t
}

func (e *Eng) truncReal(x *Term) *Term {
	p := e.p
	if x.R != nil {
		return p.BigInt(new(big.Int).Quo(x.R.Num(), x.R.Denom()))
	}
	if x.Op == "to_real" {
		return x.Args[0]
	}
	z := p.Real(new(big.Rat))
	return p.Ite(p.Le(z, x), p.ToInt(x), p.Neg(p.ToInt(p.Neg(x))))
}

func (e *Eng) sliceOp(s *State, x *ssa.Slice) []*State {
	p := e.p
	f := s.top()
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return term(e.val(s, v))
	}
	switch b := e.val(s, x.X).(type) {
	case *SliceV:
		lo := opt(x.Low, p.Int(0))
		hi := opt(x.High, b.Len)
		mx := opt(x.Max, b.Cap)
		ok := p.And(p.Le(p.Int(0), lo), p.Le(lo, hi), p.Le(hi, mx), p.Le(mx, b.Cap))
		e.safety(s, "slice", ok)
		if !s.assume(p, ok) {
			return nil
		}
		nl, nc := p.Sub(hi, lo), p.Sub(mx, lo)
		nl = e.nonneg(nl)
		nc = e.nonneg(nc)
		f.env[x] = &SliceV{Elem: b.Elem, Ref: b.Ref, Off: p.Add(b.Off, lo), Len: nl, Cap: nc}
	case *PtrV: // array
		b = e.norm(b)
		at := b.Elem.Underlying().(*types.Array)
		n := p.Int(at.Len())
		lo := opt(x.Low, p.Int(0))
		hi := opt(x.High, n)
		ok := p.And(p.Le(p.Int(0), lo), p.Le(lo, hi), p.Le(hi, n))
		e.safety(s, "slice", ok)
		if !s.assume(p, ok) {
			return nil
		}
		if b.Root == "" && b.Path == "" && b.Idx == nil {
			f.env[x] = &SliceV{Elem: at.Elem(), Ref: b.Ref, Off: lo, Len: e.nonneg(p.Sub(hi, lo)), Cap: e.nonneg(p.Sub(n, lo))}
		} else {
			av := e.load(s, b).(*ArrV)
			r := e.makeSlice(s, at.Elem(), n, n)
			e.setRows(s, at.Elem(), r.Ref, av.Ls)
			e.abstracted["slice of an array field treated as a copy"] = true
			f.env[x] = &SliceV{Elem: at.Elem(), Ref: r.Ref, Off: lo, Len: e.nonneg(p.Sub(hi, lo)), Cap: e.nonneg(p.Sub(n, lo))}
		}
	case *Term: // string
		lo := opt(x.Low, p.Int(0))
		hi := opt(x.High, e.strLen(b))
		ok := p.And(p.Le(p.Int(0), lo), p.Le(lo, hi), p.Le(hi, e.strLen(b)))
		e.safety(s, "slice", ok)
		if !s.assume(p, ok) {
			return nil
		}
		if b.Op == "str" && lo.Op == "int" && hi.Op == "int" {
			f.env[x] = p.Str(b.S[lo.I.Int64():hi.I.Int64()])
		} else if isZeroT(lo) && hi == e.strLen(b) {
			f.env[x] = b
		} else if p.theory {
			f.env[x] = p.Smt("str.substr", "Str", b, lo, p.Sub(hi, lo))
		} else {
			t := p.App("str_sub", "Str", b, lo, hi)
			if len(t.facts) == 0 && !t.bnd {
				t.facts = append(t.facts, p.Imp(ok, p.Eq(e.strLen(t), p.Sub(hi, lo))))
			}
			f.env[x] = t
		}
	default:
		unsupported("slice of %T", b)
	}
	return nil
}

func (e *Eng) nonneg(t *Term) *Term {
	// the caller has just established 0 <= t
	if t.Op == "int" {
		return t
	}
	if t.lo == nil || t.lo.Sign() < 0 {
		// do not mutate: the bound only holds on this path
		return t
	}
	return t
}

func (e *Eng) typeAssert(s *State, x *ssa.TypeAssert) []*State {
	p := e.p
	f := s.top()
	iv, ok := e.val(s, x.X).(*IfaceV)
	if !ok {
		unsupported("type assert on %T", e.val(s, x.X))
	}
	var cond *Term
	var v Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		v = iv
		if isZeroT(iv.Tag) {
			cond = p.False
		} else if iv.CT != nil {
			cond = p.Bool(types.Implements(iv.CT, it))
		} else {
			cond = p.And(p.Not(p.Eq(iv.Tag, p.Int(0))), p.App("implements:"+typeKey(x.AssertedType), "Bool", iv.Tag))
		}
	} else if iv.CT != nil {
		if types.Identical(iv.CT, x.AssertedType) {
			cond = p.True
			v = iv.Conc
		} else {
			cond = p.False
			v = e.zero(x.AssertedType)
		}
	} else {
		cond = p.Eq(iv.Tag, e.tagOf(x.AssertedType))
		if pt, ok := x.AssertedType.Underlying().(*types.Pointer); ok {
			v = &PtrV{Elem: pt.Elem(), Ref: iv.Ref}
		} else {
			// content of an unknown box: a function of its reference
			tk := typeKey(x.AssertedType)
			v = e.build(x.AssertedType, func(l Leaf) *Term {
				return e.typed(p.App("unbox:"+tk+l.Path, l.Sort, iv.Ref), l, true)
			})
		}
	}
	if x.CommaOk {
		if cond == p.False {
			v = e.zero(x.AssertedType)
		} else if cond != p.True {
			z := e.flatten(e.zero(x.AssertedType), x.AssertedType)
			ts := e.flatten(v, x.AssertedType)
			k := 0
			if _, isI := x.AssertedType.Underlying().(*types.Interface); !isI || true {
				v = e.build(x.AssertedType, func(l Leaf) *Term {
					t := p.Ite(cond, ts[k], z[k])
					k++
					return t
				})
			}
		}
		f.env[x] = &TupleV{[]Value{v, cond}}
		return nil
	}
	e.safety(s, "type-assert", cond)
	if !s.assume(p, cond) {
		s.status = "dead"
		return nil
	}
	f.env[x] = v
	return nil
}

// ---------------------------------------------------------------- maps

func (e *Eng) keySortOf(m *types.Map) (string, bool) {
	ls := e.leaves(m.Key())
	if len(ls) == 1 {
		return ls[0].Sort, true
	}
	return "Int", false // tuple keys are packed by an injective function
}

// mapKey packs a key into one term.
func (e *Eng) mapKey(k Value, t types.Type) *Term {
	ts := e.flatten(k, t)
	if len(ts) == 1 {
		return ts[0]
	}
	p := e.p
	name := "pack:" + typeKey(t)
	r := p.App(name, "Int", ts...)
	if len(r.facts) == 0 && !r.bnd {
		for i, x := range ts {
			r.facts = append(r.facts, p.mk("=", "Bool", []*Term{p.App(fmt.Sprintf("unpack%d:%s", i, typeKey(t)), x.Sort, r), x}, ""))
		}
	}
	return r
}

// unmapKey is the inverse of mapKey.
func (e *Eng) unmapKey(kt *Term, t types.Type) Value {
	ls := e.leaves(t)
	if len(ls) == 1 {
		return e.build(t, func(l Leaf) *Term { return kt })
	}
	if kt.Op == "app" && strings.HasPrefix(kt.S, "pack:") {
		i := 0
		return e.build(t, func(l Leaf) *Term { i++; return kt.Args[i-1] })
	}
	i := 0
	var ts []*Term
	v := e.build(t, func(l Leaf) *Term {
		x := e.typed(e.p.App(fmt.Sprintf("unpack%d:%s", i, typeKey(t)), l.Sort, kt), l, true)
		i++
		ts = append(ts, x)
		return x
	})
	// pack(unpack(k)) == k
	if !kt.bnd {
		r := e.p.App("pack:"+typeKey(t), "Int", ts...)
		f := e.p.mk("=", "Bool", []*Term{r, kt}, "")
		if len(ts) > 0 {
			ts[0].facts = append(ts[0].facts, f)
		}
	}
	return v
}

func (e *Eng) mapKeys(m *types.Map) (present string, vals []string, sorts []string, ks string) {
	mk := typeKey(m)
	ks, _ = e.keySortOf(m)
	present = mk + "?"
	for _, l := range e.leaves(m.Elem()) {
		vals = append(vals, mk+"="+l.Path)
		sorts = append(sorts, arrSort("Int", arrSort(ks, l.Sort)))
	}
	return
}

func (e *Eng) initMap(s *State, m *MapV) {
	p := e.p
	pr, vals, sorts, ks := e.mapKeys(m.T)
	h := e.heapArr(s, pr, arrSort("Int", arrSort(ks, "Bool")))
	s.setHeap(pr, p.Store(h, m.Ref, p.ConstArr(arrSort(ks, "Bool"), p.False)), m.Ref)
	for i, v := range vals {
		h := e.heapArr(s, v, sorts[i])
		es := elemSort(sorts[i])
		s.setHeap(v, p.Store(h, m.Ref, p.ConstArr(es, e.zeroLeaf(elemSort(es)))), m.Ref)
	}
	lk := pr + "#"
	hl := e.heapArr(s, lk, arrSort("Int", "Int"))
	s.setHeap(lk, p.Store(hl, m.Ref, p.Int(0)), m.Ref)
}

func (e *Eng) mapRow(s *State, m *MapV) (*Term, []*Term) {
	p := e.p
	pr, vals, sorts, ks := e.mapKeys(m.T)
	row := p.Select(e.heapArr(s, pr, arrSort("Int", arrSort(ks, "Bool"))), m.Ref)
	var vr []*Term
	for i, v := range vals {
		vr = append(vr, p.Select(e.heapArr(s, v, sorts[i]), m.Ref))
	}
	return row, vr
}

func (e *Eng) mapGetT(s *State, m *MapV, kt *Term) (Value, *Term) {
	p := e.p
	row, vr := e.mapRow(s, m)
	has := p.And(p.Not(p.Eq(m.Ref, p.Int(0))), p.Select(row, kt))
	i := 0
	v := e.build(m.T.Elem(), func(l Leaf) *Term {
		raw := p.Select(vr[i], kt)
		i++
		raw = e.typedSel(raw, l)
		return p.Ite(has, raw, e.zeroLeaf(l.Sort))
	})
	e.attachWF(v)
	return v, has
}
func (e *Eng) mapGet(s *State, m *MapV, k Value) (Value, *Term) {
	kt := e.mapKey(k, m.T.Key())
	return e.mapGetT(s, m, kt)
}

func (e *Eng) mapSet(s *State, m *MapV, k, v Value) {
	p := e.p
	kt := e.mapKey(k, m.T.Key())
	pr, vals, sorts, ks := e.mapKeys(m.T)
	row, vr := e.mapRow(s, m)
	had := p.Select(row, kt)
	h := e.heapArr(s, pr, arrSort("Int", arrSort(ks, "Bool")))
	s.setHeap(pr, p.Store(h, m.Ref, p.Store(row, kt, p.True)), m.Ref)
	ts := e.flatten(v, m.T.Elem())
	for i, vk := range vals {
		h := e.heapArr(s, vk, sorts[i])
		s.setHeap(vk, p.Store(h, m.Ref, p.Store(vr[i], kt, ts[i])), m.Ref)
	}
	lk := pr + "#"
	hl := e.heapArr(s, lk, arrSort("Int", "Int"))
	n := p.Ranged(p.Select(hl, m.Ref), bZero, bigMaxLen)
	s.setHeap(lk, p.Store(hl, m.Ref, p.Ite(had, n, p.Add(n, p.Int(1)))), m.Ref)
	// concrete key list
	if ks2, ok := s.mapK[m.Ref.ID]; ok {
		if had == p.False {
			s.mapK[m.Ref.ID] = append(append([]Value{}, ks2...), k)
		} else if had != p.True {
			delete(s.mapK, m.Ref.ID)
		}
	}
}

func (e *Eng) mapDelete(s *State, m *MapV, k Value) {
	p := e.p
	kt := e.mapKey(k, m.T.Key())
	pr, _, _, ks := e.mapKeys(m.T)
	row, _ := e.mapRow(s, m)
	had := p.And(p.Not(p.Eq(m.Ref, p.Int(0))), p.Select(row, kt))
	h := e.heapArr(s, pr, arrSort("Int", arrSort(ks, "Bool")))
	s.setHeap(pr, p.Store(h, m.Ref, p.Store(row, kt, p.False)), m.Ref)
	lk := pr + "#"
	hl := e.heapArr(s, lk, arrSort("Int", "Int"))
	n := p.Ranged(p.Select(hl, m.Ref), bZero, bigMaxLen)
	s.setHeap(lk, p.Store(hl, m.Ref, p.Ite(had, p.Sub(n, p.Int(1)), n)), m.Ref)
	delete(s.mapK, m.Ref.ID)
}

func (e *Eng) mapLen(s *State, m *MapV) *Term {
	p := e.p
	pr, _, _, _ := e.mapKeys(m.T)
	hl := e.heapArr(s, pr+"#", arrSort("Int", "Int"))
	return p.Ite(p.Eq(m.Ref, p.Int(0)), p.Int(0), p.Ranged(p.Select(hl, m.Ref), bZero, bigMaxLen))
}

// keysOf gives the ghost sequence of a map's keys: distinct, exactly the
// domain, in an arbitrary order that is a function of the key set.
func (e *Eng) keysOf(s *State, m *MapV) *SliceV {
	p := e.p
	kt := m.T.Key()
	if m.Ref.Op == "int" && isZeroT(m.Ref) {
		return e.makeSlice(s, kt, p.Int(0), p.Int(0))
	}
	if ks, ok := s.mapK[m.Ref.ID]; ok {
		r := e.makeSlice(s, kt, p.Int(int64(len(ks))), p.Int(int64(len(ks))))
		for i, k := range ks {
			e.store(s, e.elemPtr(r, p.Int(int64(i))), k)
		}
		return r
	}
	row, _ := e.mapRow(s, m)
	row = p.Ite(p.Eq(m.Ref, p.Int(0)), p.ConstArr(row.Sort, p.False), row)
	n := e.mapLen(s, m)
	ks, _ := e.keySortOf(m.T)
	mk := typeKey(m.T)
	cnt := p.Ranged(p.App("keycount:"+mk, "Int", row), bZero, bigMaxLen)
	var rows []*Term
	ls := e.leaves(kt)
	for _, l := range ls {
		rows = append(rows, p.App("keyseq:"+mk+l.Path, arrSort("Int", l.Sort), row))
	}
	if len(cnt.facts) == 0 && !row.bnd {
		i, k := p.BVar("Int"), p.BVar(ks)
		inr := func(x *Term) *Term { return p.And(p.Le(p.Int(0), x), p.Lt(x, cnt)) }
		idx := func(x *Term) *Term { return p.App("keyidx:"+mk, "Int", row, x) }
		at := func(x *Term) *Term { // packed key at position x
			if len(ls) == 1 {
				return p.Select(rows[0], x)
			}
			var ts []*Term
			for _, r := range rows {
				ts = append(ts, p.Select(r, x))
			}
			return p.App("pack:"+typeKey(kt), "Int", ts...)
		}
		cnt.facts = append(cnt.facts,
			p.Forall(i, p.Imp(inr(i), p.And(p.Select(row, at(i)), p.Eq(idx(at(i)), i)))),
			p.Forall(k, p.Imp(p.Select(row, k), p.And(inr(idx(k)), p.Eq(at(idx(k)), k)))),
		)
	}
	s.assume(p, p.Eq(n, cnt))
	r := &SliceV{Elem: kt, Ref: e.newRef(s), Off: p.Int(0), Len: cnt, Cap: cnt}
	e.setRows(s, kt, r.Ref, rows)
	return r
}
