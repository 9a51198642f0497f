package main

import (
	"math/big"
	"strings"
	"fmt"
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	out := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := out[h]
			if l == nil {
				l = &Loop{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				out[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return out
}

func (e *Eng) mkIter(s *State, v Value, t types.Type) Value {
	p := e.p
	it := &IterV{Ref: e.newRef(s)}
	h := e.heapArr(s, "iter", arrSort("Int", "Int"))
	s.setHeap("iter", p.Store(h, it.Ref, p.Int(0)), it.Ref)
	switch x := v.(type) {
	case *MapV:
		it.Map = x
		it.Keys = e.keysOf(s, x)
	case *Term:
		it.Str = x
	default:
		unsupported("range over %T", v)
	}
	return it
}

func (e *Eng) iterPos(s *State, it *IterV) *Term {
	h := e.heapArr(s, "iter", arrSort("Int", "Int"))
	return e.p.Ranged(e.p.Select(h, it.Ref), bZero, bigMaxLen)
}

func (e *Eng) next(s *State, x *ssa.Next) []*State {
	p := e.p
	f := s.top()
	it := e.val(s, x.Iter).(*IterV)
	pos := e.iterPos(s, it)
	h := e.heapArr(s, "iter", arrSort("Int", "Int"))
	var ok *Term
	var k, v Value
	tt := x.Type().(*types.Tuple)
	if it.Str != nil {
		ok = p.Lt(pos, e.strLen(it.Str))
		k = pos
		if it.Str.Op == "str" && pos.Op == "int" && pos.I.Int64() < int64(len(it.Str.S)) {
			v = p.Int(int64(it.Str.S[pos.I.Int64()]))
		} else {
			v = p.Ranged(p.App("str_at", "Int", it.Str, pos), bZero, intConst(255))
		}
		e.abstracted["range over string treats strings as ASCII"] = true
	} else {
		ok = p.Lt(pos, it.Keys.Len)
		kv := e.loadQuiet(s, e.elemPtr(it.Keys, pos))
		k = kv
		v, _ = e.mapGet(s, it.Map, kv)
		if _, isInvalid := tt.At(2).Type().(*types.Basic); isInvalid && tt.At(2).Type().(*types.Basic).Kind() == types.Invalid {
			v = p.Int(0)
		}
	}
	// advance only when an element was produced
	s.setHeap("iter", p.Store(h, it.Ref, p.Ite(ok, p.Add(pos, p.Int(1)), pos)), it.Ref)
	f.env[x] = &TupleV{[]Value{ok, k, v}}
	return nil
}

func (e *Eng) loadQuiet(s *State, ptr *PtrV) Value {
	e.inSpec++
	defer func() { e.inSpec-- }()
	return e.load(s, ptr)
}

// ---------------------------------------------------------------- summarising

type cand struct {
	name string
	eval func(st *State) *Term
	user bool
}

func headerPhis(l *Loop) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range l.header.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			out = append(out, ph)
		} else {
			break
		}
	}
	return out
}

func dependsOn(t *Term, from int, memo map[int]bool) bool {
	// does t mention a term created after id `from`... terms are numbered in
	// creation order, so a term with all sub-terms below is loop independent
	return t.ID > from
}

// havocState forgets everything the loop may change.
func (e *Eng) havocState(s *State, l *Loop, mods map[string]*modInfo, bound int64, mark int, optimistic, atZero map[*ssa.Phi]bool) *State {
	p := e.p
	h := s.clone()
	f := h.top()
	h.nalloc = bound + 1000000
	for _, ph := range headerPhis(l) {
		init := s.top().env[ph]
		nv := e.fresh(ph.Type(), "phi:"+ph.Comment, false)
		switch iv := init.(type) {
		case *PtrV:
			if iv.Root != "" || iv.Path != "" || iv.Idx != nil {
				unsupported("loop-carried interior pointer in %s", f.fn)
			}
		case *FuncV:
			if _, ok := ph.Type().Underlying().(*types.Signature); ok {
				unsupported("loop-carried function value")
			}
		case *SliceV:
			if optimistic[ph] {
				n := *nv.(*SliceV)
				n.Ref = p.Ranged(n.Ref, bZero, big.NewInt(bound+999999))
				nv = &n
				h.assume(p, p.Or(p.Eq(n.Ref, iv.Ref), p.And(p.Le(p.Int(bound), n.Ref), p.Lt(n.Ref, p.Int(bound+1000000)))))
			}
			if atZero[ph] {
				n := *nv.(*SliceV)
				n.Off = p.Int(0)
				nv = &n
			}
		}
		f.env[ph] = nv
	}
	for key, m := range mods {
		old, ok := h.heap[key]
		if !ok {
			if t, ok := e.initHeap[key]; ok {
				old = t
			} else {
				old = e.initArr(key, m.srt)
			}
		}
		whole := false
		fresh := false
		var point []*Term
		for _, r := range m.refs {
			if r.Op == "int" && r.I.Int64() >= bound {
				fresh = true
				continue
			}
			if r.ID <= mark {
				point = append(point, r)
				continue
			}
			whole = true
		}
		if os.Getenv("GOVC_DEBUG") == "2" {
			fmt.Fprintln(os.Stderr, "  mod", key, "whole", whole, "fresh", fresh, "points", len(point))
		}
		switch {
		case whole:
			h.heap[key] = p.Fresh("hv:"+key, old.Sort)
			p.ub[h.heap[key].ID] = bound + 1000000
		default:
			base := old
			if fresh {
				base = p.Havoc(old, bound, "hv:"+key)
				p.ub[base.Args[1].ID] = bound + 1000000
			}
			for _, r := range point {
				nv := p.Fresh("hp:"+key, elemSort(old.Sort))
				p.ub[nv.ID] = bound + 1000000
				if l, ok := strings.CutSuffix(key, ".ref"); ok && nv.Sort == "Int" && mods[l+".off"] != nil {
					// a slice that exists by now
					h.assume(p, p.Lt(nv, p.Int(bound+1000000)))
				}
				base = p.Store(base, r, nv)
			}
			h.heap[key] = base
		}
		// concrete key lists
		for id := range h.mapK {
			_ = id
			delete(h.mapK, id)
		}
	}
	return h
}

func (e *Eng) summarize(s *State, l *Loop) []*State {
	if e.pureDepth > 0 {
		unsupported("symbolic loop in specification %s", s.top().fn)
	}
	p := e.p
	f := s.top()
	where := fnName(f.fn)
	e.loopsSeen[where]++
	bound := s.nalloc + 1
	mark := p.n
	phis := headerPhis(l)
	rec := e.record
	e.record = false
	optimistic := map[*ssa.Phi]bool{}
	atZero := map[*ssa.Phi]bool{} // slices that start at the beginning of their array throughout
	for _, ph := range phis {
		if iv, ok := s.top().env[ph].(*SliceV); ok {
			optimistic[ph] = true
			if iv.Off == p.Int(0) {
				atZero[ph] = true
			}
		}
	}
	trial := func(h *State) []*State {
		h.trial = &trialCtx{loop: l, depth: len(h.frames)}
		h.top().active[l.header] = true
		old := h.stopAt
		h.stopAt = len(h.frames)
		outs := e.run(h)
		_ = old
		return outs
	}
	// phi references written through are classified by substitution: a write at
	// a havocked slice phi counts as {initial ref, fresh}
	mods := map[string]*modInfo{}
	phiRefInit := map[int]*Term{}
restart:
	for it := 0; ; it++ {
		if it > 12 {
			unsupported("modification analysis of loop in %s does not converge", where)
		}
		h := e.havocState(s, l, mods, bound, mark, optimistic, atZero)
		for _, ph := range phis {
			if optimistic[ph] {
				phiRefInit[h.top().env[ph].(*SliceV).Ref.ID] = s.top().env[ph].(*SliceV).Ref
			}
		}
		h.mods = map[string]*modInfo{}
		outs := trial(h)
		grown := false
		for _, o := range outs {
			for k, m := range o.mods {
				cur := mods[k]
				if cur == nil {
					cur = &modInfo{srt: m.srt}
					mods[k] = cur
					grown = true
				}
				for _, r := range m.refs {
					rs := []*Term{r}
					if init, ok := phiRefInit[r.ID]; ok {
						rs = []*Term{init, p.Int(bound + 2000000)}
					} else if r.ID > mark && r.Op != "int" {
						// not loop independent
						rs = []*Term{p.Var("any-ref", "Int")}
						if rs[0].ID <= mark {
							rs[0] = p.Fresh("any-ref", "Int")
						}
					} else if r.Op == "int" && r.I.Int64() >= bound {
						rs = []*Term{p.Int(bound + 2000000)}
					}
				next:
					for _, x := range rs {
						for _, y := range cur.refs {
							if x == y || (y.Op == "var" && len(y.S) > 7 && y.S[:7] == "any-ref" && x.Op == "var" && len(x.S) > 7 && x.S[:7] == "any-ref") {
								continue next
							}
						}
						cur.refs = append(cur.refs, x)
						grown = true
					}
				}
			}
			if o.status == "backedge" {
				for _, ph := range phis {
					if atZero[ph] {
						if off := o.top().env[ph].(*SliceV).Off; off != p.Int(0) && !e.provable(o, p.Eq(off, p.Int(0))) {
							delete(atZero, ph)
							goto restart
						}
					}
					if !optimistic[ph] {
						continue
					}
					n := o.top().env[ph].(*SliceV)
					init := s.top().env[ph].(*SliceV)
					c := p.Or(p.Eq(n.Ref, init.Ref), p.Le(p.Int(bound), n.Ref))
					if !e.provable(o, c) {
						delete(optimistic, ph)
						goto restart
					}
				}
			}
		}
		if !grown {
			break
		}
	}
	cands := e.candidates(s, l, bound, mods)
	// initially true?
	var keep []cand
	for _, c := range cands {
		t := c.eval(s)
		if t == nil {
			continue
		}
		if e.provable(s, t) {
			keep = append(keep, c)
		} else if c.user && os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "  loop", where, "candidate not initial:", c.name, p.Show(t))
		}
	}
	for {
		h := e.havocState(s, l, mods, bound, mark, optimistic, atZero)
		var told []cand
		for _, c := range keep {
			if t := c.eval(h); t != nil {
				h.assume(p, t)
				told = append(told, c)
			}
		}
		keep = told
		if h.status == "dead" {
			break
		}
		outs := trial(h)
		var next []cand
		for _, c := range keep {
			ok := true
			for _, o := range outs {
				if o.status != "backedge" {
					continue
				}
				t := c.eval(o)
				if t == nil || !(e.provable(o, t) || c.user && e.provableInv(o, t)) {
					ok = false
					if c.user && os.Getenv("GOVC_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "  loop", where, "candidate not inductive:", c.name)
						if d := os.Getenv("GOVC_DUMP"); d != "" && t != nil {
							e.ndumpInv++
							os.WriteFile(fmt.Sprintf("%s/inv%d_%s.smt2", d, e.ndumpInv, strings.ReplaceAll(c.name, " ", "_")), []byte(e.p.Build(append(e.sv.relevant(o.pcs, t), e.p.Not(t)))+"(check-sat)\n"), 0644)
						}
						if os.Getenv("GOVC_DEBUG") == "3" {
							os.WriteFile(fmt.Sprintf("/tmp/govc_inv_%d.smt2", p.n), []byte(p.Build(append(append([]*Term{}, o.pcs...), p.Not(t)))), 0644)
						}
					}
					break
				}
			}
			if ok {
				next = append(next, c)
			}
		}
		if len(next) == len(keep) {
			break
		}
		keep = next
	}
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "  loop %s: invariants kept:", where)
		for _, c := range keep {
			fmt.Fprintf(os.Stderr, " [%s]", c.name)
		}
		fmt.Fprintln(os.Stderr)
	}
	e.record = rec
	e.invCount += len(keep)
	h := e.havocState(s, l, mods, bound, mark, optimistic, atZero)
	for _, c := range keep {
		if t := c.eval(h); t != nil {
			h.assume(p, t)
		}
	}
	h.top().active[l.header] = true
	h.trial = s.trial
	h.stopAt = s.stopAt
	if s.mods != nil {
		// enclosing trial must see these modifications
		for k, m := range mods {
			cur := h.mods[k]
			if cur == nil {
				cur = &modInfo{srt: m.srt}
				h.mods[k] = cur
			}
			cur.refs = append(cur.refs, m.refs...)
		}
	}
	*s = *h
	return nil
}

func (e *Eng) candidates(s *State, l *Loop, bound int64, mods map[string]*modInfo) []cand {
	p := e.p
	var out []cand
	phis := headerPhis(l)
	f := s.top()
	add := func(name string, ev func(st *State) *Term) { out = append(out, cand{name: name, eval: ev}) }
	// length terms visible before the loop
	var lens []*Term
	seen := map[int]bool{}
	for k, v := range f.env {
		if _, isPhi := k.(*ssa.Phi); isPhi {
			continue
		}
		if sv, ok := v.(*SliceV); ok && !seen[sv.Len.ID] && sv.Len.Op != "int" {
			seen[sv.Len.ID] = true
			lens = append(lens, sv.Len)
		}
		if k.Type() != nil {
			if b, ok := k.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if t, ok := v.(*Term); ok && t.Op != "int" && !seen[t.ID] && len(lens) < 24 && k.Parent() == f.fn {
					// integer locals fixed before the loop
					seen[t.ID] = true
					lens = append(lens, t)
				}
			}
		}
	}
	var iters []*IterV
	for _, v := range f.env {
		if it, ok := v.(*IterV); ok {
			iters = append(iters, it)
		}
	}
	for _, it := range iters {
		it := it
		if it.Keys != nil {
			add("iter<=len", func(st *State) *Term { return p.Le(e.iterPos(st, it), it.Keys.Len) })
		}
	}
	for _, ph := range phis {
		ph := ph
		init := f.env[ph]
		get := func(st *State) Value { return st.top().env[ph] }
		switch iv := init.(type) {
		case *Term:
			if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				add(ph.Comment+">=init", func(st *State) *Term { return p.Le(iv, term(get(st))) })
				add(ph.Comment+"<=init", func(st *State) *Term { return p.Le(term(get(st)), iv) })
				add(ph.Comment+">=0", func(st *State) *Term { return p.Le(p.Int(0), term(get(st))) })
				for _, n := range lens {
					n := n
					add(ph.Comment+"<=len", func(st *State) *Term { return p.Le(term(get(st)), n) })
					add(ph.Comment+"<len", func(st *State) *Term { return p.Lt(term(get(st)), n) })
				}
				for _, q := range phis {
					q := q
					if q == ph {
						continue
					}
					if qs, ok := f.env[q].(*SliceV); ok {
						_ = qs
						ql := func(st *State) *Term { return st.top().env[q].(*SliceV).Len }
						add("len=="+ph.Comment, func(st *State) *Term { return p.Eq(ql(st), term(get(st))) })
						add("len=="+ph.Comment+"+1", func(st *State) *Term { return p.Eq(ql(st), p.Add(term(get(st)), p.Int(1))) })
						add("len<="+ph.Comment+"+1", func(st *State) *Term { return p.Le(ql(st), p.Add(term(get(st)), p.Int(1))) })
						add("len<="+ph.Comment, func(st *State) *Term { return p.Le(ql(st), term(get(st))) })
					}
					if qt, ok := f.env[q].(*Term); ok && qt.Sort == "Int" && q.Comment > ph.Comment {
						add(ph.Comment+"=="+q.Comment, func(st *State) *Term { return p.Eq(term(get(st)), term(st.top().env[q])) })
						add(ph.Comment+"=="+q.Comment+"+1", func(st *State) *Term { return p.Eq(term(get(st)), p.Add(p.Int(1), term(st.top().env[q]))) })
						add(ph.Comment+"+1=="+q.Comment, func(st *State) *Term {
							return p.Eq(p.Add(p.Int(1), term(get(st))), term(st.top().env[q]))
						})
						add(ph.Comment+"<="+q.Comment, func(st *State) *Term { return p.Le(term(get(st)), term(st.top().env[q])) })
						add(q.Comment+"<="+ph.Comment, func(st *State) *Term { return p.Le(term(st.top().env[q]), term(get(st))) })
					}
				}
			} else {
				add(ph.Comment+"==init", func(st *State) *Term { return p.Eq(term(get(st)), iv) })
			}
		case *SliceV:
			add(ph.Comment+" len>=init", func(st *State) *Term { return p.Le(iv.Len, get(st).(*SliceV).Len) })
			add(ph.Comment+" off==0", func(st *State) *Term { return p.Eq(get(st).(*SliceV).Off, p.Int(0)) })
			add(ph.Comment+" nonnil", func(st *State) *Term {
				v := get(st).(*SliceV)
				return p.Imp(p.Lt(p.Int(0), v.Len), p.Not(p.Eq(v.Ref, p.Int(0))))
			})
			for _, n := range lens {
				n := n
				add(ph.Comment+" len<=n", func(st *State) *Term { return p.Le(get(st).(*SliceV).Len, n) })
			}
		case *IfaceV:
			add(ph.Comment+"==init", func(st *State) *Term {
				v := get(st).(*IfaceV)
				return p.And(p.Eq(v.Tag, iv.Tag), p.Eq(v.Ref, iv.Ref))
			})
			add(ph.Comment+" nil", func(st *State) *Term { return p.Eq(get(st).(*IfaceV).Tag, p.Int(0)) })
		case *PtrV:
			add(ph.Comment+"==init", func(st *State) *Term { return p.Eq(get(st).(*PtrV).Ref, iv.Ref) })
			add(ph.Comment+" nonnil", func(st *State) *Term { return p.Not(p.Eq(get(st).(*PtrV).Ref, p.Int(0))) })
		}
	}
	// lengths of iterator positions vs slices
	for _, it := range iters {
		it := it
		for _, ph := range phis {
			ph := ph
			if _, ok := f.env[ph].(*SliceV); ok {
				add("len==iter", func(st *State) *Term { return p.Eq(st.top().env[ph].(*SliceV).Len, e.iterPos(st, it)) })
				add("len<=iter", func(st *State) *Term { return p.Le(st.top().env[ph].(*SliceV).Len, e.iterPos(st, it)) })
			}
		}
	}
	// user templates
	for ti, tv := range s.invs {
		tv := tv
		sig := tv.Fn.Signature
		other := !concerns(sig, phis, mods, iters)
		if other {
			// perhaps about what the loop has looked at
			counted := len(iters) > 0
			for _, ph := range phis {
				counted = counted || ph.Comment == "rangeindex"
			}
			hasI := false
			for i := 0; i < sig.Params().Len(); i++ {
				hasI = hasI || sig.Params().At(i).Name() == "i"
			}
			if !counted || !hasI || sig.Params().Len() < 2 {
				continue
			}
		}
		var opts [][]func(st *State) Value
		for i := 0; i < sig.Params().Len(); i++ {
			opts = append(opts, e.holeOptions(s, l, phis, iters, sig.Params().At(i).Type(), sig.Params().At(i).Name()))
		}
		combos := 1
		for _, o := range opts {
			combos *= len(o)
		}
		if combos == 0 || combos > 600 || other && combos > 8 {
			continue
		}
		idx := make([]int, len(opts))
		for n := 0; n < combos; n++ {
			r := n
			sel := make([]func(st *State) Value, len(opts))
			for i := range opts {
				idx[i] = r % len(opts[i])
				r /= len(opts[i])
				sel[i] = opts[i][idx[i]]
			}
			dup := false
			name := fmt.Sprintf("inv%d%v", ti, idx)
			if dup {
				continue
			}
			out = append(out, cand{name: name, user: true, eval: func(st *State) *Term {
				var args []Value
				for _, g := range sel {
					v := g(st)
					if v == nil {
						return nil
					}
					args = append(args, v)
				}
				v, ok := e.tryPure(st, tv, args)
				if !ok {
					return nil
				}
				return term(v)
			}})
		}
	}
	return out
}

// concerns: does the loop change anything the invariant speaks of? (Otherwise it
// is about another loop, and what it says is kept by the frame.)
func concerns(sig *types.Signature, phis []*ssa.Phi, mods map[string]*modInfo, iters []*IterV) bool {
	found := false
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		pre := ""
		switch u := t.Underlying().(type) {
		case *types.Slice:
			pre = "[]" + typeKey(u.Elem())
		case *types.Map:
			pre = typeKey(t)
		case *types.Pointer:
			pre = "*" + typeKey(u.Elem())
		case *types.Basic:
			if u.Kind() == types.Int {
				continue
			}
			return true
		default:
			return true
		}
		found = true
		for _, ph := range phis {
			if types.Identical(ph.Type(), t) {
				return true
			}
		}
		for _, it := range iters {
			if it.Map != nil && types.Identical(it.Map.T, t.Underlying()) {
				return true
			}
		}
		for k := range mods {
			if k == pre || strings.HasPrefix(k, pre+".") || strings.HasPrefix(k, pre+"[") || strings.HasPrefix(k, pre+"?") || strings.HasPrefix(k, pre+"=") {
				return true
			}
		}
	}
	return !found
}

// holeOptions: the values of the program a hole of an invariant may stand for.
// When some of them carry the name of the hole the others are left out.
func (e *Eng) holeOptions(s *State, l *Loop, phis []*ssa.Phi, iters []*IterV, t types.Type, hole string) []func(st *State) Value {
	p := e.p
	var out, named []func(st *State) Value
	opt := func(name string, f func(st *State) Value) {
		out = append(out, f)
		if name == hole {
			named = append(named, f)
		}
	}
	isInt := false
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
		isInt = true
	}
	if isInt && hole == "i" {
		// the number of elements visited by a range loop
		for _, ph := range phis {
			if ph := ph; ph.Comment == "rangeindex" {
				return []func(st *State) Value{func(st *State) Value { return p.Add(term(st.top().env[ph]), p.Int(1)) }}
			}
		}
	}
	for _, ph := range phis {
		ph := ph
		if !types.Identical(ph.Type(), t) {
			continue
		}
		opt(ph.Comment, func(st *State) Value { return st.top().env[ph] })
		if isInt {
			opt(ph.Comment, func(st *State) Value { return p.Add(term(st.top().env[ph]), p.Int(1)) })
		}
	}
	if isInt {
		for _, it := range iters {
			it := it
			opt("", func(st *State) Value { return e.iterPos(st, it) })
		}
		// integer parameters of the function
		if hole == "i" && len(iters) > 0 {
			return out
		}
		for k, v := range s.top().env {
			if pa, ok := k.(*ssa.Parameter); ok && types.Identical(pa.Type(), t) && pa.Parent() == s.top().fn {
				v := v
				opt(pa.Name(), func(st *State) Value { return v })
			}
		}
	}
	_, basic := t.Underlying().(*types.Basic)
	if basic && !isInt || types.IsInterface(t) {
		for fi := len(s.frames) - 1; fi >= 0 && fi >= len(s.frames)-2; fi-- {
			for k, v := range s.frames[fi].env {
				if pa, ok := k.(*ssa.Parameter); ok && types.Identical(pa.Type(), t) && !s.frames[fi].spec {
					v := v
					opt(pa.Name(), func(st *State) Value { return v })
				}
			}
		}
	}
	// maps, slices and pointers computed before the loop
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer:
		seen := map[int]bool{}
		for fi := len(s.frames) - 1; fi >= 0 && fi >= len(s.frames)-2; fi-- {
			if s.frames[fi].spec {
				continue
			}
			for k, v := range s.frames[fi].env {
				if _, ok := k.(*ssa.Phi); ok && fi == len(s.frames)-1 {
					if in, ok := k.(*ssa.Phi); ok && in.Block() == l.header {
						continue
					}
				}
				if in, ok := k.(ssa.Instruction); ok && fi == len(s.frames)-1 && l.body[in.Block()] {
					continue
				}
				if !types.Identical(k.Type(), t) {
					continue
				}
				id := -1
				switch x := v.(type) {
				case *MapV:
					id = x.Ref.ID
				case *SliceV:
					id = x.Ref.ID
				case *PtrV:
					if x.Root == "" {
						id = x.Ref.ID
					}
				}
				if id < 0 || seen[id] {
					continue
				}
				seen[id] = true
				v := v
				nm := ""
				switch x := k.(type) {
				case *ssa.Parameter:
					nm = x.Name()
				case *ssa.Phi:
					nm = x.Comment
				default:
					nm = e.prog.localNames(s.frames[fi].fn)[k]
				}
				opt(nm, func(st *State) Value { return v })
			}
		}
	}
	// local variables living in memory (captured by closures or address taken)
	depth := len(s.frames) - 1
	for fi := depth; fi >= 0 && fi >= depth-1; fi-- {
		fi := fi
		for k, v := range s.frames[fi].env {
			al, ok := k.(*ssa.Alloc)
			if !ok || al.Comment == "varargs" || al.Comment == "complit" {
				continue
			}
			pv, ok := v.(*PtrV)
			if !ok || !types.Identical(pv.Elem, t) || s.frames[fi].spec {
				continue
			}
			opt(al.Comment, func(st *State) Value { return e.loadQuiet(st, pv) })
		}
		if fi == 0 {
			break
		}
	}
	// captured variables of the current closure
	for k, v := range s.top().env {
		if _, ok := k.(*ssa.FreeVar); ok {
			if pv, ok := v.(*PtrV); ok && types.Identical(pv.Elem, t) {
				pv := pv
				opt(k.Name(), func(st *State) Value { return e.loadQuiet(st, pv) })
			}
		}
	}
	if len(named) > 0 {
		return named
	}
	return out
}
