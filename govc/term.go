package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term. Integers are mathematical; the translation
// from Go inserts explicit wrap-around, so fixed-width arithmetic is exact.
type Term struct {
	Op   string
	Args []*Term
	Sort string
	I    *big.Int
	R    *big.Rat
	S    string
	ID   int
	lo   *big.Int // known bounds (true facts), nil when unknown
	hi   *big.Int
	old  bool // a reference that existed before the verified call
	bnd  bool // contains a bound variable
	// facts are axioms that come with the term (definitions of applied functions)
	facts []*Term
	lits  []string // for tm-level metadata
	order int
}

type Pool struct {
	tab      map[string]*Term
	n        int
	fresh    int
	True     *Term
	False    *Term
	strLits  map[string]*Term
	theory   bool // strings as SMT strings
	distinct []*Term
	rf       map[int][]*Term // typing facts of quantified terms
	polMemo  map[[2]int]*Term
	hasQMemo map[int]bool
	qhi, qlo map[int]*Term // bound variables of bounded quantifiers: lo <= q < hi
	ub map[int]int64 // heap symbols: no reference in them reaches this
}

func NewPool() *Pool {
	p := &Pool{tab: map[string]*Term{}, strLits: map[string]*Term{}, rf: map[int][]*Term{}, polMemo: map[[2]int]*Term{}, hasQMemo: map[int]bool{}, ub: map[int]int64{}, qhi: map[int]*Term{}, qlo: map[int]*Term{}}
	p.True = p.mk("true", "Bool", nil, "")
	p.False = p.mk("false", "Bool", nil, "")
	return p
}

func (p *Pool) mk(op, sortS string, args []*Term, s string) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s)
	b.WriteByte('|')
	b.WriteString(sortS)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.ID)
	}
	k := b.String()
	if t, ok := p.tab[k]; ok {
		return t
	}
	p.n++
	t := &Term{Op: op, Args: args, Sort: sortS, S: s, ID: p.n}
	for _, a := range args {
		if a.bnd {
			t.bnd = true
		}
	}
	if op == "bvar" {
		t.bnd = true
	}
	p.tab[k] = t
	return t
}

func (p *Pool) Int(i int64) *Term { return p.BigInt(big.NewInt(i)) }
func (p *Pool) BigInt(i *big.Int) *Term {
	t := p.mk("int", "Int", nil, i.String())
	if t.I == nil {
		t.I = new(big.Int).Set(i)
		t.lo, t.hi = t.I, t.I
	}
	return t
}
func (p *Pool) Real(r *big.Rat) *Term {
	t := p.mk("real", "Real", nil, r.RatString())
	if t.R == nil {
		t.R = new(big.Rat).Set(r)
	}
	return t
}
func (p *Pool) Bool(b bool) *Term {
	if b {
		return p.True
	}
	return p.False
}
func (p *Pool) Str(s string) *Term {
	t := p.mk("str", "Str", nil, s)
	return t
}

func (p *Pool) Var(name, sortS string) *Term { return p.mk("var", sortS, nil, name) }
func (p *Pool) Fresh(prefix, sortS string) *Term {
	p.fresh++
	return p.Var(fmt.Sprintf("%s!%d", prefix, p.fresh), sortS)
}
func (p *Pool) BVar(sortS string) *Term {
	p.fresh++
	return p.mk("bvar", sortS, nil, fmt.Sprintf("q!%d", p.fresh))
}
func (p *Pool) Ranged(t *Term, lo, hi *big.Int) *Term {
	if t.Op == "int" {
		return t
	}
	if t.lo == nil {
		t.lo = lo
	}
	if t.hi == nil {
		t.hi = hi
	}
	return t
}

func isVal(t *Term) bool {
	switch t.Op {
	case "int", "real", "str", "true", "false":
		return true
	}
	return false
}

func (p *Pool) Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return p.False
	case "false":
		return p.True
	case "not":
		return a.Args[0]
	}
	return p.mk("not", "Bool", []*Term{a}, "")
}
func (p *Pool) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == p.False {
			return false
		}
		if t == p.True || seen[t.ID] {
			return true
		}
		if t.Op == "and" {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[p.Not(t).ID] {
			return false
		}
		seen[t.ID] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return p.False
		}
	}
	if len(out) == 0 {
		return p.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return p.mk("and", "Bool", out, "")
}
func (p *Pool) Or(ts ...*Term) *Term {
	n := make([]*Term, len(ts))
	for i, t := range ts {
		n[i] = p.Not(t)
	}
	r := p.And(n...)
	if r.Op == "and" {
		// keep "or" for readability
		args := make([]*Term, len(r.Args))
		for i, a := range r.Args {
			args[i] = p.Not(a)
		}
		return p.mk("or", "Bool", args, "")
	}
	return p.Not(r)
}
func (p *Pool) Imp(a, b *Term) *Term { return p.Or(p.Not(a), b) }
func (p *Pool) Ite(c, a, b *Term) *Term {
	if c == p.True || a == b {
		return a
	}
	if c == p.False {
		return b
	}
	if a.Sort == "Bool" {
		if a == p.True {
			return p.Or(c, b)
		}
		if a == p.False {
			return p.And(p.Not(c), b)
		}
		if b == p.True {
			return p.Or(p.Not(c), a)
		}
		if b == p.False {
			return p.And(c, a)
		}
	}
	if c.Op == "not" {
		return p.Ite(c.Args[0], b, a)
	}
	t := p.mk("ite", a.Sort, []*Term{c, a, b}, "")
	if a.lo != nil && b.lo != nil && t.lo == nil {
		t.lo = minB(a.lo, b.lo)
	}
	if a.hi != nil && b.hi != nil && t.hi == nil {
		t.hi = maxB(a.hi, b.hi)
	}
	if a.old && b.old {
		t.old = true
	}
	return t
}
func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (p *Pool) Eq(a, b *Term) *Term {
	if a == b {
		return p.True
	}
	if a.Sort != b.Sort {
		if a.Sort == "Real" && b.Sort == "Int" {
			return p.Eq(a, p.ToReal(b))
		}
		if a.Sort == "Int" && b.Sort == "Real" {
			return p.Eq(p.ToReal(a), b)
		}
		panic(fmt.Sprintf("eq sorts %s %s: %s / %s", a.Sort, b.Sort, p.Show(a), p.Show(b)))
	}
	if isVal(a) && isVal(b) {
		return p.False // hash-consed, different
	}
	if a.Sort == "Bool" {
		if a == p.True {
			return b
		}
		if b == p.True {
			return a
		}
		if a == p.False {
			return p.Not(b)
		}
		if b == p.False {
			return p.Not(a)
		}
	}
	if p.surelyDistinct(a, b) {
		return p.False
	}
	if a.Op == "ite" && isVal(b) && (isVal(a.Args[1]) || isVal(a.Args[2])) {
		return p.Ite(a.Args[0], p.Eq(a.Args[1], b), p.Eq(a.Args[2], b))
	}
	if b.Op == "ite" && isVal(a) && (isVal(b.Args[1]) || isVal(b.Args[2])) {
		return p.Ite(b.Args[0], p.Eq(b.Args[1], a), p.Eq(b.Args[2], a))
	}
	if a.Sort == "Real" && a.Op != "ite" && b.Op != "ite" {
		return p.rEq(a, b)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return p.mk("=", "Bool", []*Term{a, b}, "")
}

// surelyDistinct decides disequality from bounds.
func (p *Pool) surelyDistinct(a, b *Term) bool {
	if a.Sort != "Int" {
		return false
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
		return true
	}
	if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) < 0 {
		return true
	}
	// x vs x+c
	xa, ca := splitConst(a)
	xb, cb := splitConst(b)
	if xa != nil && xa == xb && ca.Cmp(cb) != 0 {
		return true
	}
	return false
}
func splitConst(t *Term) (*Term, *big.Int) {
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].Op == "int" {
		return t.Args[0], t.Args[1].I
	}
	return t, big.NewInt(0)
}

func (p *Pool) num2(a, b *Term) (*Term, *Term) {
	if a.Sort == "Real" && b.Sort == "Int" {
		return a, p.ToReal(b)
	}
	if a.Sort == "Int" && b.Sort == "Real" {
		return p.ToReal(a), b
	}
	return a, b
}

func (p *Pool) Add(a, b *Term) *Term {
	a, b = p.num2(a, b)
	if a.Sort == "Real" {
		if a.R != nil && b.R != nil {
			return p.Real(new(big.Rat).Add(a.R, b.R))
		}
		return p.rAdd(a, b, big.NewRat(1, 1))
	}
	// canonical linear form
	return p.fromLin(p.linAdd(p.lin(a), p.lin(b), big.NewInt(1)))
}
func (p *Pool) Sub(a, b *Term) *Term {
	a, b = p.num2(a, b)
	if a.Sort == "Real" {
		if a.R != nil && b.R != nil {
			return p.Real(new(big.Rat).Sub(a.R, b.R))
		}
		return p.rAdd(a, b, big.NewRat(-1, 1))
	}
	return p.fromLin(p.linAdd(p.lin(a), p.lin(b), big.NewInt(-1)))
}

// linear forms keep x+1-1 == x syntactically.
type lin struct {
	c  *big.Int
	co map[int]*big.Int
	tm map[int]*Term
}

func (p *Pool) lin(t *Term) *lin {
	l := &lin{c: new(big.Int), co: map[int]*big.Int{}, tm: map[int]*Term{}}
	p.linInto(l, t, big.NewInt(1))
	return l
}
func (p *Pool) linInto(l *lin, t *Term, k *big.Int) {
	switch {
	case t.Op == "int":
		l.c.Add(l.c, new(big.Int).Mul(k, t.I))
	case t.Op == "+" && t.Sort == "Int":
		for _, a := range t.Args {
			p.linInto(l, a, k)
		}
	case t.Op == "*" && t.Sort == "Int" && t.Args[0].Op == "int":
		p.linInto(l, t.Args[1], new(big.Int).Mul(k, t.Args[0].I))
	default:
		c, ok := l.co[t.ID]
		if !ok {
			c = new(big.Int)
		}
		l.co[t.ID] = new(big.Int).Add(c, k)
		l.tm[t.ID] = t
	}
}
func (p *Pool) linAdd(a, b *lin, k *big.Int) *lin {
	a.c.Add(a.c, new(big.Int).Mul(k, b.c))
	for id, c := range b.co {
		x, ok := a.co[id]
		if !ok {
			x = new(big.Int)
		}
		a.co[id] = new(big.Int).Add(x, new(big.Int).Mul(k, c))
		a.tm[id] = b.tm[id]
	}
	return a
}
func (p *Pool) fromLin(l *lin) *Term {
	var ids []int
	for id, c := range l.co {
		if c.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	if len(ids) == 0 {
		return p.BigInt(l.c)
	}
	var args []*Term
	one := big.NewInt(1)
	lo, hi := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	lok, hok := true, true
	for _, id := range ids {
		c, t := l.co[id], l.tm[id]
		var m *Term
		if c.Cmp(one) == 0 {
			m = t
		} else {
			m = p.mk("*", "Int", []*Term{p.BigInt(c), t}, "")
		}
		args = append(args, m)
		tl, th := t.lo, t.hi
		if c.Sign() < 0 {
			tl, th = th, tl
		}
		if tl == nil {
			lok = false
		} else if lok {
			lo.Add(lo, new(big.Int).Mul(c, tl))
		}
		if th == nil {
			hok = false
		} else if hok {
			hi.Add(hi, new(big.Int).Mul(c, th))
		}
	}
	if l.c.Sign() != 0 {
		args = append(args, p.BigInt(l.c))
	}
	var t *Term
	if len(args) == 1 {
		t = args[0]
	} else {
		t = p.mk("+", "Int", args, "")
	}
	if lok && t.lo == nil {
		t.lo = lo
	}
	if hok && t.hi == nil {
		t.hi = hi
	}
	return t
}

func (p *Pool) Neg(a *Term) *Term {
	if a.Sort == "Real" {
		return p.Sub(p.Real(new(big.Rat)), a)
	}
	return p.Sub(p.Int(0), a)
}
func (p *Pool) Mul(a, b *Term) *Term {
	a, b = p.num2(a, b)
	if a.Sort == "Real" {
		if a.R != nil && b.R != nil {
			return p.Real(new(big.Rat).Mul(a.R, b.R))
		}
		return p.rMul(a, b)
	}
	if a.Op != "int" && b.Op == "int" {
		a, b = b, a
	}
	if a.Op == "int" {
		l := p.lin(b)
		l.c.Mul(l.c, a.I)
		for id := range l.co {
			l.co[id] = new(big.Int).Mul(l.co[id], a.I)
		}
		return p.fromLin(l)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	t := p.mk("*", "Int", []*Term{a, b}, "")
	if t.lo == nil && a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		t.lo = new(big.Int).Mul(a.lo, b.lo)
		if a.hi != nil && b.hi != nil {
			t.hi = new(big.Int).Mul(a.hi, b.hi)
		}
	}
	return t
}

// Div is floor division for positive divisors (SMT-LIB div).
func (p *Pool) Div(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.I.Sign() > 0 {
		q := new(big.Int)
		q.DivMod(a.I, b.I, new(big.Int))
		return p.BigInt(q)
	}
	if b.Op == "int" && b.I.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	t := p.mk("div", "Int", []*Term{a, b}, "")
	if t.lo == nil && a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0 {
		t.lo = big.NewInt(0)
		if a.hi != nil {
			t.hi = new(big.Int).Div(a.hi, b.lo)
		}
	}
	return t
}
func (p *Pool) Mod(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.I.Sign() > 0 {
		return p.BigInt(new(big.Int).Mod(a.I, b.I))
	}
	if b.Op == "int" && b.I.Sign() > 0 && a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.I) < 0 {
		return a
	}
	t := p.mk("mod", "Int", []*Term{a, b}, "")
	if t.lo == nil && b.lo != nil && b.lo.Sign() > 0 {
		t.lo = big.NewInt(0)
		if b.hi != nil {
			t.hi = new(big.Int).Sub(b.hi, big.NewInt(1))
		}
	}
	return t
}
func (p *Pool) Le(a, b *Term) *Term { // a <= b
	a, b = p.num2(a, b)
	if a == b {
		return p.True
	}
	if a.Sort == "Int" {
		if a.hi != nil && b.lo != nil && a.hi.Cmp(b.lo) <= 0 {
			return p.True
		}
		if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
			return p.False
		}
		d := p.Sub(b, a)
		if d.lo != nil && d.lo.Sign() >= 0 {
			return p.True
		}
		if d.hi != nil && d.hi.Sign() < 0 {
			return p.False
		}
	} else {
		return p.rLe(a, b)
	}
	return p.mk("<=", "Bool", []*Term{a, b}, "")
}
func (p *Pool) Lt(a, b *Term) *Term { return p.Not(p.Le(b, a)) }

func (p *Pool) Select(a, i *Term) *Term {
	es := elemSort(a.Sort)
	for {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if p.idxDistinct(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
			break
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		if a.Op == "havoc" { // havoc(prev, new): agrees with prev on old refs below bound
			if i.hi != nil && i.hi.Cmp(a.Args[2].I) < 0 {
				a = a.Args[0]
				continue
			}
			a = a.Args[1]
			continue
		}
		if a.Op == "ite" && a.Args[0] != nil {
			x, y := p.Select(a.Args[1], i), p.Select(a.Args[2], i)
			return p.Ite(a.Args[0], x, y)
		}
		break
	}
	return p.mk("select", es, []*Term{a, i}, "")
}
func (p *Pool) idxDistinct(a, b *Term) bool {
	if isVal(a) && isVal(b) {
		return a != b
	}
	return p.surelyDistinct(a, b) || p.outOfRange(a, b) || p.outOfRange(b, a)
}

// outOfRange: i is surely outside the range the bound variable q runs over.
func (p *Pool) outOfRange(q, i *Term) bool {
	hi, ok := p.qhi[q.ID]
	if !ok {
		return false
	}
	x, c := splitConst(i)
	if i.Op == "int" {
		x, c = nil, i.I
	}
	against := func(t *Term) (int, bool) {
		y, d := splitConst(t)
		if t.Op == "int" {
			y, d = nil, t.I
		}
		return c.Cmp(d), x == y
	}
	if r, ok := against(hi); ok && r >= 0 {
		return true
	}
	if r, ok := against(p.qlo[q.ID]); ok && r < 0 {
		return true
	}
	return false
}
func elemSort(s string) string {
	// "(Array K V)"
	s = s[len("(Array ") : len(s)-1]
	d := 0
	for i, c := range s {
		if c == '(' {
			d++
		}
		if c == ')' {
			d--
		}
		if c == ' ' && d == 0 {
			return s[i+1:]
		}
	}
	panic("sort " + s)
}
func keySort(s string) string {
	s = s[len("(Array ") : len(s)-1]
	d := 0
	for i, c := range s {
		if c == '(' {
			d++
		}
		if c == ')' {
			d--
		}
		if c == ' ' && d == 0 {
			return s[:i]
		}
	}
	panic("sort " + s)
}
func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }
func (p *Pool) Store(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	if elemSort(a.Sort) != v.Sort {
		panic(fmt.Sprintf("store sort mismatch %s <- %s (%s)", a.Sort, v.Sort, p.Show(v)))
	}
	return p.mk("store", a.Sort, []*Term{a, i, v}, "")
}
func (p *Pool) ConstArr(sortS string, v *Term) *Term {
	return p.mk("constarr", sortS, []*Term{v}, "")
}
func (p *Pool) App(name, sortS string, args ...*Term) *Term {
	return p.mk("app", sortS, args, name)
}
func (p *Pool) Forall(v, body *Term) *Term {
	if body == p.True || body == p.False {
		return body
	}
	t := p.mk("forall", "Bool", []*Term{v, body}, "")
	// recompute bnd: v is bound here
	t.bnd = false
	free := map[int]bool{}
	p.freeB(body, map[int]bool{v.ID: true}, map[int]bool{}, free)
	t.bnd = len(free) > 0
	return t
}
// ForallT is a quantification whose terms obey the typing facts rf for every
// value of v: they are premises where the formula is to be proved and
// conclusions where it is assumed.
func (p *Pool) ForallT(v, body *Term, rf []*Term) *Term {
	t := p.Forall(v, body)
	if len(rf) > 0 && t.Op == "forall" {
		p.rf[t.ID] = rf
	}
	return t
}

// polar places the typing facts of quantifiers according to polarity
// (1: assumed, -1: to be proved, 0: both).
func (p *Pool) polar(t *Term, pol int) *Term {
	if len(p.rf) == 0 || t.Sort != "Bool" || !p.hasQ(t) {
		return t
	}
	k := [2]int{t.ID, pol}
	if r, ok := p.polMemo[k]; ok {
		return r
	}
	r := t
	switch t.Op {
	case "forall":
		body := p.polar(t.Args[1], pol)
		if rf := p.rf[t.ID]; len(rf) > 0 {
			if pol > 0 {
				body = p.And(append(append([]*Term{}, rf...), body)...)
			} else {
				body = p.Imp(p.And(rf...), body)
			}
		}
		r = p.Forall(t.Args[0], body)
	case "not":
		r = p.Not(p.polar(t.Args[0], -pol))
	case "and", "or":
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = p.polar(a, pol)
		}
		if t.Op == "and" {
			r = p.And(as...)
		} else {
			r = p.Or(as...)
		}
	case "=>":
		r = p.Imp(p.polar(t.Args[0], -pol), p.polar(t.Args[1], pol))
	case "ite":
		r = p.Ite(p.polar(t.Args[0], 0), p.polar(t.Args[1], pol), p.polar(t.Args[2], pol))
	default:
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = a
			if a.Sort == "Bool" {
				as[i] = p.polar(a, 0)
			}
			ch = ch || as[i] != a
		}
		if ch {
			r = p.mk(t.Op, t.Sort, as, t.S)
		}
	}
	p.polMemo[k] = r
	return r
}

func (p *Pool) hasQ(t *Term) bool {
	if r, ok := p.hasQMemo[t.ID]; ok {
		return r
	}
	r := t.Op == "forall"
	if !r {
		for _, a := range t.Args {
			if a.Sort == "Bool" && p.hasQ(a) {
				r = true
				break
			}
		}
	}
	p.hasQMemo[t.ID] = r
	return r
}

func (p *Pool) freeB(t *Term, bound map[int]bool, seen map[int]bool, out map[int]bool) {
	if !t.bnd || seen[t.ID] {
		return
	}
	seen[t.ID] = true
	if t.Op == "bvar" {
		if !bound[t.ID] {
			out[t.ID] = true
		}
		return
	}
	if t.Op == "forall" {
		b2 := map[int]bool{t.Args[0].ID: true}
		for k := range bound {
			b2[k] = true
		}
		p.freeB(t.Args[1], b2, map[int]bool{}, out)
		return
	}
	for _, a := range t.Args {
		p.freeB(a, bound, seen, out)
	}
}

func (p *Pool) Show(t *Term) string {
	s := p.sexp(t, nil)
	if len(s) > 600 {
		return s[:600] + "…"
	}
	return s
}

func symq(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '$') {
			ok = false
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	s = strings.ReplaceAll(s, "|", "¦")
	s = strings.ReplaceAll(s, "\\", "/")
	return "|" + s + "|"
}

func (p *Pool) intLit(i *big.Int) string {
	if i.Sign() < 0 {
		return "(- " + new(big.Int).Neg(i).String() + ")"
	}
	return i.String()
}
func (p *Pool) realLit(r *big.Rat) string {
	n := r.Num()
	d := r.Denom()
	ns := new(big.Int).Abs(n).String() + ".0"
	if d.Cmp(big.NewInt(1)) != 0 {
		ns = "(/ " + ns + " " + d.String() + ".0)"
	}
	if n.Sign() < 0 {
		return "(- " + ns + ")"
	}
	return ns
}

// sexp prints t; named maps shared sub-terms to their definitions.
func (p *Pool) sexp(t *Term, named map[int]string) string {
	if n, ok := named[t.ID]; ok {
		return n
	}
	return p.sexp1(t, named)
}
func (p *Pool) sexp1(t *Term, named map[int]string) string {
	switch t.Op {
	case "int":
		return p.intLit(t.I)
	case "real":
		return p.realLit(t.R)
	case "true", "false":
		return t.Op
	case "str":
		if p.theory {
			return smtStr(t.S)
		}
		return symq("lit:" + t.S)
	case "var", "bvar":
		return symq(t.S)
	case "app":
		if len(t.Args) == 0 {
			return symq(t.S)
		}
		var b strings.Builder
		b.WriteString("(" + symq(t.S))
		for _, a := range t.Args {
			b.WriteString(" " + p.sexp(a, named))
		}
		b.WriteString(")")
		return b.String()
	case "smt": // builtin application: S is the operator
		var b strings.Builder
		b.WriteString("(" + t.S)
		for _, a := range t.Args {
			b.WriteString(" " + p.sexp(a, named))
		}
		b.WriteString(")")
		return b.String()
	case "constarr":
		return "((as const " + t.Sort + ") " + p.sexp(t.Args[0], named) + ")"
	case "havoc":
		return p.sexp(t.Args[1], named)
	case "forall":
		return "(forall ((" + symq(t.Args[0].S) + " " + t.Args[0].Sort + ")) " + p.sexp(t.Args[1], named) + ")"
	}
	var b strings.Builder
	b.WriteString("(" + t.Op)
	for _, a := range t.Args {
		b.WriteString(" " + p.sexp(a, named))
	}
	b.WriteString(")")
	return b.String()
}

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			b.WriteString("\"\"")
		} else if c < 32 || c > 126 || c == '\\' {
			fmt.Fprintf(&b, "\\u{%x}", c)
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// Smt makes an application of a builtin SMT-LIB operator.
func (p *Pool) Smt(op, sortS string, args ...*Term) *Term { return p.mk("smt", sortS, args, op) }

// ---------------------------------------------------------------------------
// script printing

type script struct {
	p     *Pool
	decl  map[string]string
	order []string
	lits  map[string]bool
	cnt   map[int]int
	seen  map[int]bool
	post  []*Term // topological order
	facts []*Term
	sorts map[string]bool
}

func newScript(p *Pool) *script {
	return &script{p: p, decl: map[string]string{}, lits: map[string]bool{}, cnt: map[int]int{}, seen: map[int]bool{}, sorts: map[string]bool{}}
}

func (s *script) visit(t *Term) {
	s.cnt[t.ID]++
	if s.seen[t.ID] {
		return
	}
	s.seen[t.ID] = true
	for _, a := range t.Args {
		s.visit(a)
	}
	switch t.Op {
	case "var":
		s.declare(symq(t.S), "() "+t.Sort)
	case "app":
		var b strings.Builder
		b.WriteString("(")
		for i, a := range t.Args {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(a.Sort)
		}
		b.WriteString(") " + t.Sort)
		s.declare(symq(t.S), b.String())
	case "str":
		if !s.p.theory {
			s.lits[t.S] = true
			s.declare(symq("lit:"+t.S), "() Str")
		}
	}
	s.post = append(s.post, t)
	if !t.bnd {
		for _, f := range t.facts {
			s.facts = append(s.facts, f)
		}
	}
}

func (s *script) declare(name, sig string) {
	if old, ok := s.decl[name]; ok {
		if old != sig {
			panic("conflicting declaration " + name + ": " + old + " vs " + sig)
		}
		return
	}
	s.decl[name] = sig
	s.order = append(s.order, name)
}

// Build returns the SMT-LIB text asserting all given formulas.
func (p *Pool) Build(asserts []*Term) string {
	s := newScript(p)
	work := append([]*Term{}, asserts...)
	done := 0
	for i := 0; i < len(work); i++ {
		work[i] = p.polar(work[i], 1)
		s.visit(work[i])
		// facts discovered so far
		for done < len(s.facts) {
			f := s.facts[done]
			done++
			work = append(work, f)
		}
	}
	var b strings.Builder
	if p.theory {
		b.WriteString("(define-sort Str () String)\n")
	} else {
		b.WriteString("(declare-sort Str 0)\n")
	}
	for _, n := range s.order {
		b.WriteString("(declare-fun " + n + " " + s.decl[n] + ")\n")
	}
	if !p.theory && len(s.lits) > 1 {
		var ls []string
		for l := range s.lits {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		b.WriteString("(assert (distinct")
		for _, l := range ls {
			b.WriteString(" " + symq("lit:"+l))
		}
		b.WriteString("))\n")
	}
	named := map[int]string{}
	for _, t := range s.post {
		if len(t.Args) > 0 && !t.bnd && s.cnt[t.ID] > 1 && t.Op != "not" && t.Op != "havoc" {
			n := fmt.Sprintf("t!%d", t.ID)
			b.WriteString("(define-fun " + n + " () " + t.Sort + " " + p.sexp1(t, named) + ")\n")
			named[t.ID] = n
		}
		if !t.bnd && t.Sort == "Int" && (t.lo != nil || t.hi != nil) {
			switch t.Op {
			case "var", "select", "app", "smt":
				x := p.sexp(t, named)
				if t.lo != nil {
					b.WriteString("(assert (<= " + p.intLit(t.lo) + " " + x + "))\n")
				}
				if t.hi != nil {
					b.WriteString("(assert (<= " + x + " " + p.intLit(t.hi) + "))\n")
				}
			}
		}
	}
	for _, a := range work {
		b.WriteString("(assert " + p.sexp(a, named) + ")\n")
	}
	return b.String()
}

// Havoc returns a fresh array that agrees with prev on every reference below bound.
func (p *Pool) Havoc(prev *Term, bound int64, prefix string) *Term {
	nv := p.Fresh(prefix, prev.Sort)
	q := p.BVar("Int")
	b := p.Int(bound)
	nv.facts = append(nv.facts, p.Forall(q, p.Imp(p.Lt(q, b), p.mk("=", "Bool", []*Term{p.mk("select", elemSort(prev.Sort), []*Term{nv, q}, ""), p.Select(prev, q)}, ""))))
	return p.mk("havoc", prev.Sort, []*Term{prev, nv, b}, "")
}

// rangeFacts collects the typing facts of sub-terms that mention v.
func (p *Pool) rangeFacts(t *Term, v *Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	inner := map[int]bool{} // variables of quantifiers inside t
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.bnd || seen[t.ID] {
			return
		}
		seen[t.ID] = true
		if t.Op == "forall" {
			inner[t.Args[0].ID] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
		if t.Sort == "Int" && (t.Op == "select" || t.Op == "app" || t.Op == "smt") {
			if t.lo != nil {
				out = append(out, p.mk("<=", "Bool", []*Term{p.BigInt(t.lo), t}, ""))
			}
			if t.hi != nil {
				out = append(out, p.mk("<=", "Bool", []*Term{t, p.BigInt(t.hi)}, ""))
			}
		}
		for _, f := range t.facts {
			if f.bnd {
				out = append(out, f)
				rec(f)
			}
		}
	}
	rec(t)
	if len(inner) > 0 {
		// facts about the variable of an inner quantifier belong to that one
		var o2 []*Term
		for _, f := range out {
			free := map[int]bool{}
			p.freeB(f, map[int]bool{}, map[int]bool{}, free)
			ok := true
			for k := range free {
				if inner[k] {
					ok = false
				}
			}
			if ok {
				o2 = append(o2, f)
			}
		}
		out = o2
	}
	return out
}
