package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Real-sorted terms are kept as canonical polynomials with rational
// coefficients over atoms, so that equal expressions are equal terms.

type rmono struct {
	c  *big.Rat
	at []*Term // sorted by ID
}
type rpoly map[string]*rmono

func mkey(at []*Term) string {
	var b strings.Builder
	for _, a := range at {
		fmt.Fprintf(&b, "%d,", a.ID)
	}
	return b.String()
}

func (r rpoly) add(m *rmono, k *big.Rat) {
	key := mkey(m.at)
	x := r[key]
	if x == nil {
		x = &rmono{c: new(big.Rat), at: m.at}
		r[key] = x
	}
	x.c = new(big.Rat).Add(x.c, new(big.Rat).Mul(m.c, k))
	if x.c.Sign() == 0 {
		delete(r, key)
	}
}

func (p *Pool) rp(t *Term) rpoly {
	out := rpoly{}
	p.rpInto(out, t, big.NewRat(1, 1))
	return out
}

func (p *Pool) rpInto(out rpoly, t *Term, k *big.Rat) {
	switch {
	case t.R != nil:
		out.add(&rmono{c: t.R}, k)
	case t.Op == "+" && t.Sort == "Real":
		for _, a := range t.Args {
			p.rpInto(out, a, k)
		}
	case t.Op == "*" && t.Sort == "Real":
		m := &rmono{c: big.NewRat(1, 1)}
		for _, a := range t.Args {
			if a.R != nil {
				m.c = new(big.Rat).Mul(m.c, a.R)
			} else {
				m.at = append(m.at, a)
			}
		}
		sort.Slice(m.at, func(i, j int) bool { return m.at[i].ID < m.at[j].ID })
		out.add(m, k)
	default:
		out.add(&rmono{c: big.NewRat(1, 1), at: []*Term{t}}, k)
	}
}

func (r rpoly) sorted() []*rmono {
	var ms []*rmono
	for _, m := range r {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool {
		a, b := ms[i], ms[j]
		if len(a.at) != len(b.at) {
			return len(a.at) > len(b.at)
		}
		for k := range a.at {
			if a.at[k].ID != b.at[k].ID {
				return a.at[k].ID < b.at[k].ID
			}
		}
		return false
	})
	return ms
}

func (p *Pool) fromRp(r rpoly) *Term {
	ms := r.sorted()
	if len(ms) == 0 {
		return p.Real(new(big.Rat))
	}
	one := big.NewRat(1, 1)
	var args []*Term
	for _, m := range ms {
		switch {
		case len(m.at) == 0:
			args = append(args, p.Real(m.c))
		case m.c.Cmp(one) == 0 && len(m.at) == 1:
			args = append(args, m.at[0])
		default:
			var fs []*Term
			if m.c.Cmp(one) != 0 {
				fs = append(fs, p.Real(m.c))
			}
			fs = append(fs, m.at...)
			args = append(args, p.mk("*", "Real", fs, ""))
		}
	}
	if len(args) == 1 {
		return args[0]
	}
	return p.mk("+", "Real", args, "")
}

func (p *Pool) rAdd(a, b *Term, k *big.Rat) *Term {
	r := p.rp(a)
	p.rpInto(r, b, k)
	return p.fromRp(r)
}

func (p *Pool) rMul(a, b *Term) *Term {
	x, y := p.rp(a), p.rp(b)
	if len(x)*len(y) > 200 {
		return p.mk("*", "Real", []*Term{a, b}, "")
	}
	out := rpoly{}
	one := big.NewRat(1, 1)
	for _, m := range x {
		for _, n := range y {
			q := &rmono{c: new(big.Rat).Mul(m.c, n.c)}
			q.at = append(append(q.at, m.at...), n.at...)
			sort.Slice(q.at, func(i, j int) bool { return q.at[i].ID < q.at[j].ID })
			out.add(q, one)
		}
	}
	return p.fromRp(out)
}

// content splits a polynomial into (leading coefficient, monic rest).
func (p *Pool) content(t *Term) (*big.Rat, *Term) {
	r := p.rp(t)
	ms := r.sorted()
	if len(ms) == 0 {
		return new(big.Rat), t
	}
	c := ms[0].c
	if c.Cmp(big.NewRat(1, 1)) == 0 {
		return c, t
	}
	inv := new(big.Rat).Inv(c)
	out := rpoly{}
	for _, m := range ms {
		out.add(m, inv)
	}
	return c, p.fromRp(out)
}

// RDiv is the exact quotient; x/0 is unspecified.
func (p *Pool) RDiv(a, b *Term) *Term {
	a, b = p.ToReal(a), p.ToReal(b)
	if b.R != nil && b.R.Sign() != 0 {
		return p.Mul(a, p.Real(new(big.Rat).Inv(b.R)))
	}
	if b.R != nil {
		return p.App("rdiv", "Real", a, b)
	}
	ca, ma := p.content(a)
	cb, mb := p.content(b)
	if ca.Sign() == 0 {
		ca, ma = big.NewRat(1, 1), a
	}
	if ma.R != nil {
		ca, ma = ma.R, p.Real(big.NewRat(1, 1))
		if a.R != nil {
			ca = a.R
		}
	}
	q := p.App("rdiv", "Real", ma, mb)
	if len(q.facts) == 0 {
		z := p.Real(new(big.Rat))
		q.facts = append(q.facts, p.Imp(p.Not(p.Eq(mb, z)), p.Eq(p.Mul(q, mb), ma)))
		// sign facts spare the solver nonlinear reasoning
		q.facts = append(q.facts, p.Imp(p.And(p.Lt(z, mb), p.Le(z, ma)), p.Le(z, q)))
		q.facts = append(q.facts, p.Imp(p.And(p.Lt(z, mb), p.Lt(z, ma)), p.Lt(z, q)))
		q.facts = append(q.facts, p.Imp(p.And(p.Lt(z, mb), p.Le(ma, mb)), p.Le(q, p.Real(big.NewRat(1, 1)))))
		q.facts = append(q.facts, p.Imp(p.And(p.Lt(z, mb), p.Le(mb, ma)), p.Le(p.Real(big.NewRat(1, 1)), q)))
	}
	return p.Mul(q, p.Real(new(big.Rat).Quo(ca, cb)))
}

func (p *Pool) ToReal(a *Term) *Term {
	if a.Sort == "Real" {
		return a
	}
	if a.Op == "int" {
		return p.Real(new(big.Rat).SetInt(a.I))
	}
	if a.Op == "+" || (a.Op == "*" && a.Args[0].Op == "int") {
		l := p.lin(a)
		out := rpoly{}
		out.add(&rmono{c: new(big.Rat).SetInt(l.c)}, big.NewRat(1, 1))
		if l.c.Sign() == 0 {
			out = rpoly{}
		}
		for id, c := range l.co {
			if c.Sign() == 0 {
				continue
			}
			p.rpInto(out, p.ToReal(l.tm[id]), new(big.Rat).SetInt(c))
		}
		return p.fromRp(out)
	}
	if a.Op == "*" {
		return p.Mul(p.ToReal(a.Args[0]), p.ToReal(a.Args[1]))
	}
	return p.mk("to_real", "Real", []*Term{a}, "")
}

// gran: t is always a multiple of the returned rational (nil: unknown).
func (p *Pool) gran(t *Term) *big.Rat {
	var g *big.Rat
	for _, m := range p.rp(t) {
		for _, a := range m.at {
			if a.Op != "to_real" {
				return nil
			}
		}
		c := new(big.Rat).Abs(m.c)
		if g == nil {
			g = c
			continue
		}
		// gcd of rationals: gcd(a/b, c/d) = gcd(a*d, c*b) / (b*d)
		x := new(big.Int).Mul(g.Num(), c.Denom())
		y := new(big.Int).Mul(c.Num(), g.Denom())
		d := new(big.Int).Mul(g.Denom(), c.Denom())
		g = new(big.Rat).SetFrac(new(big.Int).GCD(nil, nil, x, y), d)
	}
	if g == nil {
		return new(big.Rat)
	}
	return g
}

// intOf converts a polynomial with integer coefficients over integers.
func (p *Pool) intOf(r rpoly) *Term {
	out := p.Int(0)
	for _, m := range r.sorted() {
		if !m.c.IsInt() {
			return nil
		}
		t := p.BigInt(m.c.Num())
		for _, a := range m.at {
			if a.Op != "to_real" {
				return nil
			}
			t = p.Mul(t, a.Args[0])
		}
		out = p.Add(out, t)
	}
	return out
}

// ToInt is the floor.
func (p *Pool) ToInt(a *Term) *Term {
	if a.Sort == "Int" {
		return a
	}
	if a.R != nil {
		q := new(big.Int)
		q.DivMod(a.R.Num(), a.R.Denom(), new(big.Int))
		return p.BigInt(q)
	}
	if a.Op == "ite" && a.Sort == "Real" {
		return p.Ite(a.Args[0], p.ToInt(a.Args[1]), p.ToInt(a.Args[2]))
	}
	// floor(I + R) = I + floor(R)
	ip, fp := rpoly{}, rpoly{}
	one := big.NewRat(1, 1)
	for _, m := range p.rp(a).sorted() {
		isInt := m.c.IsInt()
		for _, x := range m.at {
			if x.Op != "to_real" {
				isInt = false
			}
		}
		if isInt {
			ip.add(m, one)
		} else {
			fp.add(m, one)
		}
	}
	it := p.intOf(ip)
	if len(fp) == 0 {
		return it
	}
	f := p.fromRp(fp)
	if f.R != nil {
		return p.Add(it, p.ToInt(f))
	}
	k := p.App("rfloor", "Int", f)
	if len(k.facts) == 0 {
		kr := p.ToReal(k)
		k.facts = append(k.facts, p.Le(kr, f), p.Lt(f, p.Add(kr, p.Real(one))))
	}
	return p.Add(it, k)
}

// rLe: a <= b over the reals, in canonical form.
func (p *Pool) rLe(a, b *Term) *Term {
	d := p.rp(b)
	p.rpInto(d, a, big.NewRat(-1, 1)) // 0 <= d
	ms := d.sorted()
	if len(ms) == 0 {
		return p.True
	}
	if len(ms) == 1 && len(ms[0].at) == 0 {
		return p.Bool(ms[0].c.Sign() >= 0)
	}
	// scale to coprime integer coefficients
	l := big.NewInt(1)
	for _, m := range ms {
		g := new(big.Int).GCD(nil, nil, l, m.c.Denom())
		l = new(big.Int).Div(new(big.Int).Mul(l, m.c.Denom()), g)
	}
	g := new(big.Int)
	for _, m := range ms {
		n := new(big.Int).Mul(m.c.Num(), new(big.Int).Div(l, m.c.Denom()))
		g = new(big.Int).GCD(nil, nil, g, n.Abs(n))
	}
	k := new(big.Rat).SetFrac(l, g)
	linInt := true
	pos, neg := rpoly{}, rpoly{}
	for _, m := range ms {
		if len(m.at) > 1 || (len(m.at) == 1 && m.at[0].Op != "to_real") {
			linInt = false
		}
		if m.c.Sign() > 0 {
			pos.add(m, k)
		} else {
			neg.add(m, new(big.Rat).Neg(k))
		}
	}
	if linInt {
		return p.Le(p.intOf(neg), p.intOf(pos))
	}
	return p.mk("<=", "Bool", []*Term{p.fromRp(neg), p.fromRp(pos)}, "")
}

func (p *Pool) rEq(a, b *Term) *Term {
	d := p.rp(b)
	p.rpInto(d, a, big.NewRat(-1, 1))
	ms := d.sorted()
	if len(ms) == 0 {
		return p.True
	}
	if len(ms) == 1 && len(ms[0].at) == 0 {
		return p.False
	}
	l := big.NewInt(1)
	for _, m := range ms {
		g := new(big.Int).GCD(nil, nil, l, m.c.Denom())
		l = new(big.Int).Div(new(big.Int).Mul(l, m.c.Denom()), g)
	}
	k := new(big.Rat).SetInt(l)
	linInt := true
	pos, neg := rpoly{}, rpoly{}
	lead := ms[0].c.Sign()
	for _, m := range ms {
		if len(m.at) > 1 || (len(m.at) == 1 && m.at[0].Op != "to_real") {
			linInt = false
		}
		if m.c.Sign() == lead {
			pos.add(m, new(big.Rat).Mul(k, big.NewRat(int64(lead), 1)))
		} else {
			neg.add(m, new(big.Rat).Mul(k, big.NewRat(int64(-lead), 1)))
		}
	}
	if linInt {
		return p.Eq(p.intOf(pos), p.intOf(neg))
	}
	x, y := p.fromRp(pos), p.fromRp(neg)
	if x.ID > y.ID {
		x, y = y, x
	}
	return p.mk("=", "Bool", []*Term{x, y}, "")
}
