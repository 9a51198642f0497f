package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool)

var models map[string]model

func ptrTerm(v Value) *PtrV { return v.(*PtrV) }

func (e *Eng) newError(s *State) *IfaceV {
	t := e.prog.errorString
	return &IfaceV{Tag: e.tagOf(t), Ref: e.newRef(s), CT: t, Conc: nil}
}

// newErr: a fresh non-nil error distinct from every other.
func newErr(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
	ref := e.newRef(s)
	return []Value{&IfaceV{Tag: e.tagOf(e.prog.errorString), Ref: ref}}, true
}

func nop(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
	var rs []Value
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		rs = append(rs, e.zero(fn.Signature.Results().At(i).Type()))
	}
	return rs, true
}

func dec2(f func(e *Eng, a, b *Term) *Term) model {
	return func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
		return []Value{f(e, term(args[0]), term(args[1]))}, true
	}
}
func dec1(f func(e *Eng, a *Term) *Term) model {
	return func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
		return []Value{f(e, term(args[0]))}, true
	}
}
func rat(a, b int64) *big.Rat { return big.NewRat(a, b) }

func pow10(n int64) *big.Rat {
	r := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(abs64(n)), nil))
	if n < 0 {
		r.Inv(r)
	}
	return r
}
func abs64(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

// divRound: shopspring DivRound — quotient rounded half away from zero at
// `prec` decimals.
func (e *Eng) divRound(a, b *Term, prec int64) *Term {
	p := e.p
	sc := p.Real(pow10(prec))
	if a.R != nil && b.R != nil && b.R.Sign() != 0 {
		q := new(big.Rat).Quo(a.R, b.R)
		q.Mul(q, pow10(prec))
		return p.Real(new(big.Rat).Quo(new(big.Rat).SetInt(roundHalfAway(q)), pow10(prec)))
	}
	if b.R != nil && b.R.Sign() != 0 {
		// a/b already has at most prec decimals
		if g := p.gran(a); g != nil && new(big.Rat).Quo(new(big.Rat).Mul(g, pow10(prec)), b.R).IsInt() {
			return p.RDiv(a, b)
		}
	}
	// k = round(q * 10^prec), q = a/b
	q := p.RDiv(a, b)
	k := p.App(fmt.Sprintf("round%d", prec), "Int", q)
	if len(k.facts) == 0 {
		x := p.Sub(p.ToReal(k), p.Mul(q, sc))
		h := p.Real(rat(1, 2))
		z := p.Real(rat(0, 1))
		k.facts = append(k.facts, p.Le(x, h), p.Le(p.Neg(h), x))
		// half-way cases round away from zero
		k.facts = append(k.facts, p.Imp(p.Le(z, q), p.Lt(p.Neg(h), x)), p.Imp(p.Lt(q, z), p.Lt(x, h)))
	}
	return p.RDiv(p.ToReal(k), sc)
}

func roundHalfAway(q *big.Rat) *big.Int {
	neg := q.Sign() < 0
	x := new(big.Rat).Abs(q)
	x.Add(x, rat(1, 2))
	i := new(big.Int).Quo(x.Num(), x.Denom())
	if neg {
		i.Neg(i)
	}
	return i
}

func init() {
	D := "(github.com/shopspring/decimal.Decimal)."
	dp := "github.com/shopspring/decimal."
	B := "(*math/big.Int)."
	models = map[string]model{
		"errors.New":                     newErr,
		"fmt.Errorf":                     newErr,
		"github.com/pkg/errors.New":      newErr,
		"google.golang.org/grpc/status.Error": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			return newErr(e, s, fn, args)
		},
		"google.golang.org/grpc/status.Errorf": newErr,
		"errors.Is": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			return []Value{e.eqIface(args[0].(*IfaceV), args[1].(*IfaceV))}, true
		},
		"fmt.Sprintf": mSprintf,
		"fmt.Sprint":  mSprintf,
		"fmt.Println": nop, "fmt.Printf": nop, "fmt.Print": nop,

		// decimals
		D + "Add": dec2(func(e *Eng, a, b *Term) *Term { return e.p.Add(a, b) }),
		D + "Sub": dec2(func(e *Eng, a, b *Term) *Term { return e.p.Sub(a, b) }),
		D + "Mul": dec2(func(e *Eng, a, b *Term) *Term { return e.p.Mul(a, b) }),
		D + "Neg": dec1(func(e *Eng, a *Term) *Term { return e.p.Neg(a) }),
		D + "Abs": dec1(func(e *Eng, a *Term) *Term {
			return e.p.Ite(e.p.Le(e.p.Real(rat(0, 1)), a), a, e.p.Neg(a))
		}),
		D + "Div": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			a, b := term(args[0]), term(args[1])
			nz := e.p.Not(e.p.Eq(b, e.p.Real(rat(0, 1))))
			e.safety(s, "decimal-division-by-zero", nz)
			s.assume(e.p, nz)
			return []Value{e.divRound(a, b, e.prog.divPrecision)}, true
		},
		D + "DivRound": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			a, b, c := term(args[0]), term(args[1]), term(args[2])
			nz := e.p.Not(e.p.Eq(b, e.p.Real(rat(0, 1))))
			e.safety(s, "decimal-division-by-zero", nz)
			s.assume(e.p, nz)
			if c.Op != "int" {
				return nil, false
			}
			return []Value{e.divRound(a, b, c.I.Int64())}, true
		},
		D + "Cmp": dec2(func(e *Eng, a, b *Term) *Term {
			return e.p.Ite(e.p.Lt(a, b), e.p.Int(-1), e.p.Ite(e.p.Eq(a, b), e.p.Int(0), e.p.Int(1)))
		}),
		D + "Equal":              dec2(func(e *Eng, a, b *Term) *Term { return e.p.Eq(a, b) }),
		D + "Equals":             dec2(func(e *Eng, a, b *Term) *Term { return e.p.Eq(a, b) }),
		D + "LessThan":           dec2(func(e *Eng, a, b *Term) *Term { return e.p.Lt(a, b) }),
		D + "LessThanOrEqual":    dec2(func(e *Eng, a, b *Term) *Term { return e.p.Le(a, b) }),
		D + "GreaterThan":        dec2(func(e *Eng, a, b *Term) *Term { return e.p.Lt(b, a) }),
		D + "GreaterThanOrEqual": dec2(func(e *Eng, a, b *Term) *Term { return e.p.Le(b, a) }),
		D + "IsZero":             dec1(func(e *Eng, a *Term) *Term { return e.p.Eq(a, e.p.Real(rat(0, 1))) }),
		D + "IsPositive":         dec1(func(e *Eng, a *Term) *Term { return e.p.Lt(e.p.Real(rat(0, 1)), a) }),
		D + "IsNegative":         dec1(func(e *Eng, a *Term) *Term { return e.p.Lt(a, e.p.Real(rat(0, 1))) }),
		D + "Sign": dec1(func(e *Eng, a *Term) *Term {
			z := e.p.Real(rat(0, 1))
			return e.p.Ite(e.p.Lt(a, z), e.p.Int(-1), e.p.Ite(e.p.Eq(a, z), e.p.Int(0), e.p.Int(1)))
		}),
		D + "BigInt": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			r := e.alloc(s, e.prog.bigInt)
			e.store(s, r, e.truncReal(term(args[0])))
			return []Value{r}, true
		},
		D + "IntPart": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			return []Value{e.wrap(e.truncReal(term(args[0])), types.Typ[types.Int64])}, true
		},
		D + "Truncate": decPlaces(func(e *Eng, x *Term) *Term { return e.truncReal(x) }),
		D + "Floor":    dec1(func(e *Eng, a *Term) *Term { return e.p.ToReal(e.p.ToInt(a)) }),
		D + "Ceil":     dec1(func(e *Eng, a *Term) *Term { return e.p.Neg(e.p.ToReal(e.p.ToInt(e.p.Neg(a)))) }),
		D + "Round": decPlaces(func(e *Eng, x *Term) *Term {
			h := e.p.Real(rat(1, 2))
			z := e.p.Real(rat(0, 1))
			return e.p.Ite(e.p.Le(z, x), e.p.ToInt(e.p.Add(x, h)), e.p.Neg(e.p.ToInt(e.p.Add(e.p.Neg(x), h))))
		}),
		D + "String": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			return []Value{e.p.App("dec_string", "Str", term(args[0]))}, true
		},
		dp + "NewFromInt": dec1(func(e *Eng, a *Term) *Term { return e.p.ToReal(a) }),
		dp + "NewFromInt32": dec1(func(e *Eng, a *Term) *Term { return e.p.ToReal(a) }),
		dp + "NewFromFloat": dec1(func(e *Eng, a *Term) *Term {
			e.abstracted["decimal.NewFromFloat treated as exact"] = true
			return a
		}),
		dp + "New": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			ex := term(args[1])
			if ex.Op != "int" {
				return nil, false
			}
			return []Value{e.p.Mul(e.p.ToReal(term(args[0])), e.p.Real(pow10(ex.I.Int64())))}, true
		},
		dp + "NewFromBigInt": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			ex := term(args[1])
			if ex.Op != "int" {
				return nil, false
			}
			v := term(e.load(s, args[0].(*PtrV)))
			return []Value{e.p.Mul(e.p.ToReal(v), e.p.Real(pow10(ex.I.Int64())))}, true
		},
		dp + "RequireFromString": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			t := term(args[0])
			if t.Op != "str" {
				return nil, false
			}
			r, ok := new(big.Rat).SetString(t.S)
			if !ok {
				return nil, false
			}
			return []Value{e.p.Real(r)}, true
		},
		dp + "Max": decMinMax(false),
		dp + "Min": decMinMax(true),

		// big integers
		"math/big.NewInt": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			r := e.alloc(s, e.prog.bigInt)
			e.store(s, r, args[0])
			return []Value{r}, true
		},
		B + "SetUint64": bigSet1(func(e *Eng, a Value, s *State) *Term { return term(a) }),
		B + "SetInt64":  bigSet1(func(e *Eng, a Value, s *State) *Term { return term(a) }),
		B + "Set":       bigSet1(func(e *Eng, a Value, s *State) *Term { return term(e.load(s, a.(*PtrV))) }),
		B + "Neg":       bigSet1(func(e *Eng, a Value, s *State) *Term { return e.p.Neg(term(e.load(s, a.(*PtrV)))) }),
		B + "Add":       bigSet2(func(e *Eng, a, b *Term) *Term { return e.p.Add(a, b) }),
		B + "Sub":       bigSet2(func(e *Eng, a, b *Term) *Term { return e.p.Sub(a, b) }),
		B + "Mul":       bigSet2(func(e *Eng, a, b *Term) *Term { return e.p.Mul(a, b) }),
		B + "Quo":       bigDiv(func(e *Eng, a, b *Term) *Term { return e.truncDiv(a, b) }),
		B + "Div":       bigDiv(func(e *Eng, a, b *Term) *Term { return e.p.Div(a, b) }),
		B + "Mod":       bigDiv(func(e *Eng, a, b *Term) *Term { return e.p.Mod(a, b) }),
		B + "Cmp": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			a, b := term(e.load(s, args[0].(*PtrV))), term(e.load(s, args[1].(*PtrV)))
			return []Value{e.p.Ite(e.p.Lt(a, b), e.p.Int(-1), e.p.Ite(e.p.Eq(a, b), e.p.Int(0), e.p.Int(1)))}, true
		},
		B + "Sign": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			a := term(e.load(s, args[0].(*PtrV)))
			z := e.p.Int(0)
			return []Value{e.p.Ite(e.p.Lt(a, z), e.p.Int(-1), e.p.Ite(e.p.Eq(a, z), z, e.p.Int(1)))}, true
		},
		B + "Int64":  bigGet(types.Typ[types.Int64]),
		B + "Uint64": bigGet(types.Typ[types.Uint64]),
		B + "IsUint64": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			a := term(e.load(s, args[0].(*PtrV)))
			_, hi := intRange(types.Typ[types.Uint64])
			return []Value{e.p.And(e.p.Le(e.p.Int(0), a), e.p.Le(a, e.p.BigInt(hi)))}, true
		},
		B + "IsInt64": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			a := term(e.load(s, args[0].(*PtrV)))
			lo, hi := intRange(types.Typ[types.Int64])
			return []Value{e.p.And(e.p.Le(e.p.BigInt(lo), a), e.p.Le(a, e.p.BigInt(hi)))}, true
		},

		// time: a time.Time is its number of nanoseconds since the epoch
		"time.Now": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			t := e.p.Ranged(e.p.Fresh("now", "Int"), new(big.Int).Mul(big.NewInt(1_000_000_000), big.NewInt(1_000_000_000)), new(big.Int).Mul(big.NewInt(4_000_000_000), big.NewInt(1_000_000_000)))
			if s.lastNow != nil {
				s.assume(e.p, e.p.Le(s.lastNow, t))
			}
			s.lastNow = t
			return []Value{t}, true
		},
		"(time.Time).Unix": dec1(func(e *Eng, a *Term) *Term { return e.wrap(e.p.Div(a, e.p.Int(1_000_000_000)), types.Typ[types.Int64]) }),
		"(time.Time).UnixNano": dec1(func(e *Eng, a *Term) *Term { return e.wrap(a, types.Typ[types.Int64]) }),
		"(time.Time).Add":  dec2(func(e *Eng, a, b *Term) *Term { return e.p.Add(a, b) }),
		"(time.Time).Sub":  dec2(func(e *Eng, a, b *Term) *Term { return e.p.Sub(a, b) }),
		"(time.Time).Before": dec2(func(e *Eng, a, b *Term) *Term { return e.p.Lt(a, b) }),
		"(time.Time).After":  dec2(func(e *Eng, a, b *Term) *Term { return e.p.Lt(b, a) }),
		"(time.Time).IsZero": dec1(func(e *Eng, a *Term) *Term { return e.p.Eq(a, e.p.Int(0)) }),
		"time.Unix": dec2(func(e *Eng, a, b *Term) *Term { return e.p.Add(e.p.Mul(a, e.p.Int(1_000_000_000)), b) }),
		"(time.Duration).Seconds": dec1(func(e *Eng, a *Term) *Term { return e.p.RDiv(e.p.ToReal(a), e.p.Real(rat(1_000_000_000, 1))) }),
		"time.Sleep": nop,

		// synchronisation has no effect on sequential state
		"(*sync.Mutex).Lock": nop, "(*sync.Mutex).Unlock": nop,
		"(*sync.RWMutex).Lock": nop, "(*sync.RWMutex).Unlock": nop,
		"(*sync.RWMutex).RLock": nop, "(*sync.RWMutex).RUnlock": nop,

		"strings.Join": mUF, "strings.ToLower": mUF, "strings.ToUpper": mUF, "strings.TrimSpace": mUF,
		"strings.HasPrefix": mStrPred("str.prefixof"), "strings.HasSuffix": mStrPred("str.suffixof"),
		"strings.Contains": mUF, "strings.Repeat": mUF,

		"encoding/hex.EncodeToString": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			sl := args[0].(*SliceV)
			t := e.p.App("hex_enc", "Str", e.rowsOf(s, sl)[0], sl.Off, sl.Len)
			if len(t.facts) == 0 && !t.bnd && !e.p.theory {
				t.facts = append(t.facts, e.p.Eq(e.strLen(t), e.p.Mul(e.p.Int(2), sl.Len)))
			}
			return []Value{t}, true
		},
		"encoding/hex.DecodeString": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			p := e.p
			x := term(args[0])
			et := types.Universe.Lookup("byte").Type()
			if x.Op == "app" && x.S == "hex_enc" {
				r := e.makeSlice(s, et, x.Args[2], x.Args[2])
				row := x.Args[0]
				if !isZeroT(x.Args[1]) {
					row = e.copyRow(e.zeroLeaf(row.Sort), p.Int(0), row, x.Args[1], x.Args[2])
				}
				e.setRows(s, et, r.Ref, []*Term{row})
				return []Value{r, e.zero(errType())}, true
			}
			row := p.App("hex_dec", arrSort("Int", "Int"), x)
			n := p.Ranged(p.App("hex_declen", "Int", x), bZero, bigMaxLen)
			ok := p.App("hex_valid", "Bool", x)
			if len(ok.facts) == 0 && !ok.bnd {
				ok.facts = append(ok.facts, p.Imp(ok, p.Eq(p.Mul(p.Int(2), n), e.strLen(x))))
			}
			r := e.makeSlice(s, et, n, n)
			e.setRows(s, et, r.Ref, []*Term{row})
			ev := &IfaceV{Tag: p.Ite(ok, p.Int(0), e.tagOf(e.prog.errorString)), Ref: p.Ite(ok, p.Int(0), p.App("hex_err", "Int", x))}
			return []Value{r, ev}, true
		},
		"bytes.Equal": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			a, b := args[0].(*SliceV), args[1].(*SliceV)
			return []Value{e.bytesEq(s, a, b)}, true
		},
		"math.Pow10": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			a := term(args[0])
			if a.Op != "int" {
				return nil, false
			}
			return []Value{e.p.Real(pow10(a.I.Int64()))}, true
		},
		"sort.Slice": mSort, "sort.SliceStable": mSort,
		"google.golang.org/protobuf/proto.Marshal":   mPbMarshal,
		"google.golang.org/protobuf/proto.Unmarshal": mPbUnmarshal,
		"github.com/golang/protobuf/proto.Marshal":   mPbMarshal,
		"github.com/golang/protobuf/proto.Unmarshal": mPbUnmarshal,
		"encoding/json.Marshal":                      mPbMarshal,
		"encoding/json.Unmarshal":                    mPbUnmarshal,
		"context.Background":                         mCtx,
		"context.TODO":                               mCtx,
		"strconv.Itoa":                               mUF,
		"github.com/thanhpk/randstr.Hex": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			return []Value{e.p.Fresh("randstr", "Str")}, true
		},
		// a version 4 uuid is never zero
		"github.com/google/uuid.New": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			return []Value{e.p.Ranged(e.p.Fresh("uuid", "Int"), big.NewInt(1), maxUUID)}, true
		},
		"(github.com/google/uuid.UUID).String": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			return []Value{e.uuidStr(term(args[0]))}, true
		},
		"(github.com/google/uuid.UUID).ID": mUF,
		"github.com/google/uuid.Parse": func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
			// every uuid string parses back; other strings may or may not parse
			x := term(args[0])
			u := e.p.Ranged(e.p.App("uuid_of", "Int", x), bZero, maxUUID)
			ok := e.p.App("uuid_ok", "Bool", x)
			er := e.newError(s)
			return []Value{e.p.Ite(ok, u, e.p.Int(0)), &IfaceV{Tag: e.p.Ite(ok, e.p.Int(0), er.Tag), Ref: e.p.Ite(ok, e.p.Int(0), er.Ref)}}, true
		},
	}
}

func errType() types.Type { return types.Universe.Lookup("error").Type() }

func (e *Eng) bytesEq(s *State, a, b *SliceV) *Term {
	p := e.p
	ra, rb := e.rowsOf(s, a)[0], e.rowsOf(s, b)[0]
	if ra == rb && a.Off == b.Off {
		return p.Eq(a.Len, b.Len)
	}
	return p.And(p.Eq(a.Len, b.Len), e.mkForall(p.Int(0), a.Len, func(i *Term) *Term {
		return p.Eq(p.Select(ra, p.Add(a.Off, i)), p.Select(rb, p.Add(b.Off, i)))
	}))
}

func mCtx(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
	return []Value{&IfaceV{Tag: e.p.Int(1 << 29), Ref: e.p.Int(3)}}, true
}

func decPlaces(f func(e *Eng, x *Term) *Term) model {
	return func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
		n := term(args[1])
		if n.Op != "int" {
			return nil, false
		}
		sc := e.p.Real(pow10(n.I.Int64()))
		return []Value{e.p.RDiv(e.p.ToReal(f(e, e.p.Mul(term(args[0]), sc))), sc)}, true
	}
}

func decMinMax(min bool) model {
	return func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
		r := term(args[0])
		sl := args[1].(*SliceV)
		if sl.Len.Op != "int" {
			return nil, false
		}
		for i := int64(0); i < sl.Len.I.Int64(); i++ {
			x := term(e.load(s, e.elemPtr(sl, e.p.Int(i))))
			if min {
				r = e.p.Ite(e.p.Le(r, x), r, x)
			} else {
				r = e.p.Ite(e.p.Le(x, r), r, x)
			}
		}
		return []Value{r}, true
	}
}

func bigSet1(f func(e *Eng, a Value, s *State) *Term) model {
	return func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
		e.store(s, args[0].(*PtrV), f(e, args[1], s))
		return []Value{args[0]}, true
	}
}
func bigSet2(f func(e *Eng, a, b *Term) *Term) model {
	return func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
		a, b := term(e.load(s, args[1].(*PtrV))), term(e.load(s, args[2].(*PtrV)))
		e.store(s, args[0].(*PtrV), f(e, a, b))
		return []Value{args[0]}, true
	}
}
func bigDiv(f func(e *Eng, a, b *Term) *Term) model {
	return func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
		a, b := term(e.load(s, args[1].(*PtrV))), term(e.load(s, args[2].(*PtrV)))
		nz := e.p.Not(e.p.Eq(b, e.p.Int(0)))
		e.safety(s, "div-by-zero", nz)
		s.assume(e.p, nz)
		e.store(s, args[0].(*PtrV), f(e, a, b))
		return []Value{args[0]}, true
	}
}
func bigGet(t types.Type) model {
	return func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
		return []Value{e.wrap(term(e.load(s, args[0].(*PtrV))), t)}, true
	}
}

// mUF: a deterministic function of its arguments' contents.
func mUF(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
	var ts []*Term
	for i, a := range args {
		ts = append(ts, e.contentTerms(s, a, paramType(fn, i))...)
	}
	return e.ufResults(s, fullName(fn), fn.Signature.Results(), ts), true
}

func mStrPred(op string) model {
	return func(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
		a, b := term(args[0]), term(args[1])
		if a.Op == "str" && b.Op == "str" {
			if op == "str.prefixof" {
				return []Value{e.p.Bool(strings.HasPrefix(a.S, b.S))}, true
			}
			return []Value{e.p.Bool(strings.HasSuffix(a.S, b.S))}, true
		}
		if e.p.theory {
			return []Value{e.p.Smt(op, "Bool", b, a)}, true
		}
		return mUF(e, s, fn, args)
	}
}

// mSprintf: injective enough for our purposes — a function of format and arguments.
func mSprintf(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
	var ts []*Term
	var sl *SliceV
	fmtS := ""
	if fn.Name() == "Sprintf" {
		ts = append(ts, term(args[0]))
		if term(args[0]).Op == "str" {
			fmtS = term(args[0]).S
		}
		sl = args[1].(*SliceV)
	} else {
		sl = args[0].(*SliceV)
	}
	if sl.Len.Op != "int" {
		return []Value{e.p.Fresh("sprintf", "Str")}, true
	}
	var argv []Value
	var argt []types.Type
	for i := int64(0); i < sl.Len.I.Int64(); i++ {
		iv := e.load(s, e.elemPtr(sl, e.p.Int(i))).(*IfaceV)
		if iv.Conc != nil && iv.CT != nil {
			argv = append(argv, iv.Conc)
			argt = append(argt, iv.CT)
			ts = append(ts, e.contentTerms(s, iv.Conc, iv.CT)...)
		} else {
			argv = append(argv, nil)
			argt = append(argt, nil)
			ts = append(ts, iv.Tag, iv.Ref)
		}
	}
	// literal expansion of %s / %d / %v over plain strings and integers
	if fmtS != "" {
		if t := e.expandFmt(fmtS, argv, argt); t != nil {
			return []Value{t}, true
		}
	}
	var sb strings.Builder
	for _, t := range ts {
		sb.WriteString(t.Sort)
	}
	return []Value{e.p.App("sprintf/"+sb.String(), "Str", ts...)}, true
}

func (e *Eng) expandFmt(f string, args []Value, ts []types.Type) *Term {
	p := e.p
	acc := p.Str("")
	k := 0
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if k >= len(args) {
			return nil
		}
		t, ok := args[k].(*Term)
		if !ok {
			return nil
		}
		acc = e.strCat(acc, p.Str(lit))
		lit = ""
		switch {
		case t.Sort == "Str" && (f[i] == 's' || f[i] == 'v'):
			if ts[k] != nil {
				if _, isNamed := types.Unalias(ts[k]).(*types.Named); isNamed {
					return nil
				}
			}
			acc = e.strCat(acc, t)
		case t.Sort == "Int" && (f[i] == 'd' || f[i] == 'v'):
			if t.Op == "int" {
				acc = e.strCat(acc, p.Str(t.I.String()))
			} else {
				acc = e.strCat(acc, e.itoa(t))
			}
		default:
			return nil
		}
		k++
	}
	return e.strCat(acc, p.Str(lit))
}

func (e *Eng) itoa(t *Term) *Term {
	p := e.p
	r := p.App("itoa", "Str", t)
	if len(r.facts) == 0 && !r.bnd {
		r.facts = append(r.facts, p.mk("=", "Bool", []*Term{p.App("atoi", "Int", r), t}, ""))
	}
	return r
}

// mSort: the slice becomes a permutation of itself (order not modelled).
func mSort(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
	p := e.p
	iv := args[0].(*IfaceV)
	sl, ok := iv.Conc.(*SliceV)
	if !ok {
		return nil, true
	}
	if sl.Len.Op == "int" && sl.Len.I.Int64() <= 1 {
		return nil, true
	}
	rows := e.rowsOf(s, sl)
	n := sl.Len
	p.fresh++
	pn := fmt.Sprintf("perm!%d", p.fresh)
	perm := func(x *Term) *Term { return p.App(pn, "Int", x) }
	inv := func(x *Term) *Term { return p.App(pn+"inv", "Int", x) }
	q := p.BVar("Int")
	in := func(x *Term) *Term { return p.And(p.Le(p.Int(0), x), p.Lt(x, n)) }
	nrows := make([]*Term, len(rows))
	for i, r := range rows {
		nr := p.Fresh("sorted", r.Sort)
		nr.facts = append(nr.facts,
			p.Forall(q, p.Imp(in(q), p.mk("=", "Bool", []*Term{p.Select(nr, p.Add(sl.Off, q)), p.Select(r, p.Add(sl.Off, perm(q)))}, ""))),
			p.Forall(q, p.Imp(p.Not(p.And(p.Le(sl.Off, q), p.Lt(q, p.Add(sl.Off, n)))), p.mk("=", "Bool", []*Term{p.Select(nr, q), p.Select(r, q)}, ""))))
		if i == 0 {
			nr.facts = append(nr.facts,
				p.Forall(q, p.Imp(in(q), p.And(in(perm(q)), p.Eq(inv(perm(q)), q)))),
				p.Forall(q, p.Imp(in(q), p.And(in(inv(q)), p.Eq(perm(inv(q)), q)))))
		}
		nrows[i] = nr
	}
	e.setRows(s, sl.Elem, sl.Ref, nrows)
	if fv, ok := args[1].(*FuncV); ok && fv.Fn != nil {
		a, b := p.BVar("Int"), p.BVar("Int")
		if v, ok := e.tryPure(s, fv, []Value{b, a}); ok {
			body := p.Not(term(v))
			if v2, ok := e.tryPure(s, fv, []Value{a, b}); ok {
				body = p.Or(body, term(v2))
			}
			g := p.And(p.Le(p.Int(0), a), p.Lt(a, b), p.Lt(b, n))
			s.assume(p, p.Forall(a, p.ForallT(b, p.Imp(g, body), p.rangeFacts(body, b))))
		}
	}
	e.abstracted["sort.Slice: a permutation in which no later element is less than an earlier one (the comparison is a strict weak order)"] = true
	return nil, true
}

// serialisation: decode(encode(x)) == x for the same type; anything else is arbitrary.
func mPbMarshal(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
	p := e.p
	iv := args[0].(*IfaceV)
	bt := types.Universe.Lookup("byte").Type()
	var ts []*Term
	tk := "unknown"
	if ptr, ok := iv.Conc.(*PtrV); ok {
		if ptr.Ref.Op == "int" && isZeroT(ptr.Ref) {
			return []Value{e.zero(types.NewSlice(bt)), e.zero(errType())}, true
		}
		if _, isSt := ptr.Elem.Underlying().(*types.Struct); isSt {
			tk = typeKey(ptr.Elem)
			v := e.loadQuiet(s, ptr)
			ts = e.contentTerms(s, v, ptr.Elem)
			e.pbVals[tk] = ptr.Elem
		}
	} else if iv.Conc != nil {
		tk = typeKey(iv.CT)
		ts = e.contentTerms(s, iv.Conc, iv.CT)
	}
	if tk == "unknown" {
		e.havocked["serialisation of a value of unknown type"] = true
		ts = []*Term{iv.Tag, iv.Ref}
	}
	id := p.App("enc:"+tk+sortsOf(ts), "Int", ts...)
	if ptr, ok := iv.Conc.(*PtrV); ok {
		// remember the encoded value so that decoding gives it back
		if _, isSt := ptr.Elem.Underlying().(*types.Struct); isSt {
			e.encoded[id.ID] = e.loadQuiet(s, ptr)
		}
	} else if iv.Conc != nil {
		e.encoded[id.ID] = iv.Conc
	}
	row := p.App("encrow", arrSort("Int", "Int"), id)
	n := p.Ranged(p.App("enclen", "Int", id), bZero, bigMaxLen)
	r := e.makeSlice(s, bt, n, n)
	e.setRows(s, bt, r.Ref, []*Term{row})
	e.abstracted["proto/json serialisation succeeds and decoding inverts encoding"] = true
	return []Value{r, e.zero(errType())}, true
}
func sortsOf(ts []*Term) string {
	var sb strings.Builder
	for _, t := range ts {
		sb.WriteString(t.Sort)
	}
	return fmt.Sprintf("/%s", sb.String())
}

func mPbUnmarshal(e *Eng, s *State, fn *ssa.Function, args []Value) ([]Value, bool) {
	p := e.p
	buf := args[0].(*SliceV)
	iv := args[1].(*IfaceV)
	ptr, ok := iv.Conc.(*PtrV)
	if !ok {
		unsupported("unmarshal into %T", iv.Conc)
	}
	ptr = e.norm(ptr)
	row := e.rowsOf(s, buf)[0]
	tk := typeKey(ptr.Elem)
	if row.Op == "app" && row.S == "encrow" && isZeroT(buf.Off) && buf.Len.Op == "app" && buf.Len.S == "enclen" {
		id := row.Args[0]
		if strings.HasPrefix(id.S, "enc:"+tk+"/") {
			if v, ok := e.encoded[id.ID]; ok {
				e.store(s, ptr, v)
				return []Value{e.zero(errType())}, true
			}
		}
	}
	name := "dec:" + tk
	v := e.build(ptr.Elem, func(l Leaf) *Term {
		return e.typed(p.App(name+l.Path, l.Sort, row, buf.Off, buf.Len), l, true)
	})
	e.attachWF(v)
	okT := p.App("decok:"+tk, "Bool", row, buf.Off, buf.Len)
	ev := &IfaceV{Tag: p.Ite(okT, p.Int(0), e.tagOf(e.prog.errorString)), Ref: p.Ite(okT, p.Int(0), p.App("decerr:"+tk, "Int", row, buf.Off, buf.Len))}
	e.store(s, ptr, v)
	e.abstracted["proto/json deserialisation is a function of the bytes"] = true
	return []Value{ev}, true
}

// uuidStr: the canonical text of a uuid, from which it can be read back.
func (e *Eng) uuidStr(u *Term) *Term {
	t := e.p.App("uuid_str", "Str", u)
	if len(t.facts) == 0 {
		t.facts = append(t.facts, e.p.Eq(e.p.App("uuid_of", "Int", t), u), e.p.App("uuid_ok", "Bool", t))
	}
	return t
}
