package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is the symbolic value of a Go expression.
type Value interface{}

type StructV struct {
	T  types.Type
	Fs []Value
}
type TupleV struct{ Vs []Value }

// PtrV: address of an object (or of a part of one).
// Heap key = Root + Path. Idx != nil for elements of slices / arrays; AIdx for
// an index into an array stored inside a struct.
type PtrV struct {
	Elem types.Type
	Root string // "" for generic object of type Elem: key is typeKey(Elem)
	Path string
	Ref  *Term
	Idx  *Term
	AIdx *Term
}
type SliceV struct {
	Elem               types.Type
	Ref, Off, Len, Cap *Term
}
type IfaceV struct {
	Tag, Ref *Term
	Conc     Value // statically known boxed value
	CT       types.Type
}
type MapV struct {
	T   *types.Map
	Ref *Term
}
type FuncV struct {
	Fn   *ssa.Function
	Bind []Value
	Ref  *Term // opaque function value when Fn == nil
	Bi   *ssa.Builtin
	// bound interface method
	Recv   *IfaceV
	Method *types.Func
}
type ArrV struct {
	Elem types.Type
	N    int64
	Ls   []*Term // one (Array Int S) per leaf of Elem
}
type IterV struct {
	Map   *MapV
	Str   *Term
	Keys  *SliceV // ghost sequence of keys
	Ref   *Term   // the position lives in the heap ("iter")
}

type Leaf struct {
	Path string
	Sort string
	T    types.Type // Go type of the scalar leaf
	Kind string     // "int","bool","str","real","ref","len","off","cap","tag","func","bigint","time"
}

type Unsupported struct{ Msg string }

func unsupported(f string, a ...interface{}) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

const allocBase = 1000000
const initBase = 500000

var (
	bigMaxLen = new(big.Int).Lsh(big.NewInt(1), 40)
	two63     = new(big.Int).Lsh(big.NewInt(1), 63)
	two64     = new(big.Int).Lsh(big.NewInt(1), 64)
	bZero     = big.NewInt(0)
)

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func isNamed(t types.Type, full string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return o.Name() == full
	}
	return o.Pkg().Path()+"."+o.Name() == full
}
func isDecimal(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "vcQ" {
		return true // exact rationals of the specification language
	}
	return isNamed(t, "github.com/shopspring/decimal.Decimal")
}
func isBigInt(t types.Type) bool  { return isNamed(t, "math/big.Int") }
func isTime(t types.Type) bool    { return isNamed(t, "time.Time") }

// uuids are opaque 128-bit numbers (the code under contract never looks inside).
func isUUID(t types.Type) bool { return isNamed(t, "github.com/google/uuid.UUID") }

var opaqueStructs = map[string]bool{
	"sync.Mutex": true, "sync.RWMutex": true, "sync.Once": true, "sync.WaitGroup": true,
	"google.golang.org/protobuf/internal/impl.MessageState": true,
	"reflect.Value": true, "context.cancelCtx": true,
}

type leafCache map[string][]Leaf

func (e *Eng) leaves(t types.Type) []Leaf {
	k := typeKey(t)
	if l, ok := e.leafC[k]; ok {
		return l
	}
	l := e.leaves1(t)
	e.leafC[k] = l
	return l
}

func (e *Eng) leaves1(t types.Type) []Leaf {
	t = types.Unalias(t)
	if isDecimal(t) {
		return []Leaf{{"", "Real", t, "real"}}
	}
	if isBigInt(t) {
		return []Leaf{{"", "Int", t, "bigint"}}
	}
	if isTime(t) {
		return []Leaf{{"", "Int", t, "time"}}
	}
	if isUUID(t) {
		return []Leaf{{"", "Int", t, "uuid"}}
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && opaqueStructs[n.Obj().Pkg().Path()+"."+n.Obj().Name()] {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", "Bool", t, "bool"}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", "Int", t, "int"}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", "Str", t, "str"}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", "Real", t, "real"}}
		case u.Kind() == types.UnsafePointer:
			return []Leaf{{"", "Int", t, "ref"}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", "Int", t, "ref"}}
		}
		unsupported("basic type %s", t)
	case *types.Pointer:
		return []Leaf{{"", "Int", t, "ref"}}
	case *types.Map, *types.Chan:
		return []Leaf{{"", "Int", t, "ref"}}
	case *types.Signature:
		return []Leaf{{"", "Int", t, "func"}}
	case *types.Slice:
		return []Leaf{{".ref", "Int", t, "ref"}, {".off", "Int", t, "off"}, {".len", "Int", t, "len"}, {".cap", "Int", t, "cap"}}
	case *types.Interface:
		return []Leaf{{".tag", "Int", t, "tag"}, {".ref", "Int", t, "ref"}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range e.leaves(f.Type()) {
				l.Path = "." + f.Name() + l.Path
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		for _, l := range e.leaves(u.Elem()) {
			out = append(out, Leaf{"[]" + l.Path, arrSort("Int", l.Sort), t, "arr"})
		}
		return out
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range e.leaves(u.At(i).Type()) {
				l.Path = fmt.Sprintf(".%d", i) + l.Path
				out = append(out, l)
			}
		}
		return out
	}
	unsupported("type %s", t)
	return nil
}

// build assembles a value of type t from leaf terms produced by get.
func (e *Eng) build(t types.Type, get func(l Leaf) *Term) Value {
	ls := e.leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		ts[i] = get(l)
	}
	v, rest := e.unflatten(t, ts)
	if len(rest) != 0 {
		panic("unflatten rest")
	}
	return v
}

func (e *Eng) unflatten(t types.Type, ts []*Term) (Value, []*Term) {
	t = types.Unalias(t)
	if isSpecial(t) {
		return ts[0], ts[1:]
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && opaqueStructs[n.Obj().Pkg().Path()+"."+n.Obj().Name()] {
		return &StructV{T: t}, ts
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return ts[0], ts[1:]
	case *types.Pointer:
		return &PtrV{Elem: u.Elem(), Ref: ts[0]}, ts[1:]
	case *types.Map:
		return &MapV{T: u, Ref: ts[0]}, ts[1:]
	case *types.Chan:
		return ts[0], ts[1:]
	case *types.Signature:
		if f, ok := e.funcByRef[ts[0].ID]; ok {
			return f, ts[1:]
		}
		return &FuncV{Ref: ts[0]}, ts[1:]
	case *types.Slice:
		return &SliceV{Elem: u.Elem(), Ref: ts[0], Off: ts[1], Len: ts[2], Cap: ts[3]}, ts[4:]
	case *types.Interface:
		return e.mkIface(ts[0], ts[1]), ts[2:]
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			f, ts = e.unflatten(u.Field(i).Type(), ts)
			s.Fs = append(s.Fs, f)
		}
		return s, ts
	case *types.Array:
		n := len(e.leaves(u.Elem()))
		return &ArrV{Elem: u.Elem(), N: u.Len(), Ls: append([]*Term{}, ts[:n]...)}, ts[n:]
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			var f Value
			f, ts = e.unflatten(u.At(i).Type(), ts)
			tv.Vs = append(tv.Vs, f)
		}
		return tv, ts
	}
	unsupported("unflatten %s", t)
	return nil, nil
}

func (e *Eng) mkIface(tag, ref *Term) *IfaceV {
	iv := &IfaceV{Tag: tag, Ref: ref}
	if b, ok := e.boxes[ref.ID]; ok && tag.Op == "int" {
		iv.Conc, iv.CT = b.v, b.t
	}
	if iv.Conc == nil && tag.Op == "int" && tag.I.Sign() > 0 {
		if ct, ok := e.tagType[int(tag.I.Int64())]; ok {
			if p, ok := ct.Underlying().(*types.Pointer); ok {
				iv.CT = ct
				iv.Conc = &PtrV{Elem: p.Elem(), Ref: ref}
			}
		}
	}
	return iv
}

func (e *Eng) flatten(v Value, t types.Type) []*Term {
	var out []*Term
	e.flat(v, t, &out)
	return out
}

func (e *Eng) flat(v Value, t types.Type, out *[]*Term) {
	switch x := v.(type) {
	case *Term:
		*out = append(*out, x)
	case *StructV:
		st := t.Underlying().(*types.Struct)
		if len(x.Fs) == 0 {
			return
		}
		for i, f := range x.Fs {
			e.flat(f, st.Field(i).Type(), out)
		}
	case *TupleV:
		tt := t.(*types.Tuple)
		for i, f := range x.Vs {
			e.flat(f, tt.At(i).Type(), out)
		}
	case *PtrV:
		if x.Path != "" || x.Idx != nil || x.AIdx != nil || x.Root != "" {
			*out = append(*out, e.interior(x))
			return
		}
		*out = append(*out, x.Ref)
	case *SliceV:
		*out = append(*out, x.Ref, x.Off, x.Len, x.Cap)
	case *IfaceV:
		*out = append(*out, x.Tag, x.Ref)
	case *MapV:
		*out = append(*out, x.Ref)
	case *FuncV:
		if x.Ref == nil {
			e.nfunc++
			x.Ref = e.p.Int(int64(1<<40) + int64(e.nfunc))
			e.funcByRef[x.Ref.ID] = x
		}
		*out = append(*out, x.Ref)
	case *ArrV:
		*out = append(*out, x.Ls...)
	default:
		unsupported("flatten %T", v)
	}
}

// interior pointers stored in the heap are kept in a side table (their
// reference number is unique per distinct address term).
func (e *Eng) interior(x *PtrV) *Term {
	k := x.Root + "|" + typeKey(x.Elem) + "|" + x.Path + fmt.Sprint("|", x.Ref.ID)
	if x.Idx != nil {
		k += fmt.Sprint("|i", x.Idx.ID)
	}
	if x.AIdx != nil {
		k += fmt.Sprint("|a", x.AIdx.ID)
	}
	if t, ok := e.interiorTab[k]; ok {
		return t
	}
	t := e.p.Int(int64(1<<41) + int64(len(e.interiorTab)))
	e.interiorTab[k] = t
	e.interiorPtr[t.ID] = x
	return t
}

// norm maps a reference literal back to the interior pointer it stands for.
func (e *Eng) norm(p *PtrV) *PtrV {
	if p.Ref.Op == "int" {
		if q, ok := e.interiorPtr[p.Ref.ID]; ok && p.Path == "" && p.Idx == nil && p.Root == "" {
			return q
		}
	}
	return p
}

func (e *Eng) rootKey(p *PtrV) string {
	if p.Root != "" {
		return p.Root
	}
	return "*" + typeKey(p.Elem)
}

func intRange(t types.Type) (lo, hi *big.Int) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	bits := 64
	uns := b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	if uns {
		return bZero, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
	}
	h := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
	return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
}

// typed attaches the type's range to a scalar term.
var maxUUID = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 128), big.NewInt(1))

func (e *Eng) typed(t *Term, l Leaf, old bool) *Term {
	if t.Sort != "Int" {
		return t
	}
	switch l.Kind {
	case "int":
		lo, hi := intRange(l.T)
		return e.p.Ranged(t, lo, hi)
	case "uuid":
		return e.p.Ranged(t, bZero, maxUUID)
	case "off":
		if old {
			// a slice from outside starts where its array starts
			return e.p.Int(0)
		}
		return e.p.Ranged(t, bZero, bigMaxLen)
	case "len", "cap":
		return e.p.Ranged(t, bZero, bigMaxLen)
	case "tag":
		return e.p.Ranged(t, bZero, big.NewInt(1<<30))
	case "ref", "func":
		if old {
			return e.p.Ranged(t, bZero, big.NewInt(initBase-1))
		}
		if l.Kind == "ref" {
			switch l.T.Underlying().(type) {
			case *types.Slice, *types.Map, *types.Pointer:
				r := t
				for r.Op == "select" {
					r = r.Args[0]
				}
				if u, ok := e.p.ub[r.ID]; ok && r != t {
					return e.p.Ranged(t, bZero, big.NewInt(u-1))
				}
			}
		}
		return e.p.Ranged(t, bZero, nil)
	}
	return t
}

// fresh creates an arbitrary value of type t.  old: the value comes from the
// caller (its references existed before).
func (e *Eng) fresh(t types.Type, prefix string, old bool) Value {
	v := e.build(t, func(l Leaf) *Term {
		return e.typed(e.p.Fresh(prefix+l.Path, l.Sort), l, old)
	})
	e.attachWF(v)
	return v
}

func (e *Eng) zero(t types.Type) Value {
	return e.build(t, func(l Leaf) *Term { return e.zeroLeaf(l.Sort) })
}
func (e *Eng) zeroLeaf(s string) *Term {
	switch s {
	case "Int":
		return e.p.Int(0)
	case "Bool":
		return e.p.False
	case "Real":
		return e.p.Real(new(big.Rat))
	case "Str":
		return e.p.Str("")
	}
	if strings.HasPrefix(s, "(Array ") {
		return e.p.ConstArr(s, e.zeroLeaf(elemSort(s)))
	}
	unsupported("zero of %s", s)
	return nil
}

// attachWF attaches the invariants every Go value of this shape satisfies to
// its terms.
func (e *Eng) attachWF(v Value) {
	p := e.p
	switch x := v.(type) {
	case *SliceV:
		switch x.Len.Op {
		case "select", "var", "app":
			if len(x.Len.facts) == 0 {
				x.Len.facts = append(x.Len.facts, p.And(
					p.mk("<=", "Bool", []*Term{x.Len, x.Cap}, ""),
					p.Imp(p.Eq(x.Ref, p.Int(0)), p.And(p.Eq(x.Len, p.Int(0)), p.Eq(x.Cap, p.Int(0))))))
			}
		}
	case *StructV:
		for _, f := range x.Fs {
			e.attachWF(f)
		}
	case *TupleV:
		for _, f := range x.Vs {
			e.attachWF(f)
		}
	}
}

func (e *Eng) eqVal(a, b Value, t types.Type) *Term {
	p := e.p
	if t != nil {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return e.eqIface(a.(*IfaceV), b.(*IfaceV))
		}
	}
	if sa, ok := a.(*SliceV); ok { // comparison with nil only
		sb := b.(*SliceV)
		if isZeroT(sb.Ref) {
			return p.Eq(sa.Ref, p.Int(0))
		}
		if isZeroT(sa.Ref) {
			return p.Eq(sb.Ref, p.Int(0))
		}
	}
	if aa, ok := a.(*ArrV); ok {
		bb := b.(*ArrV)
		var cs []*Term
		if aa.N > 64 {
			unsupported("large array comparison")
		}
		for i := range aa.Ls {
			for k := int64(0); k < aa.N; k++ {
				cs = append(cs, p.Eq(p.Select(aa.Ls[i], p.Int(k)), p.Select(bb.Ls[i], p.Int(k))))
			}
		}
		return p.And(cs...)
	}
	if sa, ok := a.(*StructV); ok {
		sb := b.(*StructV)
		st := t.Underlying().(*types.Struct)
		var cs []*Term
		for i := range sa.Fs {
			cs = append(cs, e.eqVal(sa.Fs[i], sb.Fs[i], st.Field(i).Type()))
		}
		return p.And(cs...)
	}
	fa, fb := e.flatten(a, t), e.flatten(b, t)
	var cs []*Term
	for i := range fa {
		cs = append(cs, p.Eq(fa[i], fb[i]))
	}
	return p.And(cs...)
}

func isZeroT(t *Term) bool { return t.Op == "int" && t.I.Sign() == 0 }

func (e *Eng) eqIface(a, b *IfaceV) *Term {
	p := e.p
	if isZeroT(b.Tag) {
		return p.Eq(a.Tag, p.Int(0))
	}
	if isZeroT(a.Tag) {
		return p.Eq(b.Tag, p.Int(0))
	}
	if a.Conc != nil && b.Conc != nil && a.CT != nil && b.CT != nil {
		if !types.Identical(a.CT, b.CT) {
			return p.False
		}
		return e.eqVal(a.Conc, b.Conc, a.CT)
	}
	return p.And(p.Eq(a.Tag, b.Tag), p.Eq(a.Ref, b.Ref))
}
