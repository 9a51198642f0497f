package main

import (
	"fmt"
	"go/constant"
	"go/ast"
	"go/types"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/tdex-network/tdex-daemon"

type Program struct {
	names map[*ssa.Function]map[ssa.Value]string
	ssa          *ssa.Program
	pkgs         map[string]*ssa.Package
	mu           sync.Mutex
	loops        map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	contracts    []*Contract
	byTarget     map[*ssa.Function]*Contract
	byFn         map[*ssa.Function]*Contract
	errorString  types.Type
	bigInt       types.Type
	divPrecision int64
	written      map[*ssa.Global]bool // stored to (or its content updated) outside initialisation
}

// Contract is one contract function of a contract file.
type Contract struct {
	ID       string // pkg-relative path + function name
	Name     string
	Pkg      string
	File     string
	Line     int
	Props    []string
	EnsProps map[string][]string
	Modular  bool
	MayPanic bool
	Helper   bool
	Strings  bool // use the SMT theory of strings
	Unroll   int
	Func     *ssa.Function
	Target   *ssa.Function
	Broken   string // compile errors against the current code
	Labels   []string
	Antes    map[string]bool
	HardMs, FastMs int
	FuzzOnly bool
	Opaque   []string // functions taken as deterministic functions of their arguments
	Stubs    map[string]string // functions replaced by an assumed contract, written as a spec function
}

// stubFor: the spec function that states the assumed contract of fn.
func (e *Eng) stubFor(s *State, fn *ssa.Function) *ssa.Function {
	if e.ct == nil || len(e.ct.Stubs) == 0 {
		return nil
	}
	n, ok := e.ct.Stubs[fnName(fn)]
	if !ok && fn.Pkg == e.ct.Func.Pkg && fn.Signature.Recv() == nil {
		n, ok = e.ct.Stubs[fn.Name()]
	}
	if !ok {
		return nil
	}
	st := e.ct.Func.Pkg.Func(n)
	if st == nil {
		unsupported("stub %s not found", n)
	}
	for _, f := range s.frames {
		if f.fn == st {
			return nil
		}
	}
	a, b := fn.Signature, st.Signature
	na := a.Params().Len()
	if a.Recv() != nil {
		na++
	}
	if na != b.Params().Len() || a.Results().Len() != b.Results().Len() {
		unsupported("stub %s does not fit %s", n, fnName(fn))
	}
	for i := 0; i < a.Results().Len(); i++ {
		if !sameKind(a.Results().At(i).Type(), b.Results().At(i).Type()) {
			unsupported("stub %s does not fit %s", n, fnName(fn))
		}
	}
	off := na - a.Params().Len()
	for i := 0; i < a.Params().Len(); i++ {
		if !sameKind(a.Params().At(i).Type(), b.Params().At(i+off).Type()) {
			unsupported("stub %s does not fit %s", n, fnName(fn))
		}
	}
	return st
}

// sameKind: a named basic type may be given as the type it is made of, where
// the contract's package can't name it.
func sameKind(a, b types.Type) bool {
	if types.Identical(a, b) {
		return true
	}
	_, ok := a.Underlying().(*types.Basic)
	return ok && types.Identical(a.Underlying(), b.Underlying())
}

func (c *Contract) isOpaque(fn *ssa.Function) bool {
	if c == nil || len(c.Opaque) == 0 {
		return false
	}
	for _, o := range c.Opaque {
		if c.named(fn, strings.TrimSuffix(o, "!")) {
			return true
		}
	}
	return false
}

// opaqueMethod: the interface method as the contract lists it among its opaque functions.
func (c *Contract) opaqueMethod(name string) string {
	if c == nil {
		return ""
	}
	name = strings.TrimPrefix(name, "github.com/tdex-network/tdex-daemon/")
	for _, o := range c.Opaque {
		if strings.TrimSuffix(o, "!") == name {
			return o
		}
	}
	return ""
}

// named: is fn what the contract calls n? (Functions of its own package need no path.)
func (c *Contract) named(fn *ssa.Function, n string) bool {
	return n == fnName(fn) || c.Func != nil && fn.Pkg == c.Func.Pkg && fn.Signature.Recv() == nil && n == fn.Name()
}

// isNonNil: the opaque function is assumed to return a pointer unless it fails.
func (c *Contract) isNonNil(fn *ssa.Function) bool {
	for _, o := range c.Opaque {
		if strings.HasSuffix(o, "!") && c.named(fn, strings.TrimSuffix(o, "!")) {
			return true
		}
	}
	return false
}

func isSpecFile(name string) bool { return strings.HasPrefix(filepath.Base(name), "zz_vc_") }

func (pr *Program) isSpecFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pos().IsValid() {
		return isSpecFile(pr.ssa.Fset.Position(fn.Pos()).Filename)
	}
	if o := fn.Object(); o != nil && o.Pos().IsValid() {
		return isSpecFile(pr.ssa.Fset.Position(o.Pos()).Filename)
	}
	return false
}

func (pr *Program) isRec(fn *ssa.Function) bool {
	return strings.HasPrefix(fn.Name(), "vcr") && pr.isSpecFn(fn)
}

func (pr *Program) contractFor(fn *ssa.Function) *Contract { return pr.byTarget[fn] }
func (pr *Program) contractByFn(fn *ssa.Function) *Contract {
	return pr.byFn[fn]
}

func (pr *Program) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	l, ok := pr.loops[fn]
	if !ok {
		l = findLoops(fn)
		pr.loops[fn] = l
	}
	return l
}

func (pr *Program) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	pr.mu.Lock()
	defer pr.mu.Unlock()
	ms := pr.ssa.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return pr.ssa.MethodValue(sel)
}

func fnPkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// interface methods that only observe their receiver
// observers: interface methods whose result is a function of the object and the
// arguments and which change nothing (for implementations the contract leaves open).
var observers = map[string]bool{}

func init() {
	u := "github.com/tdex-network/tdex-daemon/pkg/explorer.Utxo."
	for _, m := range []string{"Hash", "Index", "Value", "Asset", "ValueCommitment", "AssetCommitment", "ValueBlinder", "AssetBlinder", "Nonce", "Script", "RangeProof", "SurjectionProof", "IsConfidential", "IsConfirmed", "IsRevealed"} {
		observers[u+m] = true
	}
}

func (pr *Program) isObserver(name string) bool { return observers[name] }

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "bytes": true, "path": true, "path/filepath": true,
	"math": true, "math/bits": true, "encoding/hex": true, "encoding/base64": true, "encoding/binary": true, "crypto/sha256": true, "net/url": true,
	"github.com/vulpemventures/go-elements/address":     true,
	"github.com/vulpemventures/go-elements/payment":     true,
	"github.com/vulpemventures/go-elements/elementsutil": true,
	"github.com/btcsuite/btcutil/hdkeychain":            true,
	"github.com/btcsuite/btcd/btcec":                    true,
	"github.com/vulpemventures/go-elements/slip77":      true,
}

var pureFns = map[string]bool{
	"github.com/btcsuite/btcutil.Hash160": true,
	"crypto/sha256.Sum256": true,
	"github.com/vulpemventures/go-elements/transaction.NewTxFromHex": true,
}

// inlinePrefixes: dependencies whose source is analysed like our own.
var inlinePkgs = map[string]bool{
	"github.com/tdex-network/tdex-protobuf/generated/go/swap":  true,
	"github.com/tdex-network/tdex-protobuf/generated/go/trade": true,
	"github.com/tdex-network/tdex-protobuf/generated/go/types": true,
	"github.com/tdex-network/tdex-protobuf/generated/go/operator": true,
	"sort": false,
}

// inlineFns: small functions of dependencies analysed like our own.
var inlineFns = map[string]bool{
	"(*github.com/vulpemventures/go-elements/transaction.TxOutput).IsConfidential": true,
	"(*github.com/vulpemventures/go-elements/pset.PInput).IsSane":                   true,
	"github.com/vulpemventures/go-elements/transaction.NewTxInput":                  true,
	"github.com/vulpemventures/go-elements/transaction.NewTxOutput":                 true,
	"(*github.com/vulpemventures/go-elements/transaction.Transaction).AddInput":     true,
	"(*github.com/vulpemventures/go-elements/transaction.Transaction).AddOutput":    true,
	"(*github.com/vulpemventures/go-elements/pset.Updater).AddInput":                true,
	"(*github.com/vulpemventures/go-elements/pset.Updater).AddOutput":               true,
	"(*github.com/vulpemventures/go-elements/pset.Updater).AddInWitnessUtxo":        true,
	"github.com/vulpemventures/go-elements/pset.NewUpdater":                         true,
}

func (pr *Program) policy(fn *ssa.Function) string {
	name := fullName(fn)
	if pureFns[name] {
		return "pure"
	}
	pk := fnPkgPath(fn)
	if pr.isSpecFn(fn) {
		return "inline"
	}
	if strings.HasPrefix(pk, modPath) {
		return "inline"
	}
	if fn.Synthetic != "" && fn.Blocks != nil && (strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "bound") || strings.Contains(fn.Synthetic, "thunk")) {
		return "inline"
	}
	if inlinePkgs[pk] || inlineFns[name] {
		return "inline"
	}
	if purePkgs[pk] {
		return "pure"
	}
	return "havoc"
}

// ---------------------------------------------------------------- loading

func loadProgram(dir string, patterns []string, overlay map[string][]byte) (*packages.Config, []*packages.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Overlay: overlay,
	}
	pk, err := packages.Load(cfg, patterns...)
	return cfg, pk, err
}

func buildProgram(pk []*packages.Package) *Program {
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics|ssa.GlobalDebug&0)
	for _, p := range prog.AllPackages() {
		if builtPkg(p.Pkg.Path()) {
			if strings.HasPrefix(p.Pkg.Path(), modPath) {
				p.SetDebugMode(true) // keeps the names of local variables
			}
			p.Build()
		}
	}
	pr := &Program{ssa: prog, pkgs: map[string]*ssa.Package{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{},
		byTarget: map[*ssa.Function]*Contract{}, byFn: map[*ssa.Function]*Contract{}, divPrecision: 16, written: map[*ssa.Global]bool{}}
	for _, p := range prog.AllPackages() {
		pr.pkgs[p.Pkg.Path()] = p
	}
	if p := pr.pkgs["errors"]; p != nil {
		pr.errorString = types.NewPointer(p.Pkg.Scope().Lookup("errorString").Type())
	}
	if p := pr.pkgs["math/big"]; p != nil {
		pr.bigInt = p.Pkg.Scope().Lookup("Int").Type()
	}
	pr.scanGlobals()
	return pr
}

// localNames: the source names of the values of a function.
func (pr *Program) localNames(fn *ssa.Function) map[ssa.Value]string {
	if m, ok := pr.names[fn]; ok {
		return m
	}
	m := map[ssa.Value]string{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.DebugRef); ok && !d.IsAddr {
				if id, ok := d.Expr.(*ast.Ident); ok {
					if _, has := m[d.X]; !has {
						m[d.X] = id.Name
					}
				}
			}
		}
	}
	if pr.names == nil {
		pr.names = map[*ssa.Function]map[ssa.Value]string{}
	}
	pr.names[fn] = m
	return m
}

func builtPkg(path string) bool {
	return strings.HasPrefix(path, modPath) || inlinePkgs[path] ||
		path == "github.com/vulpemventures/go-elements/transaction" || path == "github.com/vulpemventures/go-elements/pset"
}

// scanGlobals finds the package variables that change after initialisation.
func (pr *Program) scanGlobals() {
	var fns []*ssa.Function
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || fn.Blocks == nil {
			return
		}
		fns = append(fns, fn)
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, p := range pr.pkgs {
		if !builtPkg(p.Pkg.Path()) {
			continue
		}
		for _, m := range p.Members {
			switch x := m.(type) {
			case *ssa.Function:
				visit(x)
			case *ssa.Type:
				if n, ok := types.Unalias(x.Type()).(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						visit(pr.ssa.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	for _, fn := range fns {
		pk := fnPkgPath(fn)
		if !strings.HasPrefix(pk, modPath) && !inlinePkgs[pk] {
			continue
		}
		isInit := fn.Name() == "init" && fn.Parent() == nil && fn.Signature.Recv() == nil
		isInitN := strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g := rootGlobal(x.Addr); g != nil {
						if g.Pkg.Pkg.Path() == "github.com/shopspring/decimal" && g.Name() == "DivisionPrecision" {
							if c, ok := x.Val.(*ssa.Const); ok && c.Value != nil {
								if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
									pr.divPrecision = v
								}
							}
						}
						if !isInit {
							pr.written[g] = true
						}
						_ = isInitN
					}
				case *ssa.MapUpdate:
					if !isInit {
						if g := rootGlobal(x.Map); g != nil {
							pr.written[g] = true
						}
					}
				}
			}
		}
	}
}

// rootGlobal follows address computations and loads back to a package variable.
func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
}

// ---------------------------------------------------------------- engine construction

func NewEng(pr *Program, hardMs int) *Eng {
	p := NewPool()
	e := &Eng{
		p: p, prog: pr, leafC: map[string][]Leaf{}, boxes: map[int]boxed{}, tagIDs: map[string]int{}, tagType: map[int]types.Type{},
		funcByRef: map[int]*FuncV{}, interiorTab: map[string]*Term{}, interiorPtr: map[int]*PtrV{}, initHeap: map[string]*Term{},
		initDone: map[*ssa.Package]bool{}, globalOK: map[*ssa.Global]bool{}, obls: map[string]*Obl{}, inlined: map[string]bool{},
		havocked: map[string]bool{}, modelled: map[string]bool{}, usedCt: map[string]bool{}, abstracted: map[string]bool{},
		recDepth: map[string]int{}, loopsSeen: map[string]int{}, termKeys: map[string]bool{}, pbVals: map[string]types.Type{},
		encoded: map[int]Value{}, memo: map[string]Value{}, globalDone: map[*ssa.Global]bool{}, initNext: initBase,
	}
	e.sv = NewSolver(p, hardMs)
	return e
}

// needInit computes the initial content of a package variable by executing the
// part of its package's initialiser that defines it.
func (e *Eng) needInit(g *ssa.Global) {
	if e.globalDone[g] {
		return
	}
	e.globalDone[g] = true
	if e.prog.written[g] {
		e.abstracted["package variable "+g.Pkg.Pkg.Path()+"."+g.Name()+" changes at run time: arbitrary value"] = true
		return
	}
	init := g.Pkg.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	need := map[ssa.Instruction]bool{}
	var vals []ssa.Value
	seenV := map[ssa.Value]bool{}
	var addInstr func(in ssa.Instruction)
	addVal := func(v ssa.Value) {
		if !seenV[v] {
			seenV[v] = true
			vals = append(vals, v)
		}
	}
	addInstr = func(in ssa.Instruction) {
		if need[in] {
			return
		}
		need[in] = true
		var ops [10]*ssa.Value
		for _, o := range in.Operands(ops[:0]) {
			if *o != nil {
				addVal(*o)
			}
		}
		if v, ok := in.(ssa.Value); ok {
			addVal(v)
		}
	}
	found := false
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && rootGlobalDirect(s.Addr) == g {
				addInstr(in)
				found = true
			}
			if s, ok := in.(*ssa.MapUpdate); ok && rootGlobal(s.Map) == g {
				addInstr(in)
			}
		}
	}
	if !found {
		// zero value: globals without initialiser
		e.zeroGlobal(g)
		return
	}
	for i := 0; i < len(vals); i++ {
		v := vals[i]
		if in, ok := v.(ssa.Instruction); ok && in.Parent() == init {
			addInstr(in)
			switch v.(type) {
			case *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Slice:
				for _, r := range *v.Referrers() {
					switch x := r.(type) {
					case *ssa.Store:
						if x.Addr == v {
							addInstr(x)
						}
					case *ssa.MapUpdate:
						if x.Map == v {
							addInstr(x)
						}
					case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
						addVal(x.(ssa.Value))
					}
				}
			}
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok {
					e.abstracted[fmt.Sprintf("initial value of %s.%s unknown (%s)", g.Pkg.Pkg.Path(), g.Name(), u.Msg)] = true
					return
				}
				panic(r)
			}
		}()
		rec, pd, is := e.record, e.pureDepth, e.inSpec
		e.record = false
		e.inSpec++
		defer func() { e.record, e.pureDepth, e.inSpec = rec, pd, is }()
		st := e.newState()
		st.heap = e.initHeap
		st.nalloc = e.initNext
		f := e.newFrame(init, nil, nil)
		f.spec = true
		st.frames = []*Frame{f}
		e.zeroGlobalIn(st, g)
		blocks := init.DomPreorder()
		for _, b := range blocks {
			for pc, in := range b.Instrs {
				if !need[in] {
					continue
				}
				if _, isIf := in.(*ssa.If); isIf {
					unsupported("branch in initialiser")
				}
				if _, isPhi := in.(*ssa.Phi); isPhi {
					unsupported("phi in initialiser")
				}
				f.block, f.pc = b, pc
				more := e.step(st)
				for len(st.frames) > 1 && st.status == "" && len(more) == 0 {
					more = e.step(st)
				}
				if len(more) > 0 || st.status != "" {
					unsupported("initialiser forks")
				}
			}
		}
		e.initHeap = st.heap
		e.initNext = st.nalloc
		e.globalOK[g] = true
	}()
}

func rootGlobalDirect(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func (e *Eng) zeroGlobal(g *ssa.Global) {
	st := e.newState()
	st.heap = e.initHeap
	e.zeroGlobalIn(st, g)
	e.initHeap = st.heap
	e.globalOK[g] = true
}
func (e *Eng) zeroGlobalIn(st *State, g *ssa.Global) {
	el := g.Type().Underlying().(*types.Pointer).Elem()
	if e.hasOpaque(el) {
		return
	}
	e.inSpec++
	defer func() { e.inSpec-- }()
	e.store(st, &PtrV{Elem: el, Root: "G:" + g.Pkg.Pkg.Path() + "." + g.Name(), Ref: e.p.Int(1)}, e.zero(el))
}
func (e *Eng) hasOpaque(t types.Type) bool { return false }

func (e *Eng) newState() *State {
	return &State{heap: map[string]*Term{}, pcSet: map[int]bool{}, mapK: map[int][]Value{}, nalloc: allocBase}
}
