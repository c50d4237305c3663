package main

import (
	"sync"
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values

type Value interface{}

type Tup struct{ elems []Value } // struct or tuple

type Clo struct { // function value known statically
	fn    *ssa.Function
	binds []Value
}

// LV is a pointer to a scalar: heap[loc] or heap[loc][idx]
type LV struct {
	heap string
	loc  *Term
	idx  *Term
	typ  types.Type
}

type IterV struct { // map iterator
	m      *Term
	mt     *types.Map
	it     *Term
	itpos  *Term
	pos    *Term // ITER cell location
	n      *Term
	dom0   *Term
	strIdx bool
	str    *Term
}

// ---- type helpers

func under(t types.Type) types.Type { return t.Underlying() }

func typeKey(t types.Type) string {
	if b, ok := t.(*types.Basic); ok {
		return types.Typ[b.Kind()].Name() // byte is uint8, rune is int32
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func isScalar(t types.Type) bool {
	switch under(t).(type) {
	case *types.Struct, *types.Array, *types.Tuple:
		return false
	}
	return true
}

func sortOf(t types.Type) *Sort {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Kind() == types.UnsafePointer:
			return SLoc
		case u.Kind() == types.UntypedNil:
			return SLoc
		}
		return SOpq
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SLoc
	case *types.Slice:
		return SSlice
	case *types.Interface:
		return SIface
	case *types.Array:
		return SArr(SInt, sortOf(u.Elem()))
	case *types.Struct:
		if u.NumFields() == 0 {
			return SInt
		}
	}
	if t == nil {
		return SOpq
	}
	unsupported("sort of %s", t)
	return nil
}

func intRange(t types.Type) (lo, hi *big.Int) {
	b, ok := under(t).(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil, nil
	}
	switch b.Kind() {
	case types.Uint8:
		return big0(0), big0(255)
	case types.Uint16:
		return big0(0), big0(65535)
	case types.Uint32:
		return big0(0), big0(1<<32 - 1)
	case types.Uint64, types.Uint, types.Uintptr:
		return big0(0), new(big.Int).Sub(pow2(64), big0(1))
	case types.Int8:
		return big0(-128), big0(127)
	case types.Int16:
		return big0(-32768), big0(32767)
	case types.Int32:
		return big0(-1 << 31), big0(1<<31 - 1)
	case types.Int64, types.Int:
		return new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), big0(1))
	}
	return nil, nil
}

func bits(t types.Type) (n int, signed bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int64, types.Int:
		return 64, true
	}
	return 0, true
}

type unsup struct{ msg string }

func unsupported(f string, a ...interface{}) { panic(unsup{fmt.Sprintf(f, a...)}) }

// ---- heaps

type heapInfo struct {
	name   string
	sort   *Sort
	lo, hi *big.Int // range of the leaf integers
	ref    bool     // leaf is a reference-like value
	typ    types.Type
}

var heapTab = map[string]*heapInfo{}

func leafInfo(name string, sort *Sort, t types.Type) string {
	if _, ok := heapTab[name]; !ok {
		h := &heapInfo{name: name, sort: sort, typ: t}
		if t != nil {
			h.lo, h.hi = intRange(t)
			s := sortOf(t)
			h.ref = s == SLoc || s == SSlice || s == SIface
		}
		heapTab[name] = h
	}
	return name
}

func fieldHeap(st types.Type, i int) string {
	f := under(st).(*types.Struct).Field(i)
	return leafInfo("F:"+typeKey(st)+"."+f.Name(), SArr(SLoc, sortOf(f.Type())), f.Type())
}
func cellHeap(t types.Type) string {
	return leafInfo("C:"+typeKey(t), SArr(SLoc, sortOf(t)), t)
}
func elemHeap(t types.Type) string {
	// element heaps are shared by types of the same representation only when the types are identical
	return leafInfo("E:"+elemKey(t), SArr(SLoc, SArr(SInt, sortOf(t))), t)
}
func elemKey(t types.Type) string { return typeKey(t) }

func mapHeaps(m *types.Map) (dom, val, ln string) {
	k := typeKey(m.Key())
	key := "M:" + k + "->" + typeKey(m.Elem())
	ks := sortOf(m.Key())
	dom = leafInfo(key+".dom", SArr(SLoc, SArr(ks, SBool)), nil)
	val = leafInfo(key+".val", SArr(SLoc, SArr(ks, sortOf(m.Elem()))), m.Elem())
	ln = key + ".len"
	if _, ok := heapTab[ln]; !ok {
		heapTab[ln] = &heapInfo{name: ln, sort: SArr(SLoc, SInt), lo: big0(0), hi: pow2(40)}
	}
	return
}

var ifaceKeyed = map[string]bool{}

func ghostHeap(name string, key *Sort, v *Sort, lo, hi *big.Int) string {
	if _, ok := heapTab[name]; !ok {
		heapTab[name] = &heapInfo{name: name, sort: SArr(key, v), lo: lo, hi: hi}
	}
	return name
}

var fieldIds = map[string]int64{}

func fieldID(k int64, name string) int64 {
	key := fmt.Sprintf("%d/%s", k, name)
	if v, ok := fieldIds[key]; ok {
		return v
	}
	v := int64(len(fieldIds) + 1)
	fieldIds[key] = v
	return v
}

func init() { declFun("fkc", SInt, SInt, SInt) }

func fld(loc *Term, st types.Type, i int) *Term {
	name := typeKey(st) + "." + under(st).(*types.Struct).Field(i).Name()
	k := Sel("lfk", loc)
	var nk *Term
	if k.isConst() {
		nk = I(fieldID(k.int64(), name))
	} else {
		nk = App("fkc", k, I(fieldID(-1, name)))
	}
	return MkLoc(Rid(loc), Sel("lidx", loc), nk)
}

func elemLoc(base, idx *Term) *Term {
	return MkLoc(Rid(base), Add(Sel("lidx", base), idx), Sel("lfk", base))
}

// ---- type tags of dynamic interface values

var tags = map[string]int64{}
var tagTypes = map[int64]types.Type{}

func tagOf(t types.Type) *Term {
	k := types.TypeString(t, nil)
	v, ok := tags[k]
	if !ok {
		v = int64(len(tags) + 1)
		tags[k] = v
		tagTypes[v] = t
	}
	return I(v)
}

// ---- path state

type PC struct {
	prev   *PC
	t      *Term
	branch bool
	n      int
}

type Write struct {
	prev *Write
	heap string
	loc  *Term // nil: anything
	n    int
}

type NameRef struct {
	v    Value
	addr bool
	typ  types.Type
}

type LoopAct struct {
	header  *ssa.BasicBlock
	blocks  map[*ssa.BasicBlock]bool
	scope   string
	alloc0  *Term
	entry   *State // state at entry, phis hold their initial values
	iter    *Term
	onBack  func(st *State)
	body    bool // stop at exits
	wmark   *Write
	head    *State
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Value
	binds  []Value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	loops  []*LoopAct
	names  map[string]NameRef
	ret    func(st *State, res []Value) // called when the frame has been popped
	entry  *State                        // state at function entry (for old), set for the verified function
	alloc0 *Term
	args   []Value
	ghosts map[string]SV
	con    *Contract
}

type State struct {
	frames []*Frame
	heaps  map[string]*Term
	pc     *PC
	known  map[*Term]bool
	alloc  *Term
	scope  string
	cnt    int
	writes *Write
	trace  []string
	ghost  map[string]Value
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{pc: st.pc, alloc: st.alloc, scope: st.scope, cnt: st.cnt, writes: st.writes, trace: st.trace[:len(st.trace):len(st.trace)]}
	n.heaps = make(map[string]*Term, len(st.heaps)+4)
	for k, v := range st.heaps {
		n.heaps[k] = v
	}
	n.known = make(map[*Term]bool, len(st.known)+8)
	for k, v := range st.known {
		n.known[k] = v
	}
	n.ghost = make(map[string]Value, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.regs = make(map[ssa.Value]Value, len(f.regs)+8)
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.names = make(map[string]NameRef, len(f.names)+2)
		for k, v := range f.names {
			g.names[k] = v
		}
		g.loops = append([]*LoopAct{}, f.loops...)
		n.frames[i] = &g
	}
	return n
}

func (st *State) assume(t *Term) { st.add(t, false) }
func (st *State) add(t *Term, branch bool) {
	if t == TTrue || st.known[t] {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			st.add(a, branch)
		}
		return
	}
	st.known[t] = true
	n := 1
	if st.pc != nil {
		n = st.pc.n + 1
	}
	st.pc = &PC{prev: st.pc, t: t, branch: branch, n: n}
}

func (st *State) pcs() []*Term {
	var out []*Term
	for p := st.pc; p != nil; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---- heap access

func (st *State) H(name string) *Term {
	if h, ok := st.heaps[name]; ok {
		return h
	}
	return initialHeap(name)
}

var allocBase = I(1000000)

func initialHeap(name string) *Term {
	hi := heapTab[name]
	if hi == nil {
		panic("unknown heap " + name)
	}
	return heapSym("H0:"+name, hi, allocBase)
}

func heapSym(sym string, hi *heapInfo, rb *Term) *Term {
	var r *Term
	if hi.ref {
		r = rb
	}
	var lo, h *big.Int
	if leafSort(hi.sort) == SInt {
		lo, h = hi.lo, hi.hi
		if lo == nil || h == nil {
			lo, h = nil, nil
		}
	}
	return SymArr(sym, hi.sort, lo, h, r)
}

func leafSort(s *Sort) *Sort {
	for s.isArr() {
		s = s.v
	}
	return s
}

func (st *State) setHeap(name string, loc *Term, v *Term) {
	st.heaps[name] = Store(st.H(name), loc, v)
	st.noteWrite(name, loc)
}

func (st *State) noteWrite(name string, loc *Term) {
	n := 1
	if st.writes != nil {
		n = st.writes.n + 1
	}
	st.writes = &Write{prev: st.writes, heap: name, loc: loc, n: n}
}

func (st *State) fresh(hint string) string {
	st.cnt++
	return fmt.Sprintf("%s%s.%d", st.scope, hint, st.cnt)
}

func (st *State) freshInt(hint string, lo, hi *big.Int) *Term { return SymR(st.fresh(hint), lo, hi) }
func (st *State) freshBool(hint string) *Term                 { return Sym(st.fresh(hint), SBool) }

// freshOf makes an unconstrained term of a heap's value sort.
func (st *State) freshOf(hint string, s *Sort, hi *heapInfo) *Term {
	if s.isArr() {
		var r *Term
		if hi != nil && hi.ref {
			r = st.alloc
		}
		var lo, h *big.Int
		if hi != nil && leafSort(s) == SInt {
			lo, h = hi.lo, hi.hi
		}
		return SymArr(st.fresh(hint), s, lo, h, r)
	}
	if s == SInt && hi != nil {
		return SymR(st.fresh(hint), hi.lo, hi.hi)
	}
	if s == SLoc || s == SSlice || s == SIface {
		t := SymRef(st.fresh(hint), s, st.alloc)
		st.refFacts(t)
		return t
	}
	return Sym(st.fresh(hint), s)
}

// refFacts: a reference that exists now was allocated before now.
func (st *State) refFacts(t *Term) {
	if t.bound {
		return
	}
	switch t.sort {
	case SLoc:
		if t.op != OCtor && t.op != OIte {
			st.assume(Lt(Rid(t), st.alloc))
		}
	case SSlice:
		if t.op != OCtor && t.op != OIte {
			st.assume(Lt(Rid(SBase(t)), st.alloc))
		}
	case SIface:
		if t.op != OCtor && t.op != OIte {
			st.assume(Implies(MkTest("iloc", t), Lt(Rid(Sel("lval", t)), st.alloc)))
		}
	}
	if t.op == OIte {
		st.refFacts(t.args[1])
		st.refFacts(t.args[2])
	}
}

// newRoot allocates an object.
func (st *State) newRoot() *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, One)
	return MkLoc(r, Zero, Zero)
}

// freshValue is an arbitrary value of a type.
func (st *State) freshValue(t types.Type, hint string) Value {
	switch u := under(t).(type) {
	case *types.Struct:
		tp := &Tup{}
		for i := 0; i < u.NumFields(); i++ {
			tp.elems = append(tp.elems, st.freshValue(u.Field(i).Type(), hint+"."+u.Field(i).Name()))
		}
		return tp
	case *types.Array:
		lo, hi := intRange(u.Elem())
		return SymArr(st.fresh(hint), sortOf(t), lo, hi, nil)
	case *types.Tuple:
		tp := &Tup{}
		for i := 0; i < u.Len(); i++ {
			tp.elems = append(tp.elems, st.freshValue(u.At(i).Type(), hint))
		}
		return tp
	}
	s := sortOf(t)
	lo, hi := intRange(t)
	if s == SInt {
		return SymR(st.fresh(hint), lo, hi)
	}
	if s == SLoc || s == SSlice || s == SIface {
		x := SymRef(st.fresh(hint), s, st.alloc)
		st.refFacts(x)
		if s == SSlice {
			if _, ok := under(under(t).(*types.Slice).Elem()).(*types.Struct); ok {
				st.assume(Eq(Sel("lidx", SBase(x)), Zero))
			}
		}
		if s == SLoc {
			if p, ok := under(t).(*types.Pointer); ok && !isScalar(p.Elem()) {
				_ = p
			}
		}
		if s == SIface {
			st.ifaceFacts(x, t)
		}
		return x
	}
	return Sym(st.fresh(hint), s)
}

// ifaceFacts restricts a value of a sealed interface to its implementations.
func (st *State) ifaceFacts(x *Term, t types.Type) {
	if f := sealedFact(x, t); f != nil {
		sealedOf[f] = &sealedRec{x, sealedImpls(t)}
		st.assume(f)
	}
}

func zeroValue(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Struct:
		tp := &Tup{}
		for i := 0; i < u.NumFields(); i++ {
			tp.elems = append(tp.elems, zeroValue(u.Field(i).Type()))
		}
		return tp
	case *types.Array:
		z := zeroValue(u.Elem())
		zt, ok := z.(*Term)
		if !ok {
			unsupported("array of structs")
		}
		return ConstArr(sortOf(t), zt)
	}
	return zeroTerm(sortOf(t))
}

func zeroTerm(s *Sort) *Term {
	switch s {
	case SInt:
		return Zero
	case SBool:
		return TFalse
	case SStr:
		return StrConst("")
	case SLoc:
		return NilLoc
	case SSlice:
		return NilSlice
	case SIface:
		return INil
	}
	if s.isArr() {
		return ConstArr(s, zeroTerm(s.v))
	}
	return Sym("opq0", SOpq)
}

// ---- strings

var strConsts = map[string]string{} // symbol name -> contents

func init() {
	declFun("str.len", SInt, SStr)
	funcs["str.len"].lo = big0(0)
	funcs["str.len"].hi = pow2(47)
	declFun("str.at", SInt, SStr, SInt)
	funcs["str.at"].lo = big0(0)
	funcs["str.at"].hi = big0(255)
	declFun("str.lt", SBool, SStr, SStr)
	funcs["str.lt"].axioms = func() []*Term {
		a, b, c := Bound("sa", SStr), Bound("sb", SStr), Bound("sc", SStr)
		lt := func(x, y *Term) *Term { return intern(&Term{op: OApp, sort: SBool, name: "str.lt", args: []*Term{x, y}}) }
		return []*Term{
			Forall([]*Term{a}, Not(lt(a, a)), []*Term{lt(a, a)}),
			Forall([]*Term{a, b, c}, Implies(And(lt(a, b), lt(b, c)), lt(a, c)), []*Term{lt(a, b), lt(b, c)}),
			Forall([]*Term{a, b}, Or(lt(a, b), lt(b, a), Eq(a, b)), []*Term{lt(a, b)}),
		}
	}
	appSimp["str.lt"] = func(a []*Term) *Term {
		if a[0] == a[1] {
			return TFalse
		}
		x, ok1 := strConsts[a[0].name]
		y, ok2 := strConsts[a[1].name]
		if ok1 && ok2 && a[0].op == OSym && a[1].op == OSym {
			return B(x < y)
		}
		return nil
	}
	appSimp["str.len"] = func(a []*Term) *Term {
		if x, ok := strConsts[a[0].name]; ok && a[0].op == OSym {
			return I(int64(len(x)))
		}
		return nil
	}
	appSimp["str.at"] = func(a []*Term) *Term {
		if x, ok := strConsts[a[0].name]; ok && a[0].op == OSym && a[1].isConst() && a[1].val.IsInt64() {
			i := a[1].int64()
			if i >= 0 && i < int64(len(x)) {
				return I(int64(x[i]))
			}
		}
		if a[0].op == OApp && a[0].name == "str.of" { // string(bytes)
			return Select(a[0].args[0], Add(a[0].args[1], a[1]))
		}
		return nil
	}
	// string made of the bytes arr[off..off+n)
	declFun("str.of", SStr, SArr(SInt, SInt), SInt, SInt)
	funcs["str.of"].inst = func(t *Term) []*Term {
		return []*Term{Eq(intern(&Term{op: OApp, sort: SInt, name: "str.len", args: []*Term{t}}), t.args[2])}
	}
	old := appSimp["str.len"]
	appSimp["str.len"] = func(a []*Term) *Term {
		if a[0].op == OApp && a[0].name == "str.of" {
			return a[0].args[2]
		}
		return old(a)
	}
}

func StrConst(s string) *Term {
	n := "str!" + s
	if len(s) > 30 || strings.ContainsAny(s, "|\\\n\x00\"") {
		n = fmt.Sprintf("str!x%x", s)
	}
	strConsts[n] = s
	return Sym(n, SStr)
}

func strConstAxioms(t *Term) []*Term {
	s := strConsts[t.name]
	ax := []*Term{Eq(intern(&Term{op: OApp, sort: SInt, name: "str.len", args: []*Term{t}, lo: funcs["str.len"].lo, hi: funcs["str.len"].hi}), I(int64(len(s))))}
	// different texts are different
	if funcs["str.code"] == nil {
		declFun("str.code", SInt, SStr)
	}
	codeMu.Lock()
	c, ok := strCodes[t.name]
	if !ok {
		c = int64(len(strCodes))
		strCodes[t.name] = c
	}
	codeMu.Unlock()
	return append(ax, Eq(App("str.code", t), I(c)))
}

var (
	codeMu   sync.Mutex
	strCodes = map[string]int64{}
)

// strEq expands the comparison of a byte-string with a constant.
func strEq(a, b *Term) *Term {
	if _, ok := strConsts[a.name]; ok && a.op == OSym {
		a, b = b, a
	}
	if s, ok := strConsts[b.name]; ok && b.op == OSym {
		if a.op == OApp && a.name == "str.of" || len(s) == 0 {
			cs := []*Term{Eq(App("str.len", a), I(int64(len(s))))}
			for i := range s {
				cs = append(cs, Eq(App("str.at", a, I(int64(i))), I(int64(s[i]))))
			}
			if len(s) == 0 {
				// the empty string is unique
				return And(cs...)
			}
			return And(cs...)
		}
	}
	return Eq(a, b)
}

// ---- meta registry: terms standing for values without a first-order encoding

var meta = map[*Term]Value{}

func (ex *Exec) asTerm(st *State, v Value, t types.Type) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *LV:
		if x.idx == nil && strings.HasPrefix(x.heap, "C:") {
			return x.loc
		}
		s := Sym(st.fresh("lv"), SLoc)
		st.assume(Ne(Rid(s), Zero))
		meta[s] = x
		return s
	case *Clo:
		s := Sym("fn!"+x.fn.String()+fmt.Sprint(len(x.binds))+"_"+st.fresh("c"), SLoc)
		if len(x.binds) == 0 {
			s = Sym("fn!"+x.fn.String(), SLoc)
		}
		st.assume(Ne(Rid(s), Zero))
		meta[s] = x
		return s
	case *Tup:
		if len(x.elems) == 0 {
			return Zero
		}
		unsupported("struct value used as a scalar (%s)", t)
	}
	unsupported("value %T as term", v)
	return nil
}

// ---- loads and stores

func derefType(t types.Type) types.Type {
	return under(t).(*types.Pointer).Elem()
}

func (ex *Exec) lvOf(st *State, p Value, t types.Type) *LV {
	switch x := p.(type) {
	case *LV:
		return x
	case *Term:
		if m, ok := meta[x]; ok {
			if lv, ok := m.(*LV); ok {
				return lv
			}
		}
		return &LV{heap: cellHeap(t), loc: x, typ: t}
	}
	unsupported("pointer value %T", p)
	return nil
}

func (st *State) readLV(lv *LV) *Term {
	r := Select(st.H(lv.heap), lv.loc)
	if lv.idx != nil {
		r = Select(r, lv.idx)
	}
	st.refFacts(r)
	return r
}

func (st *State) writeLV(lv *LV, v *Term) {
	if lv.idx != nil {
		a := Select(st.H(lv.heap), lv.loc)
		st.setHeap(lv.heap, lv.loc, Store(a, lv.idx, v))
		return
	}
	st.setHeap(lv.heap, lv.loc, v)
}

// fieldPtr is the address of field i of the struct at loc.
func fieldPtr(loc *Term, st types.Type, i int) Value {
	ft := under(st).(*types.Struct).Field(i).Type()
	if isScalar(ft) {
		return &LV{heap: fieldHeap(st, i), loc: loc, typ: ft}
	}
	return fld(loc, st, i)
}

func (ex *Exec) load(st *State, p Value, t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Struct:
		loc := p.(*Term)
		tp := &Tup{}
		for i := 0; i < u.NumFields(); i++ {
			tp.elems = append(tp.elems, ex.load(st, fieldPtr(loc, t, i), u.Field(i).Type()))
		}
		return tp
	case *types.Array:
		loc := p.(*Term)
		if !isScalar(u.Elem()) {
			unsupported("array of structs")
		}
		return Select(st.H(elemHeap(u.Elem())), loc)
	}
	lv := ex.lvOf(st, p, t)
	r := st.readLV(lv)
	if m, ok := meta[r]; ok {
		if c, ok := m.(*Clo); ok {
			return c
		}
		if l, ok := m.(*LV); ok {
			return l
		}
	}
	if r.sort == SIface && !r.bound {
		st.ifaceFacts(r, t)
	}
	return r
}

func (ex *Exec) store(st *State, p Value, t types.Type, v Value) {
	switch u := under(t).(type) {
	case *types.Struct:
		loc := p.(*Term)
		if isStreamType(t) {
			key := Ctor("iloc", tagOf(types.NewPointer(t)), loc)
			st.setHeap(streamHeap("wlen"), key, Zero)
			st.setHeap(streamHeap("wdata"), key, byteArrZero())
			st.setHeap(streamHeap("werr"), key, TFalse)
			return
		}
		tp := v.(*Tup)
		for i := 0; i < u.NumFields(); i++ {
			ex.store(st, fieldPtr(loc, t, i), u.Field(i).Type(), tp.elems[i])
		}
		return
	case *types.Array:
		st.setHeap(elemHeap(u.Elem()), p.(*Term), v.(*Term))
		return
	}
	lv := ex.lvOf(st, p, t)
	st.writeLV(lv, ex.asTerm(st, v, t))
}

// initObject zeroes a fresh object of type t at loc (n elements for slices of structs are done lazily).
func (ex *Exec) initObject(st *State, loc *Term, t types.Type) {
	ex.store(st, ptrFor(loc, t), t, zeroValue(t))
}

func ptrFor(loc *Term, t types.Type) Value {
	if isScalar(t) {
		return &LV{heap: cellHeap(t), loc: loc, typ: t}
	}
	return loc
}

// leafHeapsOf lists (heap, field path) of every scalar leaf of a struct type, for element objects.
type leaf struct {
	heap string
	path []pathStep
	typ  types.Type
	arr  bool // heap is an element heap (array field)
	n    int64
}
type pathStep struct {
	st types.Type
	i  int
}

func leavesOf(t types.Type) []leaf {
	var out []leaf
	var rec func(t types.Type, path []pathStep)
	rec = func(t types.Type, path []pathStep) {
		u := under(t).(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			np := append(append([]pathStep{}, path...), pathStep{t, i})
			switch w := under(ft).(type) {
			case *types.Struct:
				rec(ft, np)
			case *types.Array:
				out = append(out, leaf{heap: elemHeap(w.Elem()), path: np, typ: ft, arr: true, n: w.Len()})
			default:
				out = append(out, leaf{heap: fieldHeap(t, i), path: np, typ: ft})
			}
		}
	}
	rec(t, nil)
	return out
}

// locOf is the heap key of a leaf inside the struct at loc.
func (l leaf) locOf(loc *Term) *Term {
	n := len(l.path)
	if !l.arr {
		n--
	}
	for _, s := range l.path[:n] {
		loc = fld(loc, s.st, s.i)
	}
	return loc
}

func (l leaf) name() string {
	var p []string
	for _, s := range l.path {
		p = append(p, under(s.st).(*types.Struct).Field(s.i).Name())
	}
	return strings.Join(p, ".")
}

// ---- sealed interfaces: values come from the implementations declared in the analysed packages

var sealedCache = map[string][]types.Type{}

func sealedImpls(t types.Type) []types.Type {
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	it, ok := under(t).(*types.Interface)
	if !ok || n.Obj().Pkg() == nil || !repoPkg(n.Obj().Pkg()) {
		return nil
	}
	sealed := false
	for i := 0; i < it.NumMethods(); i++ {
		if !token.IsExported(it.Method(i).Name()) {
			sealed = true
		}
	}
	if !sealed {
		return nil
	}
	k := typeKey(t)
	if r, ok := sealedCache[k]; ok {
		return r
	}
	var out []types.Type
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		tn, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		ct := tn.Type()
		if _, isI := under(ct).(*types.Interface); isI {
			continue
		}
		if types.Implements(ct, it) {
			out = append(out, ct)
		} else if types.Implements(types.NewPointer(ct), it) {
			out = append(out, types.NewPointer(ct))
		}
	}
	sort.Slice(out, func(i, j int) bool { return typeKey(out[i]) < typeKey(out[j]) })
	sealedCache[k] = out
	return out
}

func sealedFact(x *Term, t types.Type) *Term {
	im := sealedImpls(t)
	if im == nil {
		return nil
	}
	cs := []*Term{MkTest("inil", x)}
	for _, ct := range im {
		cs = append(cs, ifaceIs(x, ct))
	}
	return Or(cs...)
}

// ifaceIs: the dynamic type of x is ct (including representation facts).
func ifaceIs(x *Term, ct types.Type) *Term {
	tag := tagOf(ct)
	switch u := under(ct).(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			lo, hi := intRange(ct)
			v := Sel("ival", x)
			return And(MkTest("iint", x), Eq(Sel("itag", x), tag), Le(BI(lo), v), Le(v, BI(hi)))
		}
		if u.Info()&types.IsString != 0 {
			return And(MkTest("istr", x), Eq(Sel("stag", x), tag))
		}
	case *types.Pointer, *types.Map:
		return And(MkTest("iloc", x), Eq(Sel("ltag", x), tag))
	}
	return And(MkTest("iopq", x), Eq(Sel("otag", x), tag))
}
