package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	fn     string
	name   string
	kind   string // safety, ensures, requires, invariant, frame, model, variant
	pos    string
	assume []*Term
	goal   *Term
	trace  []string
	res    ProveResult
	text   string
	parts  []string
	quant  bool
}

type Exec struct {
	prog          *Program
	obls          []*Obligation
	oblSeen       map[string]bool
	outer         []*loopMemo // loops under analysis
	weak          bool        // a written invariant was dropped before the full effort
	silent        int         // >0: obligations are not recorded
	work          []*State
	target        *ssa.Function
	con           *Contract
	inlineDepth   int
	usedContracts map[string]*Contract
	inlined       map[string]bool
	models        map[string]int
	trusted       map[string]bool
	verbose       bool
	nstates       int
	reach         []*State // states that reached a return of the target
	loopCache     map[string][]bool
	noprune       bool
	stepLimit     int
	invDropped    map[string]bool
	loopsCut      int
	specs         *Specs
	bcnt          int
	depth         int
	frameObl      bool
	seekIsWrite   bool
	prop          string
	fails         []string
	stReach       int
	returns       bool
}

func posOf(ex *Exec, i ssa.Instruction) string {
	p := i.Pos()
	if !p.IsValid() {
		return ""
	}
	ps := ex.prog.fset.Position(p)
	return strings.TrimPrefix(ps.Filename, "/repo/") + fmt.Sprintf(":%d", ps.Line)
}

func fnName(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/tc-hib/", "")
	return s
}

// check records an obligation and then assumes it.
func (ex *Exec) check(st *State, goal *Term, kind, name, pos string) {
	if goal == TTrue {
		if kind == "ensures" && ex.silent == 0 && !ex.oblSeen["trivial:"+name] {
			// decided by the simplifier alone; counted once
			ex.oblSeen["trivial:"+name] = true
			ex.obls = append(ex.obls, &Obligation{fn: fnName(ex.target), name: name, kind: kind, pos: pos, goal: goal, res: ProveResult{status: "proved", by: "simplifier"}})
		}
		return
	}
	if st.known[goal] {
		return
	}
	if kind == "safety" && ex.con != nil && ex.con.nosafety {
		ex.note("panic freedom of " + ex.con.name + " is assumed in this proof (decided under C06/C07/C08 where it is an input-facing function)")
		st.assume(goal)
		return
	}
	if ex.silent == 0 {
		o := &Obligation{fn: fnName(ex.target), name: name, kind: kind, pos: pos, goal: goal, assume: st.pcs(), trace: st.trace}
		ex.addObl(o)
	}
	st.assume(goal)
}

// touch is a trivially satisfied fact about t: what instantiates other quantifiers at t still does after a
// goal is split into parts, not all of which mention t.
func touch(t *Term) *Term {
	n := "touch " + t.sort.name
	declFun(n, SBool, t.sort)
	return App(n, t)
}

func (t *Term) isAtomForTouch() bool { return t.op != OOr && t.op != OAnd && t.op != OIte }

func (ex *Exec) addObl(o *Obligation) {
	// split conjunctions and skolemise
	var rec func(assume []*Term, g *Term, hinted bool)
	rec = func(assume []*Term, g *Term, hinted bool) {
		switch g.op {
		case OTrue:
			return
		case OAnd:
			for _, a := range g.args {
				rec(assume, a, false)
			}
			return
		case OForall:
			m := map[*Term]*Term{}
			for _, v := range g.vars {
				sk := v.name + "$"
				var s *Term
				if v.sort == SInt {
					s = SymR(sk, v.lo, v.hi)
				} else {
					s = Sym(sk, v.sort)
				}
				for conflict := true; conflict; {
					conflict = false
					for _, x := range m {
						if x == s {
							sk += "$"
							if v.sort == SInt {
								s = SymR(sk, v.lo, v.hi)
							} else {
								s = Sym(sk, v.sort)
							}
							conflict = true
						}
					}
				}
				m[v] = s
			}
			as := assume
			if !g.args[0].isAtomForTouch() {
				as = append([]*Term{}, assume...)
				for _, p := range g.pats {
					for _, t := range p {
						as = append(as, touch(subst(t, m)))
					}
				}
			}
			rec(as, subst(g.args[0], m), false)
			return
		case OExists:
			if ws := witnesses(g); !hinted && len(ws) > 0 {
				rec(assume, Or(append([]*Term{g}, ws...)...), true)
				return
			}
		case OIte:
			rec(append(append([]*Term{}, assume...), g.args[0]), g.args[1], false)
			rec(append(append([]*Term{}, assume...), Not(g.args[0])), g.args[2], false)
			return
		case OOr:
			if !hinted {
				var ws []*Term
				for _, a := range g.args {
					if a.op == OExists {
						ws = append(ws, witnesses(a)...)
					}
				}
				if len(ws) > 0 {
					rec(assume, Or(append(ws, g.args...)...), true)
					return
				}
			}
			// a disjunction with one quantified or conjunctive member: assume the negation of the others
			var q *Term
			nq, na := 0, 0
			for _, a := range g.args {
				switch a.op {
				case OForall:
					q = a
					nq++
				case OAnd:
					if nq == 0 {
						q = a
					}
					na++
				}
			}
			if nq > 1 || nq == 0 && na > 1 {
				q = nil
			}
			if q != nil {
				as := append([]*Term{}, assume...)
				for _, a := range g.args {
					if a != q {
						as = append(as, Not(a))
					}
				}
				rec(as, q, false)
				return
			}
		}
		var k strings.Builder
		fmt.Fprintf(&k, "%d|", g.id)
		for _, a := range assume {
			fmt.Fprintf(&k, "%d,", a.id)
		}
		if ex.oblSeen[k.String()] {
			return
		}
		ex.oblSeen[k.String()] = true
		n := *o
		n.assume = assume
		n.goal = g
		ex.obls = append(ex.obls, &n)
	}
	rec(o.assume, o.goal, false)
}

// witnesses: the instances of an existential goal that its own equations suggest.
func witnesses(g *Term) []*Term {
	vs := map[*Term]bool{}
	for _, v := range g.vars {
		vs[v] = true
	}
	ground := func(t *Term) bool {
		fb := map[*Term]bool{}
		freeBound(t, fb)
		return len(fb) == 0
	}
	cands := map[*Term][]*Term{}
	addC := func(v, t *Term) {
		for _, x := range cands[v] {
			if x == t {
				return
			}
		}
		cands[v] = append(cands[v], t)
	}
	walkTerm(g.args[0], map[*Term]bool{}, func(t *Term) {
		if t.op != OEq {
			return
		}
		a, b := t.args[0], t.args[1]
		if a.sort != SInt {
			if vs[a] && ground(b) {
				addC(a, b)
			} else if vs[b] && ground(a) {
				addC(b, a)
			}
			return
		}
		d := Sub(a, b)
		if d.op != OLin {
			if vs[d] {
				addC(d, Zero)
			}
			return
		}
		for i, x := range d.args {
			if vs[x] && d.coefs[i].IsInt64() && (d.coefs[i].Int64() == 1 || d.coefs[i].Int64() == -1) {
				rest := Sub(d, MulC(x, d.coefs[i]))
				if !ground(rest) {
					continue
				}
				if d.coefs[i].Int64() == 1 {
					rest = Neg(rest)
				}
				addC(x, rest)
			}
		}
	})
	subs := []map[*Term]*Term{{}}
	for _, v := range g.vars {
		cs := cands[v]
		if len(cs) == 0 || len(cs)*len(subs) > 12 {
			return nil
		}
		var n []map[*Term]*Term
		for _, m := range subs {
			for _, c := range cs {
				k := map[*Term]*Term{v: c}
				for a, b := range m {
					k[a] = b
				}
				n = append(n, k)
			}
		}
		subs = n
	}
	var out []*Term
	for _, m := range subs {
		out = append(out, subst(g.args[0], m))
	}
	return out
}

func (ex *Exec) feasible(st *State, c *Term) bool {
	if c == TFalse {
		return false
	}
	if c == TTrue {
		return true
	}
	if st.known[Not(c)] {
		return false
	}
	if st.known[c] {
		return true
	}
	if ex.noprune {
		return true
	}
	return !quickProve(st.pcs(), Not(c), feasMs)
}

var feasMs = 60

// ---- main loop

func (ex *Exec) push(st *State) { ex.work = append(ex.work, st) }

func (ex *Exec) runAll() {
	for len(ex.work) > 0 {
		st := ex.work[len(ex.work)-1]
		ex.work = ex.work[:len(ex.work)-1]
		ex.nstates++
		ex.runState(st)
	}
}

// sub runs f's pushed states to completion on a separate worklist.
func (ex *Exec) sub(f func()) {
	old := ex.work
	ex.work = nil
	f()
	ex.runAll()
	ex.work = old
}

type stopPath struct{}

func (ex *Exec) runState(st *State) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case stopPath:
			case unsup:
				if os.Getenv("GV_PANIC") != "" {
					panic(r)
				}
				where := ""
				if len(st.frames) > 0 {
					fr := st.top()
					where = fnName(fr.fn)
					if fr.ip < len(fr.block.Instrs) {
						where += " " + posOf(ex, fr.block.Instrs[fr.ip]) + ": " + fr.block.Instrs[fr.ip].String()
					}
				}
				if ex.silent == 0 {
					ex.obls = append(ex.obls, &Obligation{fn: fnName(ex.target), name: "unsupported construct: " + x.msg + " in " + where, kind: "unsupported", goal: TFalse, assume: st.pcs()})
				}
			default:
				panic(r)
			}
		}
	}()
	for steps := 0; ; steps++ {
		if steps > 20000 {
			unsupported("too many steps")
		}
		fr := st.top()
		instr := fr.block.Instrs[fr.ip]
		if !ex.step(st, fr, instr) {
			return
		}
	}
}

func (ex *Exec) val(st *State, v ssa.Value) Value {
	fr := st.top()
	switch x := v.(type) {
	case *ssa.Const:
		return constValue(x)
	case *ssa.Global:
		return ex.global(st, x)
	case *ssa.Function:
		return &Clo{fn: x}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.binds[i]
			}
		}
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.regs[v]
	if !ok {
		unsupported("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (ex *Exec) term(st *State, v ssa.Value) *Term {
	return ex.asTerm(st, ex.val(st, v), v.Type())
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return B(constant.BoolVal(c.Value))
	case constant.String:
		return StrConst(constant.StringVal(c.Value))
	case constant.Int:
		if s := sortOf(t); s != SInt {
			return Sym("opqc!"+c.Value.ExactString(), s)
		}
		b, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			unsupported("constant %s", c)
		}
		return BI(b)
	}
	if sortOf(t) == SInt {
		b, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		if ok {
			return BI(b)
		}
	}
	return Sym("opqc!"+c.Value.ExactString(), SOpq)
}

var globalIDs = map[string]int64{}

func globalLoc(name string) *Term {
	id, ok := globalIDs[name]
	if !ok {
		id = -int64(len(globalIDs) + 1)
		globalIDs[name] = id
	}
	return MkLoc(I(id), Zero, Zero)
}

var errorTag = I(900001)

func globalErr(name string) *Term {
	return Ctor("iloc", errorTag, globalLoc("err:"+name))
}

func (ex *Exec) global(st *State, g *ssa.Global) Value {
	t := derefType(g.Type())
	loc := globalLoc(g.String())
	if isScalar(t) {
		return &LV{heap: cellHeap(t), loc: loc, typ: t}
	}
	return loc
}

// loadGlobal recognises error variables that are initialised once with errors.New.
func (ex *Exec) loadGlobal(st *State, g *ssa.Global) Value {
	t := derefType(g.Type())
	if types.TypeString(t, nil) == "error" && (g.Pkg == nil || !repoPkg(g.Pkg.Pkg) || ex.prog.constGlobal(g)) {
		return globalErr(g.String())
	}
	return ex.load(st, ex.global(st, g), t)
}

func (ex *Exec) step(st *State, fr *Frame, instr ssa.Instruction) bool {
	set := func(v ssa.Value, x Value) { fr.regs[v] = x }
	switch i := instr.(type) {
	case *ssa.DebugRef:
		if id, ok := i.Expr.(*ast.Ident); ok {
			if _, ok := i.Object().(*types.Var); ok {
				if v, ok := fr.regs[i.X]; ok {
					fr.names[id.Name] = NameRef{v, i.IsAddr, i.X.Type()}
				}
			}
		}
	case *ssa.Alloc:
		t := derefType(i.Type())
		loc := st.newRoot()
		if t2, ok := under(t).(*types.Array); ok && !isScalar(t2.Elem()) {
			// array of structs: elements are objects (rid, i, 0)
			ex.initElems(st, loc, t2.Elem(), I(t2.Len()))
		} else {
			ex.initObject(st, loc, t)
		}
		set(i, ptrFor(loc, t))
		if i.Comment != "" && isIdent(i.Comment) {
			fr.names[i.Comment] = NameRef{ptrFor(loc, t), true, i.Type()}
		}
	case *ssa.BinOp:
		set(i, ex.binop(st, i))
	case *ssa.UnOp:
		ex.unop(st, fr, i)
	case *ssa.Call:
		return ex.call(st, i)
	case *ssa.ChangeInterface:
		set(i, ex.val(st, i.X))
	case *ssa.ChangeType:
		set(i, ex.val(st, i.X))
	case *ssa.Convert:
		set(i, ex.convert(st, i.X, i.X.Type(), i.Type()))
	case *ssa.Extract:
		set(i, ex.val(st, i.Tuple).(*Tup).elems[i.Index])
	case *ssa.Field:
		set(i, ex.val(st, i.X).(*Tup).elems[i.Field])
	case *ssa.FieldAddr:
		loc := ex.ptrTerm(st, i.X)
		ex.nilCheck(st, loc, i)
		set(i, fieldPtr(loc, derefType(i.X.Type()), i.Field))
	case *ssa.Index:
		a := ex.term(st, i.X)
		idx := ex.term(st, i.Index)
		if a.sort == SStr {
			ex.check(st, And(Le(Zero, idx), Lt(idx, App("str.len", a))), "safety", "string index in range: "+srcText(ex, i), posOf(ex, i))
			set(i, App("str.at", a, idx))
			break
		}
		n := under(i.X.Type()).(*types.Array).Len()
		ex.check(st, And(Le(Zero, idx), Lt(idx, I(n))), "safety", "array index in range: "+srcText(ex, i), posOf(ex, i))
		set(i, Select(a, idx))
	case *ssa.IndexAddr:
		set(i, ex.indexAddr(st, i))
	case *ssa.Lookup:
		ex.lookup(st, fr, i)
	case *ssa.MakeClosure:
		c := &Clo{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.binds = append(c.binds, ex.val(st, b))
		}
		set(i, c)
	case *ssa.MakeInterface:
		set(i, ex.makeIface(st, ex.val(st, i.X), i.X.Type()))
	case *ssa.MakeMap:
		mt := under(i.Type()).(*types.Map)
		set(i, ex.makeMap(st, mt))
	case *ssa.MakeSlice:
		n, c := ex.term(st, i.Len), ex.term(st, i.Cap)
		ex.check(st, And(Le(Zero, n), Le(n, c), Le(c, BI(pow2(40)))), "safety", "make([]T, len, cap) sizes: "+srcText(ex, i), posOf(ex, i))
		set(i, ex.makeSlice(st, under(i.Type()).(*types.Slice).Elem(), n, c))
	case *ssa.MapUpdate:
		mt := under(i.Map.Type()).(*types.Map)
		m := ex.term(st, i.Map)
		ex.check(st, Ne(Rid(m), Zero), "safety", "assignment to a non-nil map: "+srcText(ex, i), posOf(ex, i))
		ex.mapSet(st, mt, m, ex.term(st, i.Key), ex.asTerm(st, ex.val(st, i.Value), i.Value.Type()))
	case *ssa.Next:
		return ex.next(st, fr, i)
	case *ssa.Range:
		ex.rangeInit(st, fr, i)
	case *ssa.Slice:
		set(i, ex.slice(st, i))
	case *ssa.Store:
		if g, ok := i.Addr.(*ssa.Global); ok {
			ex.store(st, ex.global(st, g), i.Val.Type(), ex.val(st, i.Val))
			break
		}
		p := ex.val(st, i.Addr)
		if t, ok := p.(*Term); ok {
			ex.nilCheck(st, t, i)
		}
		ex.store(st, p, derefType(i.Addr.Type()), ex.val(st, i.Val))
	case *ssa.TypeAssert:
		return ex.typeAssert(st, fr, i)
	case *ssa.RunDefers:
	case *ssa.Defer:
		unsupported("defer")
	case *ssa.Go:
		unsupported("go statement")
	case *ssa.Panic:
		ex.check(st, TFalse, "safety", "explicit panic is unreachable", posOf(ex, i))
		return false
	case *ssa.Jump:
		return ex.edge(st, fr.block.Succs[0])
	case *ssa.If:
		c := ex.term(st, i.Cond)
		tb, eb := fr.block.Succs[0], fr.block.Succs[1]
		if c == TTrue {
			return ex.edge(st, tb)
		}
		if c == TFalse {
			return ex.edge(st, eb)
		}
		ft := ex.feasible(st, c)
		fe := true
		if ft {
			fe = ex.feasible(st, Not(c))
		}
		if ft && fe {
			o := st.clone()
			o.add(Not(c), true)
			o.trace = append(o.trace, posOf(ex, i)+" false")
			st.add(c, true)
			st.trace = append(st.trace, posOf(ex, i)+" true")
			if ex.edge(o, eb) {
				ex.push(o)
			}
			return ex.edge(st, tb)
		}
		if ft {
			st.add(c, true)
			return ex.edge(st, tb)
		}
		st.add(Not(c), true)
		return ex.edge(st, eb)
	case *ssa.Return:
		var res []Value
		for _, r := range i.Results {
			res = append(res, ex.val(st, r))
		}
		return ex.doReturn(st, res)
	default:
		unsupported("instruction %T", instr)
	}
	fr.ip++
	return true
}

func isIdent(s string) bool {
	return token.IsIdentifier(s)
}

// doReturn pops the frame.
func (ex *Exec) doReturn(st *State, res []Value) bool {
	fr := st.top()
	for _, l := range fr.loops {
		if l.body {
			return false
		}
	}
	st.frames = st.frames[:len(st.frames)-1]
	fr.ret(st, res)
	return false
}

// edge moves control to block `to`.
func (ex *Exec) edge(st *State, to *ssa.BasicBlock) bool {
	fr := st.top()
	// leave loops that do not contain the target
	for len(fr.loops) > 0 {
		l := fr.loops[len(fr.loops)-1]
		if l.blocks[to] {
			break
		}
		if l.body {
			return false
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	from := fr.block
	var phis []*ssa.Phi
	var vals []Value
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
		}
	}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, ex.val(st, p.Edges[pi]))
	}
	for k, p := range phis {
		fr.regs[p] = vals[k]
		if p.Comment != "" {
			fr.names[p.Comment] = NameRef{vals[k], false, p.Type()}
		}
	}
	fr.prev, fr.block, fr.ip = from, to, len(phis)
	if lp := ex.prog.loopAt(fr.fn, to); lp != nil {
		if len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].header == to {
			fr.loops[len(fr.loops)-1].onBack(st)
			return false
		}
		return ex.enterLoop(st, lp)
	}
	return true
}

func (ex *Exec) ptrTerm(st *State, v ssa.Value) *Term {
	p := ex.val(st, v)
	t, ok := p.(*Term)
	if !ok {
		unsupported("struct pointer %T", p)
	}
	return t
}

func (ex *Exec) nilCheck(st *State, loc *Term, i ssa.Instruction) {
	ex.check(st, Ne(Rid(loc), Zero), "safety", "nil dereference: "+srcText(ex, i), posOf(ex, i))
}

func srcText(ex *Exec, i ssa.Instruction) string {
	return ex.prog.srcAt(i)
}

func (ex *Exec) indexAddr(st *State, i *ssa.IndexAddr) Value {
	idx := ex.term(st, i.Index)
	switch u := under(i.X.Type()).(type) {
	case *types.Slice:
		s := ex.term(st, i.X)
		ex.check(st, And(Le(Zero, idx), Lt(idx, SLen(s))), "safety", "index in range: "+srcText(ex, i), posOf(ex, i))
		return elemPtr(SBase(s), Add(SOff(s), idx), u.Elem())
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		loc := ex.ptrTerm(st, i.X)
		ex.check(st, And(Le(Zero, idx), Lt(idx, I(at.Len()))), "safety", "index in range: "+srcText(ex, i), posOf(ex, i))
		return elemPtr(loc, idx, at.Elem())
	}
	unsupported("IndexAddr")
	return nil
}

func elemPtr(base, idx *Term, et types.Type) Value {
	if _, ok := under(et).(*types.Struct); ok {
		return elemLoc(base, idx)
	}
	if !isScalar(et) {
		unsupported("slice of arrays")
	}
	return &LV{heap: elemHeap(et), loc: base, idx: idx, typ: et}
}

func (ex *Exec) makeSlice(st *State, et types.Type, n, c *Term) *Term {
	loc := st.newRoot()
	if _, ok := under(et).(*types.Struct); ok {
		ex.initElems(st, loc, et, c)
	} else {
		h := elemHeap(et)
		st.setHeap(h, loc, ConstArr(heapTab[h].sort.v, zeroTerm(sortOf(et))))
	}
	return MkSlice(loc, Zero, n, c)
}

// initElems zeroes the struct elements of a fresh backing array.
func (ex *Exec) initElems(st *State, loc *Term, et types.Type, n *Term) {
	if n.isConst() && n.val.IsInt64() && n.int64() <= 4 {
		for k := int64(0); k < n.int64(); k++ {
			ex.initObject(st, elemLoc(loc, I(k)), et)
		}
		return
	}
	for _, l := range leavesOf(et) {
		hi := heapTab[l.heap]
		z := zeroTerm(hi.sort.v)
		st.heaps[l.heap] = Frm(st.H(l.heap), ConstArr(hi.sort, z), Rid(loc))
		st.noteWrite(l.heap, loc)
	}
}

func (ex *Exec) makeMap(st *State, mt *types.Map) *Term {
	loc := st.newRoot()
	d, v, l := mapHeaps(mt)
	st.setHeap(d, loc, ConstArr(heapTab[d].sort.v, TFalse))
	st.setHeap(v, loc, ConstArr(heapTab[v].sort.v, zeroTerm(heapTab[v].sort.v.v)))
	st.setHeap(l, loc, Zero)
	return loc
}

func (ex *Exec) mapSet(st *State, mt *types.Map, m, k, v *Term) {
	d, vh, l := mapHeaps(mt)
	dom := Select(st.H(d), m)
	ln := ex.mapLen(st, mt, m)
	in := Select(dom, k)
	st.setHeap(l, m, Add(ln, Ite(in, Zero, One)))
	st.setHeap(d, m, Store(dom, k, TTrue))
	st.setHeap(vh, m, Store(Select(st.H(vh), m), k, v))
}

func (ex *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	d, _, l := mapHeaps(mt)
	dom := Select(st.H(d), m)
	ln := ex.mapLen(st, mt, m)
	in := Select(dom, k)
	if in == TFalse {
		return
	}
	st.setHeap(l, m, Sub(ln, Ite(in, One, Zero)))
	st.setHeap(d, m, Store(dom, k, TFalse))
}

// mapLen reads a map's length and states how it relates to the domain.
func (ex *Exec) mapLen(st *State, mt *types.Map, m *Term) *Term {
	d, _, l := mapHeaps(mt)
	dom := Select(st.H(d), m)
	ln := Select(st.H(l), m)
	ex.mapFacts(st, mt, m, dom, ln)
	return ln
}

func (ex *Exec) mapFacts(st *State, mt *types.Map, m, dom, ln *Term) {
	if m.bound || dom.bound || ln.isConst() {
		return
	}
	st.assume(mapLenFact(mt, dom, ln))
	st.assume(Implies(Eq(Rid(m), Zero), Eq(ln, Zero)))
}

func mapLenFact(mt *types.Map, dom, ln *Term) *Term {
	ks := sortOf(mt.Key())
	w := "wit:" + dom.sort.name
	if funcs[w] == nil {
		declFun(w, ks, dom.sort)
	}
	kv := Bound("mk"+ks.name, ks)
	wit := App(w, dom)
	return And(
		Le(Zero, ln),
		Or(Eq(ln, Zero), Select(dom, wit)),
		Forall([]*Term{kv}, Implies(Select(dom, kv), Gt(ln, Zero)), selPat(dom, kv)),
	)
}

// selPat gives a pattern for select(a,k) when a is not a store chain.
func selPat(a, k *Term) []*Term {
	if a.op == OSym || a.op == OSelect || a.op == OApp {
		return []*Term{intern(&Term{op: OSelect, sort: a.sort.v, args: []*Term{a, k}})}
	}
	if a.op == OIte { // the domain of a map that may be nil
		if p := selPat(a.args[2], k); p != nil {
			return p
		}
		return selPat(a.args[1], k)
	}
	return nil
}

func (ex *Exec) mapGet(st *State, mt *types.Map, m, k *Term) (v, ok *Term) {
	d, vh, _ := mapHeaps(mt)
	in := And(Ne(Rid(m), Zero), Select(Select(st.H(d), m), k))
	val := Select(Select(st.H(vh), m), k)
	z := zeroTerm(val.sort)
	st.refFacts(val)
	ex.keyFacts(st, mt, k)
	r := Ite(in, val, z)
	return r, in
}

func (ex *Exec) keyFacts(st *State, mt *types.Map, k *Term) {
	if k.bound {
		return
	}
	if f := sealedFact(k, mt.Key()); f != nil {
		st.assume(f)
	}
}

func (ex *Exec) lookup(st *State, fr *Frame, i *ssa.Lookup) {
	if mt, ok := under(i.X.Type()).(*types.Map); ok {
		m := ex.term(st, i.X)
		k := ex.term(st, i.Index)
		v, in := ex.mapGet(st, mt, m, k)
		if i.CommaOk {
			fr.regs[i] = &Tup{[]Value{v, in}}
			return
		}
		// split on membership so that values stay readable
		fr.regs[i] = v
		return
	}
	s := ex.term(st, i.X)
	idx := ex.term(st, i.Index)
	ex.check(st, And(Le(Zero, idx), Lt(idx, App("str.len", s))), "safety", "string index in range: "+srcText(ex, i), posOf(ex, i))
	fr.regs[i] = App("str.at", s, idx)
}

func (ex *Exec) slice(st *State, i *ssa.Slice) Value {
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return ex.term(st, v)
	}
	switch u := under(i.X.Type()).(type) {
	case *types.Slice:
		s := ex.term(st, i.X)
		lo, hi, mx := get(i.Low, Zero), get(i.High, SLen(s)), get(i.Max, SCap(s))
		ex.check(st, And(Le(Zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, SCap(s))), "safety", "slice bounds: "+srcText(ex, i), posOf(ex, i))
		return MkSlice(SBase(s), Add(SOff(s), lo), Sub(hi, lo), Sub(mx, lo))
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		loc := ex.ptrTerm(st, i.X)
		n := I(at.Len())
		lo, hi, mx := get(i.Low, Zero), get(i.High, n), get(i.Max, n)
		ex.check(st, And(Le(Zero, lo), Le(lo, hi), Le(hi, mx), Le(mx, n)), "safety", "slice bounds: "+srcText(ex, i), posOf(ex, i))
		return MkSlice(loc, lo, Sub(hi, lo), Sub(mx, lo))
	case *types.Basic:
		s := ex.term(st, i.X)
		n := App("str.len", s)
		lo, hi := get(i.Low, Zero), get(i.High, n)
		ex.check(st, And(Le(Zero, lo), Le(lo, hi), Le(hi, n)), "safety", "string slice bounds: "+srcText(ex, i), posOf(ex, i))
		return substr(s, lo, hi)
	}
	unsupported("slice of %s", i.X.Type())
	return nil
}

func init() {
	declFun("str.sub", SStr, SStr, SInt, SInt)
	funcs["str.sub"].inst = func(t *Term) []*Term {
		k := Bound("ssk", SInt)
		raw := intern(&Term{op: OApp, sort: SInt, name: "str.at", args: []*Term{t, k}, lo: big0(0), hi: big0(255)})
		return []*Term{Eq(intern(&Term{op: OApp, sort: SInt, name: "str.len", args: []*Term{t}, lo: big0(0), hi: pow2(47)}), Sub(t.args[2], t.args[1])),
			Forall([]*Term{k}, Eq(raw, App("str.at", t.args[0], Add(t.args[1], k))), []*Term{raw})}
	}
}

func substr(s, lo, hi *Term) *Term {
	if lo == Zero && hi == App("str.len", s) {
		return s
	}
	if s.op == OApp && s.name == "str.of" {
		return App("str.of", s.args[0], Add(s.args[1], lo), Sub(hi, lo))
	}
	return App("str.sub", s, lo, hi)
}

// ---- interfaces

func (ex *Exec) makeIface(st *State, v Value, t types.Type) *Term {
	tag := tagOf(t)
	switch x := v.(type) {
	case *Term:
		switch u := under(t).(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				return Ctor("iint", tag, x)
			}
			if u.Info()&types.IsString != 0 {
				return Ctor("istr", tag, x)
			}
		case *types.Pointer, *types.Map:
			return Ctor("iloc", tag, x)
		}
	case *LV:
		r := Ctor("iloc", tag, ex.asTerm(st, x, t))
		meta[r] = x
		return r
	}
	s := Ctor("iopq", tag, Sym(st.fresh("box"), SInt))
	meta[s] = v
	return s
}

// unboxed returns the value inside an interface whose dynamic type is t.
func (ex *Exec) unbox(st *State, x *Term, t types.Type) Value {
	if m, ok := meta[x]; ok {
		return m
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return Sel("ival", x)
		}
		if u.Info()&types.IsString != 0 {
			return Sel("sval", x)
		}
	case *types.Pointer:
		l := Sel("lval", x)
		if m, ok := meta[l]; ok {
			return m
		}
		if isScalar(u.Elem()) {
			return &LV{heap: cellHeap(u.Elem()), loc: l, typ: u.Elem()}
		}
		return l
	case *types.Map:
		return Sel("lval", x)
	}
	// arbitrary value of the type
	return st.freshValue(t, "unbox")
}

func (ex *Exec) typeAssert(st *State, fr *Frame, i *ssa.TypeAssert) bool {
	x := ex.term(st, i.X)
	var is *Term
	var val func(s *State) Value
	if _, ok := under(i.AssertedType).(*types.Interface); ok {
		is = ex.implements(st, x, i.AssertedType)
		val = func(s *State) Value { return x }
	} else {
		is = ifaceTag(x, i.AssertedType)
		val = func(s *State) Value { return ex.unbox(s, x, i.AssertedType) }
		if x.op == OCtor && is == TFalse {
			val = func(s *State) Value { return zeroOrUnit(i.AssertedType) }
		}
	}
	if !i.CommaOk {
		ex.check(st, is, "safety", "type assertion: "+srcText(ex, i), posOf(ex, i))
		st.assume(assertFacts(x, i.AssertedType))
		fr.regs[i] = val(st)
		fr.ip++
		return true
	}
	if is == TTrue {
		fr.regs[i] = &Tup{[]Value{val(st), TTrue}}
		fr.ip++
		return true
	}
	if is == TFalse {
		fr.regs[i] = &Tup{[]Value{zeroOrUnit(i.AssertedType), TFalse}}
		fr.ip++
		return true
	}
	// scalar results stay one state
	if isBasicAssert(i.AssertedType) {
		v := val(st).(*Term)
		st.assume(Implies(is, assertFacts(x, i.AssertedType)))
		fr.regs[i] = &Tup{[]Value{Ite(is, v, zeroTerm(v.sort)), is}}
		fr.ip++
		return true
	}
	if ex.feasible(st, Not(is)) {
		o := st.clone()
		o.add(Not(is), true)
		of := o.top()
		of.regs[i] = &Tup{[]Value{zeroOrUnit(i.AssertedType), TFalse}}
		of.ip++
		ex.push(o)
	}
	if !ex.feasible(st, is) {
		return false
	}
	st.add(is, true)
	st.assume(assertFacts(x, i.AssertedType))
	fr.regs[i] = &Tup{[]Value{val(st), TTrue}}
	fr.ip++
	return true
}

func isBasicAssert(t types.Type) bool {
	_, ok := under(t).(*types.Basic)
	return ok
}

func zeroOrUnit(t types.Type) Value {
	v := zeroValue(t)
	return v
}

func assertFacts(x *Term, t types.Type) *Term {
	if lo, hi := intRange(t); lo != nil {
		return And(Le(BI(lo), Sel("ival", x)), Le(Sel("ival", x), BI(hi)))
	}
	return TTrue
}

func ifaceTag(x *Term, ct types.Type) *Term {
	tag := tagOf(ct)
	switch u := under(ct).(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return And(MkTest("iint", x), Eq(Sel("itag", x), tag))
		}
		if u.Info()&types.IsString != 0 {
			return And(MkTest("istr", x), Eq(Sel("stag", x), tag))
		}
	case *types.Pointer, *types.Map:
		return And(MkTest("iloc", x), Eq(Sel("ltag", x), tag))
	}
	return And(MkTest("iopq", x), Eq(Sel("otag", x), tag))
}

// dynType returns the dynamic type of an interface value when it is known.
func dynType(x *Term) types.Type {
	if x.op == OCtor && len(x.args) > 0 && x.args[0].isConst() && x.args[0].val.IsInt64() {
		return tagTypes[x.args[0].int64()]
	}
	return nil
}

func (ex *Exec) implements(st *State, x *Term, it types.Type) *Term {
	if x == INil {
		return TFalse
	}
	if t := dynType(x); t != nil {
		return B(types.Implements(t, under(it).(*types.Interface)))
	}
	n := "impl:" + typeKey(it)
	if funcs[n] == nil {
		declFun(n, SBool, SIface)
	}
	return And(Not(MkTest("inil", x)), App(n, x))
}

// ---- range

func (ex *Exec) rangeInit(st *State, fr *Frame, i *ssa.Range) {
	h := ghostHeap("ITER", SLoc, SInt, big0(0), pow2(47))
	pos := globalLoc(fmt.Sprintf("iter:%s:%s:%d", fr.fn, i.Name(), len(st.frames)))
	if mt, ok := under(i.X.Type()).(*types.Map); ok {
		m := ex.term(st, i.X)
		d, _, _ := mapHeaps(mt)
		ln := ex.mapLen(st, mt, m)
		dom := Ite(Eq(Rid(m), Zero), ConstArr(heapTab[d].sort.v, TFalse), Select(st.H(d), m))
		if knownEq(Rid(m), Zero) != 0 || st.known[Ne(Rid(m), Zero)] {
			dom = Select(st.H(d), m)
		}
		ks := sortOf(mt.Key())
		var rb *Term
		if ks == SLoc || ks == SIface {
			rb = st.alloc
		}
		lo, hi := intRange(mt.Key())
		it := SymArr(st.fresh("it"), SArr(SInt, ks), lo, hi, rb)
		itpos := Sym(st.fresh("itpos"), SArr(ks, SInt))
		n := Ite(Eq(Rid(m), Zero), Zero, ln)
		iv := &IterV{m: m, mt: mt, it: it, itpos: itpos, pos: pos, n: n, dom0: dom}
		st.setHeap(h, pos, Zero)
		st.assume(iterFacts(mt, it, itpos, n, dom))
		fr.regs[i] = iv
		fr.names["#iter"] = NameRef{v: iv}
		fr.ip++
		fr.ip--
		return
	}
	s := ex.term(st, i.X)
	st.setHeap(h, pos, Zero)
	iv := &IterV{strIdx: true, str: s, pos: pos, n: App("str.len", s)}
	fr.regs[i] = iv
	fr.names["#iter"] = NameRef{v: iv}
}

// iterFacts: it enumerates dom without repetition in n steps.
func iterFacts(mt *types.Map, it, itpos, n, dom *Term) *Term {
	ks := it.sort.v
	i := Bound("iti", SInt)
	k := Bound("itk"+ks.name, ks)
	ik := Select(it, i)
	return And(
		Forall([]*Term{i}, Implies(And(Le(Zero, i), Lt(i, n)), And(Select(dom, ik), Eq(Select(itpos, ik), i))), []*Term{ik}),
		Forall([]*Term{k}, Implies(Select(dom, k), And(Le(Zero, Select(itpos, k)), Lt(Select(itpos, k), n), Eq(Select(it, Select(itpos, k)), k))), pats(Select(itpos, k), selPat(dom, k))...),
	)
}

func pats(a *Term, b []*Term) [][]*Term {
	out := [][]*Term{{a}}
	if b != nil {
		out = append(out, b)
	}
	return out
}

func (ex *Exec) next(st *State, fr *Frame, i *ssa.Next) bool {
	iv := ex.val(st, i.Iter).(*IterV)
	h := ghostHeap("ITER", SLoc, SInt, big0(0), pow2(47))
	p := Select(st.H(h), iv.pos)
	tt := i.Type().(*types.Tuple)
	more := Lt(p, iv.n)
	fm := ex.feasible(st, more)
	fd := ex.feasible(st, Not(more))
	if fd {
		o := st
		if fm {
			o = st.clone()
		}
		o.add(Not(more), true)
		of := o.top()
		var kz, vz Value = Zero, Zero
		if iv.mt != nil {
			kz, vz = zeroTerm(sortOf(iv.mt.Key())), zeroTerm(sortOf(iv.mt.Elem()))
		}
		of.regs[i] = &Tup{[]Value{TFalse, kz, vz}}
		of.ip++
		if !fm {
			return true
		}
		ex.push(o)
	}
	if !fm {
		return false
	}
	st.add(more, true)
	if iv.strIdx {
		// runes: the byte index advances by 1..4; the rune of an ASCII byte is that byte
		w := st.freshInt("rw", big0(1), big0(4))
		r := st.freshInt("rune", big0(0), big0(0x10FFFF))
		b := App("str.at", iv.str, p)
		st.assume(Le(Add(p, w), iv.n))
		st.assume(Implies(Lt(b, I(128)), And(Eq(w, One), Eq(r, b))))
		st.assume(Implies(Ge(b, I(128)), Ge(r, I(128))))
		for d := int64(1); d <= 3; d++ { // the rest of a multi-byte rune
			st.assume(Implies(Lt(I(d), w), Ge(App("str.at", iv.str, Add(p, I(d))), I(128))))
		}
		st.setHeap(h, iv.pos, Add(p, w))
		fr.regs[i] = &Tup{[]Value{TTrue, p, r}}
		fr.ip++
		return true
	}
	k := Select(iv.it, p)
	st.refFacts(k)
	ex.keyFacts(st, iv.mt, k)
	d, vh, _ := mapHeaps(iv.mt)
	// a key removed during the iteration is not produced; the analysis requires an unchanged key set
	ex.check(st, Select(Select(st.H(d), iv.m), k), "model", "map keys are not removed while ranging over the map", posOf(ex, i))
	v := Select(Select(st.H(vh), iv.m), k)
	st.refFacts(v)
	st.setHeap(h, iv.pos, Add(p, One))
	_ = tt
	fr.regs[i] = &Tup{[]Value{TTrue, k, v}}
	fr.ip++
	return true
}

// ---- operators

func wrap(t *Term, ty types.Type) *Term {
	n, signed := bits(ty)
	if n == 0 {
		return t
	}
	if !signed {
		return ModC(t, pow2(n))
	}
	if n == 64 {
		return t // documented assumption: int and int64 do not overflow
	}
	lo, hi := intRange(ty)
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	return Add(ModC(Add(t, BI(pow2(n-1))), pow2(n)), BI(new(big.Int).Neg(pow2(n-1))))
}

func (ex *Exec) binop(st *State, i *ssa.BinOp) Value {
	xv, yv := ex.val(st, i.X), ex.val(st, i.Y)
	switch i.Op {
	case token.EQL, token.NEQ:
		r := ex.equal(st, xv, yv, i.X.Type(), i.Y.Type())
		if i.Op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	x, y := ex.asTerm(st, xv, i.X.Type()), ex.asTerm(st, yv, i.Y.Type())
	t := i.X.Type()
	if x.sort == SStr {
		switch i.Op {
		case token.LSS:
			return App("str.lt", x, y)
		case token.GTR:
			return App("str.lt", y, x)
		case token.LEQ:
			return Not(App("str.lt", y, x))
		case token.GEQ:
			return Not(App("str.lt", x, y))
		case token.ADD:
			return strCat(x, y)
		}
		unsupported("string operator %s", i.Op)
	}
	if x.sort == SOpq {
		if i.Type().Underlying() == types.Typ[types.Bool] {
			return st.freshBool("fcmp")
		}
		return Sym(st.fresh("float"), SOpq)
	}
	switch i.Op {
	case token.LSS:
		return Lt(x, y)
	case token.LEQ:
		return Le(x, y)
	case token.GTR:
		return Gt(x, y)
	case token.GEQ:
		return Ge(x, y)
	case token.ADD:
		return wrap(Add(x, y), t)
	case token.SUB:
		return wrap(Sub(x, y), t)
	case token.MUL:
		return wrap(Mul(x, y), t)
	case token.QUO, token.REM:
		ex.check(st, Ne(y, Zero), "safety", "division by zero: "+srcText(ex, i), posOf(ex, i))
		_, signed := bits(t)
		if signed && !(x.lo != nil && x.lo.Sign() >= 0 && y.lo != nil && y.lo.Sign() > 0) {
			// truncated division
			if y.isConst() && y.val.Sign() > 0 {
				q := Ite(Ge(x, Zero), DivC(x, y.val), Neg(DivC(Neg(x), y.val)))
				if i.Op == token.QUO {
					return q
				}
				return Sub(x, MulC(q, y.val))
			}
			unsupported("signed division by a variable")
		}
		if i.Op == token.QUO {
			return DivT(x, y)
		}
		return ModT(x, y)
	case token.SHL:
		if y.isConst() && y.val.IsInt64() {
			if y.int64() > 64 {
				return Zero
			}
			return wrap(MulC(x, pow2(int(y.int64()))), t)
		}
	case token.SHR:
		if y.isConst() && y.val.IsInt64() {
			if y.int64() > 64 && x.lo != nil && x.lo.Sign() >= 0 {
				return Zero
			}
			return DivC(x, pow2(int(y.int64())))
		}
	case token.AND:
		return bitAnd(x, y, t)
	case token.OR:
		return bitOr(x, y, t)
	case token.AND_NOT:
		if y.isConst() {
			return Sub(x, bitAnd(x, y, t))
		}
	case token.XOR:
		if y.isConst() && y.val.Sign() == 0 {
			return x
		}
	}
	unsupported("operator %s", i.Op)
	return nil
}

// runs returns the maximal runs of ones [lo,hi) of a non-negative constant.
func runs(c *big.Int) [][2]int {
	var out [][2]int
	n := c.BitLen()
	for i := 0; i < n; {
		if c.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && c.Bit(j) == 1 {
			j++
		}
		out = append(out, [2]int{i, j})
		i = j
	}
	return out
}

func field(x *Term, lo, hi int) *Term { // bits lo..hi-1 in place
	return MulC(ModC(DivC(x, pow2(lo)), pow2(hi-lo)), pow2(lo))
}

func bitAnd(x, y *Term, t types.Type) *Term {
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		c := y.val
		if c.Sign() < 0 {
			// x & ^m for signed: x - (x & m)
			m := new(big.Int).Not(c)
			return Sub(x, bitAnd(x, BI(m), t))
		}
		if c.Sign() == 0 {
			return Zero
		}
		// full mask
		if x.lo != nil && x.lo.Sign() >= 0 && x.hi != nil {
			n := x.hi.BitLen()
			full := new(big.Int).Sub(pow2(n), big0(1))
			c = new(big.Int).And(c, full)
			if c.Cmp(full) == 0 {
				return x
			}
		}
		n, signed := bits(t)
		rs := runs(c)
		// complement is shorter: x - (x & ^c)
		if !signed && len(rs) > 0 {
			nc := new(big.Int).AndNot(new(big.Int).Sub(pow2(n), big0(1)), c)
			if len(runs(nc)) < len(rs) || (len(rs) == 1 && rs[0][1] == n && rs[0][0] > 0) {
				s := Zero
				for _, r := range runs(nc) {
					s = Add(s, field(x, r[0], r[1]))
				}
				return Sub(x, s)
			}
		}
		s := Zero
		for _, r := range rs {
			s = Add(s, field(x, r[0], r[1]))
		}
		return s
	}
	f := declFun("bv.and", SInt, SInt, SInt)
	f.lo = big0(0)
	return App("bv.and", x, y)
}

// trailing zeros known of a term
func tz(t *Term) int {
	switch t.op {
	case OConst:
		if t.val.Sign() == 0 {
			return 64
		}
		return int(new(big.Int).Abs(t.val).TrailingZeroBits())
	case OLin:
		m := 64
		if t.val.Sign() != 0 {
			m = int(new(big.Int).Abs(t.val).TrailingZeroBits())
		}
		for i, a := range t.args {
			k := int(new(big.Int).Abs(t.coefs[i]).TrailingZeroBits()) + tz(a)
			if k < m {
				m = k
			}
		}
		return m
	case OIte:
		return minI(tz(t.args[1]), tz(t.args[2]))
	}
	return 0
}

func bitOr(x, y *Term, t types.Type) *Term {
	if x == Zero {
		return y
	}
	if y == Zero {
		return x
	}
	nonneg := func(a *Term) bool { return a.lo != nil && a.lo.Sign() >= 0 }
	if nonneg(x) && nonneg(y) {
		if y.hi != nil && tz(x) >= y.hi.BitLen() || x.hi != nil && tz(y) >= x.hi.BitLen() {
			return Add(x, y)
		}
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() && y.val.Sign() > 0 {
		// set the bits of y: x + (y - (x & y))
		return Add(x, Sub(y, bitAnd(x, y, t)))
	}
	if nonneg(x) && nonneg(y) {
		f := declFun("bv.or", SInt, SInt, SInt)
		f.lo = big0(0)
		f.inst = func(t *Term) []*Term {
			a, b := t.args[0], t.args[1]
			out := []*Term{Le(a, t), Le(b, t), Le(t, Add(a, b))}
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				if k := tz(p[0]); k > 0 && k < 64 {
					out = append(out, Implies(Lt(p[1], BI(new(big.Int).Lsh(big0(1), uint(k)))), Eq(t, Add(a, b))))
				}
			}
			return out
		}
		return App("bv.or", x, y)
	}
	unsupported("bitwise or")
	return nil
}

func (ex *Exec) equal(st *State, a, b Value, ta, tb types.Type) *Term {
	if x, ok := a.(*Tup); ok {
		y := b.(*Tup)
		stt := under(ta).(*types.Struct)
		var cs []*Term
		for i := range x.elems {
			ft := stt.Field(i).Type()
			cs = append(cs, ex.equal(st, x.elems[i], y.elems[i], ft, ft))
		}
		return And(cs...)
	}
	if at, ok := under(ta).(*types.Array); ok {
		x, y := a.(*Term), b.(*Term)
		if at.Len() > 64 {
			unsupported("array comparison")
		}
		var cs []*Term
		for i := int64(0); i < at.Len(); i++ {
			cs = append(cs, Eq(Select(x, I(i)), Select(y, I(i))))
		}
		return And(cs...)
	}
	nilc := func(v Value) bool {
		t, ok := v.(*Term)
		return ok && (t == NilLoc || t == NilSlice)
	}
	if _, ok := a.(*LV); ok && nilc(b) {
		return TFalse
	}
	if _, ok := b.(*LV); ok && nilc(a) {
		return TFalse
	}
	if _, ok := a.(*Clo); ok && nilc(b) {
		return TFalse
	}
	// interface vs concrete: box
	_, ia := under(ta).(*types.Interface)
	_, ib := under(tb).(*types.Interface)
	if ia && !ib {
		b = ex.makeIface(st, b, tb)
	}
	if ib && !ia {
		a = ex.makeIface(st, a, ta)
	}
	x, y := ex.asTerm(st, a, ta), ex.asTerm(st, b, tb)
	switch x.sort {
	case SSlice:
		if y == NilSlice {
			return Eq(Rid(SBase(x)), Zero)
		}
		if x == NilSlice {
			return Eq(Rid(SBase(y)), Zero)
		}
	case SLoc:
		if y == NilLoc {
			return Eq(Rid(x), Zero)
		}
		if x == NilLoc {
			return Eq(Rid(y), Zero)
		}
	case SStr:
		return strEq(x, y)
	case SIface:
		if x.op == OCtor && y.op != OCtor {
			x, y = y, x
		}
		if y.op == OCtor && y.name == "iopq" && y != x {
			return st.freshBool("ieq")
		}
		if y.op == OCtor && y.name == "istr" {
			return And(MkTest("istr", x), Eq(Sel("stag", x), y.args[0]), strEq(Sel("sval", x), y.args[1]))
		}
		if y.op == OCtor && y.name == "iint" && x.op != OCtor {
			return And(MkTest("iint", x), Eq(Sel("itag", x), y.args[0]), Eq(Sel("ival", x), y.args[1]))
		}
	}
	return Eq(x, y)
}

func (ex *Exec) unop(st *State, fr *Frame, i *ssa.UnOp) {
	switch i.Op {
	case token.MUL:
		if g, ok := i.X.(*ssa.Global); ok {
			fr.regs[i] = ex.loadGlobal(st, g)
			return
		}
		p := ex.val(st, i.X)
		if t, ok := p.(*Term); ok {
			ex.nilCheck(st, t, i)
		}
		fr.regs[i] = ex.load(st, p, derefType(i.X.Type()))
	case token.NOT:
		fr.regs[i] = Not(ex.term(st, i.X))
	case token.SUB:
		x := ex.term(st, i.X)
		if x.sort == SOpq {
			fr.regs[i] = Sym(st.fresh("float"), SOpq)
			return
		}
		fr.regs[i] = wrap(Neg(x), i.Type())
	case token.XOR:
		x := ex.term(st, i.X)
		n, signed := bits(i.Type())
		if signed {
			fr.regs[i] = Sub(I(-1), x)
		} else {
			fr.regs[i] = Sub(BI(new(big.Int).Sub(pow2(n), big0(1))), x)
		}
	default:
		unsupported("unary %s", i.Op)
	}
}

func (ex *Exec) convert(st *State, xv ssa.Value, from, to types.Type) Value {
	v := ex.val(st, xv)
	fb, ok1 := under(from).(*types.Basic)
	tb, ok2 := under(to).(*types.Basic)
	if ok1 && ok2 {
		x := ex.asTerm(st, v, from)
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			n, signed := bits(to)
			if signed && n == 64 {
				lo, hi := intRange(to)
				if x.lo != nil && x.hi != nil && x.lo.Cmp(lo) >= 0 && x.hi.Cmp(hi) <= 0 {
					return x
				}
				if fs, sg := bits(from); fs == 64 && !sg {
					return Sub(x, Ite(Ge(x, BI(pow2(63))), BI(pow2(64)), Zero))
				}
				return x
			}
			return wrap(x, to)
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return x
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
			return Sym(st.fresh("strofint"), SStr)
		}
		if tb.Info()&types.IsFloat != 0 || fb.Info()&types.IsFloat != 0 {
			return st.freshValue(to, "float")
		}
		return x
	}
	if ts, ok := under(to).(*types.Slice); ok && ok1 && fb.Info()&types.IsString != 0 {
		x := ex.asTerm(st, v, from)
		return ex.strToSlice(st, x, ts.Elem())
	}
	if fs, ok := under(from).(*types.Slice); ok && ok2 && tb.Info()&types.IsString != 0 {
		x := ex.asTerm(st, v, from)
		return ex.sliceToStr(st, x, fs.Elem())
	}
	if _, ok := under(to).(*types.Pointer); ok {
		return v
	}
	unsupported("conversion %s -> %s", from, to)
	return nil
}

func init() {
	// string concatenation
	declFun("str.cat", SStr, SStr, SStr)
	funcs["str.cat"].inst = func(t *Term) []*Term {
		return []*Term{Eq(App("str.len", t), Add(App("str.len", t.args[0]), App("str.len", t.args[1])))}
	}
	// runes of a string, and back
	declFun("runes.arr", SArr(SInt, SInt), SStr)
	declFun("runes.len", SInt, SStr)
	funcs["runes.len"].lo = big0(0)
	funcs["runes.len"].hi = pow2(47)
	funcs["runes.len"].inst = func(t *Term) []*Term {
		return []*Term{Le(t, App("str.len", t.args[0])), Implies(Gt(App("str.len", t.args[0]), Zero), Gt(t, Zero))}
	}
	declFun("str.ofrunes", SStr, SArr(SInt, SInt), SInt, SInt)
}

func strCat(x, y *Term) *Term {
	a, ok1 := strConsts[x.name]
	b, ok2 := strConsts[y.name]
	if ok1 && ok2 && x.op == OSym && y.op == OSym {
		return StrConst(a + b)
	}
	return App("str.cat", x, y)
}

func (ex *Exec) strToSlice(st *State, x *Term, et types.Type) Value {
	loc := st.newRoot()
	h := elemHeap(et)
	if b, ok := under(et).(*types.Basic); ok && b.Kind() == types.Uint8 {
		n := App("str.len", x)
		a := SymArr(st.fresh("strb"), SArr(SInt, SInt), big0(0), big0(255), nil)
		k := Bound("sbk", SInt)
		st.assume(Forall([]*Term{k}, Eq(Select(a, k), App("str.at", x, k)), []*Term{Select(a, k)}))
		st.assume(Eq(App("str.of", a, Zero, n), x))
		if c, ok := strConsts[x.name]; ok && x.op == OSym { // what these library functions do to this very text
			detStr("strings.ToLower", SStr, SStr)
			detStr("strings.TrimSpace", SStr, SStr)
			st.assume(Eq(App("strings.ToLower", App("strings.TrimSpace", x)), StrConst(strings.ToLower(strings.TrimSpace(c)))))
		}
		st.setHeap(h, loc, a)
		return MkSlice(loc, Zero, n, n)
	}
	n := App("runes.len", x)
	st.setHeap(h, loc, App("runes.arr", x))
	return MkSlice(loc, Zero, n, n)
}

func (ex *Exec) sliceToStr(st *State, x *Term, et types.Type) Value {
	h := elemHeap(et)
	arr := Select(st.H(h), SBase(x))
	if b, ok := under(et).(*types.Basic); ok && b.Kind() == types.Uint8 {
		return App("str.of", arr, SOff(x), SLen(x))
	}
	return App("str.ofrunes", arr, SOff(x), SLen(x))
}
