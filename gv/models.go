package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type contF func(st *State, res []Value)

func (ex *Exec) call(st *State, c *ssa.Call) bool {
	args := make([]Value, 0, len(c.Call.Args))
	for _, a := range c.Call.Args {
		args = append(args, ex.val(st, a))
	}
	k := func(st *State, res []Value) {
		fr := st.top()
		if len(res) == 1 {
			fr.regs[c] = res[0]
		} else {
			fr.regs[c] = &Tup{res}
		}
		fr.ip++
		ex.push(st)
	}
	if c.Call.IsInvoke() {
		recv := ex.term(st, c.Call.Value)
		ex.check(st, Not(MkTest("inil", recv)), "safety", "method call on a nil interface: "+srcText(ex, c), posOf(ex, c))
		ex.invoke(st, recv, c.Call.Value.Type(), c.Call.Method, args, c, k)
		return false
	}
	switch f := c.Call.Value.(type) {
	case *ssa.Builtin:
		ex.builtin(st, f.Name(), args, c, k)
		return false
	}
	fv := ex.val(st, c.Call.Value)
	switch f := fv.(type) {
	case *Clo:
		ex.invokeFn(st, f.fn, args, f.binds, c, k)
		return false
	case *Term:
		if m, ok := meta[f]; ok {
			if cl, ok := m.(*Clo); ok {
				ex.invokeFn(st, cl.fn, args, cl.binds, c, k)
				return false
			}
		}
		ex.unknownFn(st, f, args, c, k)
		return false
	}
	unsupported("call of %T", fv)
	return false
}

// unknownFn: a function value supplied by the caller. It may not touch memory the package owns
// (documented assumption); its result is arbitrary. Its invocation is recorded in the CALLS ghost.
func (ex *Exec) unknownFn(st *State, f *Term, args []Value, c *ssa.Call, k contF) {
	ex.check(st, Ne(Rid(f), Zero), "safety", "call of a nil function: "+srcText(ex, c), posOf(ex, c))
	ex.note("calls to function values supplied by the caller: arbitrary result, no effect on the package's memory")
	h := ghostHeap("CALLN", SLoc, SInt, big0(0), nil)
	n := Select(st.H(h), f)
	sig := under(c.Call.Value.Type()).(*types.Signature)
	for i := 0; i < sig.Params().Len() && i < len(args); i++ {
		a := ex.asTerm(st, args[i], sig.Params().At(i).Type())
		hh := ghostHeap(fmt.Sprintf("CALLA%d:%s", i, a.sort.name), SLoc, SArr(SInt, a.sort), nil, nil)
		st.setHeap(hh, f, Store(Select(st.H(hh), f), n, a))
	}
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		r := st.freshValue(sig.Results().At(i).Type(), "cb")
		if t, ok := r.(*Term); ok {
			hh := ghostHeap(fmt.Sprintf("CALLR%d:%s", i, t.sort.name), SLoc, SArr(SInt, t.sort), nil, nil)
			st.setHeap(hh, f, Store(Select(st.H(hh), f), n, t))
		}
		res = append(res, r)
	}
	st.setHeap(h, f, Add(n, One))
	k(st, res)
}

func (ex *Exec) note(s string) { ex.trusted[s] = true }

// ---- interface method calls

func (ex *Exec) invoke(st *State, recv *Term, it types.Type, m *types.Func, args []Value, c *ssa.Call, k contF) {
	if t := dynType(recv); t != nil && t != opaqueErr {
		ex.invokeDyn(st, recv, t, m, args, c, k)
		return
	}
	if impls := sealedImpls(it); impls != nil {
		for _, t := range impls {
			is := ifaceIs(recv, t)
			if !ex.feasible(st, is) {
				continue
			}
			o := st.clone()
			o.add(is, true)
			ex.invokeDyn(o, recv, t, m, args, c, k)
		}
		return
	}
	name := m.Name()
	switch name {
	case "Write":
		ex.ioWrite(st, recv, args[0].(*Term), k)
		return
	case "Read":
		unsupported("direct Read on an unknown reader")
	case "Seek":
		if n, ok := it.(*types.Named); ok && n.Obj().Name() == "WriteSeeker" {
			ex.seekIsWrite = true
		}
		ex.ioSeek(st, recv, args[0].(*Term), args[1].(*Term), k)
		ex.seekIsWrite = false
		return
	case "Size":
		r := st.freshInt("size", nil, nil)
		lo, hi := intRange(types.Typ[types.Int64])
		st.assume(And(Le(BI(lo), r), Le(r, BI(hi))))
		key := recv
		if m, ok := meta[recv]; ok {
			if f, ok := m.(*fileInfo); ok {
				key = f.key
			}
		}
		st.assume(Implies(Select(st.H(streamHeap("rrel")), key), Eq(r, Select(st.H(streamHeap("rsize")), key))))
		k(st, []Value{r})
		return
	}
	sig := m.Type().(*types.Signature)
	p := m.FullName()
	if havocMethods[p] {
		ex.note("results of " + p + " are arbitrary")
		k(st, ex.freshResults(st, sig))
		return
	}
	unsupported("method call %s on an unknown implementation", p)
}

type fileInfo struct{ key *Term }

var opaqueErr types.Type

var havocMethods = map[string]bool{
	"(image.Image).At": true, "(image.Image).Bounds": true, "(image.Image).ColorModel": true,
}

func (ex *Exec) freshResults(st *State, sig *types.Signature) []Value {
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, st.freshValue(sig.Results().At(i).Type(), "res"))
	}
	return res
}

func (ex *Exec) invokeDyn(st *State, recv *Term, t types.Type, m *types.Func, args []Value, c *ssa.Call, k contF) {
	sel := ex.prog.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		unsupported("no method %s on %s", m.Name(), t)
	}
	fn := ex.prog.prog.MethodValue(sel)
	v := ex.unbox(st, recv, t)
	ex.invokeFn(st, fn, append([]Value{v}, args...), nil, c, k)
}

// ---- function calls

func (ex *Exec) invokeFn(st *State, fn *ssa.Function, args []Value, binds []Value, c *ssa.Call, k contF) {
	name := shortFn(fn)
	con := ex.specs.contracts[name]
	if con != nil && !con.inline && fn.Blocks != nil {
		ex.applyContract(st, fn, con, args, c, k)
		return
	}
	if m := extModels[fn.String()]; m != nil {
		ex.models[fn.String()]++
		m(ex, st, args, c, k)
		return
	}
	if why, ok := havocFns[fn.String()]; ok {
		ex.note(why)
		k(st, ex.freshResults(st, fn.Signature))
		return
	}
	inl := fn.Blocks != nil && (fn.Pkg != nil && repoPkg(fn.Pkg.Pkg) || fn.Synthetic != "" || fn.Parent() != nil || inlineExt[fn.String()])
	if !inl {
		unsupported("call of %s (no model)", fn)
	}
	depth, again := 0, 0
	for _, f := range st.frames {
		if f.fn == fn {
			again++
		}
		if again > 4 {
			unsupported("recursive call of %s, which has no contract", name)
		}
		depth++
	}
	if depth > 40 {
		unsupported("inlining depth")
	}
	ex.inlined[name] = true
	ex.pushFrame(st, fn, args, binds, k)
	ex.push(st)
}

func (ex *Exec) pushFrame(st *State, fn *ssa.Function, args, binds []Value, k contF) *Frame {
	fr := &Frame{fn: fn, regs: map[ssa.Value]Value{}, binds: binds, block: fn.Blocks[0], names: map[string]NameRef{}, args: args, alloc0: st.alloc}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
		fr.names[p.Name()] = NameRef{args[i], false, p.Type()}
	}
	for i, p := range fn.FreeVars {
		fr.names[p.Name()] = NameRef{binds[i], true, p.Type()}
	}
	fr.ret = func(st *State, res []Value) { k(st, res) }
	fr.entry = &State{heaps: copyHeaps(st.heaps)}
	if con := ex.specs.contracts[shortFn(fn)]; con != nil {
		fr.con = con
	}
	st.frames = append(st.frames, fr)
	return fr
}

func copyHeaps(h map[string]*Term) map[string]*Term {
	n := make(map[string]*Term, len(h))
	for k, v := range h {
		n[k] = v
	}
	return n
}

// ---- contracts at call sites

func (ex *Exec) conEnv(st *State, fn *ssa.Function, args []Value) *Env {
	e := ex.env(st, fnPkg(fn))
	for i, p := range fn.Params {
		e.vars[p.Name()] = SV{args[i], p.Type()}
	}
	return e
}

type modLoc struct {
	heap string
	loc  *Term // nil: every place
	rid  *Term // any place of the object with this root
}

func callPos(ex *Exec, c *ssa.Call) string {
	if c == nil {
		return ""
	}
	return posOf(ex, c)
}

func (ex *Exec) applyContract(st *State, fn *ssa.Function, con *Contract, args []Value, c *ssa.Call, k contF) {
	defer specGuard("contract of " + con.name)
	ex.usedContracts[con.name] = con
	for i, p := range fn.Params {
		if lv, ok := args[i].(*LV); ok && lv.idx != nil {
			_ = p
		}
	}
	e := ex.conEnv(st, fn, args)
	e.alloc0 = st.alloc
	old := &State{heaps: copyHeaps(st.heaps), alloc: st.alloc}
	e.old = old
	for i, p := range fn.Params {
		if nn := recvNonNil(fn, i, args[i]); nn != nil {
			ex.check(st, nn, "safety", "receiver of "+con.name+" is not nil", callPos(ex, c))
		}
		_ = p
	}
	for _, r := range ex.active(con.requires) {
		ex.check(st, e.bool(r.e), "requires", "precondition of "+con.name+": "+r.label, callPos(ex, c))
	}
	if con.decreases != nil && ex.con != nil && ex.con.decreases != nil {
		m := e.term(con.decreases)
		e0 := ex.conEnv(st, ex.target, st.frames[0].args)
		var m0 *Term
		e0.inState(st.frames[0].entry, func() { m0 = e0.term(ex.con.decreases) })
		ex.check(st, And(Le(Zero, m), Lt(m, m0)), "variant", "recursion measure decreases: "+exprStr(con.decreases), callPos(ex, c))
	}
	mods := ex.modLocs(e, con)
	// what the call may change
	alloc0 := st.alloc
	saved := st.scope
	st.cnt++
	st.scope = fmt.Sprintf("%sc%d:", saved, st.cnt)
	na := SymR(st.scope+"alloc", alloc0.lo, nil)
	st.assume(Le(alloc0, na))
	if !con.pure {
		st.alloc = na
	}
	if con.modAny {
		unsupported("contract of %s modifies everything", con.name)
	}
	ex.havocMods(st, mods)
	res := ex.freshResults(st, fn.Signature)
	st.scope = saved
	e.setResults(fn, res)
	for _, cl := range ex.active(con.ensures) {
		st.assume(e.bool(cl.e))
	}
	for _, cl := range ex.active(con.assumes) {
		ex.note("assumed about " + con.name + ": " + cl.label)
		st.assume(e.bool(cl.e))
	}
	k(st, res)
}

func (e *Env) setResults(fn *ssa.Function, res []Value) {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		sv := SV{res[i], rs.At(i).Type()}
		if n := rs.At(i).Name(); n != "" && n != "_" {
			e.vars[n] = sv
		}
		e.vars[fmt.Sprintf("result%d", i)] = sv
		if types.TypeString(rs.At(i).Type(), nil) == "error" && i == rs.Len()-1 {
			e.vars["err"] = sv
		}
	}
	if rs.Len() >= 1 {
		e.vars["result"] = SV{res[0], rs.At(0).Type()}
	}
}

func specGuard(where string) {
	if r := recover(); r != nil {
		if e, ok := r.(specErr); ok {
			unsupported("%s: %s", where, e.msg)
		}
		panic(r)
	}
}

func (ex *Exec) modLocs(e *Env, con *Contract) []modLoc {
	var out []modLoc
	for _, m := range con.modifies {
		out = append(out, ex.modExpr(e, m)...)
	}
	return out
}

func (ex *Exec) structLocs(loc *Term, t types.Type) []modLoc {
	var out []modLoc
	if isStreamType(t) {
		for _, n := range []string{"wdata", "wlen", "werr"} {
			out = append(out, modLoc{heap: streamHeap(n), loc: Ctor("iloc", tagOf(types.NewPointer(t)), loc)})
		}
		return out
	}
	for _, l := range leavesOf(t) {
		out = append(out, modLoc{heap: l.heap, loc: l.locOf(loc)})
	}
	return out
}

func isStreamType(t types.Type) bool {
	s := types.TypeString(t, nil)
	return s == "bytes.Buffer"
}

func (ex *Exec) modExpr(e *Env, m *Expr) []modLoc {
	if m.kind == "call" && m.args[0].kind == "id" {
		switch m.args[0].op {
		case "stream": // what a writer has received
			k := e.ifaceKey(e.eval(m.args[1]))
			return []modLoc{{heap: streamHeap("wdata"), loc: k}, {heap: streamHeap("wlen"), loc: k}, {heap: streamHeap("werr"), loc: k}}
		case "reader":
			k := e.ifaceKey(e.eval(m.args[1]))
			return []modLoc{{heap: streamHeap("rpos"), loc: k}, {heap: streamHeap("rerr"), loc: k}}
		case "elems":
			v := e.eval(m.args[1])
			et := under(v.t).(*types.Slice).Elem()
			s := e.asT(v, m.args[1])
			if _, ok := under(et).(*types.Struct); ok {
				var out []modLoc
				for _, l := range leavesOf(et) {
					out = append(out, modLoc{heap: l.heap, rid: Rid(SBase(s))})
				}
				return out
			}
			return []modLoc{{heap: elemHeap(et), loc: SBase(s)}}
		case "mapof":
			v := e.eval(m.args[1])
			mt := under(v.t).(*types.Map)
			l := e.asT(v, m.args[1])
			d, vh, ln := mapHeaps(mt)
			return []modLoc{{heap: d, loc: l}, {heap: vh, loc: l}, {heap: ln, loc: l}}
		case "everymap":
			t := e.goTypeExpr(m.args[1])
			d, vh, ln := mapHeaps(under(t).(*types.Map))
			return []modLoc{{heap: d}, {heap: vh}, {heap: ln}}
		case "every": // a field of all objects of a type
			x := m.args[1]
			if x.kind == "sel" {
				t := e.goType(exprStr(x.args[0]))
				if t != nil {
					u := under(t).(*types.Struct)
					for i := 0; i < u.NumFields(); i++ {
						if u.Field(i).Name() == x.op {
							ft := u.Field(i).Type()
							if isScalar(ft) {
								return []modLoc{{heap: fieldHeap(t, i)}}
							}
							var out []modLoc
							for _, l := range leavesOf(t) {
								if len(l.path) > 0 && l.path[0].i == i {
									out = append(out, modLoc{heap: l.heap})
								}
							}
							return out
						}
					}
				}
			}
			if x.kind == "type" {
				if t := e.goType(x.op); t != nil {
					if sl, ok := under(t).(*types.Slice); ok {
						if isScalar(sl.Elem()) {
							return []modLoc{{heap: elemHeap(sl.Elem())}}
						}
						var out []modLoc
						for _, l := range leavesOf(sl.Elem()) {
							out = append(out, modLoc{heap: l.heap})
						}
						return out
					}
				}
			}
			specFail("every(%s)", exprStr(x))
		case "calls":
			f := e.asT(e.eval(m.args[1]), m.args[1])
			out := []modLoc{{heap: ghostHeap("CALLN", SLoc, SInt, big0(0), nil), loc: f}}
			v := e.eval(m.args[1])
			sig := under(v.t).(*types.Signature)
			for i := 0; i < sig.Params().Len(); i++ {
				s := sortOf(sig.Params().At(i).Type())
				out = append(out, modLoc{heap: ghostHeap(fmt.Sprintf("CALLA%d:%s", i, s.name), SLoc, SArr(SInt, s), nil, nil), loc: f})
			}
			for i := 0; i < sig.Results().Len(); i++ {
				s := sortOf(sig.Results().At(i).Type())
				out = append(out, modLoc{heap: ghostHeap(fmt.Sprintf("CALLR%d:%s", i, s.name), SLoc, SArr(SInt, s), nil, nil), loc: f})
			}
			return out
		}
	}
	if m.kind == "un" && m.op == "*" {
		v := e.eval(m.args[0])
		p, ok := under(v.t).(*types.Pointer)
		if !ok {
			specFail("modifies %s", exprStr(m))
		}
		switch x := v.v.(type) {
		case *LV:
			return []modLoc{{heap: x.heap, loc: x.loc}}
		case *Term:
			if mm, ok := meta[x]; ok {
				if lv, ok := mm.(*LV); ok {
					return []modLoc{{heap: lv.heap, loc: lv.loc}}
				}
			}
			if isScalar(p.Elem()) {
				return []modLoc{{heap: cellHeap(p.Elem()), loc: x}}
			}
			return ex.structLocs(x, p.Elem())
		}
	}
	if m.kind == "sel" {
		b := e.eval(m.args[0])
		var loc *Term
		t := b.t
		switch x := b.v.(type) {
		case *Ref:
			loc = x.loc
		case *Term:
			if p, ok := under(t).(*types.Pointer); ok {
				loc = x
				t = p.Elem()
			}
		}
		if loc != nil {
			u := under(t).(*types.Struct)
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == m.op {
					switch p := fieldPtr(loc, t, i).(type) {
					case *LV:
						return []modLoc{{heap: p.heap, loc: p.loc}}
					case *Term:
						switch w := under(u.Field(i).Type()).(type) {
						case *types.Struct:
							return ex.structLocs(p, u.Field(i).Type())
						case *types.Array:
							return []modLoc{{heap: elemHeap(w.Elem()), loc: p}}
						}
					}
				}
			}
		}
	}
	specFail("modifies %s is not understood", exprStr(m))
	return nil
}

func (e *Env) goTypeExpr(x *Expr) types.Type {
	w := strings.NewReplacer(" ", "", "(", "", ")", "").Replace(exprStr(x))
	t := e.goType(w)
	if t == nil {
		specFail("unknown type %s", exprStr(x))
	}
	return t
}

func (ex *Exec) havocMods(st *State, mods []modLoc) {
	done := map[string]bool{}
	for _, m := range mods {
		hi := heapTab[m.heap]
		switch {
		case m.loc == nil && m.rid == nil:
			if done[m.heap] {
				continue
			}
			done[m.heap] = true
			st.heaps[m.heap] = heapSym(st.scope+"H:"+m.heap, hi, st.alloc)
			st.noteWrite(m.heap, nil)
		case m.rid != nil:
			f := heapSym(fmt.Sprintf("%sHr%d:%s", st.scope, m.rid.id, m.heap), hi, st.alloc)
			st.heaps[m.heap] = Frm(st.H(m.heap), f, m.rid)
			st.noteWrite(m.heap, MkLoc(m.rid, SymR(st.scope+"anyidx", nil, nil), SymR(st.scope+"anyfk", nil, nil)))
		default:
			v := st.freshOf(fmt.Sprintf("m%s%d", m.heap, m.loc.id), hi.sort.v, hi)
			st.heaps[m.heap] = Store(st.H(m.heap), m.loc, v)
			st.noteWrite(m.heap, m.loc)
		}
	}
}

// ---- builtins

func (ex *Exec) builtin(st *State, name string, args []Value, c *ssa.Call, k contF) {
	switch name {
	case "len", "cap":
		t := c.Call.Args[0].Type()
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		}
		if at, ok := under(t).(*types.Array); ok {
			k(st, []Value{I(at.Len())})
			return
		}
		x := ex.asTerm(st, args[0], t)
		switch x.sort {
		case SSlice:
			if name == "cap" {
				k(st, []Value{SCap(x)})
				return
			}
			st.assume(And(Le(Zero, SLen(x)), Le(SLen(x), SCap(x))))
			k(st, []Value{SLen(x)})
			return
		case SStr:
			k(st, []Value{App("str.len", x)})
			return
		case SLoc:
			mt := under(t).(*types.Map)
			k(st, []Value{Ite(Eq(Rid(x), Zero), Zero, ex.mapLen(st, mt, x))})
			return
		}
	case "append":
		ex.append(st, args, c, k)
		return
	case "copy":
		d := ex.asTerm(st, args[0], nil)
		s := ex.asTerm(st, args[1], nil)
		et := under(c.Call.Args[0].Type()).(*types.Slice).Elem()
		if s.sort != SSlice {
			unsupported("copy from a string")
		}
		if _, ok := under(et).(*types.Struct); ok {
			unsupported("copy of structs")
		}
		n := Ite(Le(SLen(d), SLen(s)), SLen(d), SLen(s))
		h := elemHeap(et)
		da, sa := Select(st.H(h), SBase(d)), Select(st.H(h), SBase(s))
		st.setHeap(h, SBase(d), Cpy(da, SOff(d), sa, SOff(s), n))
		k(st, []Value{n})
		return
	case "delete":
		mt := under(c.Call.Args[0].Type()).(*types.Map)
		m := args[0].(*Term)
		if ex.feasible(st, Eq(Rid(m), Zero)) {
			o := st.clone()
			o.add(Eq(Rid(m), Zero), true)
			k(o, nil)
			if !ex.feasible(st, Ne(Rid(m), Zero)) {
				return
			}
			st.add(Ne(Rid(m), Zero), true)
		}
		ex.mapDelete(st, mt, m, ex.asTerm(st, args[1], mt.Key()))
		k(st, nil)
		return
	}
	unsupported("builtin %s", name)
}

// capFacts relates a slice's length, capacity and offset.
func capFacts(st *State, s *Term) {
	if s.op == OSym || s.op == OSelect || s.op == OSel {
		st.assume(And(Le(Zero, SLen(s)), Le(SLen(s), SCap(s)), Implies(Eq(Rid(SBase(s)), Zero), Eq(SCap(s), Zero))))
	}
}

func (ex *Exec) append(st *State, args []Value, c *ssa.Call, k contF) {
	s := ex.asTerm(st, args[0], nil)
	t := ex.asTerm(st, args[1], nil)
	et := under(c.Type()).(*types.Slice).Elem()
	if t.sort == SStr {
		unsupported("append of a string")
	}
	capFacts(st, s)
	capFacts(st, t)
	n := SLen(t)
	if n == Zero {
		k(st, []Value{s})
		return
	}
	nl := Add(SLen(s), n)
	fits := Le(nl, SCap(s))
	grow := Not(fits)
	// no room: a new array
	fg := ex.feasible(st, grow)
	ff := ex.feasible(st, fits)
	if fg {
		o := st
		if ff {
			o = st.clone()
			o.add(grow, true)
		}
		loc := o.newRoot()
		cp := o.freshInt("cap", big0(0), nil)
		o.assume(Le(nl, cp))
		ex.copyElems(o, et, loc, Zero, SBase(s), SOff(s), SLen(s), true)
		ex.copyElems(o, et, loc, SLen(s), SBase(t), SOff(t), n, false)
		r := MkSlice(loc, Zero, nl, cp)
		if !ff {
			k(o, []Value{r})
			return
		}
		k(o, []Value{r})
	}
	if ff {
		st.add(fits, true)
		ex.copyElems(st, et, SBase(s), Add(SOff(s), SLen(s)), SBase(t), SOff(t), n, false)
		k(st, []Value{MkSlice(SBase(s), SOff(s), nl, SCap(s))})
	}
}

// copyElems copies n elements between backing arrays.
func (ex *Exec) copyElems(st *State, et types.Type, dst, dpos, src, spos, n *Term, fresh bool) {
	if _, ok := under(et).(*types.Struct); ok {
		if n.isConst() && n.val.IsInt64() && n.int64() <= 4 {
			for i := int64(0); i < n.int64(); i++ {
				v := ex.load(st, elemLoc(src, Add(spos, I(i))), et)
				ex.store(st, elemLoc(dst, Add(dpos, I(i))), et, v)
			}
			return
		}
		if !fresh {
			unsupported("append of several structs")
		}
		for _, l := range leavesOf(et) {
			hi := heapTab[l.heap]
			f := heapSym(st.fresh("gc:"+l.heap), hi, st.alloc)
			i := Bound("gci", SInt)
			d := l.locOf(elemLoc(dst, Add(dpos, i)))
			s := l.locOf(elemLoc(src, Add(spos, i)))
			st.assume(Forall([]*Term{i}, Implies(And(Le(Zero, i), Lt(i, n)), Eq(Select(f, d), Select(st.H(l.heap), s))), []*Term{Select(f, d)}))
			st.heaps[l.heap] = Frm(st.H(l.heap), f, Rid(dst))
			st.noteWrite(l.heap, dst)
		}
		return
	}
	h := elemHeap(et)
	sa := Select(st.H(h), src)
	var da *Term
	if fresh {
		da = ConstArr(heapTab[h].sort.v, zeroTerm(sortOf(et)))
	} else {
		da = Select(st.H(h), dst)
	}
	st.setHeap(h, dst, Cpy(da, dpos, sa, spos, n))
}

// ---- evaluating a small side-effect-free function on given arguments

func (ex *Exec) evalPure(st *State, fn *ssa.Function, args, binds []Value) *Term {
	type pr struct {
		c *Term
		v *Term
	}
	var rs []pr
	base := st.clone()
	n0 := 0
	if base.pc != nil {
		n0 = base.pc.n
	}
	bad := false
	ex.sub(func() {
		s := base
		ex.silent++
		ex.pushFrame(s, fn, args, binds, func(st *State, res []Value) {
			for _, f := range st.frames {
				_ = f
			}
			var cs []*Term
			for p := st.pc; p != nil && p.n > n0; p = p.prev {
				if p.branch {
					cs = append(cs, p.t)
				}
			}
			t, ok := res[0].(*Term)
			if !ok {
				bad = true
				return
			}
			rs = append(rs, pr{And(cs...), t})
		})
		ex.push(s)
		ex.runAll()
		ex.silent--
	})
	if bad || len(rs) == 0 {
		unsupported("cannot evaluate %s as a formula", fn)
	}
	r := rs[len(rs)-1].v
	for i := len(rs) - 2; i >= 0; i-- {
		r = Ite(rs[i].c, rs[i].v, r)
	}
	return r
}

// generalise evaluates fn on fresh integers and returns the result as a function of them.
func (ex *Exec) predOf(st *State, f Value, n int, facts func(xs []*Term) *Term) func(xs ...*Term) *Term {
	cl, ok := f.(*Clo)
	if !ok {
		if t, isT := f.(*Term); isT {
			if m, has := meta[t]; has {
				cl, ok = m.(*Clo)
			}
		}
		if !ok {
			unsupported("function argument is not a literal")
		}
	}
	var xs []*Term
	var as []Value
	for i := 0; i < n; i++ {
		x := SymR(st.fresh("px"), nil, nil)
		xs = append(xs, x)
		as = append(as, x)
	}
	s := st.clone()
	s.assume(facts(xs))
	// safety of the body for every index in range
	chk := s.clone()
	ex.sub(func() {
		ex.pushFrame(chk, cl.fn, as, cl.binds, func(st *State, res []Value) {})
		ex.push(chk)
	})
	r := ex.evalPure(s, cl.fn, as, cl.binds)
	return func(ys ...*Term) *Term {
		m := map[*Term]*Term{}
		for i := range xs {
			m[xs[i]] = ys[i]
		}
		return subst(r, m)
	}
}

func inRange(n *Term, xs ...*Term) *Term {
	var cs []*Term
	for _, x := range xs {
		cs = append(cs, Le(Zero, x), Lt(x, n))
	}
	return And(cs...)
}

// permute replaces the elements of s by a permutation of them and returns the bijection.
func (ex *Exec) permute(st *State, s *Term, et types.Type) (pi, pinv *Term) {
	n := SLen(s)
	pi = SymArr(st.fresh("pi"), SArr(SInt, SInt), nil, nil, nil)
	pinv = SymArr(st.fresh("pinv"), SArr(SInt, SInt), nil, nil, nil)
	i := Bound("pmi", SInt)
	o := SOff(s)
	if _, ok := under(et).(*types.Struct); ok {
		st.assume(Forall([]*Term{i}, Implies(inRange(n, i), And(inRange(n, Select(pi, i)), Eq(Select(pinv, Select(pi, i)), i))), []*Term{Select(pi, i)}))
		st.assume(Forall([]*Term{i}, Implies(inRange(n, i), And(inRange(n, Select(pinv, i)), Eq(Select(pi, Select(pinv, i)), i))), []*Term{Select(pinv, i)}))
		base := elemLoc(SBase(s), o)
		for _, l := range leavesOf(et) {
			hi := heapTab[l.heap]
			f := heapSym(st.fresh("perm:"+l.heap), hi, st.alloc)
			d := Select(f, l.locOf(elemLoc(base, i)))
			sv := Select(st.H(l.heap), l.locOf(elemLoc(base, Select(pi, i))))
			st.assume(Forall([]*Term{i}, Implies(inRange(n, i), Eq(d, sv)), []*Term{d}))
			j := Bound("pmj", SInt)
			dj := Select(f, l.locOf(elemLoc(SBase(s), j)))
			st.assume(Forall([]*Term{j}, Implies(Or(Lt(j, o), Ge(j, Add(o, n))), Eq(dj, Select(st.H(l.heap), l.locOf(elemLoc(SBase(s), j))))), []*Term{dj}))
			st.heaps[l.heap] = Frm(st.H(l.heap), f, Rid(SBase(s)))
			st.noteWrite(l.heap, SBase(s))
		}
		return
	}
	h := elemHeap(et)
	oa := Select(st.H(h), SBase(s))
	na := st.freshOf("sorted", heapTab[h].sort.v, heapTab[h])
	sel := func(a, x *Term) *Term { return Select(a, Add(o, x)) }
	f1 := Implies(inRange(n, i), And(inRange(n, Select(pi, i)), Eq(Select(pinv, Select(pi, i)), i), Eq(sel(na, i), sel(oa, Select(pi, i)))))
	f2 := Implies(inRange(n, i), And(inRange(n, Select(pinv, i)), Eq(Select(pi, Select(pinv, i)), i), Eq(sel(oa, i), sel(na, Select(pinv, i)))))
	st.assume(Forall([]*Term{i}, f1, []*Term{sel(na, i)}))
	st.assume(Forall([]*Term{i}, f1, []*Term{Select(pi, i)}))
	st.assume(Forall([]*Term{i}, f2, []*Term{Select(pinv, i)}))
	if t := sel(oa, i); t.op == OSelect {
		st.assume(Forall([]*Term{i}, f2, []*Term{t}))
	}
	if f := sealedFact(sel(na, i), et); f != nil {
		st.assume(Forall([]*Term{i}, Implies(inRange(n, i), f), []*Term{sel(na, i)}))
		if t := sel(oa, i); t.op == OSelect {
			st.assume(Forall([]*Term{i}, Implies(inRange(n, i), sealedFact(t, et)), []*Term{t}))
		}
	}
	j := Bound("pmj", SInt)
	st.assume(Forall([]*Term{j}, Implies(Or(Lt(j, o), Ge(j, Add(o, n))), Eq(Select(na, j), Select(oa, j))), []*Term{Select(na, j)}))
	st.setHeap(h, SBase(s), na)
	return
}

func sortedFact(n *Term, less func(xs ...*Term) *Term, trig func(x *Term) *Term) *Term {
	i, j := Bound("soi", SInt), Bound("soj", SInt)
	return Forall([]*Term{i, j}, Implies(And(Le(Zero, i), Lt(i, j), Lt(j, n)), Not(less(j, i))), []*Term{trig(i), trig(j)})
}

// strictWeak: the obligation that less is a strict weak ordering of the elements.
func (ex *Exec) strictWeak(st *State, n *Term, elem func(i *Term) *Term, et types.Type, less func(xs ...*Term) *Term, pos string) {
	a, b, c := SymR(st.fresh("wa"), nil, nil), SymR(st.fresh("wb"), nil, nil), SymR(st.fresh("wc"), nil, nil)
	s := st.clone()
	s.assume(inRange(n, a, b, c))
	if elem != nil {
		for _, x := range []*Term{a, b, c} {
			if f := sealedFact(elem(x), et); f != nil {
				s.assume(f)
			}
		}
	}
	ex.check(s.clone(), Not(less(a, a)), "model", "sort order is irreflexive", pos)
	ex.check(s.clone(), Implies(And(less(a, b), less(b, c)), less(a, c)), "model", "sort order is transitive", pos)
	ex.check(s.clone(), Implies(less(a, c), Or(less(a, b), less(b, c))), "model", "sort order is a weak order", pos)
}

func sortKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = token.ADD
var _ = strings.Contains
