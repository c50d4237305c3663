package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of functions outside the repository. Each is an assumption (see DESIGN.md).

type modelFn func(ex *Exec, st *State, args []Value, c *ssa.Call, k contF)

var havocFns = map[string]string{
	"(*text/template.Template).Execute": "text/template: Execute may write anything or fail",
	"image.DecodeConfig":                "image.DecodeConfig: arbitrary result",
}

var inlineExt = map[string]bool{
	"(image.Rectangle).Empty": true, "(image.Rectangle).Size": true, "(image.Rectangle).Dx": true, "(image.Rectangle).Dy": true,
	"(image.Point).X": true, "(encoding/binary.littleEndian).Uint16": true, "(encoding/binary.littleEndian).Uint32": true,
	"(encoding/binary.littleEndian).PutUint16": true, "(encoding/binary.littleEndian).PutUint32": true,
}

var byteT = types.Typ[types.Uint8]

func byteArrZero() *Term { return ConstArr(SArr(SInt, SInt), Zero) }

// newErr is a fresh non-nil error.
func newErr(st *State) *Term { return Ctor("iloc", errorTag, st.newRoot()) }

var eofErr = func() *Term { return globalErr("io.EOF") }
var ueofErr = func() *Term { return globalErr("io.ErrUnexpectedEOF") }

func bytesSlice(st *State, arr, off, n *Term) *Term {
	loc := st.newRoot()
	h := elemHeap(byteT)
	if off == Zero {
		st.setHeap(h, loc, arr)
	} else {
		st.setHeap(h, loc, Cpy(byteArrZero(), Zero, arr, off, n))
	}
	cp := st.freshInt("cap", big0(0), nil)
	st.assume(Le(n, cp))
	return MkSlice(loc, Zero, n, cp)
}

func (ex *Exec) sliceBytes(st *State, s *Term) (arr, off, n *Term) {
	return Select(st.H(elemHeap(byteT)), SBase(s)), SOff(s), SLen(s)
}

// streamAppend: the writer accepted n bytes.
func (ex *Exec) streamAppend(st *State, key, arr, off, n *Term) {
	wd, wl := streamHeap("wdata"), streamHeap("wlen")
	l := Select(st.H(wl), key)
	st.setHeap(wd, key, Cpy(Select(st.H(wd), key), l, arr, off, n))
	st.setHeap(wl, key, Add(l, n))
}

// writerKind: what is known about a writer's dynamic type.
func streamKeyOf(w *Term) *Term { return w }

// writeTo calls w.Write(p).
func (ex *Exec) writeTo(st *State, w, p *Term, c *ssa.Call, k contF) {
	if t := dynType(w); t != nil {
		sel := ex.prog.prog.MethodSets.MethodSet(t).Lookup(nil, "Write")
		if sel == nil {
			unsupported("no Write on %s", t)
		}
		fn := ex.prog.prog.MethodValue(sel)
		ex.invokeFn(st, fn, []Value{ex.unbox(st, w, t), p}, nil, c, k)
		return
	}
	ex.ioWrite(st, w, p, k)
}

// ioWrite: an unknown writer accepts everything, or reports an error (io.Writer's documented contract).
func (ex *Exec) ioWrite(st *State, w, p *Term, k contF) {
	ex.note("io.Writer supplied by the caller: accepts all bytes or returns a non-nil error (the documented contract); does not touch the package's memory")
	capFacts(st, p)
	arr, off, n := ex.sliceBytes(st, p)
	o := st.clone()
	st.ghost["io"] = nil
	ex.streamAppend(st, w, arr, off, n)
	// failure
	ex.writeFails(o, w)
	m := o.freshInt("wn", big0(0), nil)
	o.assume(Le(m, n))
	k(o, []Value{m, newErr(o)})
	k(st, []Value{n, INil})
}

func (ex *Exec) writeFails(o *State, w *Term) {
	o.setHeap(streamHeap("werr"), w, TTrue)
	wd, wl := streamHeap("wdata"), streamHeap("wlen")
	o.setHeap(wd, w, o.freshOf("wd", heapTab[wd].sort.v, heapTab[wd]))
	l := o.freshInt("wl", big0(0), nil)
	o.setHeap(wl, w, l)
}

// ioSeek: Seek on an unknown reader or writer.
func (ex *Exec) ioSeek(st *State, r, off, whence *Term, k contF) {
	if !whence.isConst() {
		unsupported("Seek with a computed whence")
	}
	if ex.seekIsWrite {
		ex.seekWriter(st, r, off, k)
		return
	}
	ex.note("io.ReadSeeker supplied by the caller: either delivers a fixed content at the requested position, or returns an error; a failing Seek leaves the position unknown")
	rp, rs, rr := streamHeap("rpos"), streamHeap("rsize"), streamHeap("rrel")
	rel := Select(st.H(rr), r)
	// unreliable
	o := st.clone()
	if ex.feasible(o, Not(rel)) {
		o.add(Not(rel), true)
		n := o.freshInt("seek", big.NewInt(-1<<62), pow2(62))
		o.setHeap(rp, r, o.freshInt("rp", big0(0), nil))
		f := o.clone()
		k(o, []Value{n, INil})
		f.setHeap(streamHeap("rerr"), r, TTrue)
		k(f, []Value{f.freshInt("seek", big.NewInt(-1<<62), pow2(62)), newErr(f)})
	}
	if !ex.feasible(st, rel) {
		return
	}
	st.add(rel, true)
	var np *Term
	switch whence.int64() {
	case 0:
		np = off
	case 1:
		np = Add(Select(st.H(rp), r), off)
	default:
		st.assume(Le(Zero, Select(st.H(rs), r)))
		np = Add(Select(st.H(rs), r), off)
	}
	neg := Lt(np, Zero)
	if ex.feasible(st, neg) {
		b := st.clone()
		b.add(neg, true)
		k(b, []Value{Zero, newErr(b)})
		if !ex.feasible(st, Not(neg)) {
			return
		}
		st.add(Not(neg), true)
	}
	st.setHeap(rp, r, np)
	k(st, []Value{np, INil})
}

// seekWriter: skipping forward over bytes that were never written leaves zeros.
func (ex *Exec) seekWriter(st *State, w, off *Term, k contF) {
	ex.note("destination io.WriteSeeker: a forward Seek from the end of what was written leaves zero bytes (a new file), and a failed Seek makes the next write fail")
	o := st.clone()
	ex.streamAppend(st, w, byteArrZero(), Zero, off)
	o.setHeap(streamHeap("werr"), w, TTrue)
	ex.writeFails(o, w)
	k(o, []Value{o.freshInt("seek", nil, nil), newErr(o)})
	k(st, []Value{Select(st.H(streamHeap("wlen")), w), INil})
}

// readN models reading exactly n bytes from r (io.ReadFull). k gets the array and position of the data,
// the number of bytes delivered and the error.
func (ex *Exec) readN(st *State, r, n *Term, k func(st *State, arr, pos, got, err *Term)) {
	rp, rs, rr, rd := streamHeap("rpos"), streamHeap("rsize"), streamHeap("rrel"), streamHeap("rdata")
	rel := Select(st.H(rr), r)
	if ex.feasible(st, Not(rel)) {
		ex.note("io.ReadSeeker supplied by the caller: either delivers a fixed content at the requested position, or returns an error; a failing Seek leaves the position unknown")
		o := st
		if ex.feasible(st, rel) {
			o = st.clone()
			o.add(Not(rel), true)
		} else {
			st = nil
		}
		b := o.clone()
		// success
		o.setHeap(rp, r, o.freshInt("rp", big0(0), nil))
		data := SymArr(o.fresh("rdat"), SArr(SInt, SInt), big0(0), big0(255), nil)
		k(o, data, Zero, n, INil)
		// failure
		pos := Gt(n, Zero)
		if ex.feasible(b, pos) {
			b.add(pos, true)
			b.setHeap(rp, r, b.freshInt("rp", big0(0), nil))
			b.setHeap(streamHeap("rerr"), r, TTrue)
			got := b.freshInt("got", big0(0), nil)
			b.assume(Lt(got, n))
			e := newErr(b)
			// io.EOF only when nothing was read
			ek := b.freshBool("eof")
			err := Ite(And(ek, Eq(got, Zero)), eofErr(), e)
			b.assume(Ne(e, eofErr()))
			k(b, SymArr(b.fresh("rdat"), SArr(SInt, SInt), big0(0), big0(255), nil), Zero, got, err)
		}
		if st == nil {
			return
		}
	}
	st.add(rel, true)
	pos := Select(st.H(rp), r)
	size := Select(st.H(rs), r)
	data := Select(st.H(rd), r)
	st.assume(And(Le(Zero, size), Le(Zero, pos)))
	if n == Zero {
		k(st, data, pos, Zero, INil)
		return
	}
	ok := Or(Le(Add(pos, n), size), Eq(n, Zero))
	if ex.feasible(st, Not(ok)) {
		b := st.clone()
		b.add(Not(ok), true)
		b.setHeap(streamHeap("rerr"), r, TTrue)
		av := Sub(size, pos)
		b.setHeap(rp, r, Ite(Le(av, Zero), pos, size))
		k(b, data, pos, Ite(Le(av, Zero), Zero, av), Ite(Le(av, Zero), eofErr(), ueofErr()))
	}
	if !ex.feasible(st, ok) {
		return
	}
	st.add(ok, true)
	st.setHeap(rp, r, Add(pos, n))
	k(st, data, pos, n, INil)
}

// ---- binary encoding

func (ex *Exec) encSize(t types.Type) int64 {
	switch u := under(t).(type) {
	case *types.Basic:
		n, _ := bits(t)
		if u.Info()&types.IsInteger == 0 || u.Kind() == types.Int || u.Kind() == types.Uint || n%8 != 0 || n == 0 {
			return -1
		}
		return int64(n / 8)
	case *types.Struct:
		var s int64
		for i := 0; i < u.NumFields(); i++ {
			x := ex.encSize(u.Field(i).Type())
			if x < 0 {
				return -1
			}
			s += x
		}
		return s
	case *types.Array:
		x := ex.encSize(u.Elem())
		if x < 0 {
			return -1
		}
		return x * u.Len()
	}
	return -1
}

func leBytes(arr, pos *Term, n int) *Term {
	var ts []*Term
	for k := 0; k < n; k++ {
		ts = append(ts, MulC(Select(arr, Add(pos, I(int64(k)))), pow2(8*k)))
	}
	return Add(ts...)
}

func signed(x *Term, t types.Type) *Term {
	n, s := bits(t)
	if !s {
		return x
	}
	return Ite(Lt(x, BI(pow2(n-1))), x, Sub(x, BI(pow2(n))))
}

func unsignedOf(x *Term, t types.Type) *Term {
	n, s := bits(t)
	if !s {
		return x
	}
	return Ite(Lt(x, Zero), Add(x, BI(pow2(n))), x)
}

// encodeValue lists the bytes of a fixed-size value.
func (ex *Exec) encodeValue(v Value, t types.Type) []*Term {
	switch u := under(t).(type) {
	case *types.Basic:
		n := int(ex.encSize(t))
		x := unsignedOf(v.(*Term), t)
		var out []*Term
		for k := 0; k < n; k++ {
			out = append(out, MkByte(x, k))
		}
		return out
	case *types.Struct:
		var out []*Term
		tp := v.(*Tup)
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, ex.encodeValue(tp.elems[i], u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		var out []*Term
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, ex.encodeValue(Select(v.(*Term), I(i)), u.Elem())...)
		}
		return out
	}
	unsupported("binary encoding of %s", t)
	return nil
}

// packArr is the array holding the given bytes, as a function of the values encoded.
func (ex *Exec) packArr(t types.Type, v Value, bs []*Term) *Term {
	var leaves []*Term
	var rec func(v Value, t types.Type)
	rec = func(v Value, t types.Type) {
		switch u := under(t).(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(v.(*Tup).elems[i], u.Field(i).Type())
			}
		case *types.Array:
			for i := int64(0); i < u.Len(); i++ {
				rec(Select(v.(*Term), I(i)), u.Elem())
			}
		default:
			leaves = append(leaves, v.(*Term))
		}
	}
	rec(v, t)
	name := "enc:" + typeKey(t)
	if funcs[name] == nil {
		var ss []*Sort
		var sizes []int
		var lt []types.Type
		var walk func(t types.Type)
		walk = func(t types.Type) {
			switch u := under(t).(type) {
			case *types.Struct:
				for i := 0; i < u.NumFields(); i++ {
					walk(u.Field(i).Type())
				}
			case *types.Array:
				for i := int64(0); i < u.Len(); i++ {
					walk(u.Elem())
				}
			default:
				ss = append(ss, SInt)
				sizes = append(sizes, int(ex.encSize(t)))
				lt = append(lt, t)
			}
		}
		walk(t)
		f := declFun(name, SArr(SInt, SInt), ss...)
		f.inst = func(x *Term) []*Term {
			var out []*Term
			p := int64(0)
			i := Bound("enci", SInt)
			var chain *Term = nil
			type piece struct {
				p int64
				b *Term
			}
			var ps []piece
			for j, a := range x.args {
				u := unsignedOf(a, lt[j])
				for k := 0; k < sizes[j]; k++ {
					b := MkByte(u, k)
					ps = append(ps, piece{p, b})
					out = append(out, Eq(rawSelect(x, I(p)), b))
					p++
				}
			}
			chain = Zero
			for j := len(ps) - 1; j >= 0; j-- {
				chain = Ite(Eq(i, I(ps[j].p)), ps[j].b, chain)
			}
			out = append(out, Forall([]*Term{i}, And(Le(Zero, rawSelect(x, i)), Le(rawSelect(x, i), I(255)), Eq(rawSelect(x, i), chain)), []*Term{rawSelect(x, i)}))
			return out
		}
		encFns[name] = func(args []*Term) []*Term {
			var out []*Term
			for j, a := range args {
				u := unsignedOf(a, lt[j])
				for k := 0; k < sizes[j]; k++ {
					out = append(out, MkByte(u, k))
				}
			}
			return out
		}
	}
	return App(name, leaves...)
}

var encFns = map[string]func(args []*Term) []*Term{}

func rawSelect(a, i *Term) *Term {
	return intern(&Term{op: OSelect, sort: a.sort.v, args: []*Term{a, i}, lo: big0(0), hi: big0(255)})
}

// encodeAny is what binary.Write produces for the value in an interface: array and length.
func (ex *Exec) encodeAny(st *State, x *Term, k func(st *State, arr, n *Term)) {
	t := dynType(x)
	if t == nil {
		// a sealed interface passed on: split on its implementations
		var impls []types.Type
		for _, ct := range ex.sealedFor(st, x) {
			impls = append(impls, ct)
		}
		if impls == nil {
			unsupported("binary.Write of an unknown value")
		}
		for _, ct := range impls {
			is := ifaceIs(x, ct)
			if !ex.feasible(st, is) {
				continue
			}
			o := st.clone()
			o.add(is, true)
			ex.encodeTyped(o, ex.unbox(o, x, ct), ct, k)
		}
		return
	}
	ex.encodeTyped(st, ex.unbox(st, x, t), t, k)
}

// sealedFor: the implementations an interface value is known to be one of.
func (ex *Exec) sealedFor(st *State, x *Term) []types.Type {
	for p := st.pc; p != nil; p = p.prev {
		if im := sealedOf[p.t]; im != nil && im.x == x {
			return im.impls
		}
	}
	return nil
}

type sealedRec struct {
	x     *Term
	impls []types.Type
}

var sealedOf = map[*Term]*sealedRec{}

func (ex *Exec) encodeTyped(st *State, v Value, t types.Type, k func(st *State, arr, n *Term)) {
	if ex.con != nil && ex.con.anybytes {
		k0 := k
		k = func(st *State, arr, n *Term) {
			k0(st, SymArr(st.fresh("bytes"), arr.sort, big0(0), big0(255), nil), n)
		}
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		ev := ex.load(st, v, u.Elem())
		ex.encodeTyped(st, ev, u.Elem(), k)
		return
	case *types.Slice:
		s := v.(*Term)
		capFacts(st, s)
		sz := ex.encSize(u.Elem())
		if sz < 0 {
			unsupported("binary.Write of %s", t)
		}
		n := SLen(s)
		if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			arr, off, _ := ex.sliceBytes(st, s)
			if off != Zero {
				arr = Cpy(byteArrZero(), Zero, arr, off, n)
			}
			k(st, arr, n)
			return
		}
		arr := ex.encSlice(st, u.Elem(), s)
		k(st, arr, MulC(n, big0(sz)))
		return
	}
	n := ex.encSize(t)
	if n < 0 {
		unsupported("binary.Write of %s", t)
	}
	bs := ex.encodeValue(v, t)
	k(st, ex.packArr(t, v, bs), I(n))
}

// encSlice is the byte image of a slice of fixed-size elements.
func (ex *Exec) encSlice(st *State, et types.Type, s *Term) *Term {
	sz := ex.encSize(et)
	if _, ok := under(et).(*types.Basic); ok {
		name := "encs:" + typeKey(et)
		if funcs[name] == nil {
			f := declFun(name, SArr(SInt, SInt), SArr(SInt, SInt), SInt)
			f.inst = func(x *Term) []*Term {
				i := Bound("ensi", SInt)
				el := Select(x.args[0], Add(x.args[1], DivC(i, big0(sz))))
				el = unsignedOf(el, et)
				r := ModC(i, big0(sz))
				var b *Term = MkByte(el, int(sz-1))
				for q := int(sz) - 2; q >= 0; q-- {
					b = Ite(Eq(r, I(int64(q))), MkByte(el, q), b)
				}
				return []*Term{Forall([]*Term{i}, And(Eq(rawSelect(x, i), b), Le(Zero, rawSelect(x, i)), Le(rawSelect(x, i), I(255))), []*Term{rawSelect(x, i)})}
			}
		}
		return App(name, Select(st.H(elemHeap(et)), SBase(s)), SOff(s))
	}
	ls := leavesOf(et)
	name := "encs:" + typeKey(et)
	if funcs[name] == nil {
		var ss []*Sort
		for _, l := range ls {
			ss = append(ss, heapTab[l.heap].sort)
		}
		ss = append(ss, SLoc)
		f := declFun(name, SArr(SInt, SInt), ss...)
		f.inst = func(x *Term) []*Term {
			i := Bound("ensi", SInt)
			q := DivC(i, big0(sz))
			r := ModC(i, big0(sz))
			base := x.args[len(ls)]
			b := Zero
			p := sz
			for j := len(ls) - 1; j >= 0; j-- {
				l := ls[j]
				h := x.args[j]
				loc := l.locOf(elemLoc(base, q))
				if l.arr {
					at := under(l.typ).(*types.Array)
					es := ex.encSize(at.Elem())
					for m := at.Len() - 1; m >= 0; m-- {
						el := Select(Select(h, loc), I(m))
						for kk := int(es) - 1; kk >= 0; kk-- {
							p--
							b = Ite(Eq(r, I(p)), MkByte(unsignedOf(el, at.Elem()), kk), b)
						}
					}
					continue
				}
				el := unsignedOf(Select(h, loc), l.typ)
				for kk := int(ex.encSize(l.typ)) - 1; kk >= 0; kk-- {
					p--
					b = Ite(Eq(r, I(p)), MkByte(el, kk), b)
				}
			}
			return []*Term{Forall([]*Term{i}, And(Eq(rawSelect(x, i), b), Le(Zero, rawSelect(x, i)), Le(rawSelect(x, i), I(255))), []*Term{rawSelect(x, i)})}
		}
	}
	var as []*Term
	for _, l := range ls {
		as = append(as, st.H(l.heap))
	}
	as = append(as, elemLoc(SBase(s), SOff(s)))
	return App(name, as...)
}

// decodeInto stores the value of type t encoded at arr[pos..] to the place p.
func (ex *Exec) decodeValue(st *State, t types.Type, arr, pos *Term) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		return signed(leBytes(arr, pos, int(ex.encSize(t))), t)
	case *types.Struct:
		tp := &Tup{}
		for i := 0; i < u.NumFields(); i++ {
			tp.elems = append(tp.elems, ex.decodeValue(st, u.Field(i).Type(), arr, pos))
			pos = Add(pos, I(ex.encSize(u.Field(i).Type())))
		}
		return tp
	case *types.Array:
		a := ConstArr(sortOf(t), Zero)
		es := ex.encSize(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			a = Store(a, I(i), ex.decodeValue(st, u.Elem(), arr, Add(pos, I(i*es))).(*Term))
		}
		return a
	}
	unsupported("binary.Read into %s", t)
	return nil
}

// decodeSlice fills the elements of s.
func (ex *Exec) decodeSlice(st *State, et types.Type, s, arr, pos *Term) {
	sz := ex.encSize(et)
	i := Bound("dci", SInt)
	n := SLen(s)
	if _, ok := under(et).(*types.Basic); ok {
		h := elemHeap(et)
		if sz == 1 {
			a := Select(st.H(h), SBase(s))
			st.setHeap(h, SBase(s), Cpy(a, SOff(s), arr, pos, n))
			return
		}
		old := Select(st.H(h), SBase(s))
		na := st.freshOf("dec", heapTab[h].sort.v, heapTab[h])
		j := Sub(i, SOff(s))
		v := signed(leBytes(arr, Add(pos, MulC(j, big0(sz))), int(sz)), et)
		st.assume(Forall([]*Term{i}, Eq(Select(na, i), Ite(inRange(n, j), v, Select(old, i))), []*Term{Select(na, i)}))
		st.setHeap(h, SBase(s), na)
		return
	}
	off := int64(0)
	base := elemLoc(SBase(s), SOff(s))
	for _, l := range leavesOf(et) {
		hi := heapTab[l.heap]
		f := heapSym(st.fresh("dec:"+l.heap), hi, st.alloc)
		p := Add(pos, MulC(i, big0(sz)), I(off))
		loc := l.locOf(elemLoc(base, i))
		if l.arr {
			at := under(l.typ).(*types.Array)
			es := ex.encSize(at.Elem())
			for m := int64(0); m < at.Len(); m++ {
				v := signed(leBytes(arr, Add(p, I(m*es)), int(es)), at.Elem())
				t := Select(Select(f, loc), I(m))
				st.assume(Forall([]*Term{i}, Implies(inRange(n, i), Eq(t, v)), []*Term{Select(f, loc)}))
			}
			off += es * at.Len()
		} else {
			v := signed(leBytes(arr, p, int(ex.encSize(l.typ))), l.typ)
			st.assume(Forall([]*Term{i}, Implies(inRange(n, i), Eq(Select(f, loc), v)), []*Term{Select(f, loc)}))
			off += ex.encSize(l.typ)
		}
		st.heaps[l.heap] = Frm(st.H(l.heap), f, Rid(SBase(s)))
		st.noteWrite(l.heap, SBase(s))
	}
}

func (ex *Exec) binaryRead(st *State, r, x *Term, k contF) {
	t := dynType(x)
	if t == nil {
		impls := ex.sealedFor(st, x)
		if impls == nil {
			unsupported("binary.Read into an unknown value")
		}
		for _, ct := range impls {
			is := ifaceIs(x, ct)
			if !ex.feasible(st, is) {
				continue
			}
			o := st.clone()
			o.add(is, true)
			ex.binaryReadT(o, r, ex.unbox(o, x, ct), ct, k)
		}
		return
	}
	ex.binaryReadT(st, r, ex.unbox(st, x, t), t, k)
}

func (ex *Exec) binaryReadT(st *State, r *Term, v Value, t types.Type, k contF) {
	switch u := under(t).(type) {
	case *types.Pointer:
		et := u.Elem()
		if sl, ok := under(et).(*types.Slice); ok {
			s := ex.load(st, v, et).(*Term)
			capFacts(st, s)
			ex.readSlice(st, r, s, sl.Elem(), k)
			return
		}
		n := ex.encSize(et)
		if n < 0 {
			k(st, []Value{newErr(st)})
			return
		}
		ex.readN(st, r, I(n), func(st *State, arr, pos, got, err *Term) {
			if err == INil {
				ex.store(st, v, et, ex.decodeValue(st, et, arr, pos))
			}
			k(st, []Value{err})
		})
		return
	case *types.Slice:
		s := v.(*Term)
		capFacts(st, s)
		ex.readSlice(st, r, s, u.Elem(), k)
		return
	}
	k(st, []Value{newErr(st)})
}

func (ex *Exec) readSlice(st *State, r, s *Term, et types.Type, k contF) {
	sz := ex.encSize(et)
	if sz < 0 {
		unsupported("binary.Read into a slice of %s", et)
	}
	ex.readN(st, r, MulC(SLen(s), big0(sz)), func(st *State, arr, pos, got, err *Term) {
		if err == INil {
			ex.decodeSlice(st, et, s, arr, pos)
		}
		k(st, []Value{err})
	})
}

// ---- strings

func strArg(v Value) *Term { return v.(*Term) }

func detStr(name string, res *Sort, args ...*Sort) string {
	if funcs[name] == nil {
		declFun(name, res, args...)
	}
	return name
}

func init() {
	declFun("str.hasnul", SBool, SStr)
	appSimp["str.hasnul"] = func(a []*Term) *Term {
		if s, ok := strConsts[a[0].name]; ok && a[0].op == OSym {
			return B(strings.ContainsRune(s, 0))
		}
		return nil
	}
	// utf-16 form of a string
	declFun("wide.arr", SArr(SInt, SInt), SStr)
	declFun("wide.len", SInt, SStr)
	funcs["wide.len"].lo = big0(0)
	funcs["wide.len"].hi = pow2(47)
	funcs["wide.arr"].inst = func(t *Term) []*Term {
		i := Bound("wai", SInt)
		return []*Term{Forall([]*Term{i}, And(Le(Zero, rawSel16(t, i)), Le(rawSel16(t, i), I(65535))), []*Term{rawSel16(t, i)})}
	}
	// string decoded from utf-16
	declFun("unwide.arr", SArr(SInt, SInt), SArr(SInt, SInt), SInt, SInt)
	declFun("unwide.len", SInt, SArr(SInt, SInt), SInt, SInt)
	funcs["unwide.len"].lo = big0(0)
	funcs["unwide.len"].hi = pow2(47)
	funcs["unwide.len"].inst = func(t *Term) []*Term { return []*Term{Le(t, t.args[2])} }
	declFun("widen", SArr(SInt, SInt), SArr(SInt, SInt), SInt, SInt)
	declFun("widen.len", SInt, SArr(SInt, SInt), SInt, SInt)
	funcs["widen.len"].lo = big0(0)
	funcs["widen.len"].hi = pow2(47)
	declFun("fmt.num", SStr, SStr, SInt)
	declFun("fmt.num4", SStr, SStr, SInt, SInt, SInt, SInt)
}

func rawSel16(a, i *Term) *Term {
	return intern(&Term{op: OSelect, sort: a.sort.v, args: []*Term{a, i}, lo: big0(0), hi: big0(65535)})
}

// sliceOfAny is the slice inside an `any` argument.
func (ex *Exec) sliceOfAny(st *State, v Value) (*Term, types.Type) {
	x := v.(*Term)
	t := dynType(x)
	if t == nil {
		unsupported("sorting an unknown value")
	}
	s := ex.unbox(st, x, t).(*Term)
	return s, under(t).(*types.Slice).Elem()
}

func (ex *Exec) sortSlice(st *State, s *Term, et types.Type, f Value, stable bool, c *ssa.Call, k contF) {
	capFacts(st, s)
	n := SLen(s)
	facts := func(xs []*Term) *Term { return inRange(n, xs...) }
	ex.silent++ // safety of the comparison is checked on the sorted state below, which holds the same elements
	less0 := ex.predOf(st, f, 2, facts)
	ex.silent--
	if ex.con != nil && ex.con.nosafety {
		// nothing is claimed about the order here
		ex.permute(st, s, et)
		ex.note("package sort: permutes its argument")
		k(st, nil)
		return
	}
	var elem func(i *Term) *Term
	if _, ok := under(et).(*types.Struct); !ok {
		oa := Select(st.H(elemHeap(et)), SBase(s))
		elem = func(i *Term) *Term { return Select(oa, Add(SOff(s), i)) }
	}
	ex.strictWeak(st, n, elem, et, less0, posOf(ex, c))
	pi, pinv := ex.permute(st, s, et)
	less := ex.predOf(st, f, 2, facts)
	var trig func(x *Term) *Term
	if _, ok := under(et).(*types.Struct); ok {
		trig = func(x *Term) *Term { return Select(pi, x) }
	} else {
		na := Select(st.H(elemHeap(et)), SBase(s))
		trig = func(x *Term) *Term { return Select(na, Add(SOff(s), x)) }
	}
	st.assume(sortedFact(n, less, trig))
	if stable {
		i, j := Bound("sti", SInt), Bound("stj", SInt)
		st.assume(Forall([]*Term{i, j}, Implies(And(Le(Zero, i), Lt(i, j), Lt(j, n), Not(less(i, j)), Not(less(j, i))), Lt(Select(pi, i), Select(pi, j))), []*Term{Select(pi, i), Select(pi, j)}))
	}
	_ = pinv
	ex.note("package sort: sorts into a permutation ordered by the given (proved strict weak) order")
	k(st, nil)
}

var extModels map[string]func(ex *Exec, st *State, args []Value, c *ssa.Call, k contF)

func init() {
	bufKey := func(v Value) *Term { return Ctor("iloc", tagOf(types.NewPointer(bufT)), v.(*Term)) }
	rdrKey := func(v Value) *Term { return Ctor("iloc", tagOf(types.NewPointer(rdrT)), v.(*Term)) }
	strPure := func(name string, res *Sort, args ...*Sort) modelFn {
		return func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			ex.note("package strings/strconv: deterministic functions of their arguments, otherwise uninterpreted")
			detStr(name, res, args...)
			var ts []*Term
			for _, x := range a {
				ts = append(ts, x.(*Term))
			}
			k(st, []Value{App(name, ts...)})
		}
	}
	extModels = map[string]func(ex *Exec, st *State, args []Value, c *ssa.Call, k contF){
		"errors.New": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) { k(st, []Value{newErr(st)}) },
		"fmt.Errorf": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) { k(st, []Value{newErr(st)}) },

		"(*os.File).Stat": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			ex.note("os.File: Stat fails or describes the file; a regular file's Size is the length of its content")
			f := st.clone()
			k(f, []Value{INil, newErr(f)})
			loc := a[0].(*Term)
			r := Ctor("iloc", errorTag, st.newRoot())
			meta[r] = &fileInfo{Ctor("iloc", tagOf(c.Call.Args[0].Type()), loc)}
			k(st, []Value{r, INil})
		},
		"bytes.NewBuffer": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			s := a[0].(*Term)
			capFacts(st, s)
			loc := st.newRoot()
			key := bufKey(loc)
			arr, off, n := ex.sliceBytes(st, s)
			if off != Zero {
				arr = Cpy(byteArrZero(), Zero, arr, off, n)
			}
			st.setHeap(streamHeap("wdata"), key, arr)
			st.setHeap(streamHeap("wlen"), key, n)
			st.setHeap(streamHeap("werr"), key, TFalse)
			k(st, []Value{loc})
		},
		"(*bytes.Buffer).Write": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			s := a[1].(*Term)
			capFacts(st, s)
			arr, off, n := ex.sliceBytes(st, s)
			ex.streamAppend(st, bufKey(a[0]), arr, off, n)
			k(st, []Value{n, INil})
		},
		"(*bytes.Buffer).Bytes": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			ex.note("bytes.Buffer: Bytes returns the accumulated content (modelled as a copy)")
			key := bufKey(a[0])
			k(st, []Value{bytesSlice(st, Select(st.H(streamHeap("wdata")), key), Zero, Select(st.H(streamHeap("wlen")), key))})
		},
		"(*bytes.Buffer).Len": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			k(st, []Value{Select(st.H(streamHeap("wlen")), bufKey(a[0]))})
		},
		"bytes.NewReader": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			ex.note("bytes.Reader: reads the content its slice had when it was created")
			s := a[0].(*Term)
			capFacts(st, s)
			loc := st.newRoot()
			key := rdrKey(loc)
			arr, off, n := ex.sliceBytes(st, s)
			if off != Zero {
				arr = Cpy(byteArrZero(), Zero, arr, off, n)
			}
			st.setHeap(streamHeap("rdata"), key, arr)
			st.setHeap(streamHeap("rsize"), key, n)
			st.setHeap(streamHeap("rpos"), key, Zero)
			st.setHeap(streamHeap("rrel"), key, TTrue)
			st.setHeap(streamHeap("rerr"), key, TFalse)
			k(st, []Value{loc})
		},
		"(*bytes.Reader).Size": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			k(st, []Value{Select(st.H(streamHeap("rsize")), rdrKey(a[0]))})
		},
		"(*bytes.Reader).Seek": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			st.assume(Select(st.H(streamHeap("rrel")), rdrKey(a[0])))
			ex.ioSeek(st, rdrKey(a[0]), a[1].(*Term), a[2].(*Term), k)
		},
		"(*bytes.Reader).Read": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			key := rdrKey(a[0])
			s := a[1].(*Term)
			capFacts(st, s)
			pos, size, data := Select(st.H(streamHeap("rpos")), key), Select(st.H(streamHeap("rsize")), key), Select(st.H(streamHeap("rdata")), key)
			st.assume(And(Le(Zero, pos), Le(Zero, size)))
			end := Ge(pos, size)
			if ex.feasible(st, end) {
				o := st.clone()
				o.add(end, true)
				k(o, []Value{Zero, eofErr()})
				if !ex.feasible(st, Not(end)) {
					return
				}
				st.add(Not(end), true)
			}
			n := Ite(Le(Sub(size, pos), SLen(s)), Sub(size, pos), SLen(s))
			h := elemHeap(byteT)
			st.setHeap(h, SBase(s), Cpy(Select(st.H(h), SBase(s)), SOff(s), data, pos, n))
			st.setHeap(streamHeap("rpos"), key, Add(pos, n))
			k(st, []Value{n, INil})
		},

		"io.ReadFull": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			r, s := a[0].(*Term), a[1].(*Term)
			capFacts(st, s)
			ex.readN(st, r, SLen(s), func(st *State, arr, pos, got, err *Term) {
				h := elemHeap(byteT)
				st.setHeap(h, SBase(s), Cpy(Select(st.H(h), SBase(s)), SOff(s), arr, pos, got))
				k(st, []Value{got, err})
			})
		},
		"io.CopyN": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			ex.note("io.CopyN: copies exactly n bytes (modelled as one write of the whole; writers are insensitive to chunking) or returns an error")
			w, r, n := a[0].(*Term), a[1].(*Term), a[2].(*Term)
			neg := Le(n, Zero)
			if ex.feasible(st, neg) {
				o := st.clone()
				o.add(neg, true)
				k(o, []Value{Zero, INil})
				if !ex.feasible(st, Not(neg)) {
					return
				}
				st.add(Not(neg), true)
			}
			ex.readN(st, r, n, func(st *State, arr, pos, got, err *Term) {
				if err != INil {
					// what was read has been written; the destination may fail as well
					wd, wl := streamHeap("wdata"), streamHeap("wlen")
					st.setHeap(wd, w, st.freshOf("wd", heapTab[wd].sort.v, heapTab[wd]))
					st.setHeap(wl, w, st.freshInt("wl", big0(0), nil))
					we := streamHeap("werr")
					st.setHeap(we, w, st.freshBool("we"))
					if t := dynType(w); t != nil {
						ex.havocWriter(st, w, t)
					}
					k(st, []Value{got, err})
					return
				}
				p := bytesSlice(st, arr, pos, n)
				ex.writeTo(st, w, p, c, func(st *State, res []Value) {
					e := res[1].(*Term)
					if e != INil {
						st.setHeap(streamHeap("rpos"), r, st.freshInt("rp", big0(0), nil))
					}
					k(st, []Value{res[0], e})
				})
			})
		},
		"encoding/binary.Read": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			ex.note("encoding/binary: little-endian encoding and decoding of fixed-size values, field by field")
			ex.binaryRead(st, a[0].(*Term), a[2].(*Term), k)
		},
		"encoding/binary.Write": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			ex.note("encoding/binary: little-endian encoding and decoding of fixed-size values, field by field")
			w := a[0].(*Term)
			ex.encodeAny(st, a[2].(*Term), func(st *State, arr, n *Term) {
				loc := st.newRoot()
				st.setHeap(elemHeap(byteT), loc, arr)
				ex.writeTo(st, w, MkSlice(loc, Zero, n, n), c, func(st *State, res []Value) {
					k(st, []Value{res[1]})
				})
			})
		},
		"encoding/binary.Size": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			x := a[0].(*Term)
			one := func(st *State, t types.Type) {
				if p, ok := under(t).(*types.Pointer); ok {
					t = p.Elem()
				}
				if sl, ok := under(t).(*types.Slice); ok {
					s := ex.unbox(st, x, t).(*Term)
					k(st, []Value{MulC(SLen(s), big0(ex.encSize(sl.Elem())))})
					return
				}
				k(st, []Value{I(ex.encSize(t))})
			}
			if t := dynType(x); t != nil {
				one(st, t)
				return
			}
			impls := ex.sealedFor(st, x)
			if impls == nil {
				unsupported("binary.Size of an unknown value")
			}
			for _, ct := range impls {
				is := ifaceIs(x, ct)
				if ex.feasible(st, is) {
					o := st.clone()
					o.add(is, true)
					one(o, ct)
				}
			}
		},

		"sort.Slice": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			s, et := ex.sliceOfAny(st, a[0])
			ex.sortSlice(st, s, et, a[1], false, c, k)
		},
		"sort.SliceStable": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			s, et := ex.sliceOfAny(st, a[0])
			ex.sortSlice(st, s, et, a[1], true, c, k)
		},
		"sort.Ints": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			ex.sortBasic(st, a[0].(*Term), types.Typ[types.Int], func(x, y *Term) *Term { return Lt(x, y) }, k)
		},
		"sort.Strings": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			ex.sortBasic(st, a[0].(*Term), types.Typ[types.String], func(x, y *Term) *Term { return App("str.lt", x, y) }, k)
		},
		"sort.Search": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			ex.note("sort.Search: returns an index in [0,n] where the predicate turns true")
			n := a[0].(*Term)
			p := ex.predOf(st, a[1], 1, func(xs []*Term) *Term { return inRange(n, xs...) })
			r := st.freshInt("search", big0(0), nil)
			st.assume(And(Le(Zero, r), Implies(Le(Zero, n), Le(r, n)), Implies(Lt(n, Zero), Eq(r, Zero))))
			st.assume(Implies(Lt(r, n), p(r)))
			st.assume(Implies(Gt(r, Zero), Not(p(Sub(r, One)))))
			k(st, []Value{r})
		},

		"unicode/utf16.Encode": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			ex.note("unicode/utf16: Encode and Decode are deterministic; Decode of an Encode of a valid string is the string")
			s := a[0].(*Term)
			capFacts(st, s)
			h := elemHeap(types.Typ[types.Int32])
			arr := Select(st.H(h), SBase(s))
			var wa, wl *Term
			if arr.op == OApp && arr.name == "runes.arr" && SOff(s) == Zero && SLen(s) == App("runes.len", arr.args[0]) {
				wa, wl = App("wide.arr", arr.args[0]), App("wide.len", arr.args[0])
			} else {
				wa, wl = App("widen", arr, SOff(s), SLen(s)), App("widen.len", arr, SOff(s), SLen(s))
			}
			loc := st.newRoot()
			st.setHeap(elemHeap(types.Typ[types.Uint16]), loc, wa)
			cp := st.freshInt("cap", big0(0), nil)
			st.assume(Le(wl, cp))
			k(st, []Value{MkSlice(loc, Zero, wl, cp)})
		},
		"unicode/utf16.Decode": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			ex.note("unicode/utf16: Encode and Decode are deterministic; Decode of an Encode of a valid string is the string")
			s := a[0].(*Term)
			capFacts(st, s)
			arr := Select(st.H(elemHeap(types.Typ[types.Uint16])), SBase(s))
			ra, rl := App("unwide.arr", arr, SOff(s), SLen(s)), App("unwide.len", arr, SOff(s), SLen(s))
			loc := st.newRoot()
			st.setHeap(elemHeap(types.Typ[types.Int32]), loc, ra)
			cp := st.freshInt("cap", big0(0), nil)
			st.assume(Le(rl, cp))
			k(st, []Value{MkSlice(loc, Zero, rl, cp)})
		},

		"strings.ContainsRune": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			if r := a[1].(*Term); r == Zero {
				k(st, []Value{App("str.hasnul", a[0].(*Term))})
				return
			}
			detStr("strings.ContainsRune", SBool, SStr, SInt)
			k(st, []Value{App("strings.ContainsRune", a[0].(*Term), a[1].(*Term))})
		},
		"strings.Contains":  strPure("strings.Contains", SBool, SStr, SStr),
		"strings.HasPrefix": strPure("strings.HasPrefix", SBool, SStr, SStr),
		"strings.ToLower":   strPure("strings.ToLower", SStr, SStr),
		"strings.TrimSpace": strPure("strings.TrimSpace", SStr, SStr),
		"strings.TrimRight": strPure("strings.TrimRight", SStr, SStr, SStr),
		"strings.Split": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			detStr("split.arr", SArr(SInt, SStr), SStr, SStr)
			detStr("split.len", SInt, SStr, SStr)
			funcs["split.len"].lo, funcs["split.len"].hi = big0(0), pow2(47)
			s, sep := a[0].(*Term), a[1].(*Term)
			n := App("split.len", s, sep)
			st.assume(Implies(Gt(App("str.len", sep), Zero), Ge(n, One)))
			loc := st.newRoot()
			st.setHeap(elemHeap(types.Typ[types.String]), loc, App("split.arr", s, sep))
			k(st, []Value{MkSlice(loc, Zero, n, n)})
		},
		"strconv.ParseUint": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			detStr("parseuint", SInt, SStr, SInt, SInt)
			funcs["parseuint"].lo, funcs["parseuint"].hi = big0(0), new(big.Int).Sub(pow2(64), big0(1))
			detStr("parseuint.ok", SBool, SStr, SInt, SInt)
			s, b, z := a[0].(*Term), a[1].(*Term), a[2].(*Term)
			v := App("parseuint", s, b, z)
			if z.isConst() {
				st.assume(Lt(v, BI(pow2(int(z.int64())))))
			}
			e := newErr(st)
			k(st, []Value{v, Ite(App("parseuint.ok", s, b, z), INil, e)})
		},
		"fmt.Sprintf": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			ex.note("fmt.Sprintf: a deterministic function of the format and the arguments")
			f := a[0].(*Term)
			s := a[1].(*Term)
			n := SLen(s)
			h := elemHeap(types.NewInterfaceType(nil, nil))
			arr := Select(st.H(h), SBase(s))
			if n.isConst() && n.int64() == 1 {
				v := Select(arr, SOff(s))
				if v.op == OCtor && v.name == "iint" {
					k(st, []Value{App("fmt.num", f, v.args[1])})
					return
				}
			}
			if n.isConst() && n.int64() == 4 {
				var vs []*Term
				for i := int64(0); i < 4; i++ {
					v := Select(arr, Add(SOff(s), I(i)))
					if v.op == OCtor && v.name == "iint" {
						vs = append(vs, v.args[1])
					}
				}
				if len(vs) == 4 {
					k(st, []Value{App("fmt.num4", f, vs[0], vs[1], vs[2], vs[3])})
					return
				}
			}
			k(st, []Value{Sym(st.fresh("sprintf"), SStr)})
		},
		"fmt.Sscanf": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			ex.note("fmt.Sscanf: stores arbitrary values through its pointer arguments, or fails")
			s := a[2].(*Term)
			n := SLen(s)
			if !n.isConst() {
				unsupported("Sscanf")
			}
			sp := c.Call.Signature().Params()
			arr := Select(st.H(elemHeap(under(sp.At(sp.Len()-1).Type()).(*types.Slice).Elem())), SBase(s))
			for i := int64(0); i < n.int64(); i++ {
				v := Select(arr, Add(SOff(s), I(i)))
				t := dynType(v)
				p, ok := t.(*types.Pointer)
				if !ok {
					unsupported("Sscanf argument %v", v)
				}
				ex.store(st, ex.unbox(st, v, t), p.Elem(), st.freshValue(p.Elem(), "scan"))
			}
			r := st.freshInt("scanned", big0(0), big0(n.int64()))
			e := newErr(st)
			k(st, []Value{r, Ite(Eq(r, n), INil, e)})
		},
		"time.Unix": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			ex.note("package time: a Time is its Unix seconds and nanoseconds; Unix makes the Time that has them")
			res := ex.freshResults(st, c.Call.Signature())
			sec, ns := a[0].(*Term), a[1].(*Term)
			r := timeLeaves(res[0])
			st.assume(Implies(And(Le(Zero, ns), Lt(ns, I(1000000000))), And(Eq(App("time.unix", r...), sec), Eq(App("time.nanos", r...), ns))))
			k(st, res)
		},
		"(time.Time).Unix": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			k(st, []Value{App("time.unix", timeLeaves(a[0])...)})
		},
		"(time.Time).Nanosecond": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			k(st, []Value{App("time.nanos", timeLeaves(a[0])...)})
		},
		"(time.Time).IsZero": func(ex *Exec, st *State, a []Value, c *ssa.Call, k contF) {
			k(st, []Value{timeIsZero(timeLeaves(a[0]))})
		},
	}
}

// timeLeaves: the fields of a time.Time, wall, ext and loc.
func timeLeaves(v Value) []*Term {
	var out []*Term
	var rec func(v Value)
	rec = func(v Value) {
		switch x := v.(type) {
		case *Term:
			out = append(out, x)
		case *Tup:
			for _, e := range x.elems {
				rec(e)
			}
		default:
			unsupported("a time.Time as %T", v)
		}
	}
	rec(v)
	if len(out) != 3 {
		unsupported("a time.Time of %d parts", len(out))
	}
	if funcs["time.unix"] == nil {
		declFun("time.unix", SInt, out[0].sort, out[1].sort, out[2].sort)
		declFun("time.nanos", SInt, out[0].sort, out[1].sort, out[2].sort)
		funcs["time.unix"].lo, funcs["time.unix"].hi = new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), big0(1))
		zero := func(v *Term) func(a []*Term) *Term {
			return func(a []*Term) *Term {
				if a[0] == Zero && a[1] == Zero && a[2] == zeroTerm(a[2].sort) {
					return v
				}
				return nil
			}
		}
		appSimp["time.unix"], appSimp["time.nanos"] = zero(I(-62135596800)), zero(Zero)
		funcs["time.nanos"].lo, funcs["time.nanos"].hi = big0(0), big0(999999999)
	}
	return out
}

// timeIsZero: 1 January of year 1
func timeIsZero(l []*Term) *Term {
	return And(Eq(App("time.unix", l...), I(-62135596800)), Eq(App("time.nanos", l...), Zero))
}

func (ex *Exec) havocWriter(st *State, w *Term, t types.Type) {
	p, ok := t.(*types.Pointer)
	if !ok || isStreamType(p.Elem()) {
		return
	}
	if _, ok := under(p.Elem()).(*types.Struct); ok {
		ex.store(st, ex.unbox(st, w, t), p.Elem(), st.freshValue(p.Elem(), "hw"))
	}
}

func (ex *Exec) sortBasic(st *State, s *Term, et types.Type, lt func(x, y *Term) *Term, k contF) {
	ex.note("package sort: sorts into a permutation ordered by the given (proved strict weak) order")
	capFacts(st, s)
	ex.permute(st, s, et)
	na := Select(st.H(elemHeap(et)), SBase(s))
	sel := func(x *Term) *Term { return Select(na, Add(SOff(s), x)) }
	less := func(xs ...*Term) *Term { return lt(sel(xs[0]), sel(xs[1])) }
	st.assume(sortedFact(SLen(s), less, sel))
	k(st, nil)
}

var bufT, rdrT types.Type

func (ex *Exec) initExtTypes() {
	for _, p := range ex.prog.prog.AllPackages() {
		if p.Pkg.Path() == "bytes" {
			bufT = p.Pkg.Scope().Lookup("Buffer").Type()
			rdrT = p.Pkg.Scope().Lookup("Reader").Type()
		}
	}
}

var _ = fmt.Sprintf
