package main

// Hash-consed first-order terms with a light simplifier.
//
// Integers are mathematical; the executor makes machine wrap-around explicit.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort struct {
	name string
	k, v *Sort // arrays
}

var sortTab = map[string]*Sort{}

func mkSort(n string) *Sort {
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{name: n}
	sortTab[n] = s
	return s
}

var (
	SInt   = mkSort("Int")
	SBool  = mkSort("Bool")
	SStr   = mkSort("Str")
	SLoc   = mkSort("Loc")
	SSlice = mkSort("Slice")
	SIface = mkSort("Iface")
	SOpq   = mkSort("Opq")
)

func SArr(k, v *Sort) *Sort {
	n := "(Array " + k.name + " " + v.name + ")"
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{name: n, k: k, v: v}
	sortTab[n] = s
	return s
}

func (s *Sort) isArr() bool { return s.k != nil }

type Op uint8

const (
	OConst Op = iota
	OTrue
	OFalse
	OSym   // free constant
	OBound // bound variable
	OApp   // uninterpreted function
	OLin
	OMul
	ODiv // euclidean, const divisor > 0 or symbolic
	OMod
	OByte // Byte(x,k): bits 8k..8k+7
	OLe0  // lin <= 0
	OEq
	ONot
	OAnd
	OOr
	OIte
	OForall
	OExists
	OSelect
	OStore
	OCpy // (d, dp, s, sp, n)
	OFrm // (d, f, r): λl. rid(l)=r ? f[l] : d[l]
	OConstArr
	OMap  // pointwise lambda: args[0]=body over bound var name ; used for decoding arrays
	OCtor // datatype constructor, name
	OSel  // datatype selector, name
	OTest // datatype tester, name
)

type Term struct {
	id       int
	op       Op
	sort     *Sort
	args     []*Term
	name     string
	val      *big.Int   // OConst
	coefs    []*big.Int // OLin (args are the atoms), val = constant
	lo       *big.Int   // known interval for int terms (nil = unbounded)
	hi       *big.Int
	bound    bool    // contains bound variables
	vars     []*Term // quantifier variables
	pats     [][]*Term
	depth    int
	elo, ehi *big.Int // range of the elements (array symbols)
	rb       *Term    // array symbols: references stored in them (at allocated places) have rid < rb
	rhi      *big.Int // upper bound of the root id of a reference
}

var (
	tab    = map[string]*Term{}
	nterms int
	TTrue  *Term
	TFalse *Term
	Zero   *Term
	One    *Term
)

func big0(i int64) *big.Int { return big.NewInt(i) }

func init() {
	TTrue = intern(&Term{op: OTrue, sort: SBool})
	TFalse = intern(&Term{op: OFalse, sort: SBool})
	Zero = I(0)
	One = I(1)
}

func key(t *Term) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%s", t.op, t.sort.name, t.name)
	if t.val != nil {
		b.WriteString("|v" + t.val.String())
	}
	for i, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
		if t.coefs != nil {
			b.WriteString("*" + t.coefs[i].String())
		}
	}
	for _, v := range t.vars {
		fmt.Fprintf(&b, ";%d", v.id)
	}
	for _, p := range t.pats {
		b.WriteString("/")
		for _, x := range p {
			fmt.Fprintf(&b, ":%d", x.id)
		}
	}
	if t.op == OSym {
		if t.lo != nil {
			b.WriteString("L" + t.lo.String())
		}
		if t.hi != nil {
			b.WriteString("H" + t.hi.String())
		}
		if t.elo != nil {
			b.WriteString("e" + t.elo.String() + "_" + t.ehi.String())
		}
		if t.rb != nil {
			fmt.Fprintf(&b, "r%d", t.rb.id)
		}
		if t.rhi != nil {
			b.WriteString("R" + t.rhi.String())
		}
	}
	return b.String()
}

func intern(t *Term) *Term {
	k := key(t)
	if o, ok := tab[k]; ok {
		return o
	}
	nterms++
	t.id = nterms
	t.bound = t.op == OBound
	for _, a := range t.args {
		if a.bound {
			t.bound = true
		}
		if a.depth+1 > t.depth {
			t.depth = a.depth + 1
		}
	}
	if t.op == OForall || t.op == OExists {
		// closed unless a free bound variable other than vars remains
		t.bound = false
		fv := map[*Term]bool{}
		freeBound(t, fv)
		t.bound = len(fv) > 0
	}
	tab[k] = t
	return t
}

func freeBound(t *Term, out map[*Term]bool) {
	if t.op == OBound {
		out[t] = true
		return
	}
	if t.op == OForall || t.op == OExists {
		in := map[*Term]bool{}
		for _, a := range t.args {
			freeBound(a, in)
		}
		for _, v := range t.vars {
			delete(in, v)
		}
		for v := range in {
			out[v] = true
		}
		return
	}
	if !t.bound && t.id != 0 {
		return
	}
	for _, a := range t.args {
		if a.bound {
			freeBound(a, out)
		}
	}
}

func I(i int64) *Term         { return BI(big.NewInt(i)) }
func BI(b *big.Int) *Term     { return intern(&Term{op: OConst, sort: SInt, val: b, lo: b, hi: b}) }
func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isInt(i int64) bool {
	return t.op == OConst && t.val.IsInt64() && t.val.Int64() == i
}
func (t *Term) int64() int64 { return t.val.Int64() }

func B(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func Sym(name string, s *Sort) *Term { return intern(&Term{op: OSym, sort: s, name: name}) }
func SymRef(name string, s *Sort, rb *Term) *Term {
	t := &Term{op: OSym, sort: s, name: name}
	if rb != nil && rb.isConst() {
		t.rhi = new(big.Int).Sub(rb.val, big.NewInt(1))
	}
	return intern(t)
}
func SymR(name string, lo, hi *big.Int) *Term {
	return intern(&Term{op: OSym, sort: SInt, name: name, lo: lo, hi: hi})
}
func SymArr(name string, s *Sort, elo, ehi *big.Int, rb *Term) *Term {
	t := &Term{op: OSym, sort: s, name: name, elo: elo, ehi: ehi, rb: rb}
	if rb != nil && rb.isConst() {
		t.rhi = new(big.Int).Sub(rb.val, big.NewInt(1))
	}
	return intern(t)
}
func Bound(name string, s *Sort) *Term { return intern(&Term{op: OBound, sort: s, name: name}) }
func BoundR(name string, lo, hi *big.Int) *Term {
	return intern(&Term{op: OBound, sort: SInt, name: name, lo: lo, hi: hi})
}

// ---- uninterpreted functions

type FuncDecl struct {
	name   string
	args   []*Sort
	res    *Sort
	lo, hi *big.Int
	axioms func() []*Term        // global axioms about the function (closed formulas)
	inst   func(t *Term) []*Term // ground axioms instantiated per occurrence
	interp string                // direct SMT-LIB operator
	rec    bool                  // inst unfolds a recursive definition
	fuel   int
}

var funcs = map[string]*FuncDecl{}

func declFun(name string, res *Sort, args ...*Sort) *FuncDecl {
	if f, ok := funcs[name]; ok {
		return f
	}
	f := &FuncDecl{name: name, args: args, res: res}
	funcs[name] = f
	return f
}

func App(name string, args ...*Term) *Term {
	f := funcs[name]
	if f == nil {
		panic("undeclared function " + name)
	}
	for i := range args {
		if args[i].sort != f.args[i] {
			panic(fmt.Sprintf("App %s arg %d: %s vs %s", name, i, args[i].sort.name, f.args[i].name))
		}
	}
	if h := appSimp[name]; h != nil {
		if r := h(args); r != nil {
			return r
		}
	}
	return intern(&Term{op: OApp, sort: f.res, name: name, args: args, lo: f.lo, hi: f.hi})
}

var appSimp = map[string]func([]*Term) *Term{}

// ---- linear arithmetic

type linAcc struct {
	m map[*Term]*big.Int
	c *big.Int
}

func newLin() *linAcc { return &linAcc{map[*Term]*big.Int{}, new(big.Int)} }

func (l *linAcc) add(t *Term, k *big.Int) {
	switch t.op {
	case OConst:
		l.c.Add(l.c, new(big.Int).Mul(t.val, k))
	case OLin:
		l.c.Add(l.c, new(big.Int).Mul(t.val, k))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(t.coefs[i], k))
		}
	default:
		l.addAtom(t, k)
	}
}

func (l *linAcc) addAtom(a *Term, k *big.Int) {
	if k.Sign() == 0 {
		return
	}
	if o, ok := l.m[a]; ok {
		n := new(big.Int).Add(o, k)
		if n.Sign() == 0 {
			delete(l.m, a)
		} else {
			l.m[a] = n
		}
		return
	}
	l.m[a] = new(big.Int).Set(k)
}

func (l *linAcc) term() *Term {
	l.collapseBytes()
	l.collapseMod()
	if len(l.m) == 0 {
		return BI(l.c)
	}
	atoms := make([]*Term, 0, len(l.m))
	for a := range l.m {
		atoms = append(atoms, a)
	}
	if len(atoms) == 1 && l.c.Sign() == 0 && l.m[atoms[0]].Cmp(big.NewInt(1)) == 0 {
		return atoms[0]
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	t := &Term{op: OLin, sort: SInt, val: new(big.Int).Set(l.c), args: atoms}
	lo, hi := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for _, a := range atoms {
		k := l.m[a]
		t.coefs = append(t.coefs, k)
		al, ah := a.lo, a.hi
		if k.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil && al != nil {
			lo.Add(lo, new(big.Int).Mul(k, al))
		} else {
			lo = nil
		}
		if hi != nil && ah != nil {
			hi.Add(hi, new(big.Int).Mul(k, ah))
		} else {
			hi = nil
		}
	}
	t.lo, t.hi = lo, hi
	return intern(t)
}

// c*Byte(x,0)+256c*Byte(x,1)+... = c*x when all bytes of x's range are there.
func (l *linAcc) collapseBytes() {
	again := true
	for again {
		again = false
		var cands []*Term
		for a := range l.m {
			if a.op == OByte && a.args[1].isInt(0) {
				cands = append(cands, a)
			}
		}
		sort.Slice(cands, func(i, j int) bool { return cands[i].id < cands[j].id })
		for _, a := range cands {
			x := a.args[0]
			if x.lo == nil || x.hi == nil || x.lo.Sign() < 0 {
				continue
			}
			n := (x.hi.BitLen() + 7) / 8
			if n < 2 {
				n = 1
			}
			ok := true
			k := l.m[a]
			var parts []*Term
			for i := 0; i < n; i++ {
				b := MkByte(x, i)
				if b.op == OConst && b.val.Sign() == 0 {
					continue
				}
				w := new(big.Int).Lsh(k, uint(8*i))
				if c, has := l.m[b]; !has || c.Cmp(w) != 0 {
					ok = false
					break
				}
				parts = append(parts, b)
			}
			if ok {
				for _, p := range parts {
					delete(l.m, p)
				}
				l.add(x, k)
				again = true
				break
			}
		}
	}
}

// k*(x mod c) + k*c*(x div c) = k*x
func (l *linAcc) collapseMod() {
	for again := true; again; {
		again = false
		for a, k := range l.m {
			if a.op == OMod && a.args[1].isConst() {
				d := intern2(ODiv, a.args[0], a.args[1])
				if d == nil {
					continue
				}
				if kk, ok := l.m[d]; ok && kk.Cmp(new(big.Int).Mul(k, a.args[1].val)) == 0 {
					delete(l.m, a)
					delete(l.m, d)
					l.add(a.args[0], k)
					again = true
					break
				}
			}
		}
	}
}

func intern2(op Op, x, c *Term) *Term {
	return tab[key(&Term{op: op, sort: SInt, args: []*Term{x, c}})]
}

func Add(ts ...*Term) *Term {
	l := newLin()
	for _, t := range ts {
		l.add(t, big.NewInt(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	if a == b {
		return Zero
	}
	l := newLin()
	l.add(a, big.NewInt(1))
	l.add(b, big.NewInt(-1))
	return l.term()
}
func MulC(a *Term, k *big.Int) *Term {
	l := newLin()
	l.add(a, k)
	return l.term()
}
func Mul(a, b *Term) *Term {
	if a.isConst() {
		return MulC(b, a.val)
	}
	if b.isConst() {
		return MulC(a, b.val)
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := &Term{op: OMul, sort: SInt, args: []*Term{a, b}}
	if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
		t.lo = new(big.Int).Mul(a.lo, b.lo)
		if a.hi != nil && b.hi != nil {
			t.hi = new(big.Int).Mul(a.hi, b.hi)
		}
	}
	return intern(t)
}

func Neg(a *Term) *Term { return MulC(a, big.NewInt(-1)) }

// floor division and modulo by a (positive) constant: Euclidean.
func DivC(a *Term, c *big.Int) *Term {
	if c.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if a.isConst() {
		q, _ := new(big.Int).DivMod(a.val, c, new(big.Int))
		return BI(q)
	}
	if a.lo != nil && a.hi != nil {
		ql, _ := new(big.Int).DivMod(a.lo, c, new(big.Int))
		qh, _ := new(big.Int).DivMod(a.hi, c, new(big.Int))
		if ql.Cmp(qh) == 0 {
			return BI(ql)
		}
	}
	if a.op == ODiv && a.args[1].isConst() {
		return DivC(a.args[0], new(big.Int).Mul(c, a.args[1].val))
	}
	// pull out multiples of c
	if a.op == OLin {
		out, rest := newLin(), newLin()
		for i, x := range a.args {
			q, r := new(big.Int).DivMod(a.coefs[i], c, new(big.Int))
			if r.Sign() == 0 {
				out.add(x, q)
			} else {
				rest.add(x, a.coefs[i])
			}
		}
		if len(out.m) > 0 {
			rest.c.Set(a.val)
			rt := rest.term()
			return Add(out.term(), DivC(rt, c))
		}
		q, r := new(big.Int).DivMod(a.val, c, new(big.Int))
		if q.Sign() != 0 {
			rest.c.Set(r)
			return Add(BI(q), DivC(rest.term(), c))
		}
		// common factor g dividing c and every coefficient: (g*y + r)/c
		g := new(big.Int).Set(c)
		for _, k := range a.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(big.NewInt(1)) > 0 {
			nl := newLin()
			for i, x := range a.args {
				nl.add(x, new(big.Int).Quo(a.coefs[i], g))
			}
			q, _ := new(big.Int).DivMod(a.val, g, new(big.Int))
			nl.c.Add(nl.c, q)
			return DivC(nl.term(), new(big.Int).Quo(c, g))
		}
	}
	t := &Term{op: ODiv, sort: SInt, args: []*Term{a, BI(c)}}
	if a.lo != nil {
		t.lo, _ = new(big.Int).DivMod(a.lo, c, new(big.Int))
	}
	if a.hi != nil {
		t.hi, _ = new(big.Int).DivMod(a.hi, c, new(big.Int))
	}
	return intern(t)
}

func ModC(a *Term, c *big.Int) *Term {
	if c.Cmp(big.NewInt(1)) == 0 {
		return Zero
	}
	if a.isConst() {
		_, r := new(big.Int).DivMod(a.val, c, new(big.Int))
		return BI(r)
	}
	if a.lo != nil && a.hi != nil {
		ql, rl := new(big.Int).DivMod(a.lo, c, new(big.Int))
		qh, _ := new(big.Int).DivMod(a.hi, c, new(big.Int))
		if ql.Cmp(qh) == 0 {
			_ = rl
			return Add(a, BI(new(big.Int).Neg(new(big.Int).Mul(ql, c))))
		}
	}
	if a.op == OMod && a.args[1].isConst() {
		if r := new(big.Int).Mod(a.args[1].val, c); r.Sign() == 0 {
			return ModC(a.args[0], c)
		}
	}
	if a.op == OLin {
		n := newLin()
		ch := false
		for i, x := range a.args {
			_, r := new(big.Int).DivMod(a.coefs[i], c, new(big.Int))
			if r.Sign() == 0 {
				ch = true
				continue
			}
			// keep small negative coefficients as they are when |k|<c
			k := a.coefs[i]
			if new(big.Int).Abs(k).Cmp(c) >= 0 {
				k = r
				ch = true
			}
			if x.op == OMod && x.args[1].isConst() && new(big.Int).Mod(x.args[1].val, c).Sign() == 0 {
				n.add(x.args[0], k)
				ch = true
				continue
			}
			n.add(x, k)
		}
		_, r := new(big.Int).DivMod(a.val, c, new(big.Int))
		if r.Cmp(a.val) != 0 {
			ch = true
		}
		n.c.Add(n.c, r)
		if ch {
			return ModC(n.term(), c)
		}
		// every coefficient and c share a factor g: mod = g*(.. mod c/g) + r
		g := new(big.Int).Set(c)
		for _, k := range a.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(big.NewInt(1)) > 0 {
			nl := newLin()
			for i, x := range a.args {
				nl.add(x, new(big.Int).Quo(a.coefs[i], g))
			}
			q, rr := new(big.Int).DivMod(a.val, g, new(big.Int))
			nl.c.Add(nl.c, q)
			return Add(MulC(ModC(nl.term(), new(big.Int).Quo(c, g)), g), BI(rr))
		}
	}
	t := &Term{op: OMod, sort: SInt, args: []*Term{a, BI(c)}, lo: new(big.Int), hi: new(big.Int).Sub(c, big.NewInt(1))}
	return intern(t)
}

// symbolic modulo (b > 0 is the caller's business)
func ModT(a, b *Term) *Term {
	if b.isConst() && b.val.Sign() > 0 {
		return ModC(a, b.val)
	}
	t := &Term{op: OMod, sort: SInt, args: []*Term{a, b}, lo: new(big.Int)}
	if b.hi != nil && b.lo != nil && b.lo.Sign() > 0 {
		t.hi = new(big.Int).Sub(b.hi, big.NewInt(1))
	}
	return intern(t)
}
func DivT(a, b *Term) *Term {
	if b.isConst() && b.val.Sign() > 0 {
		return DivC(a, b.val)
	}
	return intern(&Term{op: ODiv, sort: SInt, args: []*Term{a, b}})
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// MkByte is bits 8k..8k+7 of a (non-negative) integer.
func MkByte(x *Term, k int) *Term {
	if x.lo != nil && x.lo.Sign() >= 0 && x.hi != nil {
		if x.hi.BitLen() <= 8*k {
			return Zero
		}
		if k == 0 && x.hi.BitLen() <= 8 {
			return x
		}
	}
	if x.isConst() {
		return ModC(DivC(x, pow2(8*k)), pow2(8))
	}
	switch x.op {
	case OMod:
		if c := x.args[1]; c.isConst() && c.val.Cmp(pow2(c.val.BitLen()-1)) == 0 {
			n := c.val.BitLen() - 1
			if n%8 == 0 && 8*k < n {
				return MkByte(x.args[0], k)
			}
		}
	case ODiv:
		if c := x.args[1]; c.isConst() && c.val.Cmp(pow2(c.val.BitLen()-1)) == 0 {
			n := c.val.BitLen() - 1
			if n%8 == 0 {
				return MkByte(x.args[0], k+n/8)
			}
		}
	case OLin:
		// sum of Byte pieces at distinct byte positions: pick
		if r := bytePick(x, k); r != nil {
			return r
		}
	}
	return intern(&Term{op: OByte, sort: SInt, args: []*Term{x, I(int64(k))}, lo: new(big.Int), hi: big.NewInt(255)})
}

func bytePick(x *Term, k int) *Term {
	// every atom must be in [0,255] with coefficient 256^j, distinct j, constant 0
	if x.val.Sign() != 0 {
		return nil
	}
	var res *Term
	seen := map[int]bool{}
	for i, a := range x.args {
		c := x.coefs[i]
		if c.Sign() <= 0 || a.lo == nil || a.lo.Sign() < 0 || a.hi == nil || a.hi.BitLen() > 8 {
			return nil
		}
		n := c.BitLen() - 1
		if c.Cmp(pow2(n)) != 0 || n%8 != 0 || seen[n/8] {
			return nil
		}
		seen[n/8] = true
		if n/8 == k {
			res = a
		}
	}
	if res == nil {
		return Zero
	}
	return res
}

// ---- booleans

func Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return TFalse
	case OFalse:
		return TTrue
	case ONot:
		return a.args[0]
	case OLe0:
		// not (x <= 0)  ==  1 - x <= 0
		return Le0(Sub(One, a.args[0]))
	}
	return intern(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.op == OTrue || seen[t] {
			return true
		}
		if t.op == OFalse || seen[Not(t)] {
			return false
		}
		if t.op == OAnd {
			for _, a := range t.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return TFalse
		}
	}
	switch len(out) {
	case 0:
		return TTrue
	case 1:
		return out[0]
	}
	return intern(&Term{op: OAnd, sort: SBool, args: out})
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.op == OFalse || seen[t] {
			return true
		}
		if t.op == OTrue || seen[Not(t)] {
			return false
		}
		if t.op == OOr {
			for _, a := range t.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return TTrue
		}
	}
	switch len(out) {
	case 0:
		return TFalse
	case 1:
		return out[0]
	}
	return intern(&Term{op: OOr, sort: SBool, args: out})
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Le0(l *Term) *Term {
	if l.hi != nil && l.hi.Sign() <= 0 {
		return TTrue
	}
	if l.lo != nil && l.lo.Sign() > 0 {
		return TFalse
	}
	if l.op == OLin {
		g := new(big.Int)
		for _, k := range l.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(big.NewInt(1)) > 0 {
			n := newLin()
			for i, a := range l.args {
				n.add(a, new(big.Int).Quo(l.coefs[i], g))
			}
			// sum + c <= 0  =>  sum/g <= floor(-c/g)
			q, _ := new(big.Int).DivMod(new(big.Int).Neg(l.val), g, new(big.Int))
			n.c.Sub(n.c, q)
			return Le0(n.term())
		}
	}
	if l.op == OIte && l.args[1].isConst() && l.args[2].isConst() {
		return Ite(l.args[0], Le0(l.args[1]), Le0(l.args[2]))
	}
	return intern(&Term{op: OLe0, sort: SBool, args: []*Term{l}})
}

func Le(a, b *Term) *Term { return Le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return Le0(Add(a, One, Neg(b))) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %v = %v", a.sort.name, b.sort.name, a, b))
	}
	if a.sort == SBool {
		switch {
		case a == TTrue:
			return b
		case b == TTrue:
			return a
		case a == TFalse:
			return Not(b)
		case b == TFalse:
			return Not(a)
		}
	}
	if a.op == OApp && b.op == OApp && a.name == "fkc" && b.name == "fkc" { // paths of fields
		return And(Eq(a.args[0], b.args[0]), Eq(a.args[1], b.args[1]))
	}
	if a.sort == SInt {
		d := Sub(a, b)
		if d.isConst() {
			return B(d.val.Sign() == 0)
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return TFalse
		}
		if d.op == OLin {
			g := new(big.Int)
			for _, k := range d.coefs {
				g.GCD(nil, nil, g, new(big.Int).Abs(k))
			}
			if new(big.Int).Mod(d.val, g).Sign() != 0 {
				return TFalse
			}
			if g.Cmp(big.NewInt(1)) > 0 {
				n := newLin()
				for i, x := range d.args {
					n.add(x, new(big.Int).Quo(d.coefs[i], g))
				}
				n.c.Quo(d.val, g)
				d = n.term()
			}
			if d.op == OLin && d.coefs[0].Sign() < 0 {
				d = Neg(d)
			}
			// canonical: single atom = rest
			if d.op == OLin {
				for i, k := range d.coefs {
					if k.CmpAbs(big.NewInt(1)) == 0 {
						x := d.args[i]
						var r *Term
						if k.Sign() > 0 {
							r = Neg(Sub(d, x))
						} else {
							r = Add(d, x)
						}
						if x.op == OIte && x.args[1].isConst() && x.args[2].isConst() && r.isConst() {
							return Ite(x.args[0], Eq(x.args[1], r), Eq(x.args[2], r))
						}
						return intern(&Term{op: OEq, sort: SBool, args: []*Term{x, r}})
					}
				}
			}
			return intern(&Term{op: OEq, sort: SBool, args: []*Term{d, Zero}})
		}
		if d.op == OMod || d.op == ODiv || true {
			if d.op == OIte && d.args[1].isConst() && d.args[2].isConst() {
				return Ite(d.args[0], Eq(d.args[1], Zero), Eq(d.args[2], Zero))
			}
		}
		return intern(&Term{op: OEq, sort: SBool, args: []*Term{d, Zero}})
	}
	if a.op == OCtor && b.op == OCtor {
		if a.name != b.name {
			return TFalse
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.op == OCtor && b.op != OCtor {
		a, b = b, a
	}
	if b.op == OCtor && len(b.args) > 0 {
		for i, f := range ctors[b.name].fields {
			if b.args[i].sort == SInt || b.args[i].sort == SLoc {
				if Eq(Sel(f, a), b.args[i]) == TFalse {
					return TFalse
				}
			}
		}
	}
	if b.op == OCtor && a.op == OIte {
		x, y := Eq(a.args[1], b), Eq(a.args[2], b)
		if x.op == OFalse || x.op == OTrue || y.op == OFalse || y.op == OTrue {
			return Ite(a.args[0], x, y)
		}
	}
	if b.op == OCtor && len(b.args) == 0 {
		return MkTest(b.name, a)
	}
	if a.op == OSym && b.op == OSym && a.sort == SStr && strings.HasPrefix(a.name, "str!") && strings.HasPrefix(b.name, "str!") {
		return TFalse
	}
	if a.id > b.id && b.op != OCtor {
		a, b = b, a
	}
	return intern(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func Ite(c, a, b *Term) *Term {
	if c == TTrue || a == b {
		return a
	}
	if c == TFalse {
		return b
	}
	if a.sort != b.sort {
		panic("Ite sorts " + a.sort.name + " " + b.sort.name)
	}
	if a.sort == SBool {
		if a == TTrue {
			return Or(c, b)
		}
		if a == TFalse {
			return And(Not(c), b)
		}
		if b == TTrue {
			return Or(Not(c), a)
		}
		if b == TFalse {
			return And(c, a)
		}
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	t := &Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}}
	if a.sort == SInt {
		if a.lo != nil && b.lo != nil {
			t.lo = minB(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			t.hi = maxB(a.hi, b.hi)
		}
	}
	return intern(t)
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant(OForall, vars, body, pats)
}
func Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant(OExists, vars, body, pats)
}
func quant(op Op, vars []*Term, body *Term, pats [][]*Term) *Term {
	fv := map[*Term]bool{}
	freeBound(body, fv)
	var vs []*Term
	for _, v := range vars {
		if fv[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	if op == OForall && body.op == OAnd && len(pats) == 0 {
		var cs []*Term
		for _, a := range body.args {
			cs = append(cs, quant(op, vs, a, nil))
		}
		return And(cs...)
	}
	var ps [][]*Term
	for _, p := range pats {
		ok := true
		f := map[*Term]bool{}
		for _, x := range p {
			freeBound(x, f)
			if x.op == OConst || x.op == OBound || x.op == OLin {
				ok = false
			}
		}
		for _, v := range vs {
			if !f[v] {
				ok = false
			}
		}
		if ok {
			ps = append(ps, p)
		}
	}
	if b2, p2, ok := shiftIndex(vs, body, ps); ok {
		return quant(op, vs, b2, p2)
	}
	return intern(&Term{op: op, sort: SBool, args: []*Term{body}, vars: vs, pats: ps})
}

// shiftIndex replaces a bound variable that only serves as an index a[v+rest] by v-rest, so that
// the index is the variable itself and can be matched.
func shiftIndex(vs []*Term, body *Term, ps [][]*Term) (*Term, [][]*Term, bool) {
	for _, v := range vs {
		if v.sort != SInt || v.lo != nil || v.hi != nil {
			continue
		}
		direct := false
		var rest *Term
		bad := false
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if !t.bound || seen[t] {
				return
			}
			seen[t] = true
			if t.op == OSelect {
				ix := t.args[1]
				if ix == v {
					direct = true
				} else if ix.op == OLin {
					mine := false
					other := false
					for i, a := range ix.args {
						if a == v {
							mine = ix.coefs[i].IsInt64() && ix.coefs[i].Int64() == 1
							continue
						}
						f := map[*Term]bool{}
						freeBound(a, f)
						for _, w := range vs {
							if f[w] && (w == v || len(ps) == 0) {
								other = true
							}
						}
					}
					if mine && !other {
						if r := Sub(ix, v); rest == nil {
							rest = r
						} else if rest != r && len(ps) == 0 {
							bad = true
						}
					}
				}
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		if len(ps) > 0 {
			for _, x := range ps[0] {
				walk(x)
			}
		} else {
			walk(body)
		}
		if direct || bad || rest == nil {
			continue
		}
		m := map[*Term]*Term{v: Sub(v, rest)}
		var np [][]*Term
		for _, p := range ps {
			var q []*Term
			for _, x := range p {
				q = append(q, subst(x, m))
			}
			np = append(np, q)
		}
		return subst(body, m), np, true
	}
	return nil, nil, false
}

// ---- substitution of bound variables / symbols

func subst(t *Term, m map[*Term]*Term) *Term { return substMemo(t, m, map[*Term]*Term{}) }

func substMemo(t *Term, m, memo map[*Term]*Term) *Term {
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, na)
			if t.op == OForall || t.op == OExists {
				var ps [][]*Term
				for _, p := range t.pats {
					var q []*Term
					for _, x := range p {
						q = append(q, rec(x))
					}
					ps = append(ps, q)
				}
				r = quant(t.op, t.vars, na[0], ps)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OApp:
		return App(t.name, a...)
	case OLin:
		l := newLin()
		l.c.Set(t.val)
		for i, x := range a {
			l.add(x, t.coefs[i])
		}
		return l.term()
	case OMul:
		return Mul(a[0], a[1])
	case ODiv:
		return DivT(a[0], a[1])
	case OMod:
		return ModT(a[0], a[1])
	case OByte:
		return MkByte(a[0], int(a[1].int64()))
	case OLe0:
		return Le0(a[0])
	case OEq:
		return Eq(a[0], a[1])
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OForall, OExists:
		return quant(t.op, t.vars, a[0], t.pats)
	case OSelect:
		return Select(a[0], a[1])
	case OStore:
		return Store(a[0], a[1], a[2])
	case OCpy:
		return Cpy(a[0], a[1], a[2], a[3], a[4])
	case OFrm:
		return Frm(a[0], a[1], a[2])
	case OConstArr:
		return ConstArr(t.sort, a[0])
	case OCtor:
		return Ctor(t.name, a...)
	case OSel:
		return Sel(t.name, a[0])
	case OTest:
		return MkTest(t.name, a[0])
	}
	panic("rebuild")
}

// ---- arrays

func ConstArr(s *Sort, v *Term) *Term {
	return intern(&Term{op: OConstArr, sort: s, args: []*Term{v}})
}

// known says whether a and b are surely equal (1), surely different (-1), or unknown (0)
func knownEq(a, b *Term) int {
	e := Eq(a, b)
	if e == TTrue {
		return 1
	}
	if e == TFalse {
		return -1
	}
	return 0
}

func Select(a, i *Term) *Term {
	if !a.sort.isArr() || a.sort.k != i.sort {
		panic(fmt.Sprintf("Select sorts %s [%s]", a.sort.name, i.sort.name))
	}
	for {
		switch a.op {
		case OStore:
			switch knownEq(a.args[1], i) {
			case 1:
				return a.args[2]
			case -1:
				a = a.args[0]
				continue
			}
			// unknown
			if a.sort.v.isArr() || true {
				e := Eq(a.args[1], i)
				return Ite(e, a.args[2], Select(a.args[0], i))
			}
		case OConstArr:
			return a.args[0]
		case OFrm:
			switch knownEq(a.args[2], Rid(i)) {
			case 1:
				a = a.args[1]
				continue
			case -1:
				a = a.args[0]
				continue
			}
			return Ite(Eq(a.args[2], Rid(i)), Select(a.args[1], i), Select(a.args[0], i))
		case OIte:
			return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
		case OCpy:
			d, dp, s, sp, n := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
			in := And(Le(dp, i), Lt(i, Add(dp, n)))
			if in == TFalse {
				a = d
				continue
			}
			return Ite(in, Select(s, Add(sp, Sub(i, dp))), Select(d, i))
		}
		break
	}
	t := &Term{op: OSelect, sort: a.sort.v, args: []*Term{a, i}}
	if t.sort == SInt {
		b := a
		for b.op == OSelect || b.op == OIte || b.op == OStore || b.op == OCpy || b.op == OFrm {
			b = b.args[0]
		}
		t.lo, t.hi = b.elo, b.ehi
	} else if a.op == OSym && a.rhi != nil && rbGuard(a, i) {
		t.rhi = a.rhi
	} else if a.op == OSelect && a.args[0].op == OSym && a.args[0].rhi != nil && rbGuard(a.args[0], a.args[1]) {
		t.rhi = a.args[0].rhi
	}
	return intern(t)
}

// rbGuard: the place was surely allocated when the heap symbol was created.
func rbGuard(h, i *Term) bool {
	if h.sort.k != SLoc {
		return true
	}
	hi := Rid(i).hi
	return hi != nil && hi.Cmp(h.rhi) <= 0
}

// Frm is λl. rid(l)=r ? f[l] : d[l]
func Frm(d, f, r *Term) *Term {
	return intern(&Term{op: OFrm, sort: d.sort, args: []*Term{d, f, r}})
}

func Store(a, i, v *Term) *Term {
	if a.sort.k != i.sort || a.sort.v != v.sort {
		panic(fmt.Sprintf("Store sorts %s [%s] := %s", a.sort.name, i.sort.name, v.sort.name))
	}
	if a.op == OStore && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	return intern(&Term{op: OStore, sort: a.sort, args: []*Term{a, i, v}})
}

// Cpy is d with d[dp..dp+n) replaced by s[sp..sp+n).
func Cpy(d, dp, s, sp, n *Term) *Term {
	if n.hi != nil && n.hi.Sign() <= 0 {
		return d
	}
	if n.isConst() && n.val.IsInt64() && n.int64() <= 16 {
		for k := int64(0); k < n.int64(); k++ {
			d = Store(d, Add(dp, I(k)), Select(s, Add(sp, I(k))))
		}
		return d
	}
	return intern(&Term{op: OCpy, sort: d.sort, args: []*Term{d, dp, s, sp, n}})
}

// ---- datatypes

type ctorInfo struct {
	name   string
	sort   *Sort
	fields []string
	fs     []*Sort
}

var ctors = map[string]*ctorInfo{}
var selOf = map[string]struct {
	c *ctorInfo
	i int
}{}
var dtCtors = map[*Sort][]*ctorInfo{}

func declCtor(name string, s *Sort, fields []string, fs []*Sort) {
	c := &ctorInfo{name, s, fields, fs}
	ctors[name] = c
	dtCtors[s] = append(dtCtors[s], c)
	for i, f := range fields {
		selOf[f] = struct {
			c *ctorInfo
			i int
		}{c, i}
	}
}

func init() {
	declCtor("mkloc", SLoc, []string{"rid", "lidx", "lfk"}, []*Sort{SInt, SInt, SInt})
	declCtor("mkslice", SSlice, []string{"sbase", "soff", "slen", "scap"}, []*Sort{SLoc, SInt, SInt, SInt})
	declCtor("inil", SIface, nil, nil)
	declCtor("iint", SIface, []string{"itag", "ival"}, []*Sort{SInt, SInt})
	declCtor("istr", SIface, []string{"stag", "sval"}, []*Sort{SInt, SStr})
	declCtor("iloc", SIface, []string{"ltag", "lval"}, []*Sort{SInt, SLoc})
	declCtor("iopq", SIface, []string{"otag", "oval"}, []*Sort{SInt, SInt})
	NilLoc = Ctor("mkloc", Zero, Zero, Zero)
	NilSlice = Ctor("mkslice", NilLoc, Zero, Zero, Zero)
	INil = Ctor("inil")
}

var NilLoc, NilSlice, INil *Term

func Ctor(name string, args ...*Term) *Term {
	c := ctors[name]
	if c == nil {
		panic("ctor " + name)
	}
	for i, a := range args {
		if a.sort != c.fs[i] {
			panic("Ctor " + name + " arg sort " + a.sort.name)
		}
	}
	// mkX(selA x, selB x, ...) = x for single-constructor types
	if len(args) > 0 && len(dtCtors[c.sort]) == 1 {
		ok := true
		var x *Term
		for i, a := range args {
			if a.op != OSel || a.name != c.fields[i] || (x != nil && x != a.args[0]) {
				ok = false
				break
			}
			x = a.args[0]
		}
		if ok {
			return x
		}
	}
	return intern(&Term{op: OCtor, sort: c.sort, name: name, args: args})
}

func Sel(name string, a *Term) *Term {
	si, ok := selOf[name]
	if !ok {
		panic("selector " + name)
	}
	if a.sort != si.c.sort {
		panic("Sel " + name + " on " + a.sort.name)
	}
	if a.op == OCtor {
		if a.name == si.c.name {
			return a.args[si.i]
		}
	}
	if a.op == OIte {
		return Ite(a.args[0], Sel(name, a.args[1]), Sel(name, a.args[2]))
	}
	t := &Term{op: OSel, sort: si.c.fs[si.i], name: name, args: []*Term{a}}
	switch name {
	case "slen", "scap", "soff", "rid", "lidx", "lfk":
		t.lo = new(big.Int)
		if name == "slen" || name == "scap" || name == "soff" {
			t.hi = big.NewInt(1 << 47)
		}
		if name == "rid" {
			t.lo = nil
			t.hi = a.rhi
		}
	case "itag", "stag", "ltag", "otag":
		t.lo = new(big.Int)
	case "sbase", "lval":
		t.rhi = a.rhi
	}
	return intern(t)
}

func MkTest(name string, a *Term) *Term {
	if a.op == OCtor {
		return B(a.name == name)
	}
	if a.op == OIte {
		return Ite(a.args[0], MkTest(name, a.args[1]), MkTest(name, a.args[2]))
	}
	return intern(&Term{op: OTest, sort: SBool, name: name, args: []*Term{a}})
}

func MkLoc(r, i, k *Term) *Term      { return Ctor("mkloc", r, i, k) }
func Rid(l *Term) *Term              { return Sel("rid", l) }
func MkSlice(b, o, l, c *Term) *Term { return Ctor("mkslice", b, o, l, c) }
func SBase(s *Term) *Term            { return Sel("sbase", s) }
func SOff(s *Term) *Term             { return Sel("soff", s) }
func SLen(s *Term) *Term             { return Sel("slen", s) }
func SCap(s *Term) *Term             { return Sel("scap", s) }

// ---- printing (debug)

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	switch t.op {
	case OConst:
		return t.val.String()
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OSym, OBound:
		return t.name
	case OLin:
		var p []string
		for i, a := range t.args {
			if t.coefs[i].Cmp(big.NewInt(1)) == 0 {
				p = append(p, a.str(d+1))
			} else {
				p = append(p, t.coefs[i].String()+"*"+a.str(d+1))
			}
		}
		if t.val.Sign() != 0 {
			p = append(p, t.val.String())
		}
		return "(" + strings.Join(p, " + ") + ")"
	case OLe0:
		return t.args[0].str(d+1) + "<=0"
	case OEq:
		return "(" + t.args[0].str(d+1) + " = " + t.args[1].str(d+1) + ")"
	case OForall, OExists:
		q := "∀"
		if t.op == OExists {
			q = "∃"
		}
		for _, v := range t.vars {
			q += v.name + " "
		}
		return q + ". " + t.args[0].str(d+1)
	case OSelect:
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	}
	names := map[Op]string{OMul: "*", ODiv: "div", OMod: "mod", OByte: "byte", ONot: "!", OAnd: "and", OOr: "or", OIte: "ite", OStore: "store", OCpy: "cpy", OConstArr: "K"}
	n := t.name
	if n == "" {
		n = names[t.op]
	}
	if t.op == OTest {
		n = "is-" + n
	}
	if len(t.args) == 0 {
		return n
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.str(d+1))
	}
	return n + "(" + strings.Join(p, ", ") + ")"
}

// walkTerm visits every distinct subterm once.
func walkTerm(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		walkTerm(a, seen, f)
	}
	for _, p := range t.pats {
		for _, x := range p {
			walkTerm(x, seen, f)
		}
	}
	f(t)
}
