package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---- SMT-LIB emission

type emitter struct {
	decls     strings.Builder
	defs      strings.Builder
	names     map[*Term]string
	refs      map[*Term]int
	sorts     map[string]bool
	fns       map[string]bool
	syms      map[*Term]bool
	n         int
	quant     bool
	extra     []*Term // axioms to add
	extraSeen map[*Term]bool
	visited   map[*Term]bool
	gen       int
	ranges    []*Term
	cpys      []*Term
	rbs       map[*Term]string
}

func smtName(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!.$", c)) {
			ok = false
			break
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.ReplaceAll(s, "|", "_") + "|"
}

func bigSMT(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func symKey(t *Term) string {
	n := t.name
	if t.lo != nil || t.hi != nil || t.elo != nil || t.rb != nil || t.rhi != nil {
		n += fmt.Sprintf("#%d", t.id)
	}
	return n
}

func (e *emitter) scan(t *Term) {
	e.refs[t]++
	if e.visited[t] {
		return
	}
	e.visited[t] = true
	for _, a := range t.args {
		e.scan(a)
	}
	for _, p := range t.pats {
		for _, x := range p {
			e.scan(x)
		}
	}
	switch t.op {
	case OSym:
		e.syms[t] = true
		if t.rb != nil {
			e.scan(t.rb)
		}
		if t.sort == SStr && strings.HasPrefix(t.name, "str!") {
			e.addAxioms(strConstAxioms(t))
		}
	case OApp:
		f := funcs[t.name]
		if !e.fns[t.name] {
			e.fns[t.name] = true
			if f.axioms != nil {
				e.addAxioms(f.axioms())
			}
			e.addAxioms(lemmaAxioms[t.name])
		}
		if f.inst != nil && !t.bound && (!f.rec || e.gen < f.fuel) {
			e.gen++
			e.addAxioms(f.inst(t))
			e.gen--
		}
	case OForall, OExists:
		e.quant = true
	case OCpy, OFrm:
		if !t.bound {
			e.cpys = append(e.cpys, t)
		}
	}
	if !t.bound {
		if t.sort == SInt && t.op != OConst && t.op != OLin && t.op != OMod && t.op != ODiv && t.op != OByte && t.op != OIte && t.op != OMul {
			if t.lo != nil || t.hi != nil {
				e.ranges = append(e.ranges, t)
			}
		}
		if t.sort == SSlice && t.op != OCtor && t.op != OIte {
			e.addAxioms(sliceFacts(t))
		}
		if t.op == OMod && !t.args[1].isConst() {
			e.addAxioms(modFacts(t))
		}
		if t.op == OMul && !t.args[0].isConst() {
			e.addAxioms(mulFacts(t))
		}
	}
}

func sliceFacts(t *Term) []*Term {
	return []*Term{
		And(Le(Zero, SLen(t)), Le(SLen(t), SCap(t)), Le(Zero, SOff(t)),
			Le(SCap(t), BI(pow2(47))), Le(SOff(t), BI(pow2(47))),
			Implies(Eq(Rid(SBase(t)), Zero), And(Eq(SCap(t), Zero), Eq(SOff(t), Zero), Eq(SBase(t), NilLoc)))),
	}
}

// x mod a for a symbolic a>0
func modFacts(t *Term) []*Term {
	x, a := t.args[0], t.args[1]
	q := App("quot", x, a)
	return []*Term{Implies(Gt(a, Zero), And(Le(Zero, t), Lt(t, a), Eq(x, Add(Mul(a, q), t)),
		Implies(Le(Zero, x), And(Le(Zero, q), Le(t, x), Le(Mul(a, q), x)))))}
}

func mulFacts(t *Term) []*Term { return nil }

func init() {
	declFun("quot", SInt, SInt, SInt)
}

func (e *emitter) addAxioms(ts []*Term) {
	for _, t := range ts {
		if t == TTrue || e.extraSeen[t] {
			continue
		}
		e.extraSeen[t] = true
		e.extra = append(e.extra, t)
		e.scan(t)
	}
}

func (e *emitter) emit(t *Term) string {
	if n, ok := e.names[t]; ok {
		return n
	}
	s := e.emit1(t)
	if !t.bound && len(t.args) > 0 && e.refs[t] > 1 && t.op != OConst && len(s) > 24 {
		e.n++
		n := fmt.Sprintf("t!%d", e.n)
		fmt.Fprintf(&e.defs, "(define-fun %s () %s %s)\n", n, t.sort.name, s)
		e.names[t] = n
		return n
	}
	if !t.bound {
		e.names[t] = s
	}
	return s
}

func (e *emitter) app(f string, as ...*Term) string {
	var b strings.Builder
	b.WriteString("(" + f)
	for _, a := range as {
		b.WriteString(" " + e.emit(a))
	}
	b.WriteString(")")
	return b.String()
}

func (e *emitter) lin(t *Term) string {
	var p []string
	for i, a := range t.args {
		s := e.emit(a)
		if t.coefs[i].Cmp(big.NewInt(1)) != 0 {
			s = "(* " + bigSMT(t.coefs[i]) + " " + s + ")"
		}
		p = append(p, s)
	}
	if t.val.Sign() != 0 {
		p = append(p, bigSMT(t.val))
	}
	if len(p) == 1 {
		return p[0]
	}
	return "(+ " + strings.Join(p, " ") + ")"
}

func (e *emitter) emit1(t *Term) string {
	switch t.op {
	case OConst:
		return bigSMT(t.val)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OSym:
		return smtName(symKey(t))
	case OBound:
		return smtName("?" + t.name)
	case OApp:
		n := smtName(t.name)
		if f := funcs[t.name]; f.interp != "" {
			n = f.interp
		}
		if len(t.args) == 0 {
			return n
		}
		return e.app(n, t.args...)
	case OLin:
		return e.lin(t)
	case OMul:
		return e.app("*", t.args...)
	case ODiv:
		if !t.args[1].isConst() {
			return e.app("quot", t.args...)
		}
		return e.app("div", t.args...)
	case OMod:
		if !t.args[1].isConst() {
			return e.app("smod", t.args...)
		}
		return e.app("mod", t.args...)
	case OByte:
		k := t.args[1].int64()
		s := e.emit(t.args[0])
		if k > 0 {
			s = "(div " + s + " " + pow2(int(8*k)).String() + ")"
		}
		return "(mod " + s + " 256)"
	case OLe0:
		l := t.args[0]
		// a <= b form
		if l.op == OLin {
			p, q := newLin(), newLin()
			for i, a := range l.args {
				if l.coefs[i].Sign() > 0 {
					p.m[a] = l.coefs[i]
				} else {
					q.m[a] = new(big.Int).Neg(l.coefs[i])
				}
			}
			if l.val.Sign() > 0 {
				p.c.Set(l.val)
			} else {
				q.c.Neg(l.val)
			}
			return "(<= " + e.linAcc(p) + " " + e.linAcc(q) + ")"
		}
		return "(<= " + e.emit(l) + " 0)"
	case OEq:
		return e.app("=", t.args...)
	case ONot:
		return e.app("not", t.args...)
	case OAnd:
		return e.app("and", t.args...)
	case OOr:
		return e.app("or", t.args...)
	case OIte:
		return e.app("ite", t.args...)
	case OForall, OExists:
		q := "forall"
		if t.op == OExists {
			q = "exists"
		}
		var vs []string
		var rng []*Term
		for _, v := range t.vars {
			vs = append(vs, "("+smtName("?"+v.name)+" "+v.sort.name+")")
			if v.lo != nil {
				rng = append(rng, rangeTerm(v, v.lo, nil))
			}
			if v.hi != nil {
				rng = append(rng, rangeTerm(v, nil, v.hi))
			}
		}
		body := e.emit(t.args[0])
		if len(rng) > 0 {
			var rs []string
			for _, v := range t.vars {
				n := smtName("?" + v.name)
				if v.lo != nil {
					rs = append(rs, "(<= "+bigSMT(v.lo)+" "+n+")")
				}
				if v.hi != nil {
					rs = append(rs, "(<= "+n+" "+bigSMT(v.hi)+")")
				}
			}
			r := "(and " + strings.Join(rs, " ") + ")"
			if t.op == OForall {
				body = "(=> " + r + " " + body + ")"
			} else {
				body = "(and " + r + " " + body + ")"
			}
		}
		if len(t.pats) > 0 {
			var ps string
			for _, p := range t.pats {
				var xs []string
				for _, x := range p {
					xs = append(xs, e.emit(x))
				}
				ps += " :pattern (" + strings.Join(xs, " ") + ")"
			}
			body = "(! " + body + ps + ")"
		}
		return "(" + q + " (" + strings.Join(vs, " ") + ") " + body + ")"
	case OSelect:
		return e.app("select", t.args...)
	case OStore:
		return e.app("store", t.args...)
	case OCpy, OFrm:
		if t.bound {
			panic("cpy under a binder")
		}
		e.n++
		n := fmt.Sprintf("c!%d", e.n)
		fmt.Fprintf(&e.defs, "(declare-const %s %s)\n", n, t.sort.name)
		e.names[t] = n
		return n
	case OConstArr:
		return "((as const " + t.sort.name + ") " + e.emit(t.args[0]) + ")"
	case OCtor:
		if len(t.args) == 0 {
			return t.name
		}
		return e.app(t.name, t.args...)
	case OSel:
		return e.app(t.name, t.args...)
	case OTest:
		return e.app("(_ is "+t.name+")", t.args...)
	}
	panic("emit")
}

// inlineInt prints a small integer term without shared definitions.
func inlineInt(t *Term) string {
	e := &emitter{names: map[*Term]string{}, refs: map[*Term]int{}}
	return e.emit(t)
}

func rangeTerm(v *Term, lo, hi *big.Int) *Term { return TTrue }

func (e *emitter) linAcc(l *linAcc) string {
	var as []*Term
	for a := range l.m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	var p []string
	for _, a := range as {
		s := e.emit(a)
		if l.m[a].Cmp(big.NewInt(1)) != 0 {
			s = "(* " + l.m[a].String() + " " + s + ")"
		}
		p = append(p, s)
	}
	if l.c.Sign() != 0 || len(p) == 0 {
		p = append(p, bigSMT(l.c))
	}
	if len(p) == 1 {
		return p[0]
	}
	return "(+ " + strings.Join(p, " ") + ")"
}

var prelude = `(declare-sort Str 0)
(declare-sort Opq 0)
(declare-datatypes ((Loc 0)) (((mkloc (rid Int) (lidx Int) (lfk Int)))))
(declare-datatypes ((Slice 0)) (((mkslice (sbase Loc) (soff Int) (slen Int) (scap Int)))))
(declare-datatypes ((Iface 0)) (((inil) (iint (itag Int) (ival Int)) (istr (stag Int) (sval Str)) (iloc (ltag Int) (lval Loc)) (iopq (otag Int) (oval Int)))))
(declare-fun quot (Int Int) Int)
(declare-fun smod (Int Int) Int)
`

// smtQuery renders "assumptions and not goal".
// terms are made by one goroutine at a time
var termMu sync.Mutex

func smtQuery(assume []*Term, goal *Term) (string, bool) {
	termMu.Lock()
	defer termMu.Unlock()
	mk := func() *emitter {
		return &emitter{names: map[*Term]string{}, refs: map[*Term]int{}, fns: map[string]bool{}, syms: map[*Term]bool{},
			visited: map[*Term]bool{}, extraSeen: map[*Term]bool{}}
	}
	e := mk()
	assume = prepare(assume, Not(goal))
	for _, a := range assume {
		e.scan(a)
	}
	// copy definitions
	var cpyAx []*Term
	for i := 0; i < len(e.cpys); i++ {
		c := e.cpys[i]
		v := Bound("ci"+c.sort.k.name, c.sort.k)
		ax := copyAxiom(c, v)
		cpyAx = append(cpyAx, ax)
		e.scan(ax)
		e.quant = true
	}
	all := append(append(append([]*Term{}, e.extra...), cpyAx...), assume...)
	if sp := splitBytes(all); len(sp) != len(all) {
		all = sp
		q := e.quant
		e = mk()
		for _, a := range all {
			e.scan(a)
		}
		e.quant = e.quant || q
	}
	var b strings.Builder
	var body strings.Builder
	flush := func(s string) {
		body.WriteString(e.defs.String())
		e.defs.Reset()
		body.WriteString(s)
	}
	for _, a := range all {
		s := e.emit(a)
		flush("(assert " + s + ")\n")
	}
	for i := 0; i < len(e.ranges); i++ {
		t := e.ranges[i]
		s := e.emit(t)
		r := ""
		if t.lo != nil {
			r += "(assert (<= " + bigSMT(t.lo) + " " + s + "))\n"
		}
		if t.hi != nil {
			r += "(assert (<= " + s + " " + bigSMT(t.hi) + "))\n"
		}
		flush(r)
	}
	e.rbs = map[*Term]string{}
	for t := range e.syms {
		if t.rb != nil {
			e.rbs[t] = inlineInt(t.rb)
		}
	}
	b.WriteString(prelude)
	var ss []*Term
	for t := range e.syms {
		ss = append(ss, t)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i].id < ss[j].id })
	for _, t := range ss {
		fmt.Fprintf(&b, "(declare-const %s %s)\n", smtName(symKey(t)), t.sort.name)
	}
	var fs []string
	for f := range e.fns {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		if f == "quot" || f == "smod" || funcs[f].interp != "" {
			continue
		}
		d := funcs[f]
		var as []string
		for _, a := range d.args {
			as = append(as, a.name)
		}
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", smtName(f), strings.Join(as, " "), d.res.name)
	}
	// element ranges of array symbols, needed only when quantifiers may look at them
	if e.quant {
		for _, t := range ss {
			if t.rb != nil {
				e.rbAxiom(&b, t)
			}
			if t.elo == nil {
				continue
			}
			n := smtName(symKey(t))
			vars, acc := "", n
			so := t.sort
			for k := 0; so.isArr(); k++ {
				vars += fmt.Sprintf("(x%d %s)", k, so.k.name)
				acc = fmt.Sprintf("(select %s x%d)", acc, k)
				so = so.v
			}
			fmt.Fprintf(&b, "(assert (forall (%s) (! (and (<= %s %s) (<= %s %s)) :pattern (%s))))\n", vars, bigSMT(t.elo), acc, acc, bigSMT(t.ehi), acc)
		}
	}
	b.WriteString(body.String())
	return b.String(), e.quant
}

func copyAxiom(c, v *Term) *Term {
	if c.op == OFrm {
		raw := intern(&Term{op: OSelect, sort: c.sort.v, args: []*Term{c, v}})
		return Forall([]*Term{v}, Eq(raw, Ite(Eq(c.args[2], Rid(v)), Select(c.args[1], v), Select(c.args[0], v))), []*Term{raw})
	}
	d, dp, s, sp, n := c.args[0], c.args[1], c.args[2], c.args[3], c.args[4]
	raw := intern(&Term{op: OSelect, sort: c.sort.v, args: []*Term{c, v}})
	return Forall([]*Term{v}, Eq(raw, Ite(And(Le(dp, v), Lt(v, Add(dp, n))), Select(s, Add(sp, Sub(v, dp))), Select(d, v))), []*Term{raw})
}

// rbAxiom: places allocated when the heap symbol was created hold references allocated by then.
func (e *emitter) rbAxiom(b *strings.Builder, t *Term) {
	n := smtName(symKey(t))
	vars, acc := "", n
	so := t.sort
	for k := 0; so.isArr(); k++ {
		vars += fmt.Sprintf("(x%d %s)", k, so.k.name)
		acc = fmt.Sprintf("(select %s x%d)", acc, k)
		so = so.v
	}
	guard := "true"
	if t.sort.k == SLoc {
		guard = fmt.Sprintf("(< (rid x0) %s)", e.rbs[t])
	}
	var fact string
	switch so {
	case SLoc:
		fact = fmt.Sprintf("(< (rid %s) %s)", acc, e.rbs[t])
	case SSlice:
		fact = fmt.Sprintf("(and (< (rid (sbase %s)) %s) (<= 0 (slen %s) (scap %s)) (<= 0 (soff %s)))", acc, e.rbs[t], acc, acc, acc)
	case SIface:
		fact = fmt.Sprintf("(=> ((_ is iloc) %s) (< (rid (lval %s)) %s))", acc, acc, e.rbs[t])
	default:
		return
	}
	fmt.Fprintf(b, "(assert (forall (%s) (! (=> %s %s) :pattern (%s))))\n", vars, guard, fact, acc)
}

// ---- solver processes

type solverProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

type SolverStats struct {
	sync.Mutex
	queries  int
	bySolver map[string]int
	seconds  map[string]float64
}

var stats = SolverStats{bySolver: map[string]int{}, seconds: map[string]float64{}}

type pool struct {
	args []string
	free chan *solverProc
}

func startProc(args []string) *solverProc {
	c := exec.Command(args[0], args[1:]...)
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		panic(err)
	}
	return &solverProc{c, in, bufio.NewReaderSize(out, 1<<16)}
}

func newPool(n int, args ...string) *pool {
	p := &pool{args: args, free: make(chan *solverProc, n)}
	for i := 0; i < n; i++ {
		p.free <- nil
	}
	return p
}

// run sends a query; returns sat/unsat/unknown.
func (p *pool) run(q string, ms int, opts string) string {
	sp := <-p.free
	if sp == nil {
		sp = startProc(p.args)
	}
	res := "unknown"
	done := make(chan string, 1)
	go func() {
		fmt.Fprintf(sp.in, "(reset)\n(set-option :rlimit 0)\n(set-option :timeout %d)\n%s\n%s(check-sat)\n(echo \"@@done\")\n", ms, opts, q)
		r := ""
		for {
			l, err := sp.out.ReadString('\n')
			if err != nil {
				done <- "dead"
				return
			}
			l = strings.TrimSpace(l)
			if l == "@@done" || l == "\"@@done\"" {
				done <- r
				return
			}
			if l == "sat" || l == "unsat" || l == "unknown" {
				r = l
			} else if strings.HasPrefix(l, "(error") {
				if r == "" {
					r = l
				}
			}
		}
	}()
	select {
	case r := <-done:
		res = r
		if r == "dead" {
			sp.cmd.Process.Kill()
			sp.cmd.Wait()
			sp = nil
			res = "unknown"
		}
	case <-time.After(time.Duration(ms+1500) * time.Millisecond):
		sp.cmd.Process.Kill()
		sp.cmd.Wait()
		sp = nil
	}
	p.free <- sp
	return res
}

func (p *pool) close() {
	for {
		select {
		case sp := <-p.free:
			if sp != nil {
				sp.cmd.Process.Kill()
				sp.cmd.Wait()
			}
		default:
			return
		}
	}
}

var (
	zNew *pool
	zOld *pool
	zQk  *pool
)

func initSolvers(n int) {
	zNew = newPool(n, "z3-new", "-in", "smt.solve_eqs=false")
	zOld = newPool(n, "z3", "-in")
	zQk = newPool(n, "z3-new", "-in", "smt.solve_eqs=false")
}

func closeSolvers() {
	zNew.close()
	zOld.close()
	zQk.close()
}

func runCVC5(q string, ms int, extra ...string) string {
	args := append([]string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-q"}, extra...)
	c := exec.Command("cvc5", args...)
	c.Stdin = strings.NewReader("(set-logic ALL)\n" + q + "(check-sat)\n")
	var out bytes.Buffer
	c.Stdout = &out
	timer := time.AfterFunc(time.Duration(ms+1500)*time.Millisecond, func() {
		if c.Process != nil {
			c.Process.Kill()
		}
	})
	c.Run()
	timer.Stop()
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			return l
		}
	}
	return "unknown"
}

func note(name string, t0 time.Time, decided bool) {
	stats.Lock()
	stats.queries++
	stats.seconds[name] += time.Since(t0).Seconds()
	if decided {
		stats.bySolver[name]++
	}
	stats.Unlock()
}

var quickCache sync.Map
var debugSMT = os.Getenv("GV_SMT")

func hashQ(q string) string {
	h := sha256.Sum256([]byte(q))
	return string(h[:16])
}

// Options outlive (reset), so every run sets all of them.
func zopts(mbqi, auto bool, relevancy, seed, arith int) string {
	return fmt.Sprintf("(set-option :smt.mbqi %v)\n(set-option :smt.auto_config %v)\n(set-option :smt.relevancy %d)\n(set-option :smt.random_seed %d)\n(set-option :smt.arith.solver %d)\n",
		mbqi, auto, relevancy, seed, arith)
}

var (
	optPlain  = zopts(true, true, 2, 0, 6)
	optNoMbqi = zopts(false, false, 2, 0, 6)
	optRel0   = zopts(false, false, 0, 0, 6)
	optAuto   = zopts(false, true, 2, 0, 2)
	optSeed   = zopts(false, false, 2, 7, 2)
)

// quickSplit is quickProve, and on failure again with the last value of a range apart.
func quickSplit(assume []*Term, goal *Term, ms int) bool {
	qs, gs := edgeQueries(assume, goal)
	if qs != nil {
		if ms > 200 && quickProve(assume, goal, 200) || quickProve(qs[0], gs[0], ms) && quickProve(qs[1], gs[1], ms) {
			return true
		}
	}
	return quickProve(assume, goal, ms)
}

// quick proves or gives up fast (feasibility pruning, Houdini).
func quickProve(assume []*Term, goal *Term, ms int) bool {
	if goal == TTrue {
		return true
	}
	for _, a := range assume {
		if a == TFalse || a == goal {
			return true
		}
	}
	q, quant := smtQuery(assume, goal)
	h := hashQ(q)
	if v, ok := quickCache.Load(h); ok && (v.(int) == 0 || v.(int) >= ms) {
		return v.(int) == 0
	}
	t0 := time.Now()
	o := optPlain
	if quant {
		o = optNoMbqi
	}
	lim := fmt.Sprintf("(set-option :rlimit %d)\n", ms*6000)
	r := zQk.run(q, ms*10, o+lim)
	if r != "unsat" && quant && ms >= 1000 {
		r = zQk.run(q, ms*10, optRel0+lim)
	}
	if r != "unsat" && quant && ms >= 1000 {
		r = zQk.run(q, ms*10, optAuto+lim)
	}
	note("z3-new(quick)", t0, r == "unsat")
	if d := os.Getenv("GV_SLOW"); d != "" && time.Since(t0) > 5*time.Second {
		os.WriteFile(fmt.Sprintf("%s/slow%d.smt2", d, time.Now().UnixNano()%1000000), []byte(q+"(check-sat)\n"), 0644)
	}
	checkErr(r, q)
	if r == "unsat" {
		quickCache.Store(h, 0)
	} else {
		quickCache.Store(h, ms)
	}
	return r == "unsat"
}

func checkErr(r, q string) {
	if strings.HasPrefix(r, "(error") && !strings.Contains(r, "canceled") && !strings.Contains(r, "timeout") {
		os.WriteFile("/tmp/gv_err.smt2", []byte(q+"(check-sat)\n"), 0644)
		fmt.Fprintln(os.Stderr, "SMT error:", r, "(query in /tmp/gv_err.smt2)")
	}
}

type ProveResult struct {
	status string // proved, refuted, unknown
	by     string
	secs   float64
	query  string
}

// prove decides an obligation with the whole portfolio.
func prove(assume []*Term, goal *Term, ms int) ProveResult {
	if goal == TTrue {
		return ProveResult{status: "proved", by: "simplifier"}
	}
	for _, a := range assume {
		if a == TFalse || a == goal {
			return ProveResult{status: "proved", by: "simplifier"}
		}
	}
	q, quant := smtQuery(assume, goal)
	if qs, gs := edgeQueries(assume, goal); qs != nil && !quickProve(assume, goal, 200) {
		t0 := time.Now()
		if quickProve(qs[0], gs[0], 1000) && quickProve(qs[1], gs[1], 1000) {
			return ProveResult{"proved", "z3-5.3", time.Since(t0).Seconds(), q}
		}
	}
	return proveText(q, quant, ms)
}

// proveText runs the portfolio on a rendered query. parts, if any, are queries that together imply it.
func proveText(q string, quant bool, ms int, parts ...string) ProveResult {
	t00 := time.Now()
	type att struct {
		name string
		f    func() string
	}
	sat := false
	try := func(as []att) (string, bool) {
		ch := make(chan [2]string, len(as))
		for _, a := range as {
			a := a
			go func() {
				t0 := time.Now()
				r := a.f()
				note(a.name, t0, r == "unsat")
				checkErr(r, q)
				ch <- [2]string{a.name, r}
			}()
		}
		for range as {
			r := <-ch
			if r[1] == "unsat" {
				return r[0], true
			}
			if r[1] == "sat" {
				sat = true
				return r[0], false
			}
		}
		return "", false
	}
	o := optPlain
	if quant {
		o = optNoMbqi
	}
	if by, ok := try([]att{{"z3-5.3", func() string { return zNew.run(q, minI(ms, 1500), o) }}}); ok {
		return ProveResult{"proved", by, time.Since(t00).Seconds(), q}
	}
	if quant && !sat {
		if by, ok := try([]att{{"z3-5.3", func() string { return zNew.run(q, minI(ms, 3000), optRel0) }}}); ok {
			return ProveResult{"proved", by, time.Since(t00).Seconds(), q}
		}
	}
	if quant && !sat {
		if by, ok := try([]att{
			{"z3-5.3", func() string { return zNew.run(q, minI(ms, 3000), optAuto) }},
			{"z3-4.8", func() string { return zOld.run(q, minI(ms, 4000), optAuto) }},
		}); ok {
			return ProveResult{"proved", by, time.Since(t00).Seconds(), q}
		}
	}
	if !sat && len(parts) > 0 {
		all, who := true, ""
		for _, p := range parts {
			p := p
			by, ok := try([]att{
				{"z3-5.3", func() string { return zNew.run(p, minI(ms, 6000), o) }},
				{"z3-5.3", func() string { return zNew.run(p, minI(ms, 6000), optRel0) }},
			})
			sat = false
			who = by
			if !ok {
				all = false
				break
			}
		}
		if all {
			return ProveResult{"proved", who, time.Since(t00).Seconds(), q}
		}
	}
	if !sat {
		if by, ok := try([]att{
			{"z3-5.3", func() string { return zNew.run(q, ms, optPlain) }},
			{"z3-5.3", func() string { return zNew.run(q, ms, optSeed) }},
			{"cvc5-1.1", func() string { return runCVC5(q, ms) }},
			{"z3-4.8", func() string { return zOld.run(q, ms, o) }},
		}); ok {
			return ProveResult{"proved", by, time.Since(t00).Seconds(), q}
		}
	}
	if !sat && quant {
		// the settings that found most proofs, now with time enough on a loaded machine
		if by, ok := try([]att{
			{"z3-5.3", func() string { return zNew.run(q, minI(ms, 30000), o) }},
			{"z3-5.3", func() string { return zNew.run(q, minI(ms, 30000), optRel0) }},
			{"z3-5.3", func() string { return zNew.run(q, minI(ms, 30000), zopts(true, true, 2, 7, 6)) }},
			{"z3-4.8", func() string { return zOld.run(q, minI(ms, 30000), optPlain) }},
		}); ok {
			return ProveResult{"proved", by, time.Since(t00).Seconds(), q}
		}
	}
	st := "unknown"
	if sat {
		st = "refuted"
	}
	return ProveResult{st, "", time.Since(t00).Seconds(), q}
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}
