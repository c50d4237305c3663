package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var lemmaAxioms = map[string][]*Term{}

type OblReport struct {
	Fn     string  `json:"fn"`
	Kind   string  `json:"kind"`
	Name   string  `json:"name"`
	Pos    string  `json:"pos,omitempty"`
	Status string  `json:"status"`
	By     string  `json:"by,omitempty"`
	Secs   float64 `json:"secs"`
	Detail string  `json:"detail,omitempty"`
}

type FnReport struct {
	Name    string             `json:"name"`
	Missing bool               `json:"missing,omitempty"`
	Error   string             `json:"error,omitempty"`
	Obls    []OblReport        `json:"obls"`
	Used    []string           `json:"used"`
	Inlined []string           `json:"inlined"`
	Models  []string           `json:"models"`
	Trusted []string           `json:"trusted"`
	States  int                `json:"states"`
	Returns int                `json:"returns"`
	Secs    float64            `json:"secs"`
	Solver  map[string]float64 `json:"solver_secs"`
	Decided map[string]int     `json:"decided_by"`
	Queries int                `json:"queries"`
	Pure    bool               `json:"pure,omitempty"`
}

// active selects the clauses relevant to the property being checked.
func (ex *Exec) active(cs []*Clause) []*Clause {
	if ex.prop == "" {
		return cs
	}
	var out []*Clause
	for _, c := range cs {
		if len(c.props) == 0 {
			out = append(out, c)
			continue
		}
		for _, p := range c.props {
			if p == ex.prop {
				out = append(out, c)
				break
			}
		}
	}
	return out
}

func recvNonNil(fn *ssa.Function, i int, v Value) *Term {
	if i != 0 || fn.Signature.Recv() == nil {
		return nil
	}
	if _, ok := under(fn.Signature.Recv().Type()).(*types.Pointer); !ok {
		return nil
	}
	if t, ok := v.(*Term); ok && t.sort == SLoc {
		return Ne(Rid(t), Zero)
	}
	return nil
}

func newExec(P *Program, S *Specs, prop string) *Exec {
	ex := &Exec{prog: P, specs: S, prop: prop, oblSeen: map[string]bool{}, usedContracts: map[string]*Contract{}, inlined: map[string]bool{},
		models: map[string]int{}, trusted: map[string]bool{}, loopCache: map[string][]bool{}, invDropped: map[string]bool{}}
	ex.initExtTypes()
	return ex
}

func (ex *Exec) verifyFn(fn *ssa.Function, con *Contract) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsup:
				err = fmt.Errorf("%s", x.msg)
			case specErr:
				err = fmt.Errorf("contract: %s", x.msg)
			default:
				panic(r)
			}
		}
	}()
	ex.target, ex.con = fn, con
	st := &State{heaps: map[string]*Term{}, known: map[*Term]bool{}, alloc: allocBase, ghost: map[string]Value{}}
	var args []Value
	for i, p := range fn.Params {
		v := st.freshValue(p.Type(), p.Name())
		if nn := recvNonNil(fn, i, v); nn != nil {
			st.assume(nn)
		}
		if t, ok := v.(*Term); ok && t.sort == SSlice {
			st.assume(And(Le(Zero, SLen(t)), Le(SLen(t), SCap(t)), Le(Zero, SOff(t))))
		}
		if s, ok := v.(*Term); ok && s.sort == SLoc {
			if pt, ok := under(p.Type()).(*types.Pointer); ok {
				if _, isSt := under(pt.Elem()).(*types.Struct); isSt {
					_ = pt
				}
			}
		}
		args = append(args, v)
	}
	var binds []Value
	for _, p := range fn.FreeVars {
		v := st.freshValue(p.Type(), p.Name())
		if t, ok := v.(*Term); ok && t.sort == SLoc {
			st.assume(Ne(Rid(t), Zero))
		}
		binds = append(binds, v)
	}
	e := ex.conEnv(st, fn, args)
	for i, p := range fn.FreeVars {
		if pt, ok := under(p.Type()).(*types.Pointer); ok {
			e.vars[p.Name()] = e.loadAt(binds[i], pt.Elem())
		}
	}
	e.alloc0 = allocBase
	ghosts := map[string]SV{}
	for _, g := range con.ghosts {
		s, t := e.sortFor(g.typ)
		var v Value = Sym("ghost!"+g.name, s)
		if s == SInt {
			lo, hi := intRange2(t)
			v = SymR("ghost!"+g.name, lo, hi)
		}
		ghosts[g.name] = SV{v, t}
		e.vars[g.name] = ghosts[g.name]
	}
	for _, r := range ex.active(con.requires) {
		st.assume(e.bool(r.e))
	}
	for _, u := range con.uses {
		_ = u
	}
	// the precondition must be satisfiable
	if quickProve(st.pcs(), TFalse, 2000) {
		ex.obls = append(ex.obls, &Obligation{fn: fnName(fn), name: "precondition is satisfiable", kind: "vacuity", goal: TFalse})
		return nil
	}
	old := &State{heaps: copyHeaps(st.heaps), alloc: st.alloc}
	if con.trusted != "" {
		ex.note("assumed contract of " + con.name + ": " + con.trusted)
		return nil
	}
	mods := ex.modLocs(e, con)
	effKeys := ex.effects(e, con)
	fr := ex.pushFrame(st, fn, args, binds, func(st *State, res []Value) {
		ex.stReach++
		if !ex.returns && !quickProve(st.pcs(), TFalse, 1500) {
			ex.returns = true
		}
		ex.atReturn(st, fn, con, args, binds, old, mods, ghosts, effKeys, res)
	})
	fr.ghosts = ghosts
	ex.push(st)
	ex.runAll()
	return nil
}

func intRange2(t types.Type) (lo, hi *bigInt) {
	if t == nil {
		return nil, nil
	}
	return intRange(t)
}

// effects: ghost appends to a writer's stream, performed at return.
type effect struct {
	key, arr, off, n *Term
}

func (ex *Exec) effects(e *Env, con *Contract) []effect {
	var out []effect
	for _, x := range con.effects {
		if x.kind != "call" || x.args[0].op != "append" {
			specFail("effect %s", exprStr(x))
		}
		k := e.ifaceKey(e.eval(x.args[1]))
		s := e.term(x.args[2])
		arr, off, n := ex.sliceBytes(e.st, s)
		out = append(out, effect{k, arr, off, n})
	}
	return out
}

func (ex *Exec) atReturn(st *State, fn *ssa.Function, con *Contract, args, binds []Value, old *State, mods []modLoc, ghosts map[string]SV, effs []effect, res []Value) {
	defer specGuard("contract of " + con.name)
	for _, ef := range effs {
		ex.streamAppend(st, ef.key, ef.arr, ef.off, ef.n)
	}
	e := ex.conEnv(st, fn, args)
	e.old = old
	e.alloc0 = allocBase
	for k, v := range ghosts {
		e.vars[k] = v
	}
	for i, p := range fn.FreeVars {
		if pt, ok := under(p.Type()).(*types.Pointer); ok {
			e.vars[p.Name()] = e.loadAt(binds[i], pt.Elem())
		}
	}
	e.setResults(fn, res)
	for _, u := range con.uses {
		st.assume(ex.useLemma(e, u))
	}
	if st.known[TFalse] {
		return
	}
	// obligations are independent of each other
	for _, cl := range ex.active(con.ensures) {
		g := e.bool(cl.e)
		ex.check(st.clone(), g, "ensures", cl.label, fnPos(ex, fn))
		st.assume(g)
	}
	// frame
	if con.modAny {
		return
	}
	seen := map[string]bool{}
	for w := st.writes; w != nil; w = w.prev {
		if strings.HasPrefix(w.heap, "ITER") {
			continue
		}
		id := 0
		if w.loc != nil {
			id = w.loc.id
		}
		k := fmt.Sprintf("%s|%d", w.heap, id)
		if seen[k] {
			continue
		}
		seen[k] = true
		ok := []*Term{}
		if w.loc != nil {
			switch w.loc.sort {
			case SLoc:
				ok = append(ok, Le(allocBase, Rid(w.loc)))
			case SIface:
				if w.loc.op == OCtor && w.loc.name == "iloc" {
					ok = append(ok, Le(allocBase, Rid(w.loc.args[1])))
				}
			}
		}
		for _, m := range mods {
			if m.heap != w.heap {
				continue
			}
			switch {
			case m.loc == nil && m.rid == nil:
				ok = append(ok, TTrue)
			case w.loc == nil:
			case m.rid != nil:
				ok = append(ok, Eq(Rid(w.loc), m.rid))
			default:
				ok = append(ok, Eq(w.loc, m.loc))
			}
		}
		g := Or(ok...)
		if g != TTrue {
			// a write that left the place unchanged is no write
			if w.loc != nil {
				g = Or(g, Eq(Select(st.H(w.heap), w.loc), Select(heapIn(old, w.heap), w.loc)))
			}
			ex.check(st.clone(), g, "frame", "writes only what the contract allows: "+w.heap, fnPos(ex, fn))
		}
	}
}

func heapIn(o *State, name string) *Term {
	if h, ok := o.heaps[name]; ok {
		return h
	}
	return initialHeap(name)
}

func fnPos(ex *Exec, fn *ssa.Function) string {
	p := ex.prog.fset.Position(fn.Pos())
	return strings.TrimPrefix(p.Filename, ex.prog.dir+"/") + fmt.Sprintf(":%d", p.Line)
}

// ---- lemmas

func (ex *Exec) lemmaParts(l *Lemma, vars map[string]SV) (req, ens *Term) {
	e := &Env{ex: ex, specs: ex.specs, pkg: ex.mainPkg(), vars: vars, st: ex.pureState()}
	var rs, es []*Term
	for _, r := range l.requires {
		rs = append(rs, e.bool(r))
	}
	for _, r := range l.ensures {
		es = append(es, e.bool(r))
	}
	return And(rs...), And(es...)
}

func (ex *Exec) useLemma(e *Env, u *Expr) *Term {
	if u.kind != "call" || ex.specs.lemmas[u.args[0].op] == nil {
		specFail("use %s", exprStr(u))
	}
	l := ex.specs.lemmas[u.args[0].op]
	if len(u.args)-1 != len(l.params) {
		specFail("lemma %s takes %d arguments", l.name, len(l.params))
	}
	vars := map[string]SV{}
	for i, p := range l.params {
		s, t := e.sortFor(p.typ)
		_ = s
		vars[p.name] = SV{e.term(u.args[i+1]), t}
	}
	req, ens := ex.lemmaParts(l, vars)
	return Implies(req, ens)
}

// proveLemmas proves every lemma in order and makes it available as an axiom to what follows.
func (ex *Exec) lemmaObligations() []*Obligation {
	var out []*Obligation
	for _, name := range ex.specs.order {
		l := ex.specs.lemmas[name]
		ob, ax := ex.lemmaObl(l)
		for _, o := range ob {
			// render now: later lemmas must not be available to this proof
			o.text, o.quant = smtQuery(o.assume, o.goal)
		}
		out = append(out, ob...)
		for f, a := range ax {
			lemmaAxioms[f] = append(lemmaAxioms[f], a)
		}
	}
	return out
}

func (ex *Exec) lemmaObl(l *Lemma) (out []*Obligation, ax map[string]*Term) {
	vars := map[string]SV{}
	e := &Env{ex: ex, specs: ex.specs, pkg: ex.mainPkg(), vars: vars, st: ex.pureState()}
	var bs []*Term
	bvars := map[string]SV{}
	for _, p := range l.params {
		s, t := e.sortFor(p.typ)
		lo, hi := intRange2(t)
		var x *Term
		if s == SInt {
			x = SymR("lem!"+l.name+"!"+p.name, lo, hi)
		} else if s.isArr() {
			x = Sym("lem!"+l.name+"!"+p.name, s)
		} else {
			x = Sym("lem!"+l.name+"!"+p.name, s)
		}
		vars[p.name] = SV{x, t}
		b := Bound("lb!"+l.name+"!"+p.name, s)
		if s == SInt && lo != nil {
			b = BoundR("lb!"+l.name+"!"+p.name, lo, hi)
		}
		bs = append(bs, b)
		bvars[p.name] = SV{b, t}
	}
	con := ex.con
	if l.reveal != nil {
		ex.con = &Contract{reveal: l.reveal}
	}
	req, ens := ex.lemmaParts(l, vars)
	ex.con = con
	assume := []*Term{req}
	for _, u := range l.uses {
		assume = append(assume, ex.useLemma(e, u))
	}
	if l.induction != "" {
		// the statement for every smaller non-negative value of the induction variable
		iv := vars[l.induction].v.(*Term)
		ivb := bvars[l.induction].v.(*Term)
		// only the induction variable and the others are generalised
		r2, e2 := ex.lemmaParts(l, bvars)
		hyp := Implies(And(Le(Zero, ivb), Lt(ivb, iv), r2), e2)
		var pats [][]*Term
		be := &Env{ex: ex, specs: ex.specs, pkg: ex.mainPkg(), vars: bvars, st: ex.pureState()}
		for _, p := range l.pats {
			var ts []*Term
			for _, x := range p {
				ts = append(ts, be.term(x))
			}
			pats = append(pats, ts)
		}
		assume = append(assume, Forall(bs, hyp, pats...))
		// and the immediate predecessor, ground
		pv := map[string]SV{}
		for k, v := range vars {
			pv[k] = v
		}
		pv[l.induction] = SV{Sub(iv, One), vars[l.induction].t}
		r3, e3 := ex.lemmaParts(l, pv)
		assume = append(assume, Implies(And(Le(One, iv), r3), e3))
		assume = append(assume, Le(Zero, iv))
	}
	tmp := newExec(ex.prog, ex.specs, ex.prop)
	tmp.target = nil
	tmp.addObl(&Obligation{fn: "lemma " + l.name, name: "lemma " + l.name, kind: "lemma", goal: ens, assume: assume})
	out = tmp.obls
	ax = map[string]*Term{}
	if len(l.pats) > 0 {
		r2, e2 := ex.lemmaParts(l, bvars)
		if l.induction != "" {
			r2 = And(r2, Le(Zero, bvars[l.induction].v.(*Term)))
		}
		be := &Env{ex: ex, specs: ex.specs, pkg: ex.mainPkg(), vars: bvars, st: ex.pureState()}
		var pats [][]*Term
		head := ""
		for _, p := range l.pats {
			var ts []*Term
			for _, x := range p {
				t := be.term(x)
				walkTerm(t, map[*Term]bool{}, func(y *Term) {
					if y.op == OApp && head == "" {
						head = y.name
					}
				})
				ts = append(ts, t)
			}
			pats = append(pats, ts)
		}
		if head == "" {
			specFail("lemma %s: pattern has no function", l.name)
		}
		ax[head] = Forall(bs, Implies(r2, e2), pats...)
	}
	return
}

// ---- discharging

func discharge(obls []*Obligation, ms int, workers int) {
	type job struct{ o *Obligation }
	// queries are rendered here: the term table is not safe for concurrent use
	var jobs []*Obligation
	for _, o := range obls {
		if o.kind == "unsupported" || o.kind == "vacuity" {
			o.res = ProveResult{status: "unknown"}
			continue
		}
		if o.goal == TTrue {
			o.res = ProveResult{status: "proved", by: "simplifier"}
			continue
		}
		triv := false
		for _, a := range o.assume {
			if a == TFalse || a == o.goal {
				triv = true
			}
		}
		if triv {
			o.res = ProveResult{status: "proved", by: "simplifier"}
			continue
		}
		if o.text == "" {
			o.text, o.quant = smtQuery(o.assume, o.goal)
			if o.quant {
				qs, gs := edgeQueries(o.assume, o.goal)
				for i := range qs {
					t, _ := smtQuery(qs[i], gs[i])
					o.parts = append(o.parts, t)
				}
			}
		}
		jobs = append(jobs, o)
	}
	ch := make(chan *Obligation)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range ch {
				o.res = proveText(o.text, o.quant, ms, o.parts...)
			}
		}()
	}
	for _, o := range jobs {
		ch <- o
	}
	close(ch)
	wg.Wait()
}

func reportFn(P *Program, S *Specs, prop, name string, ms, workers int, dump string) *FnReport {
	t0 := time.Now()
	r := &FnReport{Name: name}
	ex := newExec(P, S, prop)
	con := S.contracts[name]
	if i := strings.Index(name, "#"); i >= 0 && con != nil {
		name = con.name
		S.contracts[name] = con
	}
	fn := P.funcs[name]
	var obls []*Obligation
	lem := ex.lemmaObligations()
	if name == "lemmas" {
		obls = lem
	} else {
		if fn == nil || con == nil {
			r.Missing = true
			return r
		}
		if err := ex.verifyFn(fn, con); err != nil {
			r.Error = err.Error()
			ex.obls = append(ex.obls, &Obligation{fn: name, kind: "unsupported", name: "cannot translate: " + err.Error(), goal: TFalse})
		}
		if !ex.returns && r.Error == "" && con.trusted == "" && fnReturns(fn) {
			ex.obls = append(ex.obls, &Obligation{fn: name, kind: "vacuity", name: "some execution returns", goal: TFalse})
		}
		obls = ex.obls
	}
	discharge(obls, ms, workers)
	for i, o := range obls {
		d := ""
		if o.res.status != "proved" {
			d = strings.Join(o.trace, " ")
			if dump != "" {
				os.WriteFile(fmt.Sprintf("%s/%s_%d.smt2", dump, sanit(name), i), []byte(o.text+"(check-sat)\n"), 0644)
				d += fmt.Sprintf(" [%s_%d]", sanit(name), i)
			}
			if o.goal != nil && o.goal != TFalse {
				g := o.goal.String()
				if len(g) > 600 {
					g = g[:600] + "…"
				}
				d += " goal: " + g
			}
		}
		r.Obls = append(r.Obls, OblReport{Fn: o.fn, Kind: o.kind, Name: o.name, Pos: o.pos, Status: o.res.status, By: o.res.by, Secs: o.res.secs, Detail: d})
	}
	for c := range ex.usedContracts {
		r.Used = append(r.Used, c)
	}
	sort.Strings(r.Used)
	r.Inlined = sortKeys(ex.inlined)
	for m := range ex.models {
		r.Models = append(r.Models, m)
	}
	sort.Strings(r.Models)
	r.Trusted = sortKeys(ex.trusted)
	r.States = ex.nstates
	r.Returns = ex.stReach
	r.Secs = time.Since(t0).Seconds()
	r.Solver = stats.seconds
	r.Decided = stats.bySolver
	r.Queries = stats.queries
	return r
}

func sanit(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

func fnReturns(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return true
			}
		}
	}
	return false
}
