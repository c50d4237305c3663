package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type modInfo struct {
	all   bool
	locs  map[*Term]bool
	rids  map[*Term]bool
	since *Term // writes to anything allocated from there on
}

type modSet map[string]*modInfo

func (m modSet) get(h string) *modInfo {
	if m[h] == nil {
		m[h] = &modInfo{locs: map[*Term]bool{}, rids: map[*Term]bool{}}
	}
	return m[h]
}

type Cand struct {
	name string
	user bool
	f    func(st *State, act *LoopAct, iter *Term) *Term // nil: not applicable
}

type loopMemo struct {
	dropped map[string]bool
	m       modSet
	refined bool
}

var hiddenSyms = map[*Term]map[string]bool{}

// symsOf is the set of free symbol names of a term.
func mentions(t *Term, prefix string, memo map[*Term]int) bool {
	if v, ok := memo[t]; ok {
		return v == 1
	}
	memo[t] = 0
	r := false
	if t.op == OSym && strings.HasPrefix(t.name, prefix) {
		r = true
	}
	for _, a := range t.args {
		if r {
			break
		}
		r = mentions(a, prefix, memo)
	}
	if t.rb != nil && !r {
		r = mentions(t.rb, prefix, memo)
	}
	if r {
		memo[t] = 1
	}
	return r
}

func callPath(st *State) string {
	var b strings.Builder
	for _, f := range st.frames {
		fmt.Fprintf(&b, "%s@%d.%d/", f.fn.Name(), f.block.Index, 0)
		for _, l := range f.loops {
			fmt.Fprintf(&b, "L%d", l.header.Index)
		}
	}
	return b.String()
}

// forgetInner drops what was found about the loops inside this one.
func forgetInner(ex *Exec, st *State, lp *Loop) {
	p := ex.target.String() + "|"
	for _, f := range st.frames[:len(st.frames)-1] {
		p += fmt.Sprintf("%s@%d.%d/", f.fn.Name(), f.block.Index, 0)
		for _, l := range f.loops {
			p += fmt.Sprintf("L%d", l.header.Index)
		}
	}
	fr := st.top()
	p += fr.fn.Name() + "@"
	in := ""
	for _, l := range fr.loops {
		in += fmt.Sprintf("L%d", l.header.Index)
	}
	in += fmt.Sprintf("L%d", lp.header.Index)
	for k := range loopMemos {
		if !strings.HasPrefix(k, p) {
			continue
		}
		r := k[len(p):]
		if i := strings.IndexByte(r, '/'); i >= 0 && strings.HasPrefix(r[i+1:], in) {
			if t := r[i+1+len(in):]; t == "" || t[0] < '0' || t[0] > '9' {
				delete(loopMemos, k)
			}
		}
	}
}

var loopMemos = map[string]*loopMemo{}

var qdumpN int

var traceLoops = os.Getenv("GV_LOOPS") != ""

func (ex *Exec) enterLoop(st *State, lp *Loop) bool {
	fr := st.top()
	key := ex.target.String() + "|" + callPath(st) + "|" + fmt.Sprint(lp.header.Index)
	memo := loopMemos[key]
	if memo == nil {
		memo = &loopMemo{dropped: map[string]bool{}, m: modSet{}}
		loopMemos[key] = memo
	}
	st.cnt++
	scope := fmt.Sprintf("%s~%d.%d:", st.scope, lp.header.Index, st.cnt)
	entry := st.clone()
	second, userDrop := false, false
	// The full effort is for when the loops around are known too: what is lost before is tried again.
	last := func() bool {
		for _, o := range ex.outer {
			if !o.refined {
				return false
			}
		}
		return memo.refined
	}
	dropUser := func(c *Cand) {
		if c.user {
			userDrop = true
			if !last() {
				ex.weak = true
			}
		}
	}
again:
	cands := ex.candidates(entry, lp)
	m := memo.m
	// drop what does not hold at entry
	mk := func(body bool) *LoopAct {
		return &LoopAct{header: lp.header, blocks: lp.blocks, scope: scope, alloc0: entry.alloc, entry: entry, body: body}
	}
	act0 := mk(false)
	live := cands[:0:0]
	ats := make([]*Term, len(cands))
	for i, c := range cands {
		if !memo.dropped[c.name] {
			ats[i] = ex.evalCand(c, entry, act0, Zero)
		}
	}
	ex.proveAhead(entry, cands, ats, last())
	for i, c := range cands {
		t := ats[i]
		if t == nil {
			continue
		}
		if !ex.proveCand(entry, t, c.user, last()) {
			if traceLoops {
				fmt.Fprintf(os.Stderr, "loop %s: not at entry: %s\n", key, c.name)
			}
			dropUser(c)
			memo.dropped[c.name] = true
			continue
		}
		live = append(live, c)
	}
	for round := 0; ; round++ {
		if round > 60 {
			unsupported("loop analysis does not converge")
		}
		grown, dropped := false, false
		drop := map[string]bool{}
		body := mk(true)
		head := ex.loopHead(entry, lp, m, live, body)
		body.onBack = func(bs *State) {
			if ex.collectWrites(bs, body, m) {
				grown = true
			}
			if grown {
				return
			}
			ats := make([]*Term, len(live))
			for i, c := range live {
				if !drop[c.name] {
					ats[i] = ex.evalCand(c, bs, body, Add(body.iter, One))
				}
			}
			ex.proveAhead(bs, live, ats, last())
			for i, c := range live {
				if drop[c.name] {
					continue
				}
				t := ats[i]
				if t == nil {
					drop[c.name] = true
					dropped = true
					continue
				}
				if !ex.proveCand(bs, t, c.user, last()) {
					drop[c.name] = true
					dropUser(c)
					dropped = true
					if traceLoops {
						fmt.Fprintf(os.Stderr, "loop %s: not preserved: %s   goal %v\n", key, c.name, t)
					}
				}
			}
		}
		ex.silent++
		ex.outer = append(ex.outer, memo)
		ex.sub(func() { ex.push(head) })
		ex.outer = ex.outer[:len(ex.outer)-1]
		ex.silent--
		if grown {
			continue
		}
		if !dropped {
			break
		}
		var nl []*Cand
		for _, c := range live {
			if !drop[c.name] {
				nl = append(nl, c)
			} else {
				memo.dropped[c.name] = true
			}
		}
		live = nl
	}
	if !second && !memo.refined {
		// now that the cells the loop writes are known, look for invariants about them, and for
		// the writes that these make precise
		second, memo.refined = true, true
		known := map[string]bool{}
		for _, c := range cands {
			known[c.name] = true
		}
		more := userDrop || ex.weak
		for _, c := range ex.candidates(entry, lp) {
			if !known[c.name] {
				more = true
			}
		}
		if more {
			nm := modSet{}
			for h, mi := range m {
				for l := range mi.locs {
					nm.get(h).locs[l] = true
				}
			}
			memo.m = nm
			memo.dropped = map[string]bool{}
			forgetInner(ex, st, lp)
			ex.weak = false
			goto again
		}
	}
	if traceLoops {
		fmt.Fprintf(os.Stderr, "loop %s in %s:\n", key, fr.fn)
		for h, mi := range m {
			fmt.Fprintf(os.Stderr, "   mod %s all=%v locs=%d rids=%d\n", h, mi.all, len(mi.locs), len(mi.rids))
		}
		for _, c := range live {
			fmt.Fprintf(os.Stderr, "   inv %s\n", c.name)
		}
	}
	act := mk(false)
	head := ex.loopHead(entry, lp, m, live, act)
	for _, c := range live {
		if c.user {
			if t := ex.evalCand(c, entry, act, Zero); t != nil {
				ex.check(entry.clone(), t, "invariant", "holds on loop entry: "+c.name, blockPos(ex, lp.header))
			}
		}
	}
	act.onBack = func(bs *State) {
		for _, c := range live {
			if t := ex.evalCand(c, bs, act, Add(act.iter, One)); t != nil {
				ex.check(bs.clone(), t, "invariant", "preserved by the loop: "+c.name, blockPos(ex, lp.header))
			}
		}
		if ex.con != nil && ex.con.terminates && ex.silent == 0 {
			ex.variant(bs, act, lp)
		}
	}
	ex.push(head)
	return false
}

func blockPos(ex *Exec, b *ssa.BasicBlock) string {
	for _, i := range b.Instrs {
		if p := posOf(ex, i); p != "" {
			return p
		}
	}
	return ""
}

// loopHead is an arbitrary state at the head of the loop.
func (ex *Exec) loopHead(entry *State, lp *Loop, m modSet, live []*Cand, act *LoopAct) *State {
	st := entry.clone()
	fr := st.top()
	saved := st.scope
	st.scope = act.scope
	cnt := st.cnt
	st.cnt = 0
	fr.loops = append(fr.loops, act)
	act.wmark = st.writes
	// allocation
	a := SymR(act.scope+"alloc", entry.alloc.lo, nil)
	st.alloc = a
	st.assume(Le(entry.alloc, a))
	act.iter = SymR(act.scope+"iter", big0(0), nil)
	for _, in := range lp.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := ex.havocPhi(st, p, entry.top().regs[p])
		fr.regs[p] = v
		if p.Comment != "" {
			fr.names[p.Comment] = NameRef{v, false, p.Type()}
		}
	}
	ex.havocHeaps(st, m)
	for _, c := range live {
		if t := ex.evalCand(c, st, act, act.iter); t != nil {
			st.assume(t)
		}
	}
	_ = saved
	_ = cnt
	act.head = st.clone()
	return st
}

func (ex *Exec) havocHeaps(st *State, m modSet) {
	var hs []string
	for h := range m {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for _, h := range hs {
		mi := m[h]
		hi := heapTab[h]
		if mi.all {
			st.heaps[h] = heapSym(st.scope+"H:"+h, hi, st.alloc)
			st.noteWrite(h, nil)
			continue
		}
		if mi.since != nil {
			nh := heapSym(st.scope+"Hs:"+h, hi, st.alloc)
			l := Bound("hsl", SLoc)
			st.assume(Forall([]*Term{l}, Implies(Lt(Rid(l), mi.since), Eq(Select(nh, l), Select(st.H(h), l))), []*Term{Select(nh, l)}))
			st.heaps[h] = nh
			r := SymR(st.scope+"anyrid:"+h, mi.since.lo, nil)
			st.assume(Le(mi.since, r))
			st.noteWrite(h, MkLoc(r, SymR(st.scope+"anyidx", nil, nil), SymR(st.scope+"anyfk", nil, nil)))
		}
		for _, r := range sortTerms(mi.rids) {
			if mi.since != nil && Le(mi.since, r) == TTrue {
				continue
			}
			f := heapSym(fmt.Sprintf("%sHr%d:%s", st.scope, r.id, h), hi, st.alloc)
			st.heaps[h] = Frm(st.H(h), f, r)
			st.noteWrite(h, MkLoc(r, SymR(st.scope+"anyidx", nil, nil), SymR(st.scope+"anyfk", nil, nil)))
		}
		for _, l := range sortTerms(mi.locs) {
			inRid := false
			if l.sort == SLoc {
				inRid = mi.rids[Rid(l)]
			}
			if inRid || mi.since != nil && l.sort == SLoc && Le(mi.since, Rid(l)) == TTrue {
				continue
			}
			v := st.freshOf(fmt.Sprintf("h%d", l.id), hi.sort.v, hi)
			st.heaps[h] = Store(st.H(h), l, v)
			st.noteWrite(h, l)
		}
	}
}

// sinceWhen finds a moment before the loop since when r must have been allocated.
func sinceWhen(bs *State, act *LoopAct, r, cur *Term) *Term {
	for i := len(act.entry.frames) - 1; i >= 0; i-- {
		f := act.entry.frames[i]
		var as []*Term
		for j := len(f.loops) - 1; j >= 0; j-- {
			as = append(as, f.loops[j].alloc0)
		}
		for _, a := range append(as, f.alloc0) {
			if cur != nil {
				// only earlier moments
				if a == cur {
					cur = nil
				}
				continue
			}
			if a != nil && quickProve(bs.pcs(), Le(a, r), 400) {
				return a
			}
		}
	}
	return nil
}

func sortTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func (ex *Exec) havocPhi(st *State, p *ssa.Phi, init Value) Value {
	name := p.Comment
	if name == "" {
		name = p.Name()
	}
	// the same value comes back along every back edge
	switch v := init.(type) {
	case *Clo, *IterV, *Tup:
		if _, ok := v.(*Tup); ok {
			return st.freshValue(p.Type(), name)
		}
		unsupported("loop-carried function value")
	case *LV:
		_ = v
	}
	return st.freshValue(p.Type(), name)
}

// collectWrites adds the writes made since the loop head to m.
func (ex *Exec) collectWrites(bs *State, act *LoopAct, m modSet) bool {
	grown := false
	memo := map[*Term]int{}
	seen := map[string]bool{}
	for w := bs.writes; w != nil && w != act.wmark; w = w.prev {
		mi := m[w.heap]
		if w.loc == nil {
			if mi == nil || !mi.all {
				m.get(w.heap).all = true
				grown = true
			}
			continue
		}
		k := fmt.Sprintf("%s|%d", w.heap, w.loc.id)
		if seen[k] {
			continue
		}
		seen[k] = true
		if mi != nil && (mi.all || mi.locs[w.loc]) {
			continue
		}
		if w.loc.sort == SLoc {
			r := Rid(w.loc)
			if mi != nil && mi.rids[r] {
				continue
			}
			if !mentions(w.loc, act.scope, memo) {
				if traceLoops {
					fmt.Fprintf(os.Stderr, "   loc %s %v scope %s\n", w.heap, w.loc, act.scope)
				}
				m.get(w.heap).locs[w.loc] = true
				grown = true
				continue
			}
			// objects allocated inside the loop are arbitrary at its head anyway
			fresh := Le(act.alloc0, r)
			if fresh == TTrue || bs.known[fresh] || quickProve(bs.pcs(), fresh, 400) {
				continue
			}
			if !mentions(r, act.scope, memo) {
				m.get(w.heap).rids[r] = true
				grown = true
				continue
			}
			if mi != nil && mi.since != nil && quickProve(bs.pcs(), Le(mi.since, r), 400) {
				continue
			}
			var cur *Term
			if mi != nil {
				cur = mi.since
			}
			if s := sinceWhen(bs, act, r, cur); s != nil {
				m.get(w.heap).since = s
				grown = true
				continue
			}
		} else if !mentions(w.loc, act.scope, memo) {
			m.get(w.heap).locs[w.loc] = true
			grown = true
			continue
		} else if w.loc.op == OCtor && w.loc.name == "iloc" {
			fresh := Le(act.alloc0, Rid(w.loc.args[1]))
			if fresh == TTrue || bs.known[fresh] || quickProve(bs.pcs(), fresh, 400) {
				continue
			}
		}
		if traceLoops {
			fmt.Fprintf(os.Stderr, "   write to %s at %v: whole heap\n", w.heap, w.loc)
		}
		m.get(w.heap).all = true
		grown = true
	}
	return grown
}

func (ex *Exec) evalCand(c *Cand, st *State, act *LoopAct, iter *Term) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case specErr:
				if traceLoops {
					fmt.Fprintf(os.Stderr, "   candidate %s: %s\n", c.name, e.msg)
				}
				t = nil
			case unsup:
				t = nil
			default:
				panic(r)
			}
		}
	}()
	return c.f(st, act, iter)
}

func candMs(user, last bool) int {
	switch {
	case user && last:
		return 4000
	case user:
		return 400 // there is a second pass
	}
	return 300
}

func (ex *Exec) proveCand(st *State, t *Term, user, last bool) bool {
	return ex.proveQuickSplit(st.pcs(), t, candMs(user, last))
}

// proveAhead asks about the candidates at the same time; the answers go to the cache.
func (ex *Exec) proveAhead(st *State, cs []*Cand, ts []*Term, last bool) {
	type job struct {
		o  *Obligation
		ms int
	}
	var jobs []job
	pcs := st.pcs()
	for i, t := range ts {
		if t == nil {
			continue
		}
		for _, o := range ex.split(pcs, t) {
			jobs = append(jobs, job{o, candMs(cs[i].user, last)})
		}
	}
	if len(jobs) < 2 {
		return
	}
	ch := make(chan job)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				quickSplit(j.o.assume, j.o.goal, j.ms)
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
}

// split makes the obligations of a goal, without recording them.
func (ex *Exec) split(pcs []*Term, t *Term) []*Obligation {
	save, saveSeen := ex.obls, ex.oblSeen
	ex.obls, ex.oblSeen = nil, map[string]bool{}
	ex.addObl(&Obligation{assume: pcs, goal: t})
	obls := ex.obls
	ex.obls, ex.oblSeen = save, saveSeen
	return obls
}

// proveQuickSplit splits conjunctions and skolemises before asking the fast solver.
func (ex *Exec) proveQuickSplit(pcs []*Term, t *Term, ms int) bool {
	for _, o := range ex.split(pcs, t) {
		if !quickSplit(o.assume, o.goal, ms) {
			if d := os.Getenv("GV_QDUMP"); d != "" && ms >= 4000 {
				q, _ := smtQuery(o.assume, o.goal)
				qdumpN++
				os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, qdumpN), []byte("; "+o.goal.String()+"\n"+q+"(check-sat)\n"), 0644)
				qs, gs := edgeQueries(o.assume, o.goal)
				for i := range qs {
					q, _ := smtQuery(qs[i], gs[i])
					os.WriteFile(fmt.Sprintf("%s/q%d_%d.smt2", d, qdumpN, i), []byte("; "+gs[i].String()+"\n"+q+"(check-sat)\n"), 0644)
				}
			}
			return false
		}
	}
	return true
}

// ---- automatic candidates

func (ex *Exec) candidates(entry *State, lp *Loop) []*Cand {
	all := ex.candidates1(entry, lp)
	if ex.con == nil || !ex.con.plain {
		return all
	}
	var out []*Cand
	for _, c := range all {
		if c.user {
			out = append(out, c)
		}
	}
	return out
}

func (ex *Exec) candidates1(entry *State, lp *Loop) []*Cand {
	var out []*Cand
	seen := map[string]bool{}
	add := func(name string, user bool, f func(st *State, act *LoopAct, iter *Term) *Term) {
		if seen[name] {
			return
		}
		seen[name] = true
		out = append(out, &Cand{name, user, f})
	}
	fr := entry.top()
	fn := fr.fn
	regT := func(st *State, v ssa.Value) *Term {
		t, _ := st.top().regs[v].(*Term)
		return t
	}
	// a slice that collects what the loop visits
	var iters []*IterV
	for r, v := range fr.regs {
		if iv, ok := v.(*IterV); ok && !iv.strIdx {
			for _, ref := range *r.Referrers() {
				if n, ok := ref.(*ssa.Next); ok && n.Block() == lp.header {
					iters = append(iters, iv)
				}
			}
		}
	}
	collect := func(nm string, ty types.Type, init *Term, cur func(st *State) *Term) {
		sl, ok := under(ty).(*types.Slice)
		if !ok {
			return
		}
		add("len("+nm+") = initial + iter", false, func(st *State, act *LoopAct, iter *Term) *Term {
			return Eq(SLen(cur(st)), Add(SLen(init), iter))
		})
		add(nm+" is not nil", false, func(st *State, act *LoopAct, iter *Term) *Term {
			return Ne(Rid(SBase(cur(st))), Zero)
		})
		add(nm+" starts at offset 0", false, func(st *State, act *LoopAct, iter *Term) *Term {
			t := cur(st)
			return And(Eq(SOff(t), Zero), Eq(Sel("lidx", SBase(t)), Zero))
		})
		es := sortOfSafe(sl.Elem())
		for _, iv := range iters {
			iv := iv
			if es == nil || es != iv.it.sort.v {
				continue
			}
			add(nm+" holds the keys visited", false, func(st *State, act *LoopAct, iter *Term) *Term {
				t := cur(st)
				k := Bound("cvk", SInt)
				at := Select(Select(st.H(elemHeap(sl.Elem())), SBase(t)), Add(SOff(t), SLen(init), k))
				f := Implies(And(Le(Zero, k), Lt(k, iter)), Eq(at, Select(iv.it, k)))
				return And(Forall([]*Term{k}, f, []*Term{at}), Forall([]*Term{k}, f, []*Term{Select(iv.it, k)}))
			})
		}
	}
	for _, in := range lp.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		init, ok := fr.regs[p].(*Term)
		if !ok {
			continue
		}
		if init.sort == SSlice {
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			collect(nm, p.Type(), init, func(st *State) *Term { return regT(st, p) })
		}
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		add(nm+" is unchanged", false, func(st *State, act *LoopAct, iter *Term) *Term {
			t := regT(st, p)
			if t == nil {
				return nil
			}
			return Eq(t, init)
		})
		switch init.sort {
		case SInt:
			add(nm+" >= its initial value", false, func(st *State, act *LoopAct, iter *Term) *Term { return Ge(regT(st, p), init) })
			add(nm+" <= its initial value", false, func(st *State, act *LoopAct, iter *Term) *Term { return Le(regT(st, p), init) })
			for k, e := range p.Edges {
				if !lp.blocks[p.Block().Preds[k]] {
					continue
				}
				if c := stepOf(e, p); c != nil {
					add(nm+" = initial value + step*iter", false, func(st *State, act *LoopAct, iter *Term) *Term {
						return Eq(regT(st, p), Add(init, MulC(iter, c.val)))
					})
				}
			}
		case SSlice:
			add(nm+" keeps its backing array", false, func(st *State, act *LoopAct, iter *Term) *Term {
				t := regT(st, p)
				return And(Eq(SBase(t), SBase(init)), Eq(Add(SOff(t), SCap(t)), Add(SOff(init), SCap(init))), Ge(SOff(t), SOff(init)))
			})
			add(nm+" has a backing array made in this function or by its caller after entry", false, func(st *State, act *LoopAct, iter *Term) *Term {
				t := regT(st, p)
				return Or(Le(fr.alloc0, Rid(SBase(t))), Eq(SCap(t), Zero))
			})
			add(nm+" has a backing array made in the loop or the initial one", false, func(st *State, act *LoopAct, iter *Term) *Term {
				t := regT(st, p)
				return Or(Le(act.alloc0, Rid(SBase(t))), And(Eq(SBase(t), SBase(init)), Eq(SOff(t), SOff(init)), Eq(SCap(t), SCap(init))), Eq(SCap(t), Zero))
			})
			add(nm+" starts at offset 0", false, func(st *State, act *LoopAct, iter *Term) *Term {
				t := regT(st, p)
				return And(Eq(SOff(t), Zero), Eq(Sel("lidx", SBase(t)), Zero))
			})
			add("len("+nm+") = initial + iter", false, func(st *State, act *LoopAct, iter *Term) *Term {
				return Eq(SLen(regT(st, p)), Add(SLen(init), iter))
			})
			add("len("+nm+") <= initial + iter", false, func(st *State, act *LoopAct, iter *Term) *Term {
				return Le(SLen(regT(st, p)), Add(SLen(init), iter))
			})
		case SLoc:
			add(nm+" is not nil", false, func(st *State, act *LoopAct, iter *Term) *Term { return Ne(Rid(regT(st, p)), Zero) })
		}
	}
	// bounds from conditions inside the loop
	for _, b := range fn.Blocks {
		if !lp.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			if sortOfSafe(bo.X.Type()) != SInt {
				continue
			}
			for _, sw := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
				L, R := sw[0], sw[1]
				lv := ex.invExpr(entry, lp, L)
				rv := ex.invExpr(entry, lp, R)
				if lv == nil || rv == nil {
					continue
				}
				nm := fmt.Sprintf("%s ~ %s", exprName(ex, L), exprName(ex, R))
				add(nm+" (<=)", false, func(st *State, act *LoopAct, iter *Term) *Term {
					a, b := lv(st), rv(st)
					if a == nil || b == nil {
						return nil
					}
					return Le(a, b)
				})
				add(nm+" (<)", false, func(st *State, act *LoopAct, iter *Term) *Term {
					a, b := lv(st), rv(st)
					if a == nil || b == nil {
						return nil
					}
					return Lt(a, b)
				})
				add(nm+" (<=+1)", false, func(st *State, act *LoopAct, iter *Term) *Term {
					a, b := lv(st), rv(st)
					if a == nil || b == nil {
						return nil
					}
					return Le(a, Add(b, One))
				})
			}
		}
	}
	// map and string iterators
	for r, v := range fr.regs {
		iv, ok := v.(*IterV)
		if !ok {
			continue
		}
		used := false
		for _, ref := range *r.Referrers() {
			if n, ok := ref.(*ssa.Next); ok && n.Block() == lp.header {
				used = true
			}
		}
		if !used {
			continue
		}
		h := ghostHeap("ITER", SLoc, SInt, big0(0), pow2(47))
		add("iterator position is between 0 and its length", false, func(st *State, act *LoopAct, iter *Term) *Term {
			p := Select(st.H(h), iv.pos)
			return And(Le(Zero, p), Le(p, iv.n))
		})
		if !iv.strIdx {
			add("iterator position = iter", false, func(st *State, act *LoopAct, iter *Term) *Term {
				return Eq(Select(st.H(h), iv.pos), iter)
			})
			d, _, _ := mapHeaps(iv.mt)
			add("map keys unchanged while iterating", false, func(st *State, act *LoopAct, iter *Term) *Term {
				k := Bound("mik", sortOf(iv.mt.Key()))
				cur := Select(st.H(d), iv.m)
				return Forall([]*Term{k}, Implies(Select(iv.dom0, k), Select(cur, k)), selPatO(iv.dom0, k))
			})
		}
	}
	// memory cells holding integers or slices (captured variables, struct fields)
	add2 := func(heap string, loc *Term) {
		hi := heapTab[heap]
		init := Select(entry.H(heap), loc)
		nm := fmt.Sprintf("%s[%d]", heap, loc.id)
		cur := func(st *State) *Term { return Select(st.H(heap), loc) }
		switch hi.sort.v {
		case SInt:
			add(nm+" >= its value at loop entry", false, func(st *State, act *LoopAct, iter *Term) *Term { return Ge(cur(st), init) })
		case SSlice:
			add(nm+" fresh or initial backing array", false, func(st *State, act *LoopAct, iter *Term) *Term {
				t := cur(st)
				return Or(Le(act.alloc0, Rid(SBase(t))), Eq(SBase(t), SBase(init)), Eq(SCap(t), Zero))
			})
			add(nm+" has a backing array made in this function", false, func(st *State, act *LoopAct, iter *Term) *Term {
				t := cur(st)
				return Or(Le(fr.alloc0, Rid(SBase(t))), Eq(SCap(t), Zero))
			})
			if hi.typ != nil {
				collect(nm, hi.typ, init, cur)
			}
			add("len "+nm+" >= its value at loop entry", false, func(st *State, act *LoopAct, iter *Term) *Term { return Ge(SLen(cur(st)), SLen(init)) })
		case SLoc:
			add(nm+" is not nil", false, func(st *State, act *LoopAct, iter *Term) *Term { return Ne(Rid(cur(st)), Zero) })
		}
		if !hi.sort.v.isArr() {
			add(nm+" is unchanged", false, func(st *State, act *LoopAct, iter *Term) *Term { return Eq(cur(st), init) })
		}
	}
	key := ex.target.String() + "|" + callPath(entry) + "|" + fmt.Sprint(lp.header.Index)
	if memo := loopMemos[key]; memo != nil {
		for h, mi := range memo.m {
			if h == "ITER" || mi.all {
				continue
			}
			for _, l := range sortTerms(mi.locs) {
				if l.sort == SLoc {
					add2(h, l)
				}
			}
		}
	}
	// user hints
	for _, inv := range ex.invsFor(fn) {
		inv := inv
		if inv.loop >= 0 && inv.loop != lp.idx {
			continue
		}
		add(inv.text, true, func(st *State, act *LoopAct, iter *Term) *Term {
			return ex.evalInv(st, act, iter, inv)
		})
	}
	return out
}

func selPatO(a, k *Term) []*Term {
	if p := selPat(a, k); p != nil {
		return p
	}
	return nil
}

func sortOfSafe(t types.Type) (s *Sort) {
	defer func() {
		if recover() != nil {
			s = nil
		}
	}()
	return sortOf(t)
}

func exprName(ex *Exec, v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value.ExactString()
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	}
	return v.Name()
}

// stepOf recognises v = phi ± constant.
func stepOf(v ssa.Value, p *ssa.Phi) *Term {
	switch b := v.(type) {
	case *ssa.BinOp:
		c, ok := b.Y.(*ssa.Const)
		if !ok || b.X != ssa.Value(p) {
			return nil
		}
		t, ok := constValue(c).(*Term)
		if !ok || !t.isConst() {
			return nil
		}
		if b.Op == token.ADD {
			return t
		}
		if b.Op == token.SUB {
			return Neg(t)
		}
	}
	return nil
}

// invExpr gives a way to compute v at the loop head: constants, values defined outside the
// loop, header phis, and sums, lengths or conversions of those.
func (ex *Exec) invExpr(entry *State, lp *Loop, v ssa.Value) func(st *State) *Term {
	reg := func(st *State) *Term {
		switch r := st.top().regs[v].(type) {
		case *Term:
			return r
		}
		return nil
	}
	switch x := v.(type) {
	case *ssa.Const:
		if sortOfSafe(x.Type()) != SInt {
			return nil
		}
		t := constValue(x).(*Term)
		return func(*State) *Term { return t }
	case *ssa.Parameter, *ssa.FreeVar:
		return func(st *State) *Term {
			t, _ := ex.val(st, v).(*Term)
			return t
		}
	case ssa.Instruction:
		if !lp.blocks[x.Block()] {
			return reg
		}
		switch y := v.(type) {
		case *ssa.Phi:
			if y.Block() == lp.header {
				return reg
			}
		case *ssa.BinOp:
			a, b := ex.invExpr(entry, lp, y.X), ex.invExpr(entry, lp, y.Y)
			if a == nil || b == nil || sortOfSafe(y.Type()) != SInt {
				return nil
			}
			switch y.Op {
			case token.ADD, token.SUB, token.MUL:
				op := y.Op
				return func(st *State) *Term {
					p, q := a(st), b(st)
					if p == nil || q == nil || p.sort != SInt {
						return nil
					}
					switch op {
					case token.ADD:
						return Add(p, q)
					case token.SUB:
						return Sub(p, q)
					}
					return Mul(p, q)
				}
			}
		case *ssa.Convert:
			if sortOfSafe(y.Type()) == SInt && sortOfSafe(y.X.Type()) == SInt {
				a := ex.invExpr(entry, lp, y.X)
				if a == nil {
					return nil
				}
				return a
			}
		case *ssa.Call:
			if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				a := ex.invExpr2(entry, lp, y.Call.Args[0])
				if a == nil {
					return nil
				}
				return func(st *State) *Term {
					t := a(st)
					if t == nil {
						return nil
					}
					switch t.sort {
					case SSlice:
						return SLen(t)
					case SStr:
						return App("str.len", t)
					}
					return nil
				}
			}
		case *ssa.UnOp:
			if y.Op == token.MUL {
				return ex.invLoad(entry, lp, y)
			}
		}
	}
	return nil
}

func (ex *Exec) invExpr2(entry *State, lp *Loop, v ssa.Value) func(st *State) *Term {
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return func(st *State) *Term {
			t, _ := ex.val(st, v).(*Term)
			return t
		}
	case ssa.Instruction:
		if !lp.blocks[x.Block()] {
			return func(st *State) *Term {
				t, _ := st.top().regs[v].(*Term)
				return t
			}
		}
		if p, ok := v.(*ssa.Phi); ok && p.Block() == lp.header {
			return func(st *State) *Term {
				t, _ := st.top().regs[v].(*Term)
				return t
			}
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			return ex.invLoad(entry, lp, u)
		}
	}
	return nil
}

// invLoad: a load through an address available at the loop head.
func (ex *Exec) invLoad(entry *State, lp *Loop, u *ssa.UnOp) func(st *State) *Term {
	t := derefType(u.X.Type())
	if !isScalar(t) {
		return nil
	}
	addr := ex.invAddr(entry, lp, u.X)
	if addr == nil {
		return nil
	}
	return func(st *State) *Term {
		p := addr(st)
		if p == nil {
			return nil
		}
		lv := ex.lvOf(st, p, t)
		r := Select(st.H(lv.heap), lv.loc)
		if lv.idx != nil {
			r = Select(r, lv.idx)
		}
		return r
	}
}

func (ex *Exec) invAddr(entry *State, lp *Loop, v ssa.Value) func(st *State) Value {
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Global:
		return func(st *State) Value { return ex.val(st, v) }
	case *ssa.FieldAddr:
		b := ex.invAddr(entry, lp, x.X)
		if b == nil {
			return nil
		}
		stt := derefType(x.X.Type())
		return func(st *State) Value {
			l, ok := b(st).(*Term)
			if !ok || l == nil {
				return nil
			}
			return fieldPtr(l, stt, x.Field)
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && sortOfSafe(x.Type()) == SLoc {
			f := ex.invLoad(entry, lp, x)
			if f == nil {
				return nil
			}
			return func(st *State) Value {
				t := f(st)
				if t == nil {
					return nil
				}
				return t
			}
		}
	case ssa.Instruction:
		if !lp.blocks[x.Block()] {
			return func(st *State) Value { return st.top().regs[v] }
		}
	}
	if i, ok := v.(ssa.Instruction); ok && !lp.blocks[i.Block()] {
		return func(st *State) Value { return st.top().regs[v] }
	}
	return nil
}

// variant: some integer measure of the loop strictly decreases and is bounded below.
func (ex *Exec) variant(bs *State, act *LoopAct, lp *Loop) {
	var goals []*Term
	if c := ex.specs.contracts[shortFn(lp.fn)]; c != nil {
		for _, v := range c.variants {
			if v.loop >= 0 && v.loop != lp.idx {
				continue
			}
			h := ex.invEnv(act.head, act, act.iter).term(v.e)
			n := ex.invEnv(bs, act, Add(act.iter, One)).term(v.e)
			ex.check(bs.clone(), And(Le(Zero, h), Lt(n, h)), "variant", "loop measure decreases and is bounded below: "+v.text, blockPos(ex, lp.header))
			return
		}
	}
	// counted loops: iter is bounded by a loop-invariant quantity whenever the body is entered
	for _, b := range lp.fn.Blocks {
		if !lp.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok && n.Block() == lp.header {
				return // iterators advance and are bounded
			}
			bo, ok := in.(*ssa.BinOp)
			if !ok || sortOfSafe(bo.X.Type()) != SInt {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
			default:
				continue
			}
			x, y := ex.invExpr(act.entry, lp, bo.X), ex.invExpr(act.entry, lp, bo.Y)
			if x == nil || y == nil {
				continue
			}
			// y-x (or x-y) decreases and was non-negative at the head of this iteration
			hs := act.head
			for _, sw := range []bool{false, true} {
				a, b := x, y
				if sw {
					a, b = b, a
				}
				h1, h2 := a(hs), b(hs)
				n1, n2 := a(bs), b(bs)
				if h1 == nil || h2 == nil || n1 == nil || n2 == nil {
					continue
				}
				goals = append(goals, And(Lt(Sub(n2, n1), Sub(h2, h1)), Le(I(-1), Sub(h2, h1))))
			}
		}
	}
	if len(goals) == 0 {
		ex.check(bs.clone(), TFalse, "variant", "loop termination: no measure found", blockPos(ex, lp.header))
		return
	}
	for _, g := range goals {
		if quickProve(bs.pcs(), g, 500) {
			ex.check(bs.clone(), g, "variant", "loop measure decreases and is bounded below", blockPos(ex, lp.header))
			return
		}
	}
	ex.check(bs.clone(), Or(goals...), "variant", "loop measure decreases and is bounded below", blockPos(ex, lp.header))
}
