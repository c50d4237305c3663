package main

import (
	"math/big"
	"strings"
)

// Preprocessing of a query: unit propagation, and elimination of integer symbols that an equation defines.
// Both keep the set of models (restricted to the remaining symbols), so unsat stays unsat and sat stays sat.

type prep struct {
	lits  map[*Term]bool     // literals known to hold
	bnd   map[*Term]*big.Int // linear part -> greatest c with "part + c <= 0" known
	facts []*Term            // what is known, in order
	dead  bool
}

// linSplit gives the linear part and the constant of t.
func linSplit(t *Term) (*Term, *big.Int) {
	if t.op == OLin && t.val.Sign() != 0 {
		return Sub(t, BI(t.val)), t.val
	}
	return t, new(big.Int)
}

func (p *prep) holds(t *Term) bool {
	if p.lits[t] {
		return true
	}
	if t.op == OLe0 {
		x, c := linSplit(t.args[0])
		if k, ok := p.bnd[x]; ok && k.Cmp(c) >= 0 {
			return true
		}
	}
	return false
}

// simp simplifies the propositional structure below t with what is known. top: t itself is an assumption.
func (p *prep) simp(t *Term, top bool, memo map[*Term]*Term) *Term {
	if t.sort != SBool || t.bound || t.op == OTrue || t.op == OFalse {
		return t
	}
	if !top {
		if r, ok := memo[t]; ok {
			return r
		}
		if p.holds(t) {
			return TTrue
		}
		if p.holds(Not(t)) {
			return TFalse
		}
	}
	r := t
	switch t.op {
	case OAnd, OOr:
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = p.simp(a, false, memo)
			ch = ch || as[i] != a
		}
		if ch {
			if t.op == OAnd {
				r = And(as...)
			} else {
				r = Or(as...)
			}
		}
	case ONot:
		if a := t.args[0]; a.op == OAnd || a.op == OOr || a.op == OIte || a.op == OEq {
			if b := p.simp(a, top, memo); b != a {
				r = Not(b)
			}
		}
	case OIte:
		c := p.simp(t.args[0], false, memo)
		x, y := p.simp(t.args[1], false, memo), p.simp(t.args[2], false, memo)
		if c != t.args[0] || x != t.args[1] || y != t.args[2] {
			r = Ite(c, x, y)
		}
	case OEq:
		if t.args[0].sort == SBool {
			x, y := p.simp(t.args[0], false, memo), p.simp(t.args[1], false, memo)
			if x != t.args[0] || y != t.args[1] {
				r = Eq(x, y)
			}
		}
	}
	if !top {
		memo[t] = r
	}
	return r
}

func (p *prep) learn(t *Term) bool {
	if t == TTrue || p.lits[t] {
		return false
	}
	if t == TFalse {
		p.dead = true
		return true
	}
	if t.op == OAnd {
		ch := false
		for _, a := range t.args {
			if p.learn(a) {
				ch = true
			}
		}
		return ch
	}
	if t.op == ONot && t.args[0].op == OOr {
		ch := false
		for _, a := range t.args[0].args {
			if p.learn(Not(a)) {
				ch = true
			}
		}
		return ch
	}
	p.lits[t] = true
	if t.op == OLe0 {
		x, c := linSplit(t.args[0])
		if k, ok := p.bnd[x]; !ok || k.Cmp(c) < 0 {
			p.bnd[x] = c
		}
	}
	p.facts = append(p.facts, t)
	return true
}

func prepare(assume []*Term, ng *Term) []*Term {
	facts := append(append([]*Term{}, assume...), ng)
	done := map[*Term]bool{}
	for round := 0; round < 12; round++ {
		p := &prep{lits: map[*Term]bool{}, bnd: map[*Term]*big.Int{}}
		for _, f := range facts {
			p.learn(f)
		}
		for k := 0; k < 6 && !p.dead; k++ {
			fs := p.facts
			p.facts = nil
			memo := map[*Term]*Term{}
			ch := false
			var next []*Term
			for _, f := range fs {
				g := p.simp(f, true, memo)
				if g != f {
					ch = true
				}
				next = append(next, g)
			}
			q := &prep{lits: map[*Term]bool{}, bnd: map[*Term]*big.Int{}}
			for _, f := range next {
				q.learn(f)
			}
			*p = *q
			if !ch {
				break
			}
		}
		if p.dead {
			return []*Term{TFalse}
		}
		facts = p.facts
		// one equation defining a symbol
		sub := map[*Term]*Term{}
		var extra []*Term
		for _, f := range facts {
			if f.op != OEq || f.args[0].sort != SInt || f.bound || done[f] {
				continue
			}
			d := Sub(f.args[0], f.args[1])
			if d.op != OLin {
				if d.op == OSym {
					d = nil
					if f.args[0].op == OSym && !strings.Contains(f.args[0].name, "alloc") && f.args[1].isConst() {
						x := f.args[0]
						sub[x] = f.args[1]
						extra = append(extra, symRange(x, f.args[1])...)
					}
				}
				if d == nil {
					done[f] = true
					break
				}
				continue
			}
			var best *Term
			var bi int
			for i, a := range d.args {
				if a.op == OSym && !strings.Contains(a.name, "alloc") && d.coefs[i].CmpAbs(big.NewInt(1)) == 0 && (best == nil || a.id > best.id) {
					ok := true
					for j, b := range d.args {
						if j != i && occurs(a, b) {
							ok = false
						}
					}
					if ok {
						best, bi = a, i
					}
				}
			}
			if best == nil {
				continue
			}
			rest := Sub(d, MulC(best, d.coefs[bi])) // coef*best + rest = 0
			v := rest
			if d.coefs[bi].Sign() > 0 {
				v = Neg(rest)
			}
			sub[best] = v
			extra = append(extra, symRange(best, v)...)
			done[f] = true
			break
		}
		if len(sub) == 0 {
			return facts
		}
		memo := map[*Term]*Term{}
		var next []*Term
		for _, f := range facts {
			next = append(next, substMemo(f, sub, memo))
		}
		facts = append(next, extra...)
	}
	return facts
}

func symRange(x, v *Term) []*Term {
	var out []*Term
	if x.lo != nil {
		out = append(out, Le(BI(x.lo), v))
	}
	if x.hi != nil {
		out = append(out, Le(v, BI(x.hi)))
	}
	return out
}

func occurs(x, t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// edges: the cases "k is the last value of its range" and "k is before it" of a goal about a skolem constant k.
// Loop invariants are usually preserved for different reasons in the two cases.
func edges(assume []*Term, goal *Term) (k, x *Term) {
	var cs []*Term
	conj := func(t *Term) {
		if t.op == OAnd {
			cs = append(cs, t.args...)
		} else {
			cs = append(cs, t)
		}
	}
	conj(Not(goal))
	for i := len(assume) - 1; i >= 0 && i >= len(assume)-6; i-- {
		conj(assume[i])
	}
	for _, c := range cs {
		if c.op != OLe0 || c.args[0].op != OLin {
			continue
		}
		l := c.args[0]
		for i, a := range l.args {
			if a.op != OSym || !strings.HasSuffix(a.name, "$") || l.coefs[i].Cmp(big.NewInt(1)) != 0 {
				continue
			}
			rest := Sub(l, a)
			if occurs(a, rest) || rest.isConst() {
				continue
			}
			return a, Neg(rest) // a <= -rest
		}
	}
	return nil, nil
}

// edgeQueries: the two cases of edges as queries; both must hold.
func edgeQueries(assume []*Term, goal *Term) (qs [][]*Term, gs []*Term) {
	termMu.Lock()
	defer termMu.Unlock()
	k, x := edges(assume, goal)
	if k == nil {
		return nil, nil
	}
	sub := map[*Term]*Term{k: x}
	memo := map[*Term]*Term{}
	var as []*Term
	for _, a := range assume {
		as = append(as, substMemo(a, sub, memo))
	}
	return [][]*Term{as, append(append([]*Term{}, assume...), Lt(k, x))}, []*Term{substMemo(goal, sub, memo), goal}
}
