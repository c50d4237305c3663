package main

import (
	"fmt"
	"math/big"
	"sort"
)

// splitBytes names the bytes of every value whose bytes are looked at: x = b0 + 256*b1 + ... + 256^n*q.
// Solvers do much better with that equation than with divisions and remainders.
func splitBytes(facts []*Term) []*Term {
	top := map[*Term]int{}
	seen := map[*Term]bool{}
	var xs []*Term
	var scan func(t *Term)
	scan = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OByte && !t.bound {
			k := int(t.args[1].int64())
			if old, ok := top[t.args[0]]; !ok {
				xs = append(xs, t.args[0])
				top[t.args[0]] = k
			} else if old < k {
				top[t.args[0]] = k
			}
		}
		for _, a := range t.args {
			scan(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				scan(x)
			}
		}
	}
	for _, f := range facts {
		scan(f)
	}
	if len(xs) == 0 {
		return facts
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].id < xs[j].id })
	m := map[*Term]*Term{}
	type def struct {
		x    *Term
		sum  *Term
		rest *Term
	}
	var defs []def
	for n, x := range xs {
		K := top[x]
		sum := Zero
		for k := 0; k <= K; k++ {
			b := SymR(fmt.Sprintf("byte!%d.%d", n, k), new(big.Int), big.NewInt(255))
			m[intern(&Term{op: OByte, sort: SInt, args: []*Term{x, I(int64(k))}, lo: new(big.Int), hi: big.NewInt(255)})] = b
			sum = Add(sum, MulC(b, pow2(8*k)))
			if k > 0 || K == 0 {
				c := BI(pow2(8 * (k + 1)))
				m[intern(&Term{op: OMod, sort: SInt, args: []*Term{x, c}, lo: new(big.Int), hi: new(big.Int).Sub(c.val, big.NewInt(1))})] = sum
			}
		}
		rest := Zero
		if x.lo == nil || x.hi == nil || x.lo.Sign() < 0 || x.hi.Cmp(pow2(8*(K+1))) >= 0 {
			var lo, hi *big.Int
			if x.lo != nil {
				lo = new(big.Int).Div(x.lo, pow2(8*(K+1)))
			}
			if x.hi != nil {
				hi = new(big.Int).Div(x.hi, pow2(8*(K+1)))
			}
			rest = MulC(SymR(fmt.Sprintf("byte!%d.q", n), lo, hi), pow2(8*(K+1)))
		}
		defs = append(defs, def{x, sum, rest})
	}
	memo := map[*Term]*Term{}
	var out []*Term
	for _, f := range facts {
		out = append(out, substMemo(f, m, memo))
	}
	for _, d := range defs {
		out = append(out, Eq(substMemo(d.x, m, memo), Add(d.sum, d.rest)))
	}
	return out
}
