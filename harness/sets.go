package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/tc-hib/winres"
)

// ---- model of a resource set

type key struct {
	t, r winres.Identifier
	l    uint16
}

func (k key) String() string { return fmt.Sprintf("(%s, %s, %#x)", ident(k.t), ident(k.r), k.l) }

func ident(i winres.Identifier) string {
	switch i := i.(type) {
	case winres.ID:
		return fmt.Sprintf("ID(%d)", uint16(i))
	case winres.Name:
		if len(i) > 40 {
			return fmt.Sprintf("Name(%q… %d bytes)", string(i)[:20], len(i))
		}
		return fmt.Sprintf("Name(%q)", string(i))
	}
	return fmt.Sprintf("%v", i)
}

type model map[key][]byte

// cmpIdent: names before ordinals, names in ascending case-sensitive order, ordinals ascending.
func cmpIdent(a, b winres.Identifier) int {
	na, aIsName := a.(winres.Name)
	nb, bIsName := b.(winres.Name)
	switch {
	case aIsName && !bIsName:
		return -1
	case !aIsName && bIsName:
		return 1
	case aIsName:
		return strings.Compare(string(na), string(nb))
	}
	return int(a.(winres.ID)) - int(b.(winres.ID))
}

func cmpKey(a, b key) int {
	if c := cmpIdent(a.t, b.t); c != 0 {
		return c
	}
	if c := cmpIdent(a.r, b.r); c != 0 {
		return c
	}
	return int(a.l) - int(b.l)
}

func (m model) sorted() []key {
	out := make([]key, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return cmpKey(out[i], out[j]) < 0 })
	return out
}

func (m model) clone() model {
	o := model{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

// ---- generators

var poolNames = []string{"A", "B", "a", "b", "AB", "Ab", "aB", "ABC", "Z", "z", "APPICON", "MANIFEST", "été", "É", "日本語", "_", "0", "10", "9", " ", "A B", "#1", "ß", "ss", "zz"}
var astralNames = []string{"😀", "x😀y", "𝄞"}

func randName(r *rand.Rand) winres.Name {
	switch r.Intn(12) {
	case 0:
		n := 1 + r.Intn(40)
		b := make([]rune, n)
		for i := range b {
			b[i] = rune(0x20 + r.Intn(0x5f))
		}
		return winres.Name(b)
	case 1:
		n := 1 + r.Intn(8)
		b := make([]rune, n)
		for i := range b {
			b[i] = rune(0xA0 + r.Intn(0x3000))
		}
		return winres.Name(b)
	case 2:
		return winres.Name(astralNames[r.Intn(len(astralNames))])
	case 3:
		return winres.Name(poolNames[r.Intn(len(poolNames))] + poolNames[r.Intn(len(poolNames))])
	}
	return winres.Name(poolNames[r.Intn(len(poolNames))])
}

var poolIDs = []uint16{1, 2, 3, 4, 5, 7, 9, 10, 11, 12, 14, 16, 24, 255, 256, 257, 1000, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF}

func randID(r *rand.Rand) winres.ID {
	switch r.Intn(6) {
	case 0:
		return winres.ID(1 + r.Intn(0xFFFF))
	case 1:
		return winres.ID(1 + r.Intn(300))
	}
	return winres.ID(poolIDs[r.Intn(len(poolIDs))])
}

func randIdent(r *rand.Rand) winres.Identifier {
	if r.Intn(2) == 0 {
		return randID(r)
	}
	return randName(r)
}

var poolLangs = []uint16{0, 1, 0x7F, 0x400, 0x409, 0x40C, 0x407, 0x809, 0xC0C, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF}

func randLang(r *rand.Rand) uint16 {
	if r.Intn(5) == 0 {
		return uint16(r.Intn(0x10000))
	}
	return poolLangs[r.Intn(len(poolLangs))]
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func randData(r *rand.Rand) []byte {
	switch r.Intn(20) {
	case 0:
		return []byte{}
	case 1:
		return randBytes(r, 200+r.Intn(3000))
	case 2:
		return randBytes(r, 8*(1+r.Intn(10)))
	case 3:
		if r.Intn(10) == 0 {
			return randBytes(r, 65530+r.Intn(20))
		}
	}
	return randBytes(r, 1+r.Intn(40))
}

// universe is a small pool of keys, so that operations hit the same ones again.
type universe struct {
	types, res []winres.Identifier
	langs      []uint16
}

func newUniverse(r *rand.Rand) *universe {
	u := &universe{}
	seen := map[winres.Identifier]bool{}
	for i, n := 0, 1+r.Intn(5); i < n; i++ {
		t := randIdent(r)
		if r.Intn(4) == 0 {
			t = []winres.ID{winres.RT_ICON, winres.RT_CURSOR, winres.RT_GROUP_ICON, winres.RT_GROUP_CURSOR, winres.RT_VERSION, winres.RT_MANIFEST, winres.RT_RCDATA}[r.Intn(7)]
		}
		if !seen[t] {
			seen[t] = true
			u.types = append(u.types, t)
		}
	}
	seen = map[winres.Identifier]bool{}
	for i, n := 0, 1+r.Intn(7); i < n; i++ {
		t := randIdent(r)
		if !seen[t] {
			seen[t] = true
			u.res = append(u.res, t)
		}
	}
	ls := map[uint16]bool{}
	for i, n := 0, 1+r.Intn(5); i < n; i++ {
		l := randLang(r)
		if !ls[l] {
			ls[l] = true
			u.langs = append(u.langs, l)
		}
	}
	return u
}

func (u *universe) key(r *rand.Rand) key {
	return key{u.types[r.Intn(len(u.types))], u.res[r.Intn(len(u.res))], u.langs[r.Intn(len(u.langs))]}
}

var badIdents = []winres.Identifier{winres.ID(0), winres.Name(""), winres.Name("\x00"), winres.Name("A\x00"), winres.Name("\x00A"), winres.Name("a\x00b"), winres.Name("été\x00"), winres.Name("日本\x00語")}

// checkSet compares the whole observable content of rs with the model.
func checkSet(t *T, rs *winres.ResourceSet, m model, u *universe, when string) {
	t.check(rs.Count() == len(m), "%s: Count() = %d, the set holds %d resources", when, rs.Count(), len(m))
	if u != nil {
		for _, ty := range u.types {
			for _, re := range u.res {
				for _, l := range u.langs {
					k := key{ty, re, l}
					checkGet(t, rs, m, k, when)
				}
			}
		}
	}
	for k := range m {
		checkGet(t, rs, m, k, when)
	}
}

func checkGet(t *T, rs *winres.ResourceSet, m model, k key, when string) {
	got := rs.Get(k.t, k.r, k.l)
	want, ok := m[k]
	if !ok {
		t.check(got == nil, "%s: Get%v returns %d bytes (%.40x), nothing was expected", when, k, len(got), got)
		return
	}
	t.check(got != nil, "%s: Get%v returns nothing, %d bytes were expected", when, k, len(want))
	t.check(bytes.Equal(got, want), "%s: Get%v returns %d bytes %.60x, expected %d bytes %.60x", when, k, len(got), got, len(want), want)
}

// checkWalk checks Walk and WalkType against the model.
func checkWalk(t *T, rs *winres.ResourceSet, m model, stopAt int, when string) {
	want := m.sorted()
	n := 0
	stopped := false
	rs.Walk(func(ty, re winres.Identifier, l uint16, data []byte) bool {
		k := key{ty, re, l}
		t.check(!stopped, "%s: Walk continued with %v after the callback returned false", when, k)
		t.check(n < len(want), "%s: Walk visits %v, after all %d resources were visited", when, k, len(want))
		t.check(k == want[n], "%s: Walk visits %v at position %d, expected %v", when, k, n, want[n])
		t.check(bytes.Equal(data, m[k]), "%s: Walk passes wrong data for %v", when, k)
		n++
		if n == stopAt {
			stopped = true
			return false
		}
		return true
	})
	if !stopped {
		t.check(n == len(want), "%s: Walk visited %d resources out of %d; first missing: %v", when, n, len(want), at(want, n))
	}
}

func checkWalkType(t *T, rs *winres.ResourceSet, m model, ty winres.Identifier, stopAt int, when string) {
	var want []key
	for _, k := range m.sorted() {
		if k.t == ty {
			want = append(want, k)
		}
	}
	n := 0
	stopped := false
	rs.WalkType(ty, func(re winres.Identifier, l uint16, data []byte) bool {
		k := key{ty, re, l}
		t.check(!stopped, "%s: WalkType continued with %v after the callback returned false", when, k)
		t.check(n < len(want), "%s: WalkType visits %v, after all %d resources were visited", when, k, len(want))
		t.check(k == want[n], "%s: WalkType visits %v at position %d, expected %v", when, k, n, want[n])
		t.check(bytes.Equal(data, m[k]), "%s: WalkType passes wrong data for %v", when, k)
		n++
		if n == stopAt {
			stopped = true
			return false
		}
		return true
	})
	if !stopped {
		t.check(n == len(want), "%s: WalkType(%s) visited %d resources out of %d; first missing: %v", when, ident(ty), n, len(want), at(want, n))
	}
}

func at(k []key, i int) interface{} {
	if i < len(k) {
		return k[i]
	}
	return "none"
}

type session struct {
	t  *T
	rs *winres.ResourceSet
	m  model
	u  *universe
}

func (s *session) set(k key, data []byte) {
	s.t.note("Set%v = %d bytes", k, len(data))
	err := s.rs.Set(k.t, k.r, k.l, append([]byte{}, data...))
	s.t.check(err == nil, "Set%v failed: %v", k, err)
	s.m[k] = append([]byte{}, data...)
}

func (s *session) del(k key) {
	s.t.note("Set%v = nil", k)
	err := s.rs.Set(k.t, k.r, k.l, nil)
	s.t.check(err == nil, "Set%v failed: %v", k, err)
	delete(s.m, k)
}

func (s *session) bad() {
	r := s.t.r
	k := s.u.key(r)
	b := badIdents[r.Intn(len(badIdents))]
	switch r.Intn(3) {
	case 0:
		k.t = b
	case 1:
		k.r = b
	case 2:
		k.t, k.r = b, badIdents[r.Intn(len(badIdents))]
	}
	var data []byte
	if r.Intn(3) > 0 {
		data = randData(r)
	}
	s.t.note("Set%v = %d bytes (invalid)", k, len(data))
	err := s.rs.Set(k.t, k.r, k.l, data)
	s.t.check(err != nil, "Set%v: an invalid identifier was accepted", k)
}

// step does one random operation, and tells whether it observed or disturbed caches.
func (s *session) step(observe bool) {
	r := s.t.r
	switch n := r.Intn(20); {
	case n < 9:
		s.set(s.u.key(r), randData(r))
	case n < 14:
		s.del(s.u.key(r))
	case n < 15:
		s.bad()
	case n < 16 && len(s.m) > 0:
		// delete a present one
		ks := s.m.sorted()
		s.del(ks[r.Intn(len(ks))])
	case n < 17 && len(s.m) > 0:
		ks := s.m.sorted()
		k := ks[r.Intn(len(ks))]
		k.l = s.u.langs[r.Intn(len(s.u.langs))]
		s.set(k, randData(r))
	default:
		if !observe {
			return
		}
		switch r.Intn(6) {
		case 0:
			s.t.note("Walk")
			s.rs.Walk(func(_, _ winres.Identifier, _ uint16, _ []byte) bool { return true })
		case 1:
			ty := s.u.types[r.Intn(len(s.u.types))]
			s.t.note("WalkType %s", ident(ty))
			s.rs.WalkType(ty, func(_ winres.Identifier, _ uint16, _ []byte) bool { return true })
		case 2:
			s.t.note("WriteObject")
			s.rs.WriteObject(&bytes.Buffer{}, winres.ArchAMD64)
		case 3:
			s.t.note("Walk, stopped")
			s.rs.Walk(func(_, _ winres.Identifier, _ uint16, _ []byte) bool { return false })
		case 4:
			s.t.note("GetIcon")
			s.rs.GetIcon(s.u.res[r.Intn(len(s.u.res))])
		case 5:
			s.t.note("Count")
			s.rs.Count()
		}
	}
}

func newSession(t *T) *session {
	s := &session{t: t, rs: &winres.ResourceSet{}, m: model{}, u: newUniverse(t.r)}
	return s
}

func init() {
	reg("C01", "history", 4, 40, func(t *T) {
		s := newSession(t)
		n := 3 + t.r.Intn(40)
		checkSet(t, s.rs, s.m, s.u, "empty set")
		for i := 0; i < n; i++ {
			s.step(true)
			checkSet(t, s.rs, s.m, s.u, fmt.Sprintf("after step %d", len(t.notes)))
		}
	})
	reg("C01", "invalid", 1, 1, func(t *T) {
		s := newSession(t)
		for i := 0; i < 5; i++ {
			s.set(s.u.key(t.r), randData(t.r))
		}
		for _, b := range badIdents {
			for _, g := range []winres.Identifier{winres.ID(3), winres.Name("X"), winres.ID(0), winres.Name("")} {
				for _, d := range [][]byte{nil, {}, {1, 2}} {
					for _, k := range []key{{b, g, 0}, {g, b, 0}, {b, g, 0x409}, {g, b, 0xFFFF}} {
						err := s.rs.Set(k.t, k.r, k.l, d)
						t.check(err != nil, "Set%v: an invalid identifier was accepted", k)
						t.check(s.rs.Get(k.t, k.r, k.l) == nil, "Set%v stored data for a refused identifier", k)
					}
				}
			}
			checkSet(t, s.rs, s.m, s.u, "after refused updates")
			checkWalk(t, s.rs, s.m, 0, "after refused updates")
		}
	})
	reg("C01", "large", 1, 2, func(t *T) {
		// many distinct identifiers
		rs := &winres.ResourceSet{}
		m := model{}
		n := 300 + t.r.Intn(1500)
		for i := 0; i < n; i++ {
			k := key{randIdent(t.r), randIdent(t.r), randLang(t.r)}
			if t.r.Intn(6) == 0 && len(m) > 0 {
				for x := range m {
					k = x
					break
				}
				t.check(rs.Set(k.t, k.r, k.l, nil) == nil, "deleting %v failed", k)
				delete(m, k)
				continue
			}
			d := randBytes(t.r, t.r.Intn(12))
			t.check(rs.Set(k.t, k.r, k.l, d) == nil, "setting %v failed", k)
			m[k] = append([]byte{}, d...)
		}
		checkSet(t, rs, m, nil, "large set")
		for i := 0; i < 200; i++ {
			k := key{randIdent(t.r), randIdent(t.r), randLang(t.r)}
			checkGet(t, rs, m, k, "large set")
		}
	})
	reg("C01", "ordinals", 1, 3, func(t *T) {
		// every ordinal and every language is its own key
		rs := &winres.ResourceSet{}
		m := model{}
		which := t.r.Intn(3)
		step := 1 + t.r.Intn(37)
		for i := t.r.Intn(step) + 1; i < 0x10000; i += step {
			k := key{winres.ID(7), winres.ID(7), 7}
			switch which {
			case 0:
				k.t = winres.ID(i)
			case 1:
				k.r = winres.ID(i)
			case 2:
				k.l = uint16(i)
			}
			d := []byte{byte(i), byte(i >> 8)}
			t.check(rs.Set(k.t, k.r, k.l, d) == nil, "Set%v failed", k)
			m[k] = d
		}
		checkSet(t, rs, m, nil, "ordinals")
	})

	reg("C02", "history", 4, 60, func(t *T) {
		s := newSession(t)
		n := 3 + t.r.Intn(30)
		for i := 0; i < n; i++ {
			s.step(true)
			if t.r.Intn(3) == 0 {
				when := fmt.Sprintf("after step %d", len(t.notes))
				if t.r.Intn(2) == 0 {
					t.note("check Walk")
					checkWalk(t, s.rs, s.m, 0, when)
				}
				if t.r.Intn(2) == 0 {
					ty := s.u.types[t.r.Intn(len(s.u.types))]
					t.note("check WalkType %s", ident(ty))
					checkWalkType(t, s.rs, s.m, ty, 0, when)
				}
				if t.r.Intn(4) == 0 {
					checkWalk(t, s.rs, s.m, 1+t.r.Intn(5), when)
				}
				if t.r.Intn(4) == 0 {
					checkWalkType(t, s.rs, s.m, s.u.types[t.r.Intn(len(s.u.types))], 1+t.r.Intn(4), when)
				}
			}
		}
		checkWalk(t, s.rs, s.m, 0, "at the end")
		for _, ty := range s.u.types {
			checkWalkType(t, s.rs, s.m, ty, 0, "at the end")
		}
		for i := 1; i <= len(s.m); i++ {
			checkWalk(t, s.rs, s.m, i, "at the end, stopping")
		}
	})
	reg("C02", "large", 1, 2, func(t *T) {
		rs := &winres.ResourceSet{}
		m := model{}
		types := []winres.Identifier{randIdent(t.r), randIdent(t.r), randIdent(t.r)}
		n := 100 + t.r.Intn(900)
		for i := 0; i < n; i++ {
			k := key{types[t.r.Intn(3)], randIdent(t.r), randLang(t.r)}
			d := randBytes(t.r, 1+t.r.Intn(12))
			t.check(rs.Set(k.t, k.r, k.l, d) == nil, "setting %v failed", k)
			m[k] = append([]byte{}, d...)
		}
		checkWalk(t, rs, m, 0, "large set")
		for _, ty := range types {
			checkWalkType(t, rs, m, ty, 0, "large set")
		}
		checkWalkType(t, rs, m, winres.Name("no such type"), 0, "large set")
	})
}
