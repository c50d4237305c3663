package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"strings"

	"github.com/tc-hib/winres"
)

// patched is one patched executable, with all that is needed to judge it.
type patched struct {
	p, q   *peImage
	out    []byte
	rs     *winres.ResourceSet
	m      model
	flags  int
	err    error
	signed bool
	writes int
}

type countW struct {
	w io.Writer
	n int
}

func (c *countW) Write(p []byte) (int, error) {
	c.n++
	return c.w.Write(p)
}

func randResources(t *T) (*winres.ResourceSet, model) {
	r := t.r
	switch r.Intn(6) {
	case 0:
		return &winres.ResourceSet{}, model{}
	case 1:
		return randSet(t)
	}
	rs := &winres.ResourceSet{}
	m := model{}
	for i, n := 0, 1+r.Intn(6); i < n; i++ {
		k := key{randIdent(r), randIdent(r), randLang(r)}
		d := randData(r)
		if r.Intn(5) == 0 {
			d = randBytes(r, r.Intn(20000))
		}
		t.check(rs.Set(k.t, k.r, k.l, d) == nil, "Set%v failed", k)
		m[k] = append([]byte{}, d...)
	}
	return rs, m
}

// doPatch patches a random executable with random resources.
func doPatch(t *T, p *peImage, rs *winres.ResourceSet, m model, flags int) *patched {
	src := p.build()
	orig := append([]byte{}, src...)
	x := &patched{p: p, rs: rs, m: m, flags: flags}
	x.signed = len(p.dirs) > 4 && p.dirs[4].va > 0
	t.note("patch with %d resources, flags %d", len(m), flags)
	in := randSource(t.r, src)
	switch t.r.Intn(4) {
	case 0:
		w := &wsBuf{}
		x.err = patchTo(w, rs, in, flags)
		x.out = w.b
	case 1:
		w := &pipe{}
		x.err = patchTo(w, rs, in, flags)
		x.out = w.Bytes()
	case 2:
		// a file that already had some content
		w := &wsBuf{b: bytes.Repeat([]byte{0xA5}, 100)}
		x.err = patchTo(w, rs, in, flags)
		x.out = w.b
		if x.err != nil {
			x.out = nil
		}
	default:
		var b bytes.Buffer
		c := &countW{w: &b}
		x.err = patchTo(c, rs, in, flags)
		x.out = b.Bytes()
		x.writes = c.n
	}
	t.check(bytes.Equal(src, orig), "the source was modified")
	return x
}

// needsSection tells whether a new section header is certainly needed, or certainly not.
func (x *patched) mayRefuse() bool {
	p := x.p
	if p.rawStart()-p.hdrEnd >= 40 {
		return false
	}
	rsrc := p.sectionAt(p.dirs[2].va)
	if rsrc == nil {
		return true
	}
	after := 0
	onlyReloc := true
	for _, s := range p.sections {
		if s.va > rsrc.va {
			after++
			if s.va != p.dirs[5].va {
				onlyReloc = false
			}
		}
	}
	if after == 0 || onlyReloc {
		return false
	}
	// between other sections: the new data may not fit in the room of the old
	return true
}

// accepted checks the outcome, and says whether there is an output to look at.
func (x *patched) accepted(t *T) bool {
	if x.signed && x.flags&(fRemove|fIgnore) == 0 {
		t.check(x.err == winres.ErrSignedPE, "a signed executable was not refused with ErrSignedPE: %v", x.err)
		return false
	}
	if x.err != nil {
		t.check(x.mayRefuse(), "patching a well-formed executable failed: %v", x.err)
		return false
	}
	q, err := parsePE(x.out)
	if err != nil {
		t.fail("the patched executable cannot be parsed: %v", err)
	}
	x.q = q
	return true
}

// preserved is C09.
func (x *patched) preserved(t *T) {
	p, q := x.p, x.q
	t.check(bytes.Equal(p.dos, q.dos), "the DOS header and stub changed")
	rsrcVA := p.dirs[2].va
	old := p.sectionAt(rsrcVA)
	newRsrc := q.sectionAt(q.dirs[2].va)
	t.check(newRsrc != nil, "the resource directory address %#x is not a section's", q.dirs[2].va)
	t.check(len(q.sections) >= len(p.sections), "%d sections became %d", len(p.sections), len(q.sections))
	for i, s := range p.sections {
		n := q.sections[i]
		if s == old && n == newRsrc {
			continue
		}
		if s == old {
			// kept aside, a new section was added
			t.check(len(q.sections) == len(p.sections)+1, "the old resource section was abandoned without a new one")
			continue
		}
		t.check(n != newRsrc, "section %d (%s) was taken over by the resources", i, s.name)
		t.check(strings.TrimRight(n.name, "\x00") == s.name, "section %d: name %q became %q", i, s.name, n.name)
		t.check(n.chars == s.chars, "section %d: characteristics %#x became %#x", i, s.chars, n.chars)
		t.check(n.vsize == s.vsize, "section %d (%s): virtual size %#x became %#x", i, s.name, s.vsize, n.vsize)
		t.check(n.rawSize == s.rawSize, "section %d (%s): raw size %#x became %#x", i, s.name, s.rawSize, n.rawSize)
		if s.uninit() || s.rawSize == 0 {
			continue
		}
		t.check(bytes.Equal(n.data, s.data), "section %d (%s): its raw content changed (first difference at %d)", i, s.name, firstDiff(n.data, s.data))
	}
	// appended data
	want := p.overlay
	if x.flags&fRemove != 0 && x.signed {
		d := p.dirs[4]
		if int(d.va)+int(d.size) == len(p.raw) && int(d.va) >= p.rawEnd() {
			want = p.raw[p.rawEnd():d.va]
		}
	}
	got := x.out[min(q.rawEnd(), len(x.out)):]
	t.check(bytes.Equal(got, want), "data appended after the last section: %d bytes, expected %d bytes (first difference at %d)", len(got), len(want), firstDiff(got, want))
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (p *peImage) headersContent(va, size uint32) []byte {
	if int(va)+int(size) <= len(p.raw) {
		return p.raw[va : va+size]
	}
	return nil
}

// at returns what the loader puts at an address.
func (p *peImage) at(va, size uint32) []byte {
	for _, s := range p.sections {
		if va >= s.va && uint64(va)+uint64(size) <= uint64(s.va)+uint64(maxU(s.vsize, s.rawSize)) && (va < s.va+s.vsize) {
			out := make([]byte, size)
			if !s.uninit() && s.rawSize > 0 {
				off := va - s.va
				if off < s.rawSize {
					copy(out, s.data[off:])
				}
			}
			return out
		}
	}
	return nil
}

func maxU(a, b uint32) uint32 {
	if a > b {
		return a
	}
	return b
}

// consistent is C10.
func (x *patched) consistent(t *T) {
	p, q := x.p, x.q
	t.check(q.plus == p.plus && q.secAlign == p.secAlign && q.fileAlign == p.fileAlign, "the format or the alignments changed")
	t.check(len(q.dirs) == len(p.dirs), "%d directories became %d", len(p.dirs), len(q.dirs))
	for i := 0; i < 20; i++ {
		if i == 2 || i == 3 {
			continue
		}
		t.check(q.fileHdr[i] == p.fileHdr[i], "byte %d of the file header changed", i)
	}
	for i := 0; i < len(p.opt); i++ {
		if i >= 8 && i < 12 || i >= oImage && i < oImage+4 || i >= oCheckSum && i < oCheckSum+4 {
			continue
		}
		t.check(q.opt[i] == p.opt[i], "byte %d of the optional header changed", i)
	}
	var end uint32
	var lastEnd uint32
	type rng struct{ lo, hi uint64 }
	var files, mems []rng
	for i, s := range q.sections {
		t.check(s.va%q.secAlign == 0, "section %d (%q): address %#x is not aligned", i, s.name, s.va)
		t.check(uint64(s.va)+uint64(s.vsize) <= 0xFFFFFFFF, "section %d overflows the address space", i)
		t.check(uint64(s.va) >= uint64(q.hdrEnd), "section %d at %#x overlaps the headers in memory", i, s.va)
		mems = append(mems, rng{uint64(s.va), uint64(s.va) + uint64(maxU(s.vsize, 1))})
		if s.va+s.vsize > end {
			end = s.va + s.vsize
		}
		lastEnd = s.va + s.vsize
		if s.uninit() || s.rawSize == 0 {
			continue
		}
		t.check(s.ptr%q.fileAlign == 0 && s.rawSize%q.fileAlign == 0, "section %d (%q): file range [%#x,+%#x) is not aligned", i, s.name, s.ptr, s.rawSize)
		t.check(int(s.ptr) >= q.hdrEnd, "section %d (%q) at %#x overlaps the headers in the file, which end at %#x", i, s.name, s.ptr, q.hdrEnd)
		files = append(files, rng{uint64(s.ptr), uint64(s.ptr) + uint64(s.rawSize)})
	}
	_ = lastEnd
	for i := range mems {
		for j := 0; j < i; j++ {
			t.check(mems[i].lo >= mems[j].hi || mems[j].lo >= mems[i].hi, "sections %d and %d overlap in memory: [%#x,%#x) [%#x,%#x)", j, i, mems[j].lo, mems[j].hi, mems[i].lo, mems[i].hi)
		}
	}
	for i := range files {
		for j := 0; j < i; j++ {
			t.check(files[i].lo >= files[j].hi || files[j].lo >= files[i].hi, "two sections overlap in the file: [%#x,%#x) [%#x,%#x)", files[j].lo, files[j].hi, files[i].lo, files[i].hi)
		}
	}
	img := q.u32(oImage)
	t.check(img >= end, "the image size %#x does not cover the last section, which ends at %#x", img, end)
	t.check(img == up(end, q.secAlign), "the image size is %#x, sections end at %#x", img, end)
	// the resource section
	d := q.dirs[2]
	s := q.sectionAt(d.va)
	t.check(s != nil, "the resource directory address %#x is not a section's", d.va)
	t.check(d.size <= maxU(s.vsize, s.rawSize) && d.size > 0, "the resource directory size is %#x, its section has %#x bytes in memory, %#x in the file", d.size, s.vsize, s.rawSize)
	t.check(s.vsize <= s.rawSize || s.vsize-s.rawSize < 0x100000, "the resource section has a strange size: %#x in memory, %#x in the file", s.vsize, s.rawSize)
	lim := s.rawSize
	if s.vsize < lim {
		lim = s.vsize
	}
	info, err := parseDir(s.data[:lim], s.va, true)
	if err != nil {
		t.fail("the new resource section is wrong: %v", err)
	}
	checkDir(t, info, x.m, "patched executable")
	for _, e := range info.resources {
		t.check(e.off+len(e.data) <= int(d.size), "%v is outside the size given by the resource directory entry", e.k)
	}
	// other directories and the entry point
	for i, d := range p.dirs {
		n := q.dirs[i]
		if i == 2 || i == 4 {
			continue
		}
		t.check(d.size == n.size, "directory %d: size %#x became %#x", i, d.size, n.size)
		if d.va == 0 {
			t.check(n.va == 0, "directory %d: address 0 became %#x", i, n.va)
			continue
		}
		if i == 11 && d.va < p.sections[0].va {
			t.check(n.va == d.va, "directory %d: address %#x in the headers became %#x", i, d.va, n.va)
			a, b := p.raw[d.va:d.va+d.size], x.out[n.va:n.va+n.size]
			t.check(bytes.Equal(a, b), "directory %d no longer designates the same content (in the headers)", i)
			continue
		}
		a, b := p.at(d.va, d.size), q.at(n.va, n.size)
		t.check(a == nil || b != nil, "directory %d at %#x (%#x before) is no longer in a section", i, n.va, d.va)
		t.check(bytes.Equal(a, b), "directory %d at %#x (%#x before) no longer designates the same content", i, n.va, d.va)
	}
	for i, s := range p.sections {
		if s.va == p.dirs[5].va || s.va == p.dirs[2].va && q.sections[i].va == q.dirs[2].va {
			continue
		}
		t.check(q.sections[i].va == s.va, "section %d (%s) moved from %#x to %#x in memory", i, s.name, s.va, q.sections[i].va)
	}
	if n := len(q.sections); n > len(p.sections) {
		t.check(n == len(p.sections)+1, "%d sections were added", n-len(p.sections))
		t.check(x.p.rawStart()-x.p.hdrEnd >= 40, "a section header was added where there was no room")
	}
}

// checksum is C11.
func (x *patched) checksum(t *T) {
	got := x.q.u32(oCheckSum)
	if x.p.u32(oCheckSum) != 0 || x.flags&fForce != 0 {
		want := checkSum(x.out, x.q.checkSumOff())
		t.check(got == want, "the checksum field is %#x, the PE checksum of the file is %#x (%d bytes)", got, want, len(x.out))
	} else {
		t.check(got == 0, "the checksum field is %#x, the source had none", got)
	}
}

// signature is C12.
func (x *patched) signature(t *T) {
	if len(x.p.dirs) <= 4 {
		return
	}
	d, n := x.p.dirs[4], x.q.dirs[4]
	if !x.signed {
		t.check(n.va == 0, "a signature entry appeared: %x", n)
		return
	}
	sig := x.p.raw[d.va : d.va+d.size]
	if x.flags&fRemove != 0 {
		t.check(n == dirEnt{}, "the signature entry was not cleared: %x", n)
		if int(d.va)+int(d.size) == len(x.p.raw) {
			t.check(!bytes.HasSuffix(x.out, sig), "the signature was not removed")
			want := int(d.va) - x.p.rawEnd()
			t.check(len(x.out)-x.q.rawEnd() == want, "%d bytes are left after the last section, there were %d before the signature", len(x.out)-x.q.rawEnd(), want)
		}
		return
	}
	t.check(n.size == d.size, "the size of the signature changed from %#x to %#x", d.size, n.size)
	t.check(int(n.va)+int(n.size) <= len(x.out) && bytes.Equal(x.out[n.va:n.va+n.size], sig), "the signature entry [%#x,+%#x) does not designate the signature (file size %#x)", n.va, n.size, len(x.out))
}

func randFlags(r *rand.Rand) int { return allFlags[r.Intn(len(allFlags))] }

func onePatch(t *T, p *peImage, judge func(*patched, *T)) {
	rs, m := randResources(t)
	x := doPatch(t, p, rs, m, randFlags(t.r))
	if x.accepted(t) {
		judge(x, t)
		if t.r.Intn(4) == 0 {
			// patch the result again
			q := x.q
			n := &peImage{dos: q.dos, plus: q.plus, fileHdr: q.fileHdr, opt: q.opt, dirs: q.dirs, sections: q.sections, hdrEnd: q.hdrEnd, fileAlign: q.fileAlign, secAlign: q.secAlign, overlay: append([]byte{}, q.overlay...)}
			for _, s := range n.sections {
				s.name = strings.TrimRight(s.name, "\x00")
			}
			if bytes.Equal(n.build(), x.out) {
				t.note("again: %s", n.describe())
				rs, m := randResources(t)
				x := doPatch(t, n, rs, m, randFlags(t.r))
				if x.accepted(t) {
					judge(x, t)
				}
			}
		}
	}
}

// midPE has its resource section between others.
func midPE(t *T) *peImage {
	for {
		p := randPE(t, peOpts{withRsrc: true})
		rsrc := p.sectionAt(p.dirs[2].va)
		for _, s := range p.sections {
			if s.va > rsrc.va && s.va != p.dirs[5].va {
				return p
			}
		}
		t.notes = nil
	}
}

func init() {
	type judge struct {
		prop string
		f    func(*patched, *T)
	}
	for _, j := range []judge{
		{"C09", (*patched).preserved},
		{"C10", (*patched).consistent},
		{"C11", (*patched).checksum},
		{"C12", (*patched).signature},
	} {
		j := j
		reg(j.prop, "patch", 6, 120, func(t *T) { onePatch(t, randPE(t, peOpts{}), j.f) })
		reg(j.prop, "middle", 2, 60, func(t *T) { onePatch(t, midPE(t), j.f) })
		reg(j.prop, "signed", 2, 40, func(t *T) {
			p := randPE(t, peOpts{unsigned: true})
			p.sign(t.r, t.r.Intn(4) > 0)
			t.note("signed: %s", p.describe())
			rs, m := randResources(t)
			x := doPatch(t, p, rs, m, []int{fRemove, fIgnore, fForce | fRemove, fForce | fIgnore}[t.r.Intn(4)])
			if x.accepted(t) {
				j.f(x, t)
			}
		})
	}
	reg("C10", "bound-import", 1, 10, func(t *T) {
		// a bound import directory lies between the section table and the first section
		p := randPE(t, peOpts{})
		p.build()
		if p.rawStart()-p.hdrEnd < 80 || len(p.dirs) < 12 || p.sections[0].va < uint32(p.rawStart()) {
			return
		}
		p.slack = append(make([]byte, 40), randBytes(t.r, 16+t.r.Intn(p.rawStart()-p.hdrEnd-56))...)
		p.dirs[11] = dirEnt{uint32(p.hdrEnd + 40), uint32(len(p.slack) - 40)}
		if len(p.dirs) > 4 && p.dirs[4].va != 0 {
			return
		}
		rs, m := randResources(t)
		x := doPatch(t, p, rs, m, randFlags(t.r))
		if x.accepted(t) {
			x.consistent(t)
		}
	})
	reg("C12", "refusal", 2, 40, func(t *T) {
		p := randPE(t, peOpts{unsigned: true})
		p.sign(t.r, t.r.Intn(3) > 0)
		rs, _ := randResources(t)
		var b bytes.Buffer
		c := &countW{w: &b}
		fl := []int{0, fForce, 8}[t.r.Intn(3)]
		err := patchTo(c, rs, randSource(t.r, p.raw), fl)
		t.check(err == winres.ErrSignedPE, "a signed executable was not refused with ErrSignedPE: %v", err)
		t.check(c.n == 0, "%d bytes were written in %d writes before the refusal", b.Len(), c.n)
	})
	reg("C12", "test", 2, 40, func(t *T) {
		p := randPE(t, peOpts{})
		if t.r.Intn(2) == 0 {
			p.dirs[4] = dirEnt{[]uint32{1, 8, 0x80000000, 0xFFFFFFFF, uint32(len(p.raw)), 0, 0x100, 0x10000}[t.r.Intn(8)], uint32(t.r.Intn(3) * 8)}
			p.build()
		}
		want := p.dirs[4].va > 0
		src := randSource(t.r, p.raw)
		pos, _ := src.Seek(int64(t.r.Intn(len(p.raw))), io.SeekStart)
		got, err := winres.IsSignedEXE(src)
		t.check(err == nil, "IsSignedEXE failed: %v", err)
		t.check(got == want, "IsSignedEXE returned %v, the signature entry is %x", got, p.dirs[4])
		now, _ := src.Seek(0, io.SeekCurrent)
		_ = pos
		_ = now
	})

	// ---- C05
	reg("C05", "roundtrip", 3, 40, func(t *T) {
		p := randPE(t, peOpts{})
		rs, m := randResources(t)
		x := doPatch(t, p, rs, m, []int{fRemove, fIgnore, fForce | fRemove, fForce | fIgnore}[t.r.Intn(4)])
		if x.err != nil {
			return
		}
		checkLoad(t, x.out, m, "patched executable")
	})
	reg("C05", "handmade", 6, 60, func(t *T) {
		_, m := randSet(t)
		p := randPE(t, peOpts{withRsrc: true, rsrcAt: func(va uint32) []byte { return buildDir(t.r, m, va) }})
		checkLoad(t, p.raw, m, "handmade directory")
	})
	reg("C05", "single", 3, 40, func(t *T) {
		m := model{}
		types := []winres.Identifier{winres.RT_ICON, winres.RT_CURSOR, winres.RT_GROUP_ICON, winres.RT_GROUP_CURSOR, winres.RT_MANIFEST, winres.Name("ICON"), winres.Name("3"), randIdent(t.r), randIdent(t.r)}
		for i, n := 0, 5+t.r.Intn(25); i < n; i++ {
			k := key{types[t.r.Intn(len(types))], randIdent(t.r), randLang(t.r)}
			m[k] = randData(t.r)
		}
		p := randPE(t, peOpts{withRsrc: true, rsrcAt: func(va uint32) []byte { return buildDir(t.r, m, va) }})
		for _, ty := range append(types, winres.ID(99), winres.Name("none")) {
			rs, err := winres.LoadFromEXESingleType(randSource(t.r, p.raw), ty)
			t.check(err == nil, "LoadFromEXESingleType(%s) failed: %v", ident(ty), err)
			w := model{}
			for k, v := range m {
				if k.t == ty || ty == winres.RT_GROUP_ICON && k.t == winres.RT_ICON || ty == winres.RT_GROUP_CURSOR && k.t == winres.RT_CURSOR {
					w[k] = v
				}
			}
			checkSet(t, rs, w, nil, "LoadFromEXESingleType("+ident(ty)+")")
			checkWalk(t, rs, w, 0, "LoadFromEXESingleType("+ident(ty)+")")
		}
		_, err := winres.LoadFromEXESingleType(randSource(t.r, p.raw), winres.ID(0))
		t.check(err != nil, "LoadFromEXESingleType(ID(0)) succeeded")
	})
	g := reg("C05", "crowded", 1, 3, func(t *T) {
		// one table with more than 65535 entries, names and ordinals together
		m := model{}
		n := 65535
		if t.seed%3 == 1 {
			n = 40000
		}
		for i := 1; i <= n; i++ {
			m[key{winres.ID(10), winres.ID(i), 0}] = []byte{byte(i)}
		}
		names := 1 + t.r.Intn(5)
		if t.seed%3 == 1 {
			names = 30000
		}
		for i := 0; i < names; i++ {
			m[key{winres.ID(10), winres.Name(fmt.Sprintf("N%d", i)), 0}] = []byte{byte(i)}
		}
		p := randPE(t, peOpts{withRsrc: true, simple: true, rsrcAt: func(va uint32) []byte { return buildDir(t.r, m, va) }})
		checkLoad(t, p.raw, m, "crowded directory")
	})
	g.max = 3

	// ---- C06
	reg("C06", "mutated", 6, 200, func(t *T) {
		_, m := randSet(t)
		p := randPE(t, peOpts{rsrcAt: func(va uint32) []byte { return buildDir(t.r, m, va) }})
		b := append([]byte{}, p.build()...)
		mutatePE(t, p, b)
		tryAll(t, b)
	})
	reg("C06", "truncated", 1, 10, func(t *T) {
		_, m := randSet(t)
		p := randPE(t, peOpts{withRsrc: true, simple: true, rsrcAt: func(va uint32) []byte { return buildDir(t.r, m, va) }})
		b := p.build()
		n := t.r.Intn(len(b))
		if t.r.Intn(2) == 0 {
			n = t.r.Intn(min(len(b), 0x400))
		}
		tryAll(t, append([]byte{}, b[:n]...))
	})
	reg("C06", "header-fields", 3, 100, func(t *T) {
		// fields of the headers with extreme values
		p := randPE(t, peOpts{simple: t.r.Intn(2) == 0})
		ext := []uint32{0, 1, 2, 3, 7, 8, 0x10, 0x1FF, 0x200, 0x1000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, 0xFFFFFFFE, 0xFFFFFFFF, uint32(len(p.raw)), uint32(len(p.raw)) - 1}
		e := func() uint32 { return ext[t.r.Intn(len(ext))] }
		for i, n := 0, 1+t.r.Intn(3); i < n; i++ {
			switch t.r.Intn(12) {
			case 0:
				p.put32(oSecAlign, e())
			case 1:
				p.put32(oFileAlign, e())
			case 2:
				p.dirs[2].va = e()
			case 3:
				p.dirs[5].va = e()
			case 4:
				p.dirs[4] = dirEnt{e(), e()}
			case 5:
				p.sections[t.r.Intn(len(p.sections))].vsize = e()
			case 6:
				p.sections[t.r.Intn(len(p.sections))].va = e()
			case 7:
				p.dirs[5] = dirEnt{}
			case 8:
				p.dirs[5] = p.dirs[2]
			case 9:
				p.put32(oImage, e())
			case 10:
				p.put32(oHeaders, e())
			case 11:
				p.dirs[t.r.Intn(len(p.dirs))] = dirEnt{e(), e()}
			}
		}
		b := append([]byte{}, p.build()...)
		// section file ranges are changed in the built file
		if t.r.Intn(3) == 0 {
			o := p.hdrEnd - 40*(1+t.r.Intn(len(p.sections)))
			le.PutUint32(b[o+16+4*t.r.Intn(2):], e())
		}
		if t.r.Intn(8) == 0 {
			le.PutUint16(b[len(p.dos)+4+2:], uint16(e()))
		}
		if t.r.Intn(8) == 0 {
			le.PutUint16(b[len(p.dos)+4+16:], uint16(e()))
		}
		if t.r.Intn(12) == 0 {
			le.PutUint32(b[0x3C:], e())
		}
		t.note("%s", p.describe())
		tryAll(t, b)
	})
	reg("C06", "opt-size", 1, 30, func(t *T) {
		p := randPE(t, peOpts{simple: true})
		b := append([]byte{}, p.build()...)
		le.PutUint16(b[len(p.dos)+4+16:], uint16(t.seed%30))
		if t.r.Intn(2) == 0 {
			b = b[:len(p.dos)+24+int(t.seed%30)]
		}
		tryAll(t, b)
	})
	reg("C06", "no-sections", 1, 4, func(t *T) {
		p := randPE(t, peOpts{simple: true})
		b := append([]byte{}, p.build()...)
		le.PutUint16(b[len(p.dos)+4+2:], 0)
		tryAll(t, b)
	})
}

// checkLoad loads an executable and compares with the model.
func checkLoad(t *T, b []byte, m model, when string) {
	rs, err := winres.LoadFromEXE(randSource(t.r, b))
	t.check(err == nil, "%s: LoadFromEXE failed: %v", when, err)
	checkSet(t, rs, m, nil, when)
	checkWalk(t, rs, m, 0, when)
}

// limW refuses to store more than a few megabytes.
type limW struct{ n int }

func (l *limW) Write(p []byte) (int, error) {
	l.n += len(p)
	if l.n > 8<<20 {
		return 0, fmt.Errorf("too much output")
	}
	return len(p), nil
}

func tryAll(t *T, b []byte) {
	keep := append([]byte{}, b...)
	rs, err := winres.LoadFromEXE(randSource(t.r, b))
	if err == nil {
		rs.Count()
	}
	for _, ty := range []winres.Identifier{winres.RT_GROUP_ICON, winres.Name("A")} {
		winres.LoadFromEXESingleType(bytes.NewReader(b), ty)
	}
	winres.IsSignedEXE(bytes.NewReader(b))
	set := &winres.ResourceSet{}
	set.Set(winres.ID(10), winres.ID(1), 0, make([]byte, t.r.Intn(3)*(1+t.r.Intn(3000))))
	for _, f := range []int{fIgnore, fForce | fRemove, 0} {
		patchTo(&limW{}, set, bytes.NewReader(b), f)
	}
	if rs != nil && err == nil {
		patchTo(&limW{}, rs, bytes.NewReader(b), fIgnore)
	}
	t.check(bytes.Equal(b, keep), "the input was modified")
}

func mutatePE(t *T, p *peImage, b []byte) {
	r := t.r
	rsrc := p.sectionAt(p.dirs[2].va)
	for i, n := 0, 1+r.Intn(6); i < n; i++ {
		lo, hi := 0, len(b)
		switch r.Intn(4) {
		case 0:
			hi = p.hdrEnd
		case 1, 2:
			if rsrc != nil && rsrc.rawSize > 0 {
				lo, hi = int(rsrc.ptr), int(rsrc.ptr+min32(rsrc.vsize, rsrc.rawSize))
			}
		}
		if hi > len(b) {
			hi = len(b)
		}
		if lo >= hi {
			continue
		}
		o := lo + r.Intn(hi-lo)
		var v []byte
		switch r.Intn(5) {
		case 0:
			v = []byte{byte(r.Intn(256))}
		case 1:
			v = []byte{0, 0}
		case 2:
			v = []byte{0xFF, 0xFF, 0xFF, 0xFF}[:1+r.Intn(4)]
		case 3:
			v = []byte{0xFF, 0xFF, 0xFF, 0x7F}
		case 4:
			v = make([]byte, 4)
			le.PutUint32(v, uint32(r.Intn(len(b)+8)))
			if r.Intn(2) == 0 {
				v[3] |= 0x80
			}
		}
		if r.Intn(2) == 0 {
			o &^= 1
		}
		copy(b[o:], v)
		t.note("%x at %#x", v, o)
	}
}

func min32(a, b uint32) uint32 {
	if a < b {
		return a
	}
	return b
}

// ---- a resource directory laid out in an arbitrary way

func buildDir(r *rand.Rand, m model, base uint32) []byte {
	keys := m.sorted()
	type lang struct {
		l    uint16
		data []byte
	}
	type res struct {
		id    winres.Identifier
		langs []lang
	}
	type typ struct {
		id  winres.Identifier
		res []*res
	}
	var types []*typ
	for _, k := range keys {
		if len(types) == 0 || types[len(types)-1].id != k.t {
			types = append(types, &typ{id: k.t})
		}
		ty := types[len(types)-1]
		if len(ty.res) == 0 || ty.res[len(ty.res)-1].id != k.r {
			ty.res = append(ty.res, &res{id: k.r})
		}
		re := ty.res[len(ty.res)-1]
		re.langs = append(re.langs, lang{k.l, m[k]})
	}
	// blocks: allocated in random order after the root
	var out []byte
	type block struct {
		size, align int
		off         *int
	}
	var blocks []block
	alloc := func(size, al int) *int {
		p := new(int)
		blocks = append(blocks, block{size, al, p})
		return p
	}
	rootSize := 16 + 8*len(types)
	typOff := map[*typ]*int{}
	resOff := map[*res]*int{}
	deOff := map[*lang]*int{}
	datOff := map[*lang]*int{}
	names := map[winres.Name]*int{}
	units := map[winres.Name][]uint16{}
	shared := r.Intn(2) == 0
	name := func(i winres.Identifier) {
		n, ok := i.(winres.Name)
		if !ok {
			return
		}
		if names[n] != nil {
			return
		}
		u := utf16of(string(n))
		units[n] = u
		names[n] = alloc(2+2*len(u), 2)
	}
	_ = shared
	for _, ty := range types {
		typOff[ty] = alloc(16+8*len(ty.res), 4)
		name(ty.id)
		for _, re := range ty.res {
			resOff[re] = alloc(16+8*len(re.langs), 4)
			name(re.id)
			for i := range re.langs {
				l := &re.langs[i]
				deOff[l] = alloc(16, 4)
				datOff[l] = alloc(len(l.data), []int{1, 4, 8}[r.Intn(3)])
			}
		}
	}
	r.Shuffle(len(blocks), func(i, j int) { blocks[i], blocks[j] = blocks[j], blocks[i] })
	off := rootSize
	for _, b := range blocks {
		if r.Intn(10) == 0 {
			off += r.Intn(20)
		}
		off = (off + b.align - 1) / b.align * b.align
		*b.off = off
		off += b.size
	}
	out = make([]byte, off)
	// unused bytes hold anything
	for i := range out {
		out[i] = byte(r.Intn(256))
	}
	table := func(o int, ids []winres.Identifier, tgt []uint32) {
		le.PutUint32(out[o:], r.Uint32()*uint32(r.Intn(2)))
		le.PutUint32(out[o+4:], r.Uint32()*uint32(r.Intn(2)))
		le.PutUint32(out[o+8:], r.Uint32()*uint32(r.Intn(2)))
		nn := 0
		for i, id := range ids {
			p := o + 16 + 8*i
			switch id := id.(type) {
			case winres.Name:
				nn++
				le.PutUint32(out[p:], 0x80000000|uint32(*names[id]))
			case winres.ID:
				le.PutUint32(out[p:], uint32(id))
			}
			le.PutUint32(out[p+4:], tgt[i])
		}
		le.PutUint16(out[o+12:], uint16(nn))
		le.PutUint16(out[o+14:], uint16(len(ids)-nn))
	}
	var ids []winres.Identifier
	var tg []uint32
	for _, ty := range types {
		ids = append(ids, ty.id)
		tg = append(tg, 0x80000000|uint32(*typOff[ty]))
		var rids []winres.Identifier
		var rtg []uint32
		for _, re := range ty.res {
			rids = append(rids, re.id)
			rtg = append(rtg, 0x80000000|uint32(*resOff[re]))
			var lids []winres.Identifier
			var ltg []uint32
			for i := range re.langs {
				l := &re.langs[i]
				lids = append(lids, winres.ID(l.l))
				ltg = append(ltg, uint32(*deOff[l]))
				d := *deOff[l]
				le.PutUint32(out[d:], base+uint32(*datOff[l]))
				le.PutUint32(out[d+4:], uint32(len(l.data)))
				le.PutUint32(out[d+8:], uint32([]int{0, 1252, 65001}[r.Intn(3)]))
				le.PutUint32(out[d+12:], 0)
				copy(out[*datOff[l]:], l.data)
			}
			table(*resOff[re], lids, ltg)
		}
		table(*typOff[ty], rids, rtg)
	}
	table(0, ids, tg)
	for n, o := range names {
		le.PutUint16(out[*o:], uint16(len(units[n])))
		for i, u := range units[n] {
			le.PutUint16(out[*o+2+2*i:], u)
		}
	}
	return out
}
