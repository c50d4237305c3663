package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"unicode/utf16"

	"github.com/tc-hib/winres"
)

var le = binary.LittleEndian

// ---- strict parser of a resource directory

type span struct {
	lo, hi int
	what   string
}

type dirInfo struct {
	tables    []int // offsets
	relocs    []int // offsets of the data entries
	resources []resEntry
	spans     []span
}

type resEntry struct {
	k    key
	off  int // of the data, in the section
	data []byte
	de   int // offset of the data entry
}

type dirErr string

func dfail(f string, a ...interface{}) { panic(dirErr(fmt.Sprintf(f, a...))) }

// parseDir reads the resource directory at the start of sec. base is what data addresses are relative to.
// strict: also checks the sorting, and that parts do not overlap.
func parseDir(sec []byte, base uint32, strict bool) (d *dirInfo, err error) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(dirErr); ok {
				err = fmt.Errorf("%s", string(x))
				return
			}
			panic(e)
		}
	}()
	d = &dirInfo{}
	seen := map[span]bool{}
	add := func(lo, hi int, what string) {
		if lo < 0 || hi > len(sec) {
			dfail("%s at [%#x,%#x) is outside the section (%#x bytes)", what, lo, hi, len(sec))
		}
		s := span{lo, hi, what}
		if !seen[s] {
			seen[s] = true
			d.spans = append(d.spans, s)
		}
	}
	tableSeen := map[int]bool{}
	var walk func(off, depth int, k key)
	walk = func(off, depth int, k key) {
		add(off, off+16, fmt.Sprintf("directory table at %#x", off))
		if tableSeen[off] && strict {
			dfail("the table at %#x is used twice", off)
		}
		tableSeen[off] = true
		d.tables = append(d.tables, off)
		nn, ni := int(le.Uint16(sec[off+12:])), int(le.Uint16(sec[off+14:]))
		add(off+16, off+16+8*(nn+ni), fmt.Sprintf("entries of the table at %#x", off))
		var prev winres.Identifier
		for i := 0; i < nn+ni; i++ {
			p := off + 16 + 8*i
			id, ptr := le.Uint32(sec[p:]), le.Uint32(sec[p+4:])
			var cur winres.Identifier
			if id&0x80000000 != 0 {
				if i >= nn {
					dfail("table at %#x: entry %d has a name, only %d name entries are declared", off, i, nn)
				}
				so := int(id & 0x7FFFFFFF)
				add(so, so+2, fmt.Sprintf("string length at %#x", so))
				n := int(le.Uint16(sec[so:]))
				add(so+2, so+2+2*n, fmt.Sprintf("string at %#x", so))
				if n == 0 {
					dfail("the name at %#x is empty", so)
				}
				u := make([]uint16, n)
				for j := range u {
					u[j] = le.Uint16(sec[so+2+2*j:])
				}
				cur = winres.Name(string(utf16.Decode(u)))
			} else {
				if i < nn {
					dfail("table at %#x: entry %d has no name, %d name entries are declared", off, i, nn)
				}
				if id > 0xFFFF {
					dfail("table at %#x: ordinal %#x does not fit 16 bits", off, id)
				}
				cur = winres.ID(id)
			}
			if prev != nil && strict && cmpIdent(prev, cur) >= 0 {
				dfail("table at %#x: %s does not sort after %s", off, ident(cur), ident(prev))
			}
			prev = cur
			kk := k
			switch depth {
			case 0:
				kk.t = cur
			case 1:
				kk.r = cur
			case 2:
				l, ok := cur.(winres.ID)
				if !ok {
					dfail("table at %#x: a language has a name", off)
				}
				kk.l = uint16(l)
			}
			if (ptr&0x80000000 != 0) != (depth < 2) {
				dfail("table at %#x: entry %d at level %d has the wrong kind of target", off, i, depth)
			}
			o := int(ptr & 0x7FFFFFFF)
			if depth < 2 {
				walk(o, depth+1, kk)
				continue
			}
			add(o, o+16, fmt.Sprintf("data entry at %#x", o))
			rva, size := le.Uint32(sec[o:]), le.Uint32(sec[o+4:])
			do := int(int64(rva) - int64(base))
			if strict && do%8 != 0 {
				dfail("the data of %v at %#x is not 8-byte aligned", kk, do)
			}
			if do < 0 || do+int(size) > len(sec) {
				dfail("the data of %v at [%#x,+%#x) is outside the section", kk, do, size)
			}
			if size > 0 {
				add(do, do+int(size), fmt.Sprintf("data of %v at %#x", kk, do))
			}
			d.relocs = append(d.relocs, o)
			d.resources = append(d.resources, resEntry{kk, do, sec[do : do+int(size)], o})
		}
	}
	walk(0, 0, key{})
	if strict {
		sort.Slice(d.spans, func(i, j int) bool {
			return d.spans[i].lo < d.spans[j].lo || d.spans[i].lo == d.spans[j].lo && d.spans[i].hi < d.spans[j].hi
		})
		for i := 1; i < len(d.spans); i++ {
			if d.spans[i].lo < d.spans[i-1].hi {
				dfail("%s overlaps %s", d.spans[i].what, d.spans[i-1].what)
			}
		}
	}
	return d, nil
}

// checkDir checks that the directory holds exactly the model.
func checkDir(t *T, d *dirInfo, m model, when string) {
	t.check(len(d.resources) == len(m), "%s: the directory describes %d resources, the set holds %d", when, len(d.resources), len(m))
	seen := map[key]bool{}
	for _, e := range d.resources {
		want, ok := m[e.k]
		t.check(ok, "%s: the directory describes %v, which is not in the set", when, e.k)
		t.check(!seen[e.k], "%s: the directory describes %v twice", when, e.k)
		seen[e.k] = true
		t.check(len(e.data) == len(want), "%s: %v has size %d in the directory, %d in the set", when, e.k, len(e.data), len(want))
		t.check(bytes.Equal(e.data, want), "%s: %v has different bytes", when, e.k)
	}
}

type object struct {
	machine   uint16
	sec       []byte
	relocs    []objReloc
	relocType uint16
}

type objReloc struct {
	va, sym uint32
	typ     uint16
}

var archs = []winres.Arch{winres.ArchI386, winres.ArchAMD64, winres.ArchARM, winres.ArchARM64}

// parseObj checks the headers of a COFF object.
func parseObj(b []byte) (*object, error) {
	if len(b) < 60 {
		return nil, fmt.Errorf("object of %d bytes has no room for its headers", len(b))
	}
	o := &object{machine: le.Uint16(b)}
	if n := le.Uint16(b[2:]); n != 1 {
		return nil, fmt.Errorf("%d sections are declared", n)
	}
	symtab, nsyms := int(le.Uint32(b[8:])), int(le.Uint32(b[12:]))
	if so := le.Uint16(b[16:]); so != 0 {
		return nil, fmt.Errorf("an object file has an optional header of %d bytes", so)
	}
	s := b[20:60]
	if string(s[:8]) != ".rsrc\x00\x00\x00" {
		return nil, fmt.Errorf("the section is named %q", s[:8])
	}
	size, ptr := int(le.Uint32(s[16:])), int(le.Uint32(s[20:]))
	rptr, lptr := int(le.Uint32(s[24:])), int(le.Uint32(s[28:]))
	nrel, nlin := int(le.Uint16(s[32:])), int(le.Uint16(s[34:]))
	ch := le.Uint32(s[36:])
	if ch != 0x40000040 {
		return nil, fmt.Errorf("section characteristics are %#x", ch)
	}
	if lptr != 0 || nlin != 0 {
		return nil, fmt.Errorf("line numbers are declared")
	}
	if ptr < 60 || ptr+size > len(b) {
		return nil, fmt.Errorf("the section [%#x,+%#x) is outside the file (%#x bytes)", ptr, size, len(b))
	}
	o.sec = b[ptr : ptr+size]
	if rptr < ptr+size || rptr+10*nrel > len(b) {
		return nil, fmt.Errorf("the %d relocations at %#x are misplaced (section ends at %#x, file at %#x)", nrel, rptr, ptr+size, len(b))
	}
	for i := 0; i < nrel; i++ {
		p := b[rptr+10*i:]
		o.relocs = append(o.relocs, objReloc{le.Uint32(p), le.Uint32(p[4:]), le.Uint16(p[8:])})
	}
	if symtab < rptr+10*nrel || symtab+18*nsyms+4 > len(b) {
		return nil, fmt.Errorf("the symbol table (%d symbols at %#x) is misplaced (relocations end at %#x, file at %#x)", nsyms, symtab, rptr+10*nrel, len(b))
	}
	if nsyms != 1 {
		return nil, fmt.Errorf("%d symbols", nsyms)
	}
	sy := b[symtab : symtab+18]
	if string(sy[:8]) != ".rsrc\x00\x00\x00" || le.Uint32(sy[8:]) != 0 || le.Uint16(sy[12:]) != 1 || le.Uint16(sy[14:]) != 0 || sy[16] != 3 || sy[17] != 0 {
		return nil, fmt.Errorf("the symbol is not the .rsrc section: %x", sy)
	}
	st := symtab + 18
	n := int(le.Uint32(b[st:]))
	if n < 4 || st+n != len(b) {
		return nil, fmt.Errorf("the string table [%#x,+%d) does not end the file (%#x bytes)", st, n, len(b))
	}
	return o, nil
}

var machines = map[winres.Arch]uint16{winres.ArchI386: 0x14C, winres.ArchAMD64: 0x8664, winres.ArchARM: 0x1C4, winres.ArchARM64: 0xAA64}
var relTypes = map[winres.Arch]uint16{winres.ArchI386: 7, winres.ArchAMD64: 3, winres.ArchARM: 2, winres.ArchARM64: 2}

func checkObject(t *T, rs *winres.ResourceSet, m model, arch winres.Arch, headers bool, when string) {
	var buf bytes.Buffer
	err := rs.WriteObject(&buf, arch)
	t.check(err == nil, "%s: WriteObject failed: %v", when, err)
	o, err := parseObj(buf.Bytes())
	if err != nil {
		t.fail("%s: %s: %v", when, arch, err)
	}
	d, err := parseDir(o.sec, 0, true)
	if err != nil {
		t.fail("%s: %s: %v", when, arch, err)
	}
	if !headers {
		checkDir(t, d, m, when)
		return
	}
	t.check(o.machine == machines[arch], "%s: machine type %#x for %s", when, o.machine, arch)
	t.check(len(o.relocs) == len(m), "%s: %d relocations for %d resources", when, len(o.relocs), len(m))
	t.check(len(d.relocs) == len(m), "%s: %d data entries for %d resources", when, len(d.relocs), len(m))
	want := map[uint32]bool{}
	for _, r := range d.relocs {
		want[uint32(r)] = true
	}
	for i, r := range o.relocs {
		t.check(r.typ == relTypes[arch], "%s: %s: relocation %d has type %#x", when, arch, i, r.typ)
		t.check(r.sym == 0, "%s: relocation %d refers to symbol %d", when, i, r.sym)
		t.check(want[r.va], "%s: relocation %d addresses %#x, which is not the address field of a data entry (or is relocated twice)", when, i, r.va)
		delete(want, r.va)
	}
}

// randSet makes a random set, sometimes with a history behind it.
func randSet(t *T) (*winres.ResourceSet, model) {
	r := t.r
	if r.Intn(2) == 0 {
		s := newSession(t)
		for i, n := 0, r.Intn(30); i < n; i++ {
			s.step(true)
		}
		return s.rs, s.m
	}
	rs := &winres.ResourceSet{}
	m := model{}
	n := r.Intn(12)
	switch r.Intn(8) {
	case 0:
		n = 20 + r.Intn(100)
	}
	var types, ress []winres.Identifier
	for i := 0; i < 1+r.Intn(5); i++ {
		types = append(types, randIdent(r))
	}
	for i := 0; i < 1+r.Intn(8); i++ {
		ress = append(ress, randIdent(r))
	}
	for i := 0; i < n; i++ {
		k := key{types[r.Intn(len(types))], ress[r.Intn(len(ress))], randLang(r)}
		if r.Intn(4) == 0 {
			k.r = k.t
		}
		if r.Intn(12) == 0 {
			l := 100 + r.Intn(400)
			if r.Intn(20) == 0 {
				l = 65535
			}
			b := bytes.Repeat([]byte{'N'}, l)
			b[r.Intn(l)] = 'M'
			k.r = winres.Name(b)
		}
		d := randData(r)
		t.note("Set%v = %d bytes", k, len(d))
		t.check(rs.Set(k.t, k.r, k.l, d) == nil, "Set%v failed", k)
		m[k] = append([]byte{}, d...)
	}
	return rs, m
}

func bigSet(t *T, n int) (*winres.ResourceSet, model) {
	rs := &winres.ResourceSet{}
	m := model{}
	mode := t.r.Intn(3)
	for i := 0; i < n; i++ {
		var k key
		switch mode {
		case 0:
			k = key{winres.ID(10), winres.ID(1 + i), 0x409}
		case 1:
			k = key{winres.ID(10), winres.ID(1 + i/300), uint16(i % 300)}
		case 2:
			k = key{winres.Name(fmt.Sprintf("T%d", i%7)), winres.Name(fmt.Sprintf("R%06d", i/7)), 0}
		}
		d := []byte{byte(i), byte(i >> 8), byte(i >> 16)}[:i%4]
		t.check(rs.Set(k.t, k.r, k.l, d) == nil, "Set%v failed", k)
		m[k] = d
	}
	return rs, m
}

func init() {
	reg("C03", "sets", 6, 60, func(t *T) {
		rs, m := randSet(t)
		checkObject(t, rs, m, archs[t.r.Intn(4)], false, "object")
		if t.r.Intn(3) == 0 {
			// written again after a change
			for i := 0; i < 1+t.r.Intn(3); i++ {
				ks := m.sorted()
				if len(ks) > 0 && t.r.Intn(2) == 0 {
					k := ks[t.r.Intn(len(ks))]
					if t.r.Intn(2) == 0 {
						t.note("Set%v = nil", k)
						rs.Set(k.t, k.r, k.l, nil)
						delete(m, k)
						continue
					}
					k.l = randLang(t.r)
					d := randData(t.r)
					t.note("Set%v = %d bytes", k, len(d))
					rs.Set(k.t, k.r, k.l, d)
					m[k] = append([]byte{}, d...)
				} else {
					k := key{randIdent(t.r), randIdent(t.r), randLang(t.r)}
					d := randData(t.r)
					t.note("Set%v = %d bytes", k, len(d))
					rs.Set(k.t, k.r, k.l, d)
					m[k] = append([]byte{}, d...)
				}
			}
			t.note("write again")
			checkObject(t, rs, m, archs[t.r.Intn(4)], false, "object written after a change")
		}
	})
	reg("C03", "big", 1, 3, func(t *T) {
		rs, m := bigSet(t, 500+t.r.Intn(5000))
		checkObject(t, rs, m, archs[t.r.Intn(4)], false, "big object")
	})
	reg("C03", "exe", 1, 6, func(t *T) {
		// the section written into an executable
		rs, m := randSet(t)
		p := randPE(t, peOpts{})
		out, err := patch(rs, p.build(), 0)
		if err != nil {
			return
		}
		q, err := parsePE(out)
		if err != nil {
			t.fail("patched executable: %v", err)
		}
		rva := q.dirs[2].va
		s := q.sectionAt(rva)
		if s == nil {
			t.fail("the resource directory address %#x is not a section's", rva)
		}
		d, err := parseDir(out[s.ptr:int(s.ptr)+int(s.rawSize)], rva, true)
		if err != nil {
			t.fail("patched executable: %v", err)
		}
		checkDir(t, d, m, "patched executable")
	})
	reg("C04", "sets", 6, 40, func(t *T) {
		rs, m := randSet(t)
		for _, a := range archs {
			checkObject(t, rs, m, a, true, "object")
		}
	})
	reg("C04", "big", 1, 3, func(t *T) {
		n := 500 + t.r.Intn(4000)
		if t.seed == 0 {
			n = 65535
		}
		rs, m := bigSet(t, n)
		checkObject(t, rs, m, archs[t.r.Intn(4)], true, "big object")
	})
	g := reg("C04", "arch", 1, 1, func(t *T) {
		rs, _ := randSet(t)
		for _, a := range []winres.Arch{"", "x", "AMD64", "i386", "x86", "mips", "arm ", "arm64be", "Amd64", "amd64 ", "armv7"} {
			var buf bytes.Buffer
			err := rs.WriteObject(&buf, a)
			t.check(err != nil, "architecture %q was accepted", string(a))
		}
	})
	g.max = 20
}
