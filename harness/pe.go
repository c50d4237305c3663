package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"

	"github.com/tc-hib/winres"
)

type dirEnt struct{ va, size uint32 }

type sect struct {
	name    string
	va      uint32
	vsize   uint32
	ptr     uint32
	rawSize uint32
	chars   uint32
	data    []byte // rawSize bytes
	hdr     [40]byte
}

func (s *sect) uninit() bool { return s.chars&0x80 != 0 }

type peImage struct {
	dos       []byte // everything before the PE signature
	plus      bool
	fileHdr   [20]byte
	opt       []byte // optional header, without directories
	dirs      []dirEnt
	sections  []*sect
	hdrEnd    int // end of the section table
	slack     []byte
	fileAlign uint32
	secAlign  uint32
	overlay   []byte
	raw       []byte
	bound     bool // the slack holds a bound import directory
}

const (
	optSize32 = 96
	optSize64 = 112
)

func (p *peImage) optSize() int {
	if p.plus {
		return optSize64
	}
	return optSize32
}

func up(x, a uint32) uint32 { return (x + a - 1) / a * a }

func (p *peImage) sectionAt(va uint32) *sect {
	for _, s := range p.sections {
		if s.va == va {
			return s
		}
	}
	return nil
}

// rawEnd is where the content of the last section ends in the file.
func (p *peImage) rawEnd() int {
	e := 0
	for _, s := range p.sections {
		if s.uninit() || s.rawSize == 0 {
			continue
		}
		if x := int(s.ptr) + int(s.rawSize); x > e {
			e = x
		}
	}
	return e
}

func (p *peImage) rawStart() int {
	e := 1 << 62
	for _, s := range p.sections {
		if s.uninit() || s.rawSize == 0 {
			continue
		}
		if x := int(s.ptr); x < e {
			e = x
		}
	}
	return e
}

func (p *peImage) u32(off int) uint32      { return le.Uint32(p.opt[off:]) }
func (p *peImage) put32(off int, v uint32) { le.PutUint32(p.opt[off:], v) }

// offsets that are the same in both formats
const (
	oEntry     = 16
	oSecAlign  = 32
	oFileAlign = 36
	oImage     = 56
	oHeaders   = 60
	oCheckSum  = 64
)

func (p *peImage) build() []byte {
	var b bytes.Buffer
	b.Write(p.dos)
	b.WriteString("PE\x00\x00")
	b.Write(p.fileHdr[:])
	b.Write(p.opt)
	for _, d := range p.dirs {
		var x [8]byte
		le.PutUint32(x[:], d.va)
		le.PutUint32(x[4:], d.size)
		b.Write(x[:])
	}
	for _, s := range p.sections {
		x := s.hdr
		for i := 0; i < 8; i++ {
			x[i] = 0
		}
		copy(x[:8], s.name)
		le.PutUint32(x[8:], s.vsize)
		le.PutUint32(x[12:], s.va)
		le.PutUint32(x[16:], s.rawSize)
		le.PutUint32(x[20:], s.ptr)
		le.PutUint32(x[36:], s.chars)
		b.Write(x[:])
	}
	p.hdrEnd = b.Len()
	b.Write(p.slack)
	out := b.Bytes()
	end := p.rawEnd()
	if end < len(out) {
		end = len(out)
	}
	img := make([]byte, end, end+len(p.overlay))
	copy(img, out)
	for _, s := range p.sections {
		if s.uninit() || s.rawSize == 0 {
			continue
		}
		copy(img[s.ptr:], s.data)
	}
	img = append(img, p.overlay...)
	p.raw = img
	return img
}

func parsePE(b []byte) (*peImage, error) {
	p := &peImage{raw: b}
	if len(b) < 0x40 || b[0] != 'M' || b[1] != 'Z' {
		return nil, fmt.Errorf("no DOS header")
	}
	o := int(le.Uint32(b[0x3C:]))
	if o+24 > len(b) || string(b[o:o+4]) != "PE\x00\x00" {
		return nil, fmt.Errorf("no PE signature at %#x", o)
	}
	p.dos = b[:o]
	o += 4
	copy(p.fileHdr[:], b[o:])
	n := int(le.Uint16(b[o+2:]))
	os := int(le.Uint16(b[o+16:]))
	o += 20
	if o+os > len(b) || os < 2 {
		return nil, fmt.Errorf("truncated optional header")
	}
	switch le.Uint16(b[o:]) {
	case 0x10B:
	case 0x20B:
		p.plus = true
	default:
		return nil, fmt.Errorf("optional header magic %#x", le.Uint16(b[o:]))
	}
	if os < p.optSize() {
		return nil, fmt.Errorf("optional header of %d bytes", os)
	}
	p.opt = append([]byte{}, b[o:o+p.optSize()]...)
	nd := int(le.Uint32(b[o+p.optSize()-4:]))
	if p.optSize()+8*nd != os {
		return nil, fmt.Errorf("optional header of %d bytes with %d directories", os, nd)
	}
	for i := 0; i < nd; i++ {
		q := b[o+p.optSize()+8*i:]
		p.dirs = append(p.dirs, dirEnt{le.Uint32(q), le.Uint32(q[4:])})
	}
	o += os
	if o+40*n > len(b) {
		return nil, fmt.Errorf("truncated section table")
	}
	p.secAlign, p.fileAlign = p.u32(oSecAlign), p.u32(oFileAlign)
	for i := 0; i < n; i++ {
		q := b[o+40*i : o+40*i+40]
		s := &sect{name: string(q[:8]), vsize: le.Uint32(q[8:]), va: le.Uint32(q[12:]), rawSize: le.Uint32(q[16:]), ptr: le.Uint32(q[20:]), chars: le.Uint32(q[36:])}
		copy(s.hdr[:], q)
		if !s.uninit() && s.rawSize > 0 {
			if int(s.ptr)+int(s.rawSize) > len(b) {
				return nil, fmt.Errorf("section %d (%q) at [%#x,+%#x) is outside the file (%#x bytes)", i, s.name, s.ptr, s.rawSize, len(b))
			}
			s.data = b[s.ptr : s.ptr+s.rawSize]
		}
		p.sections = append(p.sections, s)
	}
	p.hdrEnd = o + 40*n
	if e := p.rawEnd(); e < len(b) {
		p.overlay = b[e:]
	}
	return p, nil
}

// ---- random well-formed executables

type peOpts struct {
	rsrc     []byte // content of the resource section, nil: random
	rsrcAt   func(va uint32) []byte
	withRsrc bool // a resource section is required
	unsigned bool
	simple   bool
}

func randPE(t *T, o peOpts) *peImage {
	r := t.r
	p := &peImage{plus: r.Intn(2) == 0}
	p.fileAlign = []uint32{0x200, 0x200, 0x200, 0x1000, 0x400, 0x10, 0x8}[r.Intn(7)]
	p.secAlign = []uint32{0x1000, 0x1000, 0x1000, 0x2000, 0x10000}[r.Intn(5)]
	if r.Intn(15) == 0 {
		p.secAlign, p.fileAlign = 0x200, 0x200
	}
	// DOS header and stub
	stub := 0x40 + 8*r.Intn(20)
	if r.Intn(6) == 0 {
		stub = 0x40
	}
	p.dos = randBytes(r, stub)
	p.dos[0], p.dos[1] = 'M', 'Z'
	le.PutUint32(p.dos[0x3C:], uint32(stub))
	nd := 16
	switch r.Intn(6) {
	case 0:
		nd = 6 + r.Intn(11)
	case 1:
		nd = 6
	}
	// sections, in memory order
	type kind struct{ name string }
	var names []string
	nBefore := r.Intn(4)
	if o.simple {
		nBefore = 1
	}
	hasRsrc := o.withRsrc || r.Intn(5) > 0
	for i := 0; i < nBefore; i++ {
		names = append(names, []string{".text", ".data", ".rdata", ".bss", ".tls", "CODE"}[r.Intn(6)])
	}
	if hasRsrc {
		names = append(names, ".rsrc")
	}
	nAfter := 0
	hasReloc := false
	switch r.Intn(6) {
	case 0, 1:
		hasReloc = true
		names = append(names, ".reloc")
	case 2:
		nAfter = 1 + r.Intn(3)
		for i := 0; i < nAfter; i++ {
			names = append(names, []string{".data", ".pdata", ".bss", "extra"}[r.Intn(4)])
		}
		if r.Intn(2) == 0 {
			hasReloc = true
			names = append(names, ".reloc")
		}
	}
	if len(names) == 0 || len(names) == 1 && names[0] == ".bss" {
		names = append(names, ".text")
	}
	if hasReloc && r.Intn(5) == 0 {
		// relocations elsewhere
		i, j := r.Intn(len(names)), len(names)-1
		names[i], names[j] = names[j], names[i]
	}
	hdrEnd := stub + 4 + 20 + p.optSize() + 8*nd + 40*len(names)
	// room for section headers
	room := r.Intn(300)
	if r.Intn(3) == 0 {
		room = 0
	}
	sizeOfHeaders := up(uint32(hdrEnd+room), p.fileAlign)
	va := up(sizeOfHeaders, p.secAlign)
	ptr := sizeOfHeaders
	if r.Intn(8) == 0 && !o.simple && p.secAlign >= 0x1000 {
		ptr += p.fileAlign * uint32(r.Intn(3))
	}
	nInit := 0
	for idx, n := range names {
		s := &sect{name: n, va: va}
		r.Read(s.hdr[24:36])
		if r.Intn(2) == 0 {
			for i := 24; i < 36; i++ {
				s.hdr[i] = 0
			}
		}
		l := uint32(1 + r.Intn(900))
		if r.Intn(4) == 0 {
			l = uint32(1 + r.Intn(9000))
		}
		s.chars = 0x40000040
		switch n {
		case ".text", "CODE":
			s.chars = 0x60000020
		case ".data":
			s.chars = 0xC0000040
		}
		switch {
		case n == ".bss":
			s.chars = 0xC0000080
			s.vsize = l * uint32(1+r.Intn(4))
			if r.Intn(4) == 0 && nInit > 0 {
				s.ptr = ptr
			}
		case n == ".tls" && r.Intn(2) == 0 && idx > 0:
			// no content, not flagged as uninitialized
			s.chars = 0xC0000040
			s.vsize = l
			if r.Intn(2) == 0 && nInit > 0 {
				s.ptr = ptr
			}
		default:
			var data []byte
			if n == ".rsrc" {
				data = o.rsrc
				if o.rsrcAt != nil {
					data = o.rsrcAt(va)
				}
				if data == nil {
					data = randBytes(r, int(l))
				}
			} else {
				data = randBytes(r, int(l))
			}
			s.vsize = uint32(len(data))
			s.rawSize = up(uint32(len(data)), p.fileAlign)
			s.data = make([]byte, s.rawSize)
			copy(s.data, data)
			if n != ".rsrc" && r.Intn(3) == 0 {
				r.Read(s.data[len(data):])
			}
			s.ptr = ptr
			switch r.Intn(8) {
			case 0:
				s.vsize = s.rawSize
			case 1:
				if n != ".rsrc" {
					s.vsize += uint32(r.Intn(0x3000))
				}
			case 2:
				if n == ".rsrc" && r.Intn(2) == 0 && !o.simple {
					s.vsize += uint32(r.Intn(0x3000))
				}
			case 3:
				if n == ".rsrc" && r.Intn(3) == 0 && o.rsrc == nil && o.rsrcAt == nil {
					// more content in the file than in memory
					s.vsize = uint32(1 + r.Intn(len(data)))
				}
			}
			ptr += s.rawSize
			if !o.simple && r.Intn(12) == 0 {
				ptr += p.fileAlign * uint32(1+r.Intn(2))
			}
			nInit++
		}
		va += up(s.vsize, p.secAlign)
		p.sections = append(p.sections, s)
	}
	if !o.simple && r.Intn(8) == 0 {
		// sections in another order in the file
		var in []*sect
		for _, s := range p.sections {
			if s.rawSize > 0 && !s.uninit() {
				in = append(in, s)
			}
		}
		r.Shuffle(len(in), func(i, j int) { in[i], in[j] = in[j], in[i] })
		ptr = up(sizeOfHeaders, p.fileAlign)
		for _, s := range in {
			s.ptr = ptr
			ptr += s.rawSize
		}
	}
	if nInit == 0 {
		return randPE(t, o)
	}
	// optional header
	p.opt = randBytes(r, p.optSize())
	if p.plus {
		le.PutUint16(p.opt, 0x20B)
	} else {
		le.PutUint16(p.opt, 0x10B)
	}
	p.put32(oSecAlign, p.secAlign)
	p.put32(oFileAlign, p.fileAlign)
	p.put32(oImage, va)
	p.put32(oHeaders, sizeOfHeaders)
	p.put32(p.optSize()-4, uint32(nd))
	p.put32(oEntry, p.sections[0].va+uint32(r.Intn(int(p.sections[0].vsize))))
	if r.Intn(2) == 0 {
		p.put32(oCheckSum, 0)
	} else {
		p.put32(oCheckSum, r.Uint32()|1)
	}
	p.fileHdr = [20]byte{}
	r.Read(p.fileHdr[4:8])
	le.PutUint16(p.fileHdr[0:], []uint16{0x14C, 0x8664, 0xAA64, 0x1C4}[r.Intn(4)])
	le.PutUint16(p.fileHdr[2:], uint16(len(p.sections)))
	le.PutUint16(p.fileHdr[16:], uint16(p.optSize()+8*nd))
	le.PutUint16(p.fileHdr[18:], uint16(0x22|r.Intn(2)<<8|r.Intn(2)<<13))
	// directories
	p.dirs = make([]dirEnt, nd)
	for i := range p.dirs {
		if i == 2 || i == 4 || i == 5 || i == 11 || r.Intn(2) == 0 {
			continue
		}
		s := p.sections[r.Intn(len(p.sections))]
		if s.name == ".rsrc" || s.rawSize == 0 || s.uninit() {
			continue
		}
		lim := s.vsize
		if lim > s.rawSize {
			lim = s.rawSize
		}
		off := uint32(r.Intn(int(lim)))
		p.dirs[i] = dirEnt{s.va + off, uint32(1 + r.Intn(int(lim-off)))}
	}
	for _, s := range p.sections {
		switch s.name {
		case ".rsrc":
			p.dirs[2] = dirEnt{s.va, s.vsize}
			if r.Intn(4) == 0 {
				p.dirs[2].size = uint32(1 + r.Intn(int(s.vsize)))
			}
		case ".reloc":
			p.dirs[5] = dirEnt{s.va, s.vsize}
		}
	}
	if !hasRsrc && r.Intn(8) == 0 && !o.simple {
		// resources that were merged into another section, not at its start
		s := p.sections[0]
		if s.rawSize > 0 && !s.uninit() && s.vsize > 40 {
			p.dirs[2] = dirEnt{s.va + 16, 16}
		}
	}
	// data appended to the file
	if r.Intn(2) == 0 {
		p.overlay = randBytes(r, r.Intn(2000))
	}
	p.build()
	if !o.unsigned && r.Intn(3) == 0 {
		p.sign(r, r.Intn(4) > 0)
	}
	t.note("%s", p.describe())
	return p
}

// sign appends something that looks like a certificate table.
func (p *peImage) sign(r *rand.Rand, atEnd bool) {
	n := len(p.build())
	pad := (8 - n%8) % 8
	p.overlay = append(append([]byte{}, p.overlay...), make([]byte, pad)...)
	l := 8 * (1 + r.Intn(60))
	p.overlay = append(p.overlay, randBytes(r, l)...)
	p.dirs[4] = dirEnt{uint32(n + pad), uint32(l)}
	if !atEnd {
		p.overlay = append(p.overlay, randBytes(r, 1+r.Intn(100))...)
	}
	p.build()
}

func (p *peImage) describe() string {
	s := fmt.Sprintf("PE plus=%v align=%#x/%#x dirs=%d hdrEnd=%#x SizeOfHeaders=%#x overlay=%d checksum=%#x size=%#x sections:", p.plus, p.fileAlign, p.secAlign, len(p.dirs), p.hdrEnd, p.u32(oHeaders), len(p.overlay), p.u32(oCheckSum), len(p.raw))
	for _, x := range p.sections {
		s += fmt.Sprintf(" %s va=%#x+%#x raw=%#x+%#x ch=%#x;", x.name, x.va, x.vsize, x.ptr, x.rawSize, x.chars)
	}
	s += fmt.Sprintf(" dirs=%x", p.dirs)
	return s
}

// checkSum is the standard PE checksum of a file: the 16-bit end-around-carry sum of its words
// with the checksum field (at off) taken as zero, plus its length.
func checkSum(b []byte, off int) uint32 {
	var sum uint64
	for i := 0; i < len(b); i += 2 {
		var w uint64
		for j := 0; j < 2 && i+j < len(b); j++ {
			if i+j >= off && i+j < off+4 {
				continue
			}
			w |= uint64(b[i+j]) << (8 * uint(j))
		}
		sum += w
	}
	for sum > 0xFFFF {
		sum = sum&0xFFFF + sum>>16
	}
	return uint32(sum) + uint32(len(b))
}

func (p *peImage) checkSumOff() int { return len(p.dos) + 24 + oCheckSum }

// ---- calling the patcher

const (
	fForce  = 1
	fRemove = 2
	fIgnore = 4
)

type option interface{}

func patch(rs *winres.ResourceSet, src []byte, flags int) ([]byte, error) {
	var out bytes.Buffer
	err := patchTo(&out, rs, bytes.NewReader(src), flags)
	return out.Bytes(), err
}

func patchTo(w io.Writer, rs *winres.ResourceSet, src io.ReadSeeker, flags int) error {
	force := winres.ForceCheckSum()
	rem := winres.WithAuthenticode(winres.RemoveSignature)
	ign := winres.WithAuthenticode(winres.IgnoreSignature)
	switch flags {
	case 0:
		return rs.WriteToEXE(w, src)
	case fForce:
		return rs.WriteToEXE(w, src, force)
	case fRemove:
		return rs.WriteToEXE(w, src, rem)
	case fIgnore:
		return rs.WriteToEXE(w, src, ign)
	case fForce | fRemove:
		return rs.WriteToEXE(w, src, force, rem)
	case fForce | fIgnore:
		return rs.WriteToEXE(w, src, ign, force)
	case 8:
		return rs.WriteToEXE(w, src, winres.WithAuthenticode(winres.ErrorIfSigned))
	}
	panic("flags")
}

var allFlags = []int{0, fForce, fRemove, fIgnore, fForce | fRemove, fForce | fIgnore, 8}

// ---- sources and destinations of all kinds

type rsOnly struct{ io.ReadSeeker }

type oneByte struct{ io.ReadSeeker }

func (o oneByte) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.ReadSeeker.Read(p[:1])
}

// eofReader returns io.EOF along with the last bytes.
type eofReader struct {
	b   []byte
	pos int64
}

func (e *eofReader) Read(p []byte) (int, error) {
	if e.pos >= int64(len(e.b)) {
		return 0, io.EOF
	}
	n := copy(p, e.b[e.pos:])
	e.pos += int64(n)
	if e.pos == int64(len(e.b)) {
		return n, io.EOF
	}
	return n, nil
}

func (e *eofReader) Seek(off int64, wh int) (int64, error) {
	switch wh {
	case io.SeekCurrent:
		off += e.pos
	case io.SeekEnd:
		off += int64(len(e.b))
	}
	if off < 0 {
		return 0, fmt.Errorf("negative position")
	}
	e.pos = off
	return off, nil
}

func randSource(r *rand.Rand, b []byte) io.ReadSeeker {
	switch r.Intn(6) {
	case 0:
		return rsOnly{bytes.NewReader(b)}
	case 1:
		return oneByte{bytes.NewReader(b)}
	case 2:
		return &eofReader{b: b}
	case 3:
		s := bytes.NewReader(b)
		s.Seek(int64(r.Intn(len(b)+1)), io.SeekStart)
		return s
	}
	return bytes.NewReader(b)
}

// wsBuf is a file in memory.
type wsBuf struct {
	b   []byte
	pos int64
}

func (w *wsBuf) Write(p []byte) (int, error) {
	if e := w.pos + int64(len(p)); e > int64(len(w.b)) {
		w.b = append(w.b, make([]byte, e-int64(len(w.b)))...)
	}
	copy(w.b[w.pos:], p)
	w.pos += int64(len(p))
	return len(p), nil
}

func (w *wsBuf) Seek(off int64, wh int) (int64, error) {
	switch wh {
	case io.SeekCurrent:
		off += w.pos
	case io.SeekEnd:
		off += int64(len(w.b))
	}
	if off < 0 {
		return 0, fmt.Errorf("negative position")
	}
	w.pos = off
	return off, nil
}

// pipe is a destination that has a Seek method but cannot seek, as os.Stdout may be.
type pipe struct{ bytes.Buffer }

func (p *pipe) Seek(int64, int) (int64, error) { return 0, fmt.Errorf("illegal seek") }
