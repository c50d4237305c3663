package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/tc-hib/winres"
)

var errFault = errors.New("injected fault")

// failW fails its kth write (and the following ones, unless once).
type failW struct {
	bytes.Buffer
	k, n    int
	once    bool
	partial bool
	hit     bool
}

func (f *failW) Write(p []byte) (int, error) {
	f.n++
	if f.k > 0 && (f.n == f.k || f.n > f.k && !f.once) {
		f.hit = true
		if f.partial && len(p) > 0 {
			m := len(p) / 2
			f.Buffer.Write(p[:m])
			return m, errFault
		}
		return 0, errFault
	}
	return f.Buffer.Write(p)
}

// failWS is the same with a Seek method.
type failWS struct {
	wsBuf
	k, n    int
	once    bool
	seekK   int
	seekN   int
	hit     bool
	partial bool
}

func (f *failWS) Write(p []byte) (int, error) {
	f.n++
	if f.k > 0 && (f.n == f.k || f.n > f.k && !f.once) {
		f.hit = true
		if f.partial && len(p) > 0 {
			m := len(p) / 2
			f.wsBuf.Write(p[:m])
			return m, errFault
		}
		return 0, errFault
	}
	return f.wsBuf.Write(p)
}

func (f *failWS) Seek(off int64, wh int) (int64, error) {
	f.seekN++
	if f.seekN == f.seekK {
		f.hit = true
		return f.pos, errFault
	}
	return f.wsBuf.Seek(off, wh)
}

// failR is a source that fails its kth read, its kth seek, or stops early.
type failR struct {
	bytes.Reader
	readK, readN int
	seekK, seekN int
	once         bool
	hit          bool
	eof          bool
}

func (f *failR) Read(p []byte) (int, error) {
	f.readN++
	if f.readK > 0 && (f.readN == f.readK || f.readN > f.readK && !f.once) {
		f.hit = true
		if f.eof {
			return 0, io.EOF
		}
		return 0, errFault
	}
	return f.Reader.Read(p)
}

func (f *failR) Seek(off int64, wh int) (int64, error) {
	f.seekN++
	if f.seekN == f.seekK {
		f.hit = true
		return 0, errFault
	}
	return f.Reader.Seek(off, wh)
}

type plainRS struct{ f *failR }

func (p plainRS) Read(b []byte) (int, error)            { return p.f.Read(b) }
func (p plainRS) Seek(off int64, wh int) (int64, error) { return p.f.Seek(off, wh) }
func newFailR(b []byte) *failR                          { return &failR{Reader: *bytes.NewReader(b)} }
func source(f *failR, sized bool) (s io.ReadSeeker) {
	if sized {
		return sizedRS{plainRS{f}}
	}
	return plainRS{f}
}

type sizedRS struct{ plainRS }

func (s sizedRS) Size() int64 { return s.f.Size() }

// failWrites injects a fault in every write of an operation that writes to w.
func failWrites(t *T, what string, op func(w io.Writer) error) {
	var ref failW
	t.check(op(&ref) == nil, "%s failed without a fault", what)
	total := ref.n
	one := func(k int) {
		once, partial := t.r.Intn(2) == 0, t.r.Intn(3) == 0
		w := &failW{k: k, once: once, partial: partial}
		err := op(w)
		t.check(!w.hit || err != nil, "%s returned no error although its write %d of %d failed (only that one: %v, partially: %v)", what, k, total, once, partial)
		t.check(err != nil || bytes.Equal(w.Bytes(), ref.Bytes()), "%s returned no error but wrote something else", what)
	}
	if total <= 60 {
		for k := 1; k <= total; k++ {
			one(k)
		}
		return
	}
	for i := 0; i < 40; i++ {
		one(1 + t.r.Intn(total))
	}
	one(1)
	one(total)
	one(total - 1)
}

// failSeeks injects faults in an operation whose destination can seek.
func failDest(t *T, what string, op func(w io.Writer) error) {
	ref := &failWS{}
	t.check(op(ref) == nil, "%s failed without a fault", what)
	for k := 1; k <= ref.n && k < 60; k++ {
		w := &failWS{k: k, once: t.r.Intn(2) == 0, partial: t.r.Intn(3) == 0}
		err := op(w)
		t.check(!w.hit || err != nil, "%s returned no error although write %d of %d failed", what, k, ref.n)
	}
	for k := 1; k <= ref.seekN && k < 60; k++ {
		w := &failWS{seekK: k}
		err := op(w)
		t.check(err != nil || bytes.Equal(w.b, ref.b), "%s returned no error although seek %d in the destination failed, and the result is damaged", what, k)
	}
}

// failSource injects faults in the source of an operation giving a result that can be compared.
func failSource(t *T, what string, src []byte, op func(r io.ReadSeeker) ([]byte, error)) {
	sized := t.r.Intn(2) == 0
	clean := newFailR(src)
	ref, err := op(source(clean, sized))
	t.check(err == nil, "%s failed without a fault: %v", what, err)
	for i := 0; i < 60; i++ {
		k := i + 1
		if i >= 30 {
			k = 1 + t.r.Intn(clean.readN)
		}
		if k > clean.readN {
			continue
		}
		f := newFailR(src)
		f.readK, f.once, f.eof = k, t.r.Intn(2) == 0, t.r.Intn(3) == 0
		got, err := op(source(f, sized))
		t.check(err != nil || bytes.Equal(got, ref), "%s returned no error although read %d of %d failed (end of file: %v), and its result is not that of the source", what, k, clean.readN, f.eof)
		t.check(err != nil || f.eof || !f.hit || true, "")
	}
	for k := 1; k <= clean.seekN; k++ {
		f := newFailR(src)
		f.seekK = k
		got, err := op(source(f, sized))
		t.check(err != nil || bytes.Equal(got, ref), "%s returned no error although seek %d of %d in the source failed, and its result is not that of the source", what, k, clean.seekN)
	}
	// Truncated sources
	for i := 0; i < 20; i++ {
		n := t.r.Intn(len(src))
		if i < 4 {
			n = len(src) - 1 - i
		}
		if n < 0 {
			continue
		}
		f := newFailR(src[:n])
		got, err := op(source(f, sized))
		_ = got
		if err == nil {
			t.check(truncationIsFine(got, ref, len(src)-n), "%s returned no error on a source cut from %d to %d bytes", what, len(src), n)
		}
	}
	// A source that lies about its size
	if sized {
		n := t.r.Intn(len(src))
		f := newFailR(src[:n])
		got, err := op(liar{plainRS{f}, int64(len(src))})
		t.check(err != nil || bytes.Equal(got, ref), "%s returned no error on a source with %d bytes out of %d announced", what, n, len(src))
	}
}

type liar struct {
	plainRS
	n int64
}

func (l liar) Size() int64 { return l.n }

// Data appended after the sections are not described by any header: without them, it is another valid source.
// truncationIsFine accepts a result that is the same but for its end.
func truncationIsFine(got, ref []byte, cut int) bool {
	return bytes.Equal(got, ref) || len(got) == len(ref)-cut
}

func setBytes(rs *winres.ResourceSet) []byte {
	m := snapshot(rs)
	var b bytes.Buffer
	for _, k := range m.sorted() {
		fmt.Fprintf(&b, "%v %d\n", k, len(m[k]))
		b.Write(m[k])
	}
	return b.Bytes()
}

// overlayFree: with appended data or a signature, a truncated file may be well formed too.
func faultPE(t *T) (*peImage, []byte) {
	p := randPE(t, peOpts{simple: t.r.Intn(2) == 0})
	return p, p.build()
}

func init() {
	reg("C17", "object", 3, 40, func(t *T) {
		rs, _ := randSet(t)
		arch := []winres.Arch{winres.ArchAMD64, winres.ArchI386, winres.ArchARM, winres.ArchARM64}[t.r.Intn(4)]
		failWrites(t, "WriteObject", func(w io.Writer) error { return rs.WriteObject(w, arch) })
		if t.r.Intn(3) == 0 {
			failDest(t, "WriteObject", func(w io.Writer) error { return rs.WriteObject(w, arch) })
		}
	})
	reg("C17", "exe", 4, 60, func(t *T) {
		_, b := faultPE(t)
		rs, _ := randResources(t)
		flags := fIgnore | t.r.Intn(2)*fForce
		if patchTo(io.Discard, rs, bytes.NewReader(b), flags) != nil {
			return // no room for a section header
		}
		failWrites(t, "WriteToEXE", func(w io.Writer) error { return patchTo(w, rs, bytes.NewReader(b), flags) })
		failDest(t, "WriteToEXE", func(w io.Writer) error { return patchTo(w, rs, bytes.NewReader(b), flags) })
	})
	reg("C17", "exe-source", 4, 60, func(t *T) {
		_, b := faultPE(t)
		rs, _ := randResources(t)
		flags := fIgnore | t.r.Intn(2)*fForce
		if patchTo(io.Discard, rs, bytes.NewReader(b), flags) != nil {
			return
		}
		failSource(t, "WriteToEXE", b, func(r io.ReadSeeker) ([]byte, error) {
			var w bytes.Buffer
			err := patchTo(&w, rs, r, flags)
			return w.Bytes(), err
		})
	})
	reg("C17", "load", 3, 40, func(t *T) {
		_, b := faultPE(t)
		rs, m := randResources(t)
		if len(m) == 0 {
			return
		}
		out, err := patch(rs, b, fIgnore)
		if err != nil {
			return
		}
		sized := t.r.Intn(2) == 0
		for _, single := range []bool{false, true} {
			op := func(r io.ReadSeeker) ([]byte, error) {
				var x *winres.ResourceSet
				var err error
				if single {
					x, err = winres.LoadFromEXESingleType(r, m.sorted()[0].t)
				} else {
					x, err = winres.LoadFromEXE(r)
				}
				if err != nil {
					return nil, err
				}
				return setBytes(x), nil
			}
			clean := newFailR(out)
			ref, err := op(source(clean, sized))
			t.check(err == nil, "loading failed: %v", err)
			for k := 1; k <= clean.readN; k++ {
				f := newFailR(out)
				f.readK, f.once, f.eof = k, t.r.Intn(2) == 0, t.r.Intn(2) == 0
				_, err := op(source(f, sized))
				t.check(err != nil || f.once && f.eof, "LoadFromEXE returned no error although read %d of %d failed", k, clean.readN)
			}
			for k := 1; k <= clean.seekN; k++ {
				f := newFailR(out)
				f.seekK = k
				got, err := op(source(f, sized))
				t.check(err != nil || bytes.Equal(got, ref), "LoadFromEXE returned no error although seek %d of %d failed, and other resources", k, clean.seekN)
			}
			for i := 0; i < 20; i++ {
				n := t.r.Intn(len(out))
				got, err := op(source(newFailR(out[:n]), sized))
				t.check(err != nil || bytes.Equal(got, ref), "LoadFromEXE returned no error on a source cut from %d to %d bytes, and other resources", len(out), n)
			}
		}
		// The signature test
		clean := newFailR(out)
		ref, err := winres.IsSignedEXE(source(clean, sized))
		t.check(err == nil, "IsSignedEXE failed: %v", err)
		for k := 1; k <= clean.seekN; k++ {
			f := newFailR(out)
			f.seekK = k
			f.Reader.Seek(int64(t.r.Intn(len(out))), io.SeekStart)
			got, err := winres.IsSignedEXE(source(f, sized))
			t.check(err != nil || got == ref, "IsSignedEXE returned %v and no error although seek %d failed", got, k)
		}
		for k := 1; k <= clean.readN; k++ {
			f := newFailR(out)
			f.readK = k
			_, err := winres.IsSignedEXE(source(f, sized))
			t.check(err != nil, "IsSignedEXE returned no error although read %d failed", k)
		}
	})
	reg("C17", "icons", 3, 60, func(t *T) {
		kind := uint16(1 + t.r.Intn(2))
		imgs := randImages(t.r, kind, 6)
		b := buildIconFile(t.r, imgs, kind)
		g, err := loadFile(t.r, b, kind)
		t.check(err == nil, "loading a well-formed file failed: %v", err)
		save := func(w io.Writer) error {
			if kind == 1 {
				return g.(icoG).SaveICO(w)
			}
			return g.(curG).SaveCUR(w)
		}
		failWrites(t, "saving an icon or cursor", save)
		load := func(r io.ReadSeeker) ([]byte, error) {
			var g group
			if kind == 1 {
				i, err := winres.LoadICO(r)
				if err != nil {
					return nil, err
				}
				g = icoG{i}
			} else {
				c, err := winres.LoadCUR(r)
				if err != nil {
					return nil, err
				}
				g = curG{c}
			}
			return g.save()
		}
		clean := newFailR(b)
		ref, err := load(plainRS{clean})
		t.check(err == nil, "loading failed: %v", err)
		for k := 1; k <= clean.readN; k++ {
			f := newFailR(b)
			f.readK, f.once = k, t.r.Intn(2) == 0
			got, err := load(plainRS{f})
			t.check(err != nil || bytes.Equal(got, ref), "loading an icon or cursor returned no error although read %d failed, and other images", k)
		}
		for k := 1; k <= clean.seekN; k++ {
			f := newFailR(b)
			f.seekK = k
			got, err := load(plainRS{f})
			t.check(err != nil || bytes.Equal(got, ref), "loading an icon or cursor returned no error although seek %d failed, and other images", k)
		}
		for n := len(b) - 1; n >= 0 && n > len(b)-30; n-- {
			got, err := load(bytes.NewReader(b[:n]))
			t.check(err != nil || bytes.Equal(got, ref), "loading an icon or cursor returned no error on a file cut from %d to %d bytes", len(b), n)
		}
	})
}
