package main

import (
	"bytes"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"image/png"
	"math/rand"
	"sort"

	"github.com/tc-hib/winres"
)

// ---- icon and cursor files, read and built here from the format's description

type fileImage struct {
	w, h    int // 1..256
	colors  byte
	planes  uint16 // icon only
	bits    uint16 // icon: from the entry; cursor: from the image itself
	hx, hy  uint16
	data    []byte
	badSize bool
}

// parseIconFile reads an ICO or CUR file strictly. kind is 1 or 2.
func parseIconFile(b []byte, kind uint16) (imgs []fileImage, err error) {
	if len(b) < 6 {
		return nil, fmt.Errorf("the file has %d bytes", len(b))
	}
	if le.Uint16(b) != 0 || le.Uint16(b[2:]) != kind {
		return nil, fmt.Errorf("bad header % x", b[:6])
	}
	n := int(le.Uint16(b[4:]))
	pos := uint32(6 + 16*n)
	if uint32(len(b)) < pos {
		return nil, fmt.Errorf("%d images are declared in %d bytes", n, len(b))
	}
	for i := 0; i < n; i++ {
		e := b[6+16*i:]
		im := fileImage{w: (int(e[0])+255)%256 + 1, h: (int(e[1])+255)%256 + 1, colors: e[2]}
		if e[3] != 0 && kind == 2 {
			return nil, fmt.Errorf("entry %d: reserved byte is %d", i, e[3])
		}
		if kind == 1 {
			im.planes, im.bits = le.Uint16(e[4:]), le.Uint16(e[6:])
		} else {
			im.hx, im.hy = le.Uint16(e[4:]), le.Uint16(e[6:])
		}
		size, off := le.Uint32(e[8:]), le.Uint32(e[12:])
		if off != pos {
			return nil, fmt.Errorf("entry %d: the image is declared at %d, the previous one ends at %d", i, off, pos)
		}
		if uint64(off)+uint64(size) > uint64(len(b)) {
			return nil, fmt.Errorf("entry %d: the image at [%d,+%d) is outside the file (%d bytes)", i, off, size, len(b))
		}
		im.data = b[off : off+size]
		if kind == 2 {
			im.bits = dibBits(im.data)
		}
		pos += size
		imgs = append(imgs, im)
	}
	if pos != uint32(len(b)) {
		return nil, fmt.Errorf("the last image ends at %d, the file at %d", pos, len(b))
	}
	return imgs, nil
}

var pngSig = []byte{0x89, 'P', 'N', 'G', '\r', '\n', 0x1A, '\n'}

func dibBits(d []byte) uint16 {
	if bytes.HasPrefix(d, pngSig) {
		return 32
	}
	if len(d) < 16 {
		return 0
	}
	return le.Uint16(d[14:])
}

// buildIconFile makes an ICO or CUR file, images in any order and place.
func buildIconFile(r *rand.Rand, imgs []fileImage, kind uint16) []byte {
	b := make([]byte, 6+16*len(imgs))
	le.PutUint16(b[2:], kind)
	le.PutUint16(b[4:], uint16(len(imgs)))
	order := r.Perm(len(imgs))
	for _, i := range order {
		im := imgs[i]
		if r.Intn(3) == 0 {
			b = append(b, randBytes(r, r.Intn(5))...)
		}
		e := b[6+16*i:]
		e[0], e[1], e[2] = byte(im.w), byte(im.h), im.colors
		if kind == 1 {
			le.PutUint16(e[4:], im.planes)
			le.PutUint16(e[6:], im.bits)
		} else {
			le.PutUint16(e[4:], im.hx)
			le.PutUint16(e[6:], im.hy)
		}
		le.PutUint32(e[8:], uint32(len(im.data)))
		le.PutUint32(e[12:], uint32(len(b)))
		b = append(b, im.data...)
	}
	return b
}

func dib(r *rand.Rand, w, h int, bits uint16) []byte {
	hdr := []int{40, 40, 108, 124}[r.Intn(4)]
	d := make([]byte, hdr, hdr+64)
	le.PutUint32(d, uint32(hdr))
	le.PutUint32(d[4:], uint32(w))
	le.PutUint32(d[8:], uint32(2*h))
	le.PutUint16(d[12:], 1)
	le.PutUint16(d[14:], bits)
	return append(d, randBytes(r, r.Intn(60))...)
}

func pngOf(w, h int, r *rand.Rand) []byte {
	im := image.NewNRGBA(image.Rect(0, 0, w, h))
	r.Read(im.Pix[:4])
	var b bytes.Buffer
	png.Encode(&b, im)
	return b.Bytes()
}

func side(r *rand.Rand) int {
	return []int{1, 2, 15, 16, 17, 24, 31, 32, 48, 63, 64, 127, 128, 129, 255, 256, 256, 1 + r.Intn(256)}[r.Intn(18)]
}

func randImages(r *rand.Rand, kind uint16, max int) []fileImage {
	n := r.Intn(max + 1)
	var imgs []fileImage
	for i := 0; i < n; i++ {
		im := fileImage{w: side(r), bits: []uint16{1, 4, 8, 24, 32, 32}[r.Intn(6)]}
		im.h = im.w
		if r.Intn(4) == 0 {
			im.h = side(r)
		}
		if kind == 1 {
			im.planes = uint16(r.Intn(2))
			if r.Intn(4) == 0 {
				im.colors = byte(r.Intn(256))
			}
			if r.Intn(8) == 0 {
				im.bits = uint16(r.Intn(65536))
			}
		} else {
			im.hx, im.hy = uint16(r.Intn(im.w)), uint16(r.Intn(im.h))
			if r.Intn(4) == 0 {
				im.hx, im.hy = uint16(r.Intn(65536)), uint16(r.Intn(65536))
			}
		}
		if r.Intn(3) == 0 {
			if kind == 2 {
				im.bits = 32
			}
			im.data = pngOf(1+r.Intn(3), 1+r.Intn(3), r)
		} else {
			im.data = dib(r, im.w, im.h, im.bits)
		}
		if kind == 1 && r.Intn(4) == 0 {
			im.data = randBytes(r, r.Intn(40))
		}
		imgs = append(imgs, im)
	}
	return imgs
}

// sorted gives the order a group must have: deepest first, then largest, otherwise unchanged.
func sortedImages(imgs []fileImage) []fileImage {
	s := append([]fileImage{}, imgs...)
	sort.SliceStable(s, func(i, j int) bool {
		if s[i].bits != s[j].bits {
			return s[i].bits > s[j].bits
		}
		return s[i].w > s[j].w
	})
	return s
}

func sameImages(t *T, got, want []fileImage, kind uint16, when string) {
	t.check(len(got) == len(want), "%s: %d images instead of %d", when, len(got), len(want))
	for i := range want {
		g, w := got[i], want[i]
		t.check(g.w == w.w && g.h == w.h, "%s: image %d is %dx%d instead of %dx%d", when, i, g.w, g.h, w.w, w.h)
		if kind == 1 {
			t.check(g.colors == w.colors && g.planes == w.planes && g.bits == w.bits,
				"%s: image %d has %d colors, %d planes, %d bits instead of %d, %d, %d", when, i, g.colors, g.planes, g.bits, w.colors, w.planes, w.bits)
		} else {
			t.check(g.hx == w.hx && g.hy == w.hy, "%s: image %d has its hot spot at %d,%d instead of %d,%d", when, i, g.hx, g.hy, w.hx, w.hy)
		}
		t.check(bytes.Equal(g.data, w.data), "%s: image %d (%d bytes) is not the %d bytes given", when, i, len(g.data), len(w.data))
	}
}

type group interface{ save() ([]byte, error) }

type icoG struct{ *winres.Icon }
type curG struct{ *winres.Cursor }

func (g icoG) save() ([]byte, error) {
	var b bytes.Buffer
	err := g.SaveICO(&b)
	return b.Bytes(), err
}

func (g curG) save() ([]byte, error) {
	var b bytes.Buffer
	err := g.SaveCUR(&b)
	return b.Bytes(), err
}

func loadFile(r *rand.Rand, b []byte, kind uint16) (group, error) {
	// These readers start at the current position.
	src := bytes.NewReader(b)
	var s interface {
		Read([]byte) (int, error)
		Seek(int64, int) (int64, error)
	} = src
	switch r.Intn(4) {
	case 0:
		s = oneByte{src}
	case 1:
		s = &eofReader{b: b}
	}
	if kind == 1 {
		i, err := winres.LoadICO(s)
		if i == nil || err != nil {
			return nil, err
		}
		return icoG{i}, nil
	}
	c, err := winres.LoadCUR(s)
	if c == nil || err != nil {
		return nil, err
	}
	return curG{c}, nil
}

func setGroup(rs *winres.ResourceSet, id winres.Identifier, lang uint16, g group) error {
	switch g := g.(type) {
	case icoG:
		if lang == 0 {
			return rs.SetIcon(id, g.Icon)
		}
		return rs.SetIconTranslation(id, lang, g.Icon)
	case curG:
		if lang == 0 {
			return rs.SetCursor(id, g.Cursor)
		}
		return rs.SetCursorTranslation(id, lang, g.Cursor)
	}
	panic("group")
}

func getGroup(rs *winres.ResourceSet, id winres.Identifier, lang uint16, kind uint16, first bool) (group, error) {
	if kind == 1 {
		var i *winres.Icon
		var err error
		if first {
			i, err = rs.GetIcon(id)
		} else {
			i, err = rs.GetIconTranslation(id, lang)
		}
		if err != nil {
			return nil, err
		}
		return icoG{i}, nil
	}
	var c *winres.Cursor
	var err error
	if first {
		c, err = rs.GetCursor(id)
	} else {
		c, err = rs.GetCursorTranslation(id, lang)
	}
	if err != nil {
		return nil, err
	}
	return curG{c}, nil
}

func mustSave(t *T, g group, kind uint16, when string) []fileImage {
	b, err := g.save()
	t.check(err == nil, "%s: saving failed: %v", when, err)
	imgs, err := parseIconFile(b, kind)
	t.check(err == nil, "%s: the saved file is wrong: %v", when, err)
	return imgs
}

func snapshot(rs *winres.ResourceSet) model {
	m := model{}
	rs.Walk(func(ty, id winres.Identifier, l uint16, d []byte) bool {
		m[key{ty, id, l}] = append([]byte{}, d...)
		return true
	})
	return m
}

var (
	imgType = [3]winres.ID{0, winres.RT_ICON, winres.RT_CURSOR}
	grpType = [3]winres.ID{0, winres.RT_GROUP_ICON, winres.RT_GROUP_CURSOR}
)

type stored struct {
	kind uint16
	id   winres.Identifier
	lang uint16
}

func addGroups(t *T) {
	r := t.r
	rs := &winres.ResourceSet{}
	var everHigh [3]int // highest ordinal the set has ever held, by kind
	held := func(k key) {
		for kind := 1; kind <= 2; kind++ {
			if id, ok := k.r.(winres.ID); ok && k.t == imgType[kind] && int(id) > everHigh[kind] {
				everHigh[kind] = int(id)
			}
		}
	}
	// Some resources are there already, images among them.
	for i, n := 0, r.Intn(6); i < n; i++ {
		k := key{randIdent(r), randIdent(r), randLang(r)}
		switch r.Intn(4) {
		case 0:
			k.t = winres.RT_ICON
		case 1:
			k.t = winres.RT_CURSOR
		}
		if id, ok := k.r.(winres.ID); ok && (k.t == winres.RT_ICON || k.t == winres.RT_CURSOR) && id > 60000 && r.Intn(3) > 0 {
			k.r = winres.ID(1 + r.Intn(300))
		}
		t.check(rs.Set(k.t, k.r, k.l, randData(r)) == nil, "Set%v failed", k)
		held(k)
		t.note("Set%v", k)
		if r.Intn(4) == 0 {
			rs.Set(k.t, k.r, k.l, nil)
			t.note("Delete%v", k)
		}
	}
	want := map[stored][]fileImage{}
	for i, n := 0, 1+r.Intn(8); i < n; i++ {
		kind := uint16(1 + r.Intn(2))
		if r.Intn(6) == 0 {
			// Deleting an image or setting one must not confuse later additions.
			k := key{imgType[kind], winres.ID(1 + r.Intn(12)), 0}
			before := snapshot(rs)
			if _, ok := before[k]; !ok {
				id := winres.ID(1 + r.Intn(40))
				if r.Intn(12) == 0 {
					id = winres.ID(65530 + r.Intn(6))
				}
				k = key{imgType[kind], id, randLang(r)}
				if _, ok := before[k]; !ok {
					rs.Set(k.t, k.r, k.l, []byte("an image of its own"))
					held(k)
					t.note("Set%v", k)
				}
			}
		}
		if r.Intn(8) == 0 && i > 0 {
			// Write and load back.
			out, err := func() ([]byte, error) {
				p := randPE(t, peOpts{simple: true})
				return patch(rs, p.build(), fIgnore)
			}()
			if err == nil && rs.Count() > 0 {
				if rs2, err := winres.LoadFromEXE(bytes.NewReader(out)); err == nil {
					rs = rs2
					t.note("through an executable")
				}
			}
		}
		imgs := randImages(r, kind, 5)
		g, err := loadFile(r, buildIconFile(r, imgs, kind), kind)
		t.check(err == nil, "loading a well-formed file of kind %d failed: %v", kind, err)
		s := stored{kind, randIdent(r), []uint16{0, 0, 0x409, randLang(r)}[r.Intn(4)]}
		if r.Intn(3) == 0 {
			s.id = winres.ID(1 + r.Intn(3))
		}
		before := snapshot(rs)
		err = setGroup(rs, s.id, s.lang, g)
		t.note("add a group of kind %d with %d images as %s, %#x: %v", kind, len(imgs), ident(s.id), s.lang, err)
		after := snapshot(rs)
		gk := key{grpType[kind], s.id, s.lang}
		for k, v := range before {
			if k == gk && err == nil {
				continue
			}
			n, ok := after[k]
			t.check(ok && bytes.Equal(n, v), "adding a group of kind %d to %s, %#x changed %v", kind, ident(s.id), s.lang, k)
		}
		if err != nil {
			t.check(everHigh[kind]+len(imgs) > 65535, "adding a group of kind %d with %d images failed: %v", kind, len(imgs), err)
			return
		}
		fresh := 0
		for k := range after {
			held(k)
			if _, ok := before[k]; ok || k == gk {
				continue
			}
			fresh++
			_, isID := k.r.(winres.ID)
			t.check(k.t == imgType[kind] && isID, "adding a group of kind %d created %v", kind, k)
			for b := range before {
				t.check(b.t != k.t || b.r != k.r, "adding a group of kind %d used ordinal %s, which had an image already", kind, ident(k.r))
			}
		}
		t.check(fresh == len(imgs), "adding a group of %d images created %d images", len(imgs), fresh)
		// Replacing a group takes nothing away from the images of the previous one.
		want[s] = sortedImages(imgs)
		for s, w := range want {
			g, err := getGroup(rs, s.id, s.lang, s.kind, false)
			when := fmt.Sprintf("group %s, %#x of kind %d", ident(s.id), s.lang, s.kind)
			t.check(err == nil, "%s: reading it back failed: %v", when, err)
			sameImages(t, mustSave(t, g, s.kind, when), w, s.kind, when)
		}
		// Without a language: the first one in order.
		first, found := uint16(0), false
		for k := range after {
			if k.t == gk.t && k.r == gk.r && (!found || k.l < first) {
				first, found = k.l, true
			}
		}
		if w, ok := want[stored{kind, s.id, first}]; ok {
			g, err := getGroup(rs, s.id, 0, kind, true)
			t.check(err == nil, "reading group %s back failed: %v", ident(s.id), err)
			sameImages(t, mustSave(t, g, kind, "first language"), w, kind, "group "+ident(s.id)+" in its first language")
		}
	}
}

// ordinalsUsedUp: what happens near the last ordinal.
func ordinalsUsedUp(t *T) {
	r := t.r
	kind := uint16(1 + t.seed%2)
	rs := &winres.ResourceSet{}
	top := winres.ID(65535 - r.Intn(5))
	t.check(rs.Set(imgType[kind], top, 0, []byte("last")) == nil, "Set failed")
	imgs := randImages(r, kind, 8)
	g, err := loadFile(r, buildIconFile(r, imgs, kind), kind)
	t.check(err == nil, "loading failed: %v", err)
	before := snapshot(rs)
	err = setGroup(rs, winres.ID(1), 0, g)
	t.note("ordinal %d is in use, %d images: %v", top, len(imgs), err)
	after := snapshot(rs)
	for k, v := range before {
		t.check(bytes.Equal(after[k], v), "adding a group changed %v", k)
	}
	if int(top)+len(imgs) <= 65535 {
		t.check(err == nil, "adding %d images failed although ordinals %d… are free: %v", len(imgs), top+1, err)
	}
	if err == nil {
		g, err := getGroup(rs, winres.ID(1), 0, kind, false)
		t.check(err == nil, "reading back failed: %v", err)
		sameImages(t, mustSave(t, g, kind, "at the end of the ordinals"), sortedImages(imgs), kind, "at the end of the ordinals")
	}
}

// savedFiles is C16.
func savedFiles(t *T) {
	r := t.r
	kind := uint16(1 + r.Intn(2))
	imgs := randImages(r, kind, 6)
	if r.Intn(30) == 0 {
		imgs = nil
		for i := 0; i < 300+r.Intn(3000); i++ {
			imgs = append(imgs, fileImage{w: 16, h: 16, bits: uint16(32), data: dib(r, 16, 16, 32)})
		}
	}
	want := sortedImages(imgs)
	var g group
	var err error
	how := r.Intn(2)
	if how == 0 {
		g, err = loadFile(r, buildIconFile(r, imgs, kind), kind)
	} else {
		// A group made by another tool: its sizes may be wrong, its images are what they are.
		rs := &winres.ResourceSet{}
		b := make([]byte, 6)
		le.PutUint16(b[2:], kind)
		le.PutUint16(b[4:], uint16(len(imgs)))
		for i, im := range imgs {
			id := winres.ID(1 + i*3)
			e := make([]byte, 14)
			size := uint32(len(im.data))
			d := im.data
			if kind == 1 {
				e[0], e[1], e[2] = byte(im.w), byte(im.h), im.colors
				le.PutUint16(e[4:], im.planes)
				le.PutUint16(e[6:], im.bits)
			} else {
				le.PutUint16(e, uint16(im.w))
				le.PutUint16(e[2:], uint16(im.h))
				le.PutUint16(e[4:], 1)
				le.PutUint16(e[6:], im.bits)
				d = append([]byte{byte(im.hx), byte(im.hx >> 8), byte(im.hy), byte(im.hy >> 8)}, d...)
				size += 4
			}
			switch r.Intn(4) {
			case 0:
				size = uint32(r.Intn(100))
			case 1:
				size = uint32(r.Int63())
			}
			le.PutUint32(e[8:], size)
			le.PutUint16(e[12:], uint16(id))
			b = append(b, e...)
			if len(d) == 0 {
				d = []byte{} // an empty, but existing, resource
			}
			t.check(rs.Set(imgType[kind], id, []uint16{0, 0x409}[r.Intn(2)], d) == nil, "Set failed")
		}
		rs.Set(grpType[kind], winres.Name("G"), 0, b)
		g, err = getGroup(rs, winres.Name("G"), 0, kind, true)
	}
	t.note("kind %d, %d images, %s", kind, len(imgs), []string{"loaded from a file", "read from a set"}[how])
	t.check(err == nil, "reading a well-formed group failed: %v", err)
	b, err := g.save()
	t.check(err == nil, "saving failed: %v", err)
	got, err := parseIconFile(b, kind)
	t.check(err == nil, "the saved file is wrong: %v", err)
	sameImages(t, got, want, kind, "saved file")
	// Again, and loaded back.
	b2, err := g.save()
	t.check(err == nil && bytes.Equal(b, b2), "saving twice gives different files")
	g2, err := loadFile(r, b, kind)
	t.check(err == nil, "loading the saved file failed: %v", err)
	b3, err := g2.save()
	t.check(err == nil, "saving the loaded file failed: %v", err)
	got, err = parseIconFile(b3, kind)
	t.check(err == nil, "the file saved again is wrong: %v", err)
	sameImages(t, got, want, kind, "saved and loaded file")
}

// ---- C07

func garbage(r *rand.Rand, n int) []byte {
	b := make([]byte, r.Intn(n+1))
	switch r.Intn(3) {
	case 0:
		r.Read(b)
	case 1:
		for i := range b {
			b[i] = byte(r.Intn(3))
		}
	}
	return b
}

func smashBytes(t *T, b []byte) []byte {
	r := t.r
	b = append([]byte{}, b...)
	for i, n := 0, 1+r.Intn(4); i < n && len(b) > 0; i++ {
		o := r.Intn(len(b))
		if r.Intn(2) == 0 {
			o = r.Intn(min(len(b), 24))
		}
		switch r.Intn(5) {
		case 0:
			b[o] = byte(r.Intn(256))
		case 1:
			b[o] = byte(r.Intn(4))
		case 2:
			b = b[:o]
		case 3:
			for j := o; j < len(b) && j < o+1+r.Intn(4); j++ {
				b[j] = 0xFF
			}
		case 4:
			b = append(b[:o], append(garbage(r, 6), b[o:]...)...)
		}
	}
	return b
}

func useGroup(t *T, g group) {
	rs := &winres.ResourceSet{}
	if setGroup(rs, winres.ID(1), 0, g) == nil {
		k := uint16(1)
		if _, ok := g.(curG); ok {
			k = 2
		}
		if g2, err := getGroup(rs, winres.ID(1), 0, k, true); err == nil {
			g2.save()
		}
	}
	g.save()
}

func readGarbageFile(t *T, b []byte) {
	keep := append([]byte{}, b...)
	t.note("%d bytes: % x", len(b), b[:min(len(b), 150)])
	for kind := uint16(1); kind <= 2; kind++ {
		g, err := loadFile(t.r, b, kind)
		if err == nil {
			t.check(g != nil, "neither a result nor an error")
			useGroup(t, g)
		}
		winres.LoadICO(bytes.NewReader(b))
		winres.LoadCUR(bytes.NewReader(b))
	}
	t.check(bytes.Equal(b, keep), "the input was modified")
}

func pngBomb(r *rand.Rand) []byte {
	// a PNG header with absurd dimensions
	ihdr := make([]byte, 17)
	copy(ihdr, "IHDR")
	r.Read(ihdr[4:])
	if r.Intn(2) == 0 {
		ihdr[12], ihdr[13] = 8, 6
		ihdr[14], ihdr[15], ihdr[16] = 0, 0, byte(r.Intn(2))
	}
	b := append([]byte{}, pngSig...)
	b = append(b, 0, 0, 0, 13)
	b = append(b, ihdr...)
	c := crc32.ChecksumIEEE(ihdr)
	b = append(b, byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
	return b[:len(b)-r.Intn(2)*r.Intn(len(b))]
}

func garbageSet(t *T) {
	r := t.r
	rs := &winres.ResourceSet{}
	for kind := uint16(1); kind <= 2; kind++ {
		imgs := randImages(r, kind, 4)
		g, err := loadFile(r, buildIconFile(r, imgs, kind), kind)
		t.check(err == nil, "loading failed: %v", err)
		setGroup(rs, winres.ID(1), 0, g)
		for i, n := 0, r.Intn(6); i < n; i++ {
			d := garbage(r, 20)
			if r.Intn(4) == 0 {
				d = pngBomb(r)
			}
			rs.Set(imgType[kind], winres.ID(1+r.Intn(5)), []uint16{0, 0, 1}[r.Intn(3)], d)
			t.note("an image of kind %d: % x", kind, d[:min(len(d), 60)])
		}
		m := snapshot(rs)
		d := m[key{grpType[kind], winres.ID(1), 0}]
		if r.Intn(3) > 0 {
			d = smashBytes(t, d)
		}
		rs.Set(grpType[kind], winres.ID(1), 0, d)
		t.note("a group of kind %d: % x", kind, d)
	}
	for kind := uint16(1); kind <= 2; kind++ {
		for _, first := range []bool{true, false} {
			g, err := getGroup(rs, winres.ID(1), 0, kind, first)
			if err == nil {
				t.check(g != nil, "neither a result nor an error")
				useGroup(t, g)
			}
			getGroup(rs, winres.ID(2), 0, kind, first)
			getGroup(rs, winres.Name("x"), 0x409, kind, first)
		}
	}
}

// ---- C21

type subImage struct {
	image.Image
	rect image.Rectangle
}

func (s subImage) Bounds() image.Rectangle { return s.rect }

func randPicture(t *T) image.Image {
	r := t.r
	w, h := side(r), side(r)
	if r.Intn(3) > 0 {
		w, h = 1+r.Intn(20), 1+r.Intn(20)
	}
	if r.Intn(3) == 0 {
		h = w
	}
	min := image.Point{}
	if r.Intn(2) == 0 {
		min = image.Pt(r.Intn(200)-100, r.Intn(200)-100)
	}
	rect := image.Rectangle{min, min.Add(image.Pt(w, h))}
	opaque := r.Intn(3) == 0
	col := func() color.NRGBA {
		c := color.NRGBA{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))}
		if opaque {
			c.A = 255
		} else if r.Intn(4) == 0 {
			c.A = []byte{0, 1, 255}[r.Intn(3)]
		}
		return c
	}
	var im image.Image
	big := rect
	if r.Intn(3) == 0 {
		big = image.Rect(rect.Min.X-r.Intn(9), rect.Min.Y-r.Intn(9), rect.Max.X+r.Intn(9), rect.Max.Y+r.Intn(9))
	}
	kind := r.Intn(7)
	fill := func(set func(x, y int, c color.Color)) {
		for y := big.Min.Y; y < big.Max.Y; y++ {
			for x := big.Min.X; x < big.Max.X; x++ {
				set(x, y, col())
			}
		}
	}
	switch kind {
	case 0, 1:
		p := image.NewNRGBA(big)
		fill(p.Set)
		im = p.SubImage(rect)
	case 2:
		p := image.NewRGBA(big)
		fill(p.Set)
		im = p.SubImage(rect)
	case 3:
		p := image.NewGray(big)
		fill(p.Set)
		im = p.SubImage(rect)
	case 4:
		pal := color.Palette{}
		for i := 0; i < 1+r.Intn(40); i++ {
			pal = append(pal, col())
		}
		p := image.NewPaletted(big, pal)
		for i := range p.Pix {
			p.Pix[i] = byte(r.Intn(len(pal)))
		}
		im = p.SubImage(rect)
	case 5:
		p := image.NewNRGBA64(big)
		fill(p.Set)
		im = p.SubImage(rect)
	default:
		p := image.NewNRGBA(big)
		fill(p.Set)
		im = subImage{p, rect}
	}
	t.note("picture of kind %d, bounds %v inside %v, opaque %v", kind, rect, big, opaque)
	return im
}

// sameColor: a pixel is unchanged if it has the same color once stored as 8-bit non-premultiplied RGBA.
func nrgba(c color.Color) color.NRGBA { return color.NRGBAModel.Convert(c).(color.NRGBA) }

func squareOf(t *T, img image.Image, center bool, length int, px func(x, y int) color.NRGBA, when string) {
	b := img.Bounds()
	var ox, oy int
	if center {
		ox, oy = (length-b.Dx())/2, (length-b.Dy())/2
	}
	try := func(ox, oy int) string {
		for y := 0; y < length; y++ {
			for x := 0; x < length; x++ {
				got := px(x, y)
				sx, sy := x-ox, y-oy
				if sx < 0 || sy < 0 || sx >= b.Dx() || sy >= b.Dy() {
					if got.A != 0 {
						return fmt.Sprintf("pixel %d,%d outside of the source is %v", x, y, got)
					}
					continue
				}
				want := nrgba(img.At(b.Min.X+sx, b.Min.Y+sy))
				if got != want && !(got.A == 0 && want.A == 0) {
					return fmt.Sprintf("pixel %d,%d is %v instead of %v", x, y, got, want)
				}
			}
		}
		return ""
	}
	msg := try(ox, oy)
	if msg != "" && center {
		// the other way to round an odd margin
		if try((length-b.Dx()+1)/2, (length-b.Dy()+1)/2) == "" {
			return
		}
	}
	t.check(msg == "", "%s: %s", when, msg)
}

func importIcon(t *T) {
	n := 1 + t.r.Intn(3)
	var pics []image.Image
	for i := 0; i < n; i++ {
		pics = append(pics, randPicture(t))
	}
	ico, err := winres.NewIconFromImages(pics)
	t.check(err == nil, "NewIconFromImages failed: %v", err)
	got := mustSave(t, icoG{ico}, 1, "icon")
	t.check(len(got) == n, "%d images instead of %d", len(got), n)
	var order []fileImage
	for i, p := range pics {
		l := p.Bounds().Dx()
		if p.Bounds().Dy() > l {
			l = p.Bounds().Dy()
		}
		order = append(order, fileImage{w: l, bits: 32, hx: uint16(i)})
	}
	order = sortedImages(order)
	for i, g := range got {
		p := pics[order[i].hx]
		l := order[i].w
		t.check(g.w == l && g.h == l, "image %d is declared %dx%d, the source is %v", i, g.w, g.h, p.Bounds())
		t.check(g.bits == 32 && g.planes <= 1 && g.colors == 0, "image %d is declared with %d bits, %d planes, %d colors", i, g.bits, g.planes, g.colors)
		d, err := png.Decode(bytes.NewReader(g.data))
		t.check(err == nil, "image %d is not a PNG: %v", i, err)
		t.check(d.Bounds() == image.Rect(0, 0, l, l), "image %d is %v, its source %v", i, d.Bounds(), p.Bounds())
		squareOf(t, p, true, l, func(x, y int) color.NRGBA { return nrgba(d.At(x, y)) }, fmt.Sprintf("image %d", i))
	}
}

func importCursor(t *T) {
	n := 1 + t.r.Intn(3)
	var pics []winres.CursorImage
	for i := 0; i < n; i++ {
		pics = append(pics, winres.CursorImage{Image: randPicture(t), HotSpot: winres.HotSpot{X: uint16(t.r.Intn(256)), Y: uint16(i)}})
	}
	cur, err := winres.NewCursorFromImages(pics)
	t.check(err == nil, "NewCursorFromImages failed: %v", err)
	got := mustSave(t, curG{cur}, 2, "cursor")
	t.check(len(got) == n, "%d images instead of %d", len(got), n)
	seen := map[int]bool{}
	last := 1 << 20
	for i, g := range got {
		src := int(g.hy)
		t.check(src < n && !seen[src], "image %d has the hot spot %d,%d, which is not that of a source", i, g.hx, g.hy)
		seen[src] = true
		p := pics[src]
		t.check(g.hx == p.HotSpot.X, "image %d has the hot spot %d,%d instead of %v", i, g.hx, g.hy, p.HotSpot)
		b := p.Image.Bounds()
		l := b.Dx()
		if b.Dy() > l {
			l = b.Dy()
		}
		t.check(l <= last, "images are not in descending order of size")
		last = l
		t.check(g.w == l && g.h == l, "image %d is declared %dx%d, the source is %v", i, g.w, g.h, b)
		d := g.data
		t.check(len(d) >= 40, "image %d has %d bytes", i, len(d))
		hdr := int(le.Uint32(d))
		t.check(hdr == 40 || hdr == 108 || hdr == 124, "image %d: header of %d bytes", i, hdr)
		t.check(int32(le.Uint32(d[4:])) == int32(l) && int32(le.Uint32(d[8:])) == int32(2*l), "image %d: the bitmap is %dx%d, expected %dx%d",
			i, int32(le.Uint32(d[4:])), int32(le.Uint32(d[8:])), l, 2*l)
		t.check(le.Uint16(d[12:]) == 1 && le.Uint16(d[14:]) == 32, "image %d: %d planes, %d bits", i, le.Uint16(d[12:]), le.Uint16(d[14:]))
		comp := le.Uint32(d[16:])
		t.check(comp == 0 || comp == 3, "image %d: compression %d", i, comp)
		t.check(len(d) >= hdr+4*l*l, "image %d: %d bytes of pixels for %dx%d", i, len(d)-hdr, l, l)
		squareOf(t, p.Image, false, l, func(x, y int) color.NRGBA {
			o := hdr + 4*((l-1-y)*l+x)
			return color.NRGBA{d[o+2], d[o+1], d[o], d[o+3]}
		}, fmt.Sprintf("cursor image %d", i))
	}
}

func importRefused(t *T) {
	r := t.r
	bad := []image.Rectangle{
		{}, image.Rect(0, 0, 0, 5), image.Rect(0, 0, 5, 0), image.Rect(0, 0, 257, 1), image.Rect(0, 0, 1, 257),
		image.Rect(-100, 5, 157, 6), image.Rect(0, 0, 512, 512), image.Rect(3, 3, 3, 3), image.Rect(0, 0, 256, 257), image.Rect(0, 0, 257, 256),
		{Min: image.Pt(5, 5), Max: image.Pt(1, 9)},
	}
	rect := bad[int(t.seed)%len(bad)]
	var im image.Image = subImage{image.NewNRGBA(image.Rect(0, 0, 1, 1)), rect}
	if r.Intn(2) == 0 && !rect.Empty() {
		im = image.NewNRGBA(rect)
	}
	good := image.NewNRGBA(image.Rect(0, 0, 2, 2))
	t.note("bounds %v", rect)
	ico, err := winres.NewIconFromImages([]image.Image{good, im})
	t.check(err != nil && ico == nil, "an icon with an image of bounds %v was not refused", rect)
	cur, err := winres.NewCursorFromImages([]winres.CursorImage{{Image: good}, {Image: im}})
	t.check(err != nil && cur == nil, "a cursor with an image of bounds %v was not refused", rect)
}

func importResized(t *T) {
	r := t.r
	pic := randPicture(t)
	var sizes []int
	if r.Intn(4) > 0 {
		for i, n := 0, 1+r.Intn(5); i < n; i++ {
			sizes = append(sizes, side(r))
		}
	}
	ico, err := winres.NewIconFromResizedImage(pic, sizes)
	if sizes == nil {
		sizes = winres.DefaultIconSizes
	}
	b := pic.Bounds()
	long, short := b.Dx(), b.Dy()
	if long < short {
		long, short = short, long
	}
	if err != nil {
		// Very thin images may vanish when they are resized.
		least := long
		for _, s := range sizes {
			if s < least {
				least = s
			}
		}
		t.check(short*least < long*2, "NewIconFromResizedImage(%v, %v) failed: %v", b, sizes, err)
		return
	}
	got := mustSave(t, icoG{ico}, 1, "icon")
	t.check(len(got) == len(sizes), "%d images for sizes %v", len(got), sizes)
	s := append([]int{}, sizes...)
	sort.Sort(sort.Reverse(sort.IntSlice(s)))
	for i, g := range got {
		d, err := png.Decode(bytes.NewReader(g.data))
		t.check(err == nil, "image %d is not a PNG: %v", i, err)
		t.check(d.Bounds() == image.Rect(0, 0, g.w, g.h) && g.w == g.h, "image %d is %v but declared %dx%d", i, d.Bounds(), g.w, g.h)
		if short*4 >= long {
			t.check(g.w == s[i], "image %d is declared %dx%d for size %d", i, g.w, g.h, s[i])
		}
	}
}

func init() {
	reg("C07", "file", 4, 100, func(t *T) {
		kind := uint16(1 + t.r.Intn(2))
		imgs := randImages(t.r, kind, 4)
		for i := range imgs {
			switch t.r.Intn(4) {
			case 0:
				imgs[i].data = garbage(t.r, 20)
			case 1:
				imgs[i].data = pngBomb(t.r)
			case 2:
				imgs[i].data = dib(t.r, 1, 1, 1)
				imgs[i].data = imgs[i].data[:t.r.Intn(len(imgs[i].data)+1)]
			}
		}
		b := buildIconFile(t.r, imgs, kind)
		if t.r.Intn(3) > 0 {
			b = smashBytes(t, b)
		}
		readGarbageFile(t, b)
	})
	reg("C07", "short-image", 1, 60, func(t *T) {
		n := int(t.seed) % 30
		d := make([]byte, n)
		if n >= 4 {
			le.PutUint32(d, []uint32{40, 108, 124, 12}[t.r.Intn(4)])
		}
		if t.r.Intn(3) == 0 {
			d = append(append([]byte{}, pngSig...), d...)[:n]
		}
		readGarbageFile(t, buildIconFile(t.r, []fileImage{{w: 1, h: 1, data: d}}, uint16(1+t.r.Intn(2))))
	})
	reg("C07", "bytes", 2, 60, func(t *T) {
		b := garbage(t.r, 80)
		if len(b) >= 6 && t.r.Intn(3) > 0 {
			copy(b, []byte{0, 0, byte(1 + t.r.Intn(2)), 0, byte(t.r.Intn(5)), byte(t.r.Intn(2))})
		}
		readGarbageFile(t, b)
	})
	reg("C07", "set", 4, 100, garbageSet)

	reg("C15", "add", 6, 80, addGroups)
	reg("C15", "used-up", 1, 40, ordinalsUsedUp)
	reg("C16", "saved", 6, 80, savedFiles)
	reg("C21", "icon", 3, 40, importIcon)
	reg("C21", "cursor", 3, 40, importCursor)
	g := reg("C21", "refused", 1, 22, importRefused)
	g.max = 22
	reg("C21", "resized", 1, 20, importResized)
	_ = g
}
