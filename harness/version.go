package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/tc-hib/winres/version"
)

// A description of a version info, independent of the package.
type verModel struct {
	file, prod [4]uint16
	flags      [5]bool // debug, prerelease, patched, private, special
	typ        int     // 0 app, 1 DLL, 2 unknown
	time       time.Time
	str        map[uint16]map[string]string
}

func (m *verModel) clone() *verModel {
	c := *m
	c.str = map[uint16]map[string]string{}
	for l, st := range m.str {
		c.str[l] = map[string]string{}
		for k, v := range st {
			c.str[l][k] = v
		}
	}
	return &c
}

var stdKeys = []string{version.Comments, version.CompanyName, version.FileDescription, version.FileVersion, version.InternalName, version.LegalCopyright,
	version.LegalTrademarks, version.OriginalFilename, version.PrivateBuild, version.ProductName, version.ProductVersion, version.SpecialBuild}

func randText(r *rand.Rand, max int) string {
	n := r.Intn(max + 1)
	if r.Intn(8) == 0 {
		n = 0
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch r.Intn(8) {
		case 0:
			b.WriteRune(rune(1 + r.Intn(0xD7FF)))
		case 1:
			b.WriteRune(rune(0xE000 + r.Intn(0x1FFF)))
		case 2:
			b.WriteRune(rune(0x10000 + r.Intn(0x100000)))
		case 3:
			b.WriteString([]string{"\r\n", "\t", "\"", "\\", "<&>'", "\u2028", " ", ",", ":", "\x01", "\x7f"}[r.Intn(11)])
		default:
			b.WriteByte(byte(' ' + r.Intn(95)))
		}
	}
	return b.String()
}

func randKey(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		return stdKeys[r.Intn(len(stdKeys))]
	}
	for {
		k := randText(r, 9)
		if k == "" {
			continue
		}
		return k
	}
}

func randVerLang(r *rand.Rand) uint16 {
	if r.Intn(4) == 0 {
		return uint16(r.Intn(65536))
	}
	return []uint16{0, 0x409, 0x40C, 1, 0x7F, 0xFFFF, 0x410, 0xA, 0x1000, 0xFFFE}[r.Intn(10)]
}

func randU16(r *rand.Rand) uint16 {
	if r.Intn(2) == 0 {
		return uint16(r.Intn(20))
	}
	return []uint16{0, 1, 255, 256, 32767, 32768, 65535, uint16(r.Intn(65536))}[r.Intn(8)]
}

var epoch1601 = time.Date(1601, 1, 1, 0, 0, 0, 0, time.UTC)

func randTime(r *rand.Rand) time.Time {
	switch r.Intn(8) {
	case 0, 1:
		return time.Time{}
	case 2:
		return time.Date(1601+r.Intn(400), 1+time.Month(r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), 1+r.Intn(59), r.Intn(1e9), time.UTC)
	case 3:
		return time.Unix(int64(r.Int31()), int64(r.Intn(1e9)))
	case 4:
		return time.Date(2262+r.Intn(7000), 1+time.Month(r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1e9), time.UTC)
	case 5:
		return time.Date(1970, 1, 1, 0, 0, r.Intn(3)-1, r.Intn(1000), time.UTC)
	case 6:
		return time.Date(2000+r.Intn(50), 6, 1, 3, 4, 5, r.Intn(1e9), time.FixedZone("x", (r.Intn(1440)-720)*60))
	}
	return time.Date(1601, 1, 1, 0, 0, 0, 100+r.Intn(100000), time.UTC)
}

func randVer(r *rand.Rand, maxLangs, maxKeys, maxText int) *verModel {
	m := &verModel{str: map[uint16]map[string]string{}, typ: r.Intn(3)}
	for i := range m.file {
		m.file[i], m.prod[i] = randU16(r), randU16(r)
	}
	if r.Intn(6) == 0 {
		m.file = [4]uint16{}
	}
	if r.Intn(6) == 0 {
		m.prod = [4]uint16{}
	}
	for i := range m.flags {
		m.flags[i] = r.Intn(2) == 0
	}
	m.time = randTime(r)
	keys := []string{randKey(r), randKey(r), randKey(r), randKey(r)}
	for i, n := 0, r.Intn(maxLangs+1); i < n; i++ {
		st := map[string]string{}
		for j, n := 0, 1+r.Intn(maxKeys); j < n; j++ {
			k := keys[r.Intn(len(keys))]
			if r.Intn(2) == 0 {
				k = randKey(r)
			}
			st[k] = randText(r, maxText)
		}
		m.str[randVerLang(r)] = st
	}
	return m
}

func (m *verModel) build(t *T) *version.Info {
	vi := &version.Info{FileVersion: m.file, ProductVersion: m.prod, Timestamp: m.time}
	vi.Flags.Debug, vi.Flags.Prerelease, vi.Flags.Patched, vi.Flags.PrivateBuild, vi.Flags.SpecialBuild = m.flags[0], m.flags[1], m.flags[2], m.flags[3], m.flags[4]
	switch m.typ {
	case 1:
		vi.Type = version.DLL
	case 2:
		vi.Type = version.Unknown
	}
	for l, st := range m.str {
		for k, v := range st {
			t.check(vi.Set(l, k, v) == nil, "Set(%#x, %q, %q) failed", l, k, v)
		}
	}
	return vi
}

func (m *verModel) String() string {
	var s strings.Builder
	fmt.Fprintf(&s, "file %v product %v flags %v type %d time %v", m.file, m.prod, m.flags, m.typ, m.time.UTC())
	var langs []int
	for l := range m.str {
		langs = append(langs, int(l))
	}
	sort.Ints(langs)
	for _, l := range langs {
		fmt.Fprintf(&s, " %04x:%q", l, m.str[uint16(l)])
	}
	return s.String()
}

// same compares an Info with a model. Languages without any string are as good as absent.
func (m *verModel) same(t *T, vi *version.Info, unit time.Duration, when string) {
	t.check(vi != nil, "%s: nothing was returned", when)
	t.check(vi.FileVersion == m.file, "%s: file version %v instead of %v", when, vi.FileVersion, m.file)
	t.check(vi.ProductVersion == m.prod, "%s: product version %v instead of %v", when, vi.ProductVersion, m.prod)
	f := [5]bool{vi.Flags.Debug, vi.Flags.Prerelease, vi.Flags.Patched, vi.Flags.PrivateBuild, vi.Flags.SpecialBuild}
	t.check(f == m.flags, "%s: flags %v instead of %v", when, f, m.flags)
	typ := 3
	switch vi.Type {
	case version.App:
		typ = 0
	case version.DLL:
		typ = 1
	case version.Unknown:
		typ = 2
	}
	t.check(typ == m.typ, "%s: type %d instead of %d", when, typ, m.typ)
	if m.time.IsZero() {
		t.check(vi.Timestamp.IsZero(), "%s: timestamp %v instead of none", when, vi.Timestamp)
	} else {
		s := vi.Timestamp.Unix() - m.time.Unix()
		t.check(s >= -1 && s <= 1, "%s: timestamp %v instead of %v", when, vi.Timestamp.UTC(), m.time.UTC())
		d := time.Duration(s)*time.Second + time.Duration(vi.Timestamp.Nanosecond()-m.time.Nanosecond())
		t.check(d > -unit && d < unit, "%s: timestamp %v instead of %v", when, vi.Timestamp.UTC(), m.time.UTC())
	}
	m.sameStrings(t, vi, when)
}

func (m *verModel) sameStrings(t *T, vi *version.Info, when string) {
	lt := vi.Table()
	for l, st := range lt {
		if st == nil {
			continue
		}
		for k, v := range *st {
			w, ok := m.str[l][k]
			t.check(ok, "%s: language %#x has a key %q nobody set", when, l, k)
			t.check(v == w, "%s: %q in language %#x is %q instead of %q", when, k, l, v, w)
		}
	}
	for l, st := range m.str {
		for k, w := range st {
			got := lt[l]
			t.check(got != nil, "%s: language %#x is missing", when, l)
			_, ok := (*got)[k]
			t.check(ok, "%s: %q (%q) is missing from language %#x", when, k, w, l)
		}
	}
}

// ---- the binary format

func keyLen(k string) int { return 2 * (len(utf16of(k)) + 1) }

func al4(n int) int { return (n + 3) &^ 3 }

// fits tells whether every node's length fits in 16 bits.
func (m *verModel) fits() bool {
	sfi := al4(6 + keyLen("StringFileInfo"))
	for _, st := range m.str {
		tab := al4(6 + keyLen("040904b0"))
		for k, v := range st {
			n := al4(6+keyLen(k)) + 2*(len(utf16of(v))+1)
			if n > 65535 {
				return false
			}
			tab = al4(tab) + n
		}
		if tab > 65535 {
			return false
		}
		sfi = al4(sfi) + tab
	}
	vfi := al4(6+keyLen("VarFileInfo")) + al4(6+keyLen("Translation")) + 4*len(m.str)
	root := al4(6+keyLen("VS_VERSION_INFO")) + 52 + al4(sfi) + vfi
	return sfi <= 65535 && vfi <= 65535 && root+8 <= 65535
}

type node struct {
	key    string
	text   bool
	vlen   int
	raw    []byte // the whole node
	valPos int
}

type nodeErr string

func nfail(f string, a ...interface{}) { panic(nodeErr(fmt.Sprintf(f, a...))) }

func readNode(b []byte, pos, end int) node {
	if pos%4 != 0 {
		nfail("node at %d is not aligned", pos)
	}
	if pos+6 > end {
		nfail("node at %d: header outside its parent, which ends at %d", pos, end)
	}
	n := node{vlen: int(le.Uint16(b[pos+2:])), text: le.Uint16(b[pos+4:]) == 1}
	l := int(le.Uint16(b[pos:]))
	if le.Uint16(b[pos+4:]) > 1 {
		nfail("node at %d: type %d", pos, le.Uint16(b[pos+4:]))
	}
	if pos+l > end || l < 6 {
		nfail("node at %d: length %d, its parent ends at %d", pos, l, end)
	}
	p := pos + 6
	var k []uint16
	for {
		if p+2 > pos+l {
			nfail("node at %d: its key is not terminated", pos)
		}
		c := le.Uint16(b[p:])
		p += 2
		if c == 0 {
			break
		}
		k = append(k, c)
	}
	n.key = fromUTF16(k)
	for p%4 != 0 && p < pos+l {
		if b[p] != 0 {
			nfail("node at %d: padding is not zero", pos)
		}
		p++
	}
	n.raw = b[pos : pos+l]
	n.valPos = p
	return n
}

func fromUTF16(u []uint16) string {
	var b strings.Builder
	for i := 0; i < len(u); i++ {
		c := rune(u[i])
		if c >= 0xD800 && c < 0xDC00 && i+1 < len(u) && u[i+1] >= 0xDC00 && u[i+1] < 0xE000 {
			c = 0x10000 + (c-0xD800)<<10 + (rune(u[i+1]) - 0xDC00)
			i++
		}
		b.WriteRune(c)
	}
	return b.String()
}

// children reads nodes from pos to end: each starts on the next multiple of 4, and nothing is left.
func children(b []byte, pos, end int) []node {
	var out []node
	for pos < end {
		for pos%4 != 0 {
			if b[pos] != 0 {
				nfail("padding at %d is not zero", pos)
			}
			pos++
			if pos > end {
				nfail("padding at %d outside the parent", pos)
			}
		}
		if pos >= end {
			break
		}
		n := readNode(b, pos, end)
		out = append(out, n)
		pos += len(n.raw)
	}
	return out
}

// checkBinary reads the encoding with the rules of the documentation.
func (m *verModel) checkBinary(t *T, b []byte) {
	defer func() {
		if e := recover(); e != nil {
			if ne, ok := e.(nodeErr); ok {
				t.fail("encoding: %s", string(ne))
			}
			panic(e)
		}
	}()
	root := readNode(b, 0, len(b))
	if len(root.raw) != len(b) {
		nfail("the root is %d bytes long out of %d", len(root.raw), len(b))
	}
	if root.key != "VS_VERSION_INFO" || root.text || root.vlen != 52 {
		nfail("the root is %q, value length %d", root.key, root.vlen)
	}
	f := b[root.valPos:]
	u := func(i int) uint32 { return le.Uint32(f[4*i:]) }
	if u(0) != 0xFEEF04BD || u(1) != 0x10000 {
		nfail("fixed info signature %#x, version %#x", u(0), u(1))
	}
	v4 := func(i int) [4]uint16 {
		return [4]uint16{uint16(u(i) >> 16), uint16(u(i)), uint16(u(i+1) >> 16), uint16(u(i + 1))}
	}
	if v4(2) != m.file || v4(4) != m.prod {
		nfail("versions %v, %v", v4(2), v4(4))
	}
	fl := uint32(0)
	for i, bit := range []uint32{1, 2, 4, 8, 0x20} {
		if m.flags[i] {
			fl |= bit
		}
	}
	if u(6) != 0x3F || u(7) != fl || u(9) != []uint32{1, 2, 0}[m.typ] {
		nfail("flags %#x with mask %#x, type %d", u(7), u(6), u(9))
	}
	ts := uint64(u(11))<<32 | uint64(u(12))
	if m.time.IsZero() {
		if ts != 0 {
			nfail("timestamp %d", ts)
		}
	} else {
		want := uint64(m.time.Unix()-epoch1601.Unix())*1e7 + uint64(m.time.Nanosecond()/100)
		if ts != want && ts != want+1 {
			nfail("timestamp %d instead of %d", ts, want)
		}
	}
	var langs []uint16
	for _, c := range children(b, root.valPos+52, len(b)) {
		end := c.valPos - (cap(b) - cap(c.raw)) // not used
		_ = end
		base := offsetOf(b, c.raw)
		switch c.key {
		case "StringFileInfo":
			got := map[uint16]map[string]string{}
			if c.vlen != 0 {
				nfail("StringFileInfo: value length %d", c.vlen)
			}
			for _, tab := range children(b, c.valPos, base+len(c.raw)) {
				var l uint64
				var err error
				if len(tab.key) == 8 && strings.EqualFold(tab.key[4:], "04b0") {
					l, err = strconv.ParseUint(tab.key[:4], 16, 16)
				} else {
					err = fmt.Errorf("not a language")
				}
				if err != nil {
					nfail("string table %q", tab.key)
				}
				if _, ok := got[uint16(l)]; ok {
					nfail("two tables for language %#x", l)
				}
				st := map[string]string{}
				got[uint16(l)] = st
				tb := offsetOf(b, tab.raw)
				for _, s := range children(b, tab.valPos, tb+len(tab.raw)) {
					sb := offsetOf(b, s.raw)
					val := b[s.valPos : sb+len(s.raw)]
					if !s.text || len(val) != 2*s.vlen || s.vlen == 0 {
						nfail("string %q: value length %d, %d bytes", s.key, s.vlen, len(val))
					}
					w := make([]uint16, s.vlen)
					for i := range w {
						w[i] = le.Uint16(val[2*i:])
					}
					if w[len(w)-1] != 0 {
						nfail("string %q is not terminated", s.key)
					}
					if _, ok := st[s.key]; ok {
						nfail("string %q twice", s.key)
					}
					st[s.key] = fromUTF16(w[:len(w)-1])
				}
			}
			for l, st := range m.str {
				for k, v := range st {
					if x, ok := got[l][k]; !ok || x != v {
						nfail("language %#x: %q is %q instead of %q", l, k, x, v)
					}
				}
				if len(got[l]) != len(st) {
					nfail("language %#x: %d strings instead of %d", l, len(got[l]), len(st))
				}
			}
			if len(got) != len(m.str) {
				nfail("%d string tables instead of %d", len(got), len(m.str))
			}
		case "VarFileInfo":
			for _, v := range children(b, c.valPos, base+len(c.raw)) {
				vb := offsetOf(b, v.raw)
				val := b[v.valPos : vb+len(v.raw)]
				if v.key != "Translation" || len(val) != v.vlen || v.vlen%4 != 0 {
					nfail("variable %q: value length %d, %d bytes", v.key, v.vlen, len(val))
				}
				for i := 0; i < len(val); i += 4 {
					if le.Uint16(val[i+2:]) != 1200 {
						nfail("translation with code page %d", le.Uint16(val[i+2:]))
					}
					langs = append(langs, le.Uint16(val[i:]))
				}
			}
		default:
			nfail("unexpected node %q", c.key)
		}
	}
	if len(langs) != len(m.str) {
		nfail("%d translations instead of %d", len(langs), len(m.str))
	}
	for _, l := range langs {
		if _, ok := m.str[l]; !ok {
			nfail("translation %#x", l)
		}
	}
}

func offsetOf(b, sub []byte) int { return cap(b) - cap(sub) }

func binaryRoundTrip(t *T, m *verModel) {
	t.note("%v", m)
	vi := m.build(t)
	b := append([]byte{}, vi.Bytes()...)
	m.checkBinary(t, b)
	back, err := version.FromBytes(b)
	t.check(err == nil, "FromBytes failed: %v", err)
	m.same(t, back, 100*time.Nanosecond, "decoded")
	m.same(t, vi, time.Nanosecond, "source")
	t.check(bytes.Equal(back.Bytes(), vi.Bytes()), "encoding again gives other bytes")
	// A resource may be padded.
	b = append(b, make([]byte, t.r.Intn(8))...)
	back, err = version.FromBytes(b)
	t.check(err == nil, "FromBytes failed on a padded resource: %v", err)
	m.same(t, back, 100*time.Nanosecond, "decoded with padding")
}

// ---- decoding garbage

func useInfo(t *T, vi *version.Info) {
	t.check(vi != nil, "neither a result nor an error")
	vi.Bytes()
	vi.Table().GetMainTranslation()
	m := vi.SplitTranslations()
	for _, x := range m {
		x.Bytes()
	}
	x := version.MergeTranslations(m)
	x.Bytes()
	version.MergeTranslations(map[uint16]*version.Info{0x409: vi, 0: vi, 0x40C: vi}).Bytes()
	version.MergeTranslations(map[uint16]*version.Info{0xFFFF: vi}).Bytes()
	b, err := json.Marshal(vi)
	if err == nil {
		y := &version.Info{}
		if y.UnmarshalJSON(b) == nil {
			y.Bytes()
		}
	}
	vi.SetFileVersion("1.2.3")
	vi.SetProductVersion("")
	vi.Set(0x409, "a", "b")
	vi.Bytes()
}

func decodeGarbage(t *T, b []byte) {
	t.note("%d bytes: %x", len(b), b[:min(len(b), 250)])
	keep := append([]byte{}, b...)
	vi, err := version.FromBytes(b)
	t.check(bytes.Equal(keep, b), "the input was modified")
	if err == nil {
		useInfo(t, vi)
	}
}

func smallVer(t *T) []byte {
	m := randVer(t.r, 3, 3, 6)
	return append([]byte{}, m.build(t).Bytes()...)
}

// rawNode makes a node with whatever lengths.
func rawNode(r *rand.Rand, key string, vlen int, value []byte, depth int) []byte {
	b := make([]byte, 6)
	for _, u := range utf16of(key) {
		b = append(b, byte(u), byte(u>>8))
	}
	b = append(b, 0, 0)
	if len(b)%4 != 0 && r.Intn(4) > 0 {
		b = append(b, 0, 0)
	}
	b = append(b, value...)
	l := len(b)
	switch r.Intn(6) {
	case 0:
		l -= r.Intn(8)
	case 1:
		l += r.Intn(8)
	}
	le.PutUint16(b, uint16(l))
	if r.Intn(5) == 0 {
		vlen += r.Intn(9) - 4
	}
	if vlen < 0 {
		vlen = 0
	}
	le.PutUint16(b[2:], uint16(vlen))
	le.PutUint16(b[4:], uint16(r.Intn(2)))
	if r.Intn(10) == 0 {
		b = b[:r.Intn(len(b)+1)]
	}
	return b
}

func rawVersion(t *T) []byte {
	r := t.r
	pad := func(b []byte) []byte {
		for len(b)%4 != 0 {
			b = append(b, 0)
		}
		return b
	}
	keys := []string{"StringFileInfo", "VarFileInfo", "VS_VERSION_INFO", "040904b0", "00000000", "zz", "A", "040904B0", "000004b0", "04"}
	pick := func(def string) string {
		if r.Intn(6) == 0 {
			return keys[r.Intn(len(keys))]
		}
		return def
	}
	var sfi []byte
	for i, n := 0, r.Intn(3); i < n; i++ {
		var tab []byte
		for j, n := 0, r.Intn(4); j < n; j++ {
			v := garbage(r, 6)
			tab = append(pad(tab), rawNode(r, pick([]string{"k", "ab", "abc"}[r.Intn(3)]), len(v)/2, v, 3)...)
		}
		sfi = append(pad(sfi), rawNode(r, pick([]string{"040904b0", "000004b0"}[r.Intn(2)]), 0, tab, 2)...)
	}
	fixed := make([]byte, 52)
	r.Read(fixed)
	if r.Intn(4) > 0 {
		le.PutUint32(fixed, 0xFEEF04BD)
	}
	if r.Intn(4) == 0 {
		fixed = fixed[:4*r.Intn(14)]
	}
	val := append(fixed, pad(rawNode(r, pick("StringFileInfo"), 0, sfi, 1))...)
	if r.Intn(2) == 0 {
		val = append(val, rawNode(r, pick("VarFileInfo"), 0, garbage(r, 30), 1)...)
	}
	return rawNode(r, pick("VS_VERSION_INFO"), len(fixed), val, 0)
}

func garbageJSON(t *T) {
	r := t.r
	var gen func(d int) interface{}
	gen = func(d int) interface{} {
		switch r.Intn(7) {
		case 0:
			return nil
		case 1:
			return r.Intn(100000)
		case 2:
			return randText(r, 6)
		case 3:
			return r.Intn(2) == 0
		case 4:
			return []interface{}{}
		}
		if d == 0 {
			return map[string]interface{}{}
		}
		return map[string]interface{}{randText(r, 3): gen(d - 1)}
	}
	pick := func(v interface{}) interface{} {
		if r.Intn(5) == 0 {
			return gen(1)
		}
		return v
	}
	info := map[string]interface{}{}
	for i, n := 0, r.Intn(5); i < n; i++ {
		k := []string{"0409", "409", "0000", "", "zz", "FFFF", "12345", "040C", "-1", "0x1"}[r.Intn(10)]
		st := map[string]interface{}{}
		for j, n := 0, r.Intn(3); j < n; j++ {
			st[[]string{"", "a", "FileVersion", "\x00"}[r.Intn(4)]] = pick([]string{"", "b", "\x00x", "é"}[r.Intn(4)])
		}
		info[k] = st
		if r.Intn(3) == 0 {
			info[k] = nil
		}
	}
	fixed := map[string]interface{}{
		"file_version":    pick([]string{"1.2.3.4", "1", "", "70000.1", "-1.2", "a.b", "1.2.3.4.5"}[r.Intn(7)]),
		"product_version": pick("5.6.7.8"),
		"flags":           pick("Debug,patched"),
		"type":            pick([]string{"DLL", "x", ""}[r.Intn(3)]),
		"timestamp":       pick([]string{"2020-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "0001-01-01T00:00:00Z", "1066-01-01T00:00:00+01:00"}[r.Intn(4)]),
	}
	doc := map[string]interface{}{"fixed": pick(fixed), "info": pick(info)}
	if r.Intn(3) == 0 {
		delete(doc, "fixed")
	}
	b, _ := json.Marshal(doc)
	if r.Intn(5) == 0 {
		b = smashBytes(t, b)
	}
	t.note("%q", b)
	vi := &version.Info{}
	if json.Unmarshal(b, vi) == nil {
		useInfo(t, vi)
	}
	vi = &version.Info{}
	vi.Set(1, "a", "b")
	if vi.UnmarshalJSON(b) == nil {
		useInfo(t, vi)
	}
}

// ---- C14

func splitMerge(t *T) {
	r := t.r
	m := randVer(r, 6, 4, 5)
	// make keys overlap
	if len(m.str) > 1 {
		for _, st := range m.str {
			for k := range st {
				for _, st2 := range m.str {
					if r.Intn(3) == 0 {
						st2[k] = randText(r, 4)
					}
				}
			}
		}
	}
	t.note("%v", m)
	vi := m.build(t)
	var langs []int
	for l := range m.str {
		langs = append(langs, int(l))
	}
	sort.Ints(langs)
	split := vi.SplitTranslations()
	m.same(t, vi, time.Nanosecond, "after a split")
	t.check(len(split) == len(m.str), "%d parts for %d languages", len(split), len(m.str))
	order := []int{0, 0x409}
	order = append(order, langs...)
	parts := map[uint16]*verModel{}
	for l, st := range m.str {
		p := split[l]
		t.check(p != nil, "language %#x is missing", l)
		w := &verModel{file: m.file, prod: m.prod, flags: m.flags, typ: m.typ, time: m.time, str: map[uint16]map[string]string{l: {}}}
		for _, o := range order {
			for k, v := range m.str[uint16(o)] {
				if _, ok := w.str[l][k]; !ok {
					w.str[l][k] = v
				}
			}
		}
		for k, v := range st {
			w.str[l][k] = v
		}
		parts[l] = w
		w.same(t, p, time.Nanosecond, fmt.Sprintf("part %#x", l))
	}
	back := version.MergeTranslations(split)
	if len(m.str) > 0 {
		w := m.clone()
		for l, p := range parts {
			w.str[l] = p.str[l]
		}
		w.same(t, back, time.Nanosecond, "merged")
	}
	// Changing a part must not change anything else.
	for l := range split {
		split[l].Set(l, "changed", "x")
		split[l].Set(l, "FileVersion", "changed")
		break
	}
	m.same(t, vi, time.Nanosecond, "after a part was changed")
}

func mergeParts(t *T) {
	r := t.r
	in := map[uint16]*version.Info{}
	src := map[uint16]*verModel{}
	for i, n := 0, r.Intn(6); i < n; i++ {
		l := randVerLang(r)
		m := randVer(r, 0, 1, 1)
		st := map[string]string{}
		for j, n := 0, 1+r.Intn(4); j < n; j++ {
			st[randKey(r)] = randText(r, 5)
		}
		under := l
		switch r.Intn(4) {
		case 0:
			under = 0
		case 1:
			under = randVerLang(r)
		}
		m.str[under] = st
		if under == l && r.Intn(3) == 0 {
			// other languages are ignored
			m.str[randVerLang(r)] = map[string]string{"ignored": "ignored"}
			m.str[l] = st
		}
		src[l] = m
		in[l] = m.build(t)
		t.note("%#x: %v", l, m)
	}
	got := version.MergeTranslations(in)
	var langs []int
	for l := range src {
		langs = append(langs, int(l))
		src[l].same(t, in[l], time.Nanosecond, "after a merge, the source")
	}
	sort.Ints(langs)
	w := &verModel{str: map[uint16]map[string]string{}}
	if len(langs) > 0 {
		main := src[uint16(langs[0])]
		if m, ok := src[0x409]; ok {
			main = m
		}
		if m, ok := src[0]; ok {
			main = m
		}
		w = main.clone()
		w.str = map[uint16]map[string]string{}
		for l, m := range src {
			switch {
			case m.str[l] != nil:
				w.str[l] = m.str[l]
			case m.str[0] != nil:
				w.str[l] = m.str[0]
			default:
				for _, st := range m.str {
					w.str[l] = st
				}
			}
		}
	}
	w.same(t, got, time.Nanosecond, "merged")
	got.Set(0x409, "changed", "x")
	for l := range src {
		src[l].same(t, in[l], time.Nanosecond, "after the merged structure was changed")
	}
}

// ---- C19

func versionJSON(t *T) {
	m := randVer(t.r, 5, 4, 8)
	if !m.time.IsZero() {
		_, off := m.time.Zone()
		if off%60 != 0 || m.time.UTC().Year() > 9998 {
			m.time = m.time.UTC()
		}
		m.time = m.time.UTC()
		if t.r.Intn(2) == 0 {
			m.time = m.time.In(time.FixedZone("", (t.r.Intn(1440)-720)*60))
		}
		if m.time.Year() > 9999 || m.time.Year() < 1 {
			m.time = m.time.UTC()
		}
	}
	t.note("%v", m)
	vi := m.build(t)
	b, err := json.Marshal(vi)
	t.check(err == nil, "MarshalJSON failed: %v", err)
	t.note("%s", b)
	m.same(t, vi, time.Nanosecond, "source")
	for i := 0; i < 2; i++ {
		back := &version.Info{}
		if i == 1 {
			back = randVer(t.r, 4, 3, 5).build(t)
		}
		t.check(json.Unmarshal(b, back) == nil, "UnmarshalJSON failed")
		m.same(t, back, time.Nanosecond, []string{"unmarshalled", "unmarshalled over another value"}[i])
	}
}

// ---- C20

func setVersion(t *T) {
	r := t.r
	m := randVer(r, 4, 3, 4)
	vi := m.build(t)
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		var s strings.Builder
		var want [4]uint16
		s.WriteString([]string{"", "", "v", "version ", "Ω ", ".", "x.", "β-"}[r.Intn(8)])
		n := r.Intn(6)
		if r.Intn(8) == 0 {
			n = 6 + r.Intn(4)
		}
		for j := 0; j < n; j++ {
			v := randU16(r)
			if j > 0 {
				s.WriteByte('.')
			}
			if r.Intn(6) == 0 {
				s.WriteString(strings.Repeat("0", r.Intn(8)))
			}
			s.WriteString(strconv.Itoa(int(v)))
			if j < 4 {
				want[j] = v
			}
		}
		if n > 0 {
			s.WriteString([]string{"", "", "-rc1", " 9.9", "a", "é5", "/7.7", ":1", "-", ".x", "., 3"}[r.Intn(11)])
		} else {
			s.WriteString([]string{"", "none", "-", "...", "é"}[r.Intn(5)])
		}
		txt := s.String()
		t.note("%v; set %q", m, txt)
		k := version.FileVersion
		if r.Intn(2) == 0 {
			vi.SetFileVersion(txt)
			m.file = want
		} else {
			vi.SetProductVersion(txt)
			m.prod = want
			k = version.ProductVersion
		}
		if len(m.str) == 0 {
			m.str[0] = map[string]string{}
		}
		for _, st := range m.str {
			st[k] = txt
		}
		m.same(t, vi, time.Nanosecond, fmt.Sprintf("after %s was set to %q", k, txt))
	}
}

func init() {
	reg("C08", "mutated", 5, 150, func(t *T) { decodeGarbage(t, smashBytes(t, smallVer(t))) })
	reg("C08", "nodes", 5, 300, func(t *T) { decodeGarbage(t, rawVersion(t)) })
	reg("C08", "cut", 1, 30, func(t *T) {
		b := smallVer(t)
		for i := 0; i < 20; i++ {
			c := append([]byte{}, b[:t.r.Intn(len(b)+1)]...)
			if len(c) > 2 && t.r.Intn(2) == 0 {
				le.PutUint16(c, uint16(len(c)))
			}
			decodeGarbage(t, c)
		}
	})
	reg("C08", "json", 3, 200, garbageJSON)
	reg("C08", "random", 1, 30, func(t *T) { decodeGarbage(t, garbage(t.r, 100)) })

	reg("C13", "roundtrip", 6, 80, func(t *T) {
		m := randVer(t.r, 5, 5, 12)
		for !m.fits() {
			m = randVer(t.r, 5, 5, 12)
		}
		binaryRoundTrip(t, m)
	})
	reg("C13", "large", 1, 30, func(t *T) {
		// lengths close to the limits
		r := t.r
		m := randVer(r, 1, 2, 5)
		st := map[string]string{"k": ""}
		m.str[0x409] = st
		n := 1
		for step := 1 << 15; step > 0; step >>= 1 {
			st["k"] = strings.Repeat("x", n+step)
			if m.fits() {
				n += step
			}
		}
		n -= r.Intn(6)
		st["k"] = strings.Repeat("x", n)
		if r.Intn(3) == 0 {
			st[strings.Repeat("y", n/2)] = strings.Repeat("x", n/3)
			st["k"] = ""
		}
		if m.fits() {
			binaryRoundTrip(t, m)
		}
	})
	reg("C13", "many", 1, 3, func(t *T) {
		m := randVer(t.r, 0, 1, 1)
		for i := 0; i < 1+t.r.Intn(400); i++ {
			m.str[uint16(t.r.Intn(65536))] = map[string]string{randKey(t.r): randText(t.r, 3)}
		}
		if m.fits() {
			binaryRoundTrip(t, m)
		}
	})
	reg("C14", "split", 4, 80, splitMerge)
	reg("C14", "merge", 4, 80, mergeParts)
	reg("C19", "json", 5, 80, versionJSON)
	reg("C20", "set", 5, 100, setVersion)
}
