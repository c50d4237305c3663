package main

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/tc-hib/winres"
)

func xmlText(r *rand.Rand, max int) string {
	s := randText(r, max)
	return strings.Map(func(c rune) rune {
		// what XML 1.0 can represent
		if c == '\t' || c == '\n' || c == '\r' || c >= 0x20 && c <= 0xD7FF || c >= 0xE000 && c <= 0xFFFD || c >= 0x10000 && c <= 0x10FFFF {
			return c
		}
		return -1
	}, s)
}

var (
	allOS    = []winres.SupportedOS{winres.WinVistaAndAbove, winres.Win7AndAbove, winres.Win8AndAbove, winres.Win81AndAbove, winres.Win10AndAbove}
	allDPI   = []winres.DPIAwareness{winres.DPIAware, winres.DPIUnaware, winres.DPIPerMonitor, winres.DPIPerMonitorV2}
	allLevel = []winres.ExecutionLevel{winres.AsInvoker, winres.HighestAvailable, winres.RequireAdministrator}
)

// the nth combination of the settings that take few values
func manifestOf(n int) winres.AppManifest {
	m := winres.AppManifest{}
	m.Compatibility = allOS[n%5]
	n /= 5
	m.DPIAwareness = allDPI[n%4]
	n /= 4
	m.ExecutionLevel = allLevel[n%3]
	n /= 3
	for _, b := range []*bool{&m.UIAccess, &m.AutoElevate, &m.DisableTheming, &m.DisableWindowFiltering, &m.HighResolutionScrollingAware,
		&m.UltraHighResolutionScrollingAware, &m.LongPathAware, &m.PrinterDriverIsolation, &m.GDIScaling, &m.SegmentHeap, &m.UseCommonControlsV6} {
		*b = n&1 != 0
		n >>= 1
	}
	return m
}

const manifestCombos = 5 * 4 * 3 << 11

type xmlNode struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Text    string     `xml:",chardata"`
	Nodes   []xmlNode  `xml:",any"`
}

func (n *xmlNode) child(path ...string) *xmlNode {
	for _, p := range path {
		var next *xmlNode
		for i := range n.Nodes {
			if n.Nodes[i].XMLName.Local == p {
				next = &n.Nodes[i]
				break
			}
		}
		if next == nil {
			return nil
		}
		n = next
	}
	return n
}

func (n *xmlNode) attr(name string) string {
	for _, a := range n.Attrs {
		if a.Name.Local == name {
			return a.Value
		}
	}
	return ""
}

// checkManifestXML reads the document without the package.
func checkManifestXML(t *T, m winres.AppManifest, b []byte) {
	root := xmlNode{}
	d := xml.NewDecoder(strings.NewReader(string(b)))
	d.Strict = true
	t.check(d.Decode(&root) == nil, "the manifest is not well formed: %s", b)
	t.check(root.XMLName.Local == "assembly" && root.XMLName.Space == "urn:schemas-microsoft-com:asm.v1", "root %v", root.XMLName)
	id := root.child("assemblyIdentity")
	if m.Identity.Name == "" {
		t.check(id == nil, "an identity was written although there is no name")
	} else {
		v := m.Identity.Version
		t.check(id != nil && id.attr("name") == m.Identity.Name && id.attr("version") == fmt.Sprintf("%d.%d.%d.%d", v[0], v[1], v[2], v[3]), "identity %v", id)
	}
	if m.Description != "" {
		n := root.child("description")
		t.check(n != nil && n.Text == m.Description, "description %v instead of %q", n, m.Description)
	}
	ids := []string{"{8e0f7a12-bfb3-4fe8-b9a5-48fd50a15a9a}", "{1f676c76-80e1-4239-95bb-83d0f6d0da78}", "{4a2f28e3-53b9-4441-ba9c-d69d4a4a6e38}",
		"{35138b9a-5d96-4fbd-8e2d-a2440225f93a}", "{e2011457-1546-43c5-a5fe-008deee3d3f0}"}[:4-int(m.Compatibility)]
	if m.Compatibility == winres.Win10AndAbove {
		ids = ids[:1]
	}
	want := map[string]bool{}
	for i, s := range ids {
		if i <= 3-int(m.Compatibility) {
			want[s] = true
		}
	}
	got := map[string]bool{}
	app := root.child("compatibility", "application")
	t.check(app != nil, "no compatibility element")
	for _, n := range app.Nodes {
		got[strings.ToLower(n.attr("Id"))] = true
	}
	t.check(reflect.DeepEqual(got, want), "supported systems %v for %d", got, m.Compatibility)
	set := root.child("application", "windowsSettings")
	t.check(set != nil, "no settings")
	for _, f := range []struct {
		name string
		on   bool
		val  string
	}{
		{"autoElevate", m.AutoElevate, "true"}, {"disableTheming", m.DisableTheming, "true"}, {"disableWindowFiltering", m.DisableWindowFiltering, "true"},
		{"highResolutionScrollingAware", m.HighResolutionScrollingAware, "true"}, {"ultraHighResolutionScrollingAware", m.UltraHighResolutionScrollingAware, "true"},
		{"longPathAware", m.LongPathAware, "true"}, {"printerDriverIsolation", m.PrinterDriverIsolation, "true"}, {"gdiScaling", m.GDIScaling, "true"},
		{"heapType", m.SegmentHeap, "segmentheap"},
	} {
		n := set.child(f.name)
		on := n != nil && strings.EqualFold(strings.TrimSpace(n.Text), f.val)
		t.check(on == f.on, "%s is %v instead of %v", f.name, on, f.on)
	}
	lv := root.child("trustInfo", "security", "requestedPrivileges", "requestedExecutionLevel")
	t.check(lv != nil && lv.attr("level") == []string{"asInvoker", "highestAvailable", "requireAdministrator"}[m.ExecutionLevel] &&
		lv.attr("uiAccess") == fmt.Sprint(m.UIAccess), "execution level %v", lv)
	dep := root.child("dependency", "dependentAssembly", "assemblyIdentity")
	t.check((dep != nil) == m.UseCommonControlsV6, "common controls: %v", dep)
}

func checkManifest(t *T, m winres.AppManifest) {
	t.note("%+v", m)
	want := m
	if m.Identity.Name == "" {
		want.Identity = winres.AssemblyIdentity{}
	}
	rs := &winres.ResourceSet{}
	rs.SetManifest(m)
	b := rs.Get(winres.RT_MANIFEST, winres.ID(1), winres.LCIDDefault)
	t.check(b != nil && rs.Count() == 1, "SetManifest stored nothing under its usual name")
	checkManifestXML(t, m, b)
	got, err := winres.AppManifestFromXML(b)
	t.check(err == nil, "AppManifestFromXML: %v", err)
	t.check(got == want, "through XML:\n%+v\ninstead of\n%+v", got, want)
	j, err := json.Marshal(m)
	t.check(err == nil, "marshalling to JSON: %v", err)
	got = winres.AppManifest{}
	err = json.Unmarshal(j, &got)
	t.check(err == nil, "unmarshalling from JSON: %v", err)
	t.check(got == want, "through JSON %s:\n%+v\ninstead of\n%+v", j, got, want)
	p, err := json.Marshal(&m)
	t.check(err == nil && string(p) == string(j), "marshalling through a pointer differs")
}

// writtenBy other tools: what the elements mean does not depend on case, blanks, or unknown neighbours
func checkTexts(t *T) {
	type unm interface{ UnmarshalText([]byte) error }
	r := t.r
	try := func(name string, vals int, marshal func(int) ([]byte, error), parse func(start int, s string) (int, error)) {
		seen := map[string]int{}
		for i := 0; i < vals; i++ {
			b, err := marshal(i)
			t.check(err == nil, "%s %d: MarshalText failed: %v", name, i, err)
			if o, dup := seen[string(b)]; dup {
				t.fail("%s: %d and %d have the same text %q", name, i, o, b)
			}
			seen[string(b)] = i
			for start := 0; start < vals; start++ {
				got, err := parse(start, string(b))
				t.check(err == nil && got == i, "%s: %q gives %d, %v instead of %d", name, b, got, err, i)
			}
		}
		for _, bad := range []int{-7, vals, vals + 1, 1000} {
			_, err := marshal(bad)
			t.check(err != nil, "%s: MarshalText accepts value %d", name, bad)
		}
		for _, s := range []string{"zzz", "win", "win 7", "win6", "per", "highest available highest", "systems", "admin", "none", "1", "-", "\x00", "win11", "truefalse", "as-invoker"} {
			if _, ok := seen[s]; ok {
				continue
			}
			start := r.Intn(vals)
			got, err := parse(start, s)
			t.check(err != nil, "%s: unknown text %q was accepted as %d", name, s, got)
			t.check(got == start, "%s: refusing %q changed the value from %d to %d", name, s, start, got)
		}
		s := "x" + randText(r, 12)
		start := r.Intn(vals)
		got, err := parse(start, s)
		t.check(err != nil && got == start, "%s: unknown text %q: %d, %v", name, s, got, err)
	}
	try("minimum OS", 5, func(i int) ([]byte, error) {
		return (winres.WinVistaAndAbove + winres.SupportedOS(i)).MarshalText()
	}, func(start int, s string) (int, error) {
		v := winres.WinVistaAndAbove + winres.SupportedOS(start)
		err := v.UnmarshalText([]byte(s))
		return int(v - winres.WinVistaAndAbove), err
	})
	try("DPI awareness", 4, func(i int) ([]byte, error) {
		return winres.DPIAwareness(i).MarshalText()
	}, func(start int, s string) (int, error) {
		v := winres.DPIAwareness(start)
		err := v.UnmarshalText([]byte(s))
		return int(v), err
	})
	try("execution level", 3, func(i int) ([]byte, error) {
		return winres.ExecutionLevel(i).MarshalText()
	}, func(start int, s string) (int, error) {
		v := winres.ExecutionLevel(start)
		err := v.UnmarshalText([]byte(s))
		return int(v), err
	})
}

func init() {
	g := reg("C18", "settings", 4, 200, func(t *T) {
		// 37 is prime: the first cases differ in everything
		n := int(t.seed * 7919 % manifestCombos)
		for i := 0; i < 12; i++ {
			checkManifest(t, manifestOf((n*12+i)%manifestCombos))
		}
	})
	g.max = manifestCombos / 12
	reg("C18", "texts", 6, 200, func(t *T) {
		m := manifestOf(t.r.Intn(manifestCombos))
		m.Identity.Name = xmlText(t.r, 10)
		if t.r.Intn(4) == 0 {
			m.Identity.Name = ""
		}
		for i := range m.Identity.Version {
			m.Identity.Version[i] = randU16(t.r)
		}
		m.Description = xmlText(t.r, 20)
		if t.r.Intn(3) == 0 {
			m.Description = []string{" a ", "\r\n", "\r", "\t", "a\rb", "]]>", "<!-- -->", "&amp;", "{{.}}", "\n", "--", "\ufeff"}[t.r.Intn(12)]
		}
		checkManifest(t, m)
	})
	reg("C18", "forms", 1, 5, checkTexts)
}
