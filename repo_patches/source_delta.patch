From f3df08d1bc9e2df298f9fe1e3bebe172e594ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 01/26] fix: peCheckSum.Write accepts an empty write

After an odd number of bytes, an empty write computed its loop bound from
an underflowed length and panicked.
---
 pesum.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pesum.go b/pesum.go
index 3aab3f4..78275e6 100644
--- a/pesum.go
+++ b/pesum.go
@@ -19,6 +19,9 @@ func (c *peCheckSum) Sum() uint32 {
 //
 // That file must have its CheckSum field set to zero.
 func (c *peCheckSum) Write(p []byte) (int, error) {
+	if len(p) == 0 {
+		return 0, nil
+	}
 	l := uint32(len(p))
 	o := c.size & 1
 	m := (l-o)&^1 + o
-- 
2.43.0


From d3bc5dba0a2a562fedebf6444db3248de72ed5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:22 +0000
Subject: [PATCH 02/26] fix: a type whose names are already ordered still
 orders the languages of its changed resources

---
 rsrc.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rsrc.go b/rsrc.go
index daf302f..8767c27 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -244,16 +244,18 @@ func (te *typeEntry) size() int {
 // order orders ids and names following the specification, and saves them in orderedKeys.
 // It calls resourceEntry.order() too, for each resource entry it owns.
 func (te *typeEntry) order() {
+	// Order LCIDs in every resource
+	for _, re := range te.resources {
+		re.order()
+	}
+
 	if te.orderedKeys != nil {
 		return
 	}
 
 	te.orderedKeys = make([]Identifier, 0, len(te.resources))
-	for ident, re := range te.resources {
+	for ident := range te.resources {
 		te.orderedKeys = append(te.orderedKeys, ident)
-
-		// Order LCIDs in every resource
-		re.order()
 	}
 
 	// Names in case sensitive ascending order, then IDs in ascending order
-- 
2.43.0


From 837b20c2148ca37a09a652f7137519544669d8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:54 +0000
Subject: [PATCH 03/26] fix: count entries of a resource directory table
 without 16-bit overflow

---
 rsrc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsrc.go b/rsrc.go
index 8767c27..f9b1240 100644
--- a/rsrc.go
+++ b/rsrc.go
@@ -505,7 +505,7 @@ func (de dirEntry) readDirTable(section *bytes.Reader) ([]dirEntry, error) {
 		return nil, err
 	}
 
-	dir := make([]resourceDirectoryIDEntry, table.NumberOfNameEntries+table.NumberOfIDEntries)
+	dir := make([]resourceDirectoryIDEntry, int(table.NumberOfNameEntries)+int(table.NumberOfIDEntries))
 	err = binaryRead(section, &dir)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9357ca0cb7825d7bbaf6e3ff9224eefcca8bd534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 04/26] fix: refuse an optional header too short to hold its
 magic number

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 9422d01..d9e07b6 100644
--- a/exe.go
+++ b/exe.go
@@ -631,7 +631,7 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	if err != nil {
 		return nil, err
 	}
-	if optHdr[0] != 11 {
+	if len(optHdr) < 2 || optHdr[0] != 11 {
 		return nil, errors.New(errUnknownPE)
 	}
 	switch optHdr[1] {
-- 
2.43.0


From 7589fb43bdd389e528ddadc0daca72dc204433d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 05/26] fix: refuse cursor images too short for a bitmap header
 or a hot spot

---
 cursor.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cursor.go b/cursor.go
index c0ea9e6..6e2e774 100644
--- a/cursor.go
+++ b/cursor.go
@@ -202,6 +202,10 @@ func (rs *ResourceSet) GetCursorTranslation(resID Identifier, langID uint16) (*C
 		if img == nil {
 			return nil, errors.New(errCursorMissing)
 		}
+		if len(img) < 4 {
+			// The hot spot itself doesn't fit
+			return nil, errors.New(errInvalidGroup)
+		}
 		g.images = append(g.images, cursorImage{
 			info:  entry.cursorInfo,
 			image: img[4:],
@@ -321,6 +325,10 @@ func readDIBBitCount(data []byte) (uint16, uint16, error) {
 		return 1, 32, nil
 	}
 
+	if len(data) < 16 {
+		return 0, 0, errors.New(errUnknownImageFormat)
+	}
+
 	hdrSize := uint32(data[3])<<24 | uint32(data[2])<<16 | uint32(data[1])<<8 | uint32(data[0])
 
 	if hdrSize != 40 && hdrSize != 108 && hdrSize != 124 {
-- 
2.43.0


From 69483fb90b0bee108ac80f1e21389ef5c00f829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 06/26] fix: SaveICO writes the actual size of images

---
 icon.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/icon.go b/icon.go
index fb634d3..968290f 100644
--- a/icon.go
+++ b/icon.go
@@ -116,8 +116,11 @@ func (icon *Icon) SaveICO(ico io.Writer) error {
 
 	icon.order()
 	for i := range icon.images {
+		info := icon.images[i].info
+		// The size found in a group resource may be wrong
+		info.BytesInRes = uint32(len(icon.images[i].image))
 		err = binary.Write(ico, binary.LittleEndian, &iconFileDirEntry{
-			iconInfo:    icon.images[i].info,
+			iconInfo:    info,
 			ImageOffset: uint32(offset),
 		})
 		if err != nil {
-- 
2.43.0


From 9ae5343bd423d47c8a096fe324222923e4b50d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:01 +0000
Subject: [PATCH 07/26] fix: a version string without value may end before its
 padding

---
 version/binary.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/version/binary.go b/version/binary.go
index 4799cf4..ab8cd1e 100644
--- a/version/binary.go
+++ b/version/binary.go
@@ -293,6 +293,9 @@ func (vi *Info) readNode(parent interface{}, data []byte) (int, error) {
 		// Under a language ID, this is a key/value pair
 		if id, ok := parent.(uint16); ok {
 			pos = align(pos)
+			if pos > len(data) {
+				pos = len(data)
+			}
 			value, err := readStringWithLength(data, &pos, int(n.ValueLength))
 			if err != nil {
 				return 0, err
-- 
2.43.0


From 8427bbd81bd792ecd321c15f635a4a0b8528d652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 08/26] fix: ignore null translations in version info JSON

---
 version/json.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/version/json.go b/version/json.go
index ca1e1a5..21e200c 100644
--- a/version/json.go
+++ b/version/json.go
@@ -101,6 +101,9 @@ func (vi *Info) UnmarshalJSON(b []byte) error {
 
 	vi.lt = make(LangTable)
 	for h, v := range jvi.Info {
+		if v == nil {
+			continue
+		}
 		var k uint16
 		_, err := fmt.Sscanf(h, "%X", &k)
 		if err == nil {
-- 
2.43.0


From a561ee3d47abc2f2a59c16083af11e97b3db01ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 09/26] fix: GetMainTranslation returns nil when there is no
 translation

---
 version/version.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/version/version.go b/version/version.go
index 8997ac2..273f958 100644
--- a/version/version.go
+++ b/version/version.go
@@ -355,5 +355,8 @@ func (lt LangTable) GetMainTranslation() StringTable {
 			lang = k
 		}
 	}
+	if lt[lang] == nil {
+		return nil
+	}
 	return *lt[lang]
 }
-- 
2.43.0


From ac67954cafee0f6b8fd057bff2f0dc854e901d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:43 +0000
Subject: [PATCH 10/26] fix: convert version timestamps outside of 1678..2262

---
 version/timestamp.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/version/timestamp.go b/version/timestamp.go
index 9b34d00..602d901 100644
--- a/version/timestamp.go
+++ b/version/timestamp.go
@@ -4,23 +4,27 @@ import "time"
 
 // Conversion of Windows Time Stamp
 
-// Difference Unix epoch in Windows timestamp format.
-const unixEpoch = 0x019DB1DED53E8000
+// Difference between the Unix epoch and the Windows epoch (1601-01-01), in seconds.
+const unixEpoch = 11644473600
 
 // Windows timestamp is in "hecto-nanoseconds" (100 ns)
-const tsUnitToNano = 100
+const (
+	tsUnitToNano  = 100
+	tsUnitsPerSec = 1e9 / tsUnitToNano
+)
 
 func timeToTimestamp(t time.Time) (uint32, uint32) {
 	if t.IsZero() {
 		return 0, 0
 	}
-	ts := t.UnixNano()/tsUnitToNano + unixEpoch
-	return uint32(uint64(ts) >> 32), uint32(ts)
+	ts := uint64(t.Unix()+unixEpoch)*tsUnitsPerSec + uint64(t.Nanosecond())/tsUnitToNano
+	return uint32(ts >> 32), uint32(ts)
 }
 
 func timestampToTime(ms uint32, ls uint32) time.Time {
 	if ms == 0 && ls == 0 {
 		return time.Time{}
 	}
-	return time.Unix(0, int64((uint64(ms)<<32|uint64(ls))-unixEpoch)*tsUnitToNano)
+	ts := uint64(ms)<<32 | uint64(ls)
+	return time.Unix(int64(ts/tsUnitsPerSec)-unixEpoch, int64(ts%tsUnitsPerSec)*tsUnitToNano)
 }
-- 
2.43.0


From 5994aea66a724fbc32c0cab78ddf6bd82f73a0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:15 +0000
Subject: [PATCH 11/26] fix: escape manifest texts for XML

---
 manifest.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/manifest.go b/manifest.go
index 08c037f..34f2546 100644
--- a/manifest.go
+++ b/manifest.go
@@ -95,10 +95,10 @@ var manifestTemplate = `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <assembly xmlns="urn:schemas-microsoft-com:asm.v1" manifestVersion="1.0">
 {{- if .AssemblyName}}
 
-  <assemblyIdentity type="win32" name="{{.AssemblyName | html}}" version="{{.AssemblyVersion}}" processorArchitecture="*"/>
+  <assemblyIdentity type="win32" name="{{.AssemblyName | xmlAttr}}" version="{{.AssemblyVersion}}" processorArchitecture="*"/>
 {{- end}}
 {{- if .Description}}
-  <description>{{.Description | html}}</description>
+  <description>{{.Description | xmlText}}</description>
 {{- end}}
 
   <compatibility xmlns="urn:schemas-microsoft-com:compatibility.v1">
@@ -224,7 +224,8 @@ func makeManifest(manifest AppManifest) []byte {
 	}
 
 	buf := &bytes.Buffer{}
-	tmpl := template.Must(template.New("manifest").Parse(manifestTemplate))
+	funcs := template.FuncMap{"xmlAttr": escapeXMLAttr, "xmlText": escapeXMLText}
+	tmpl := template.Must(template.New("manifest").Funcs(funcs).Parse(manifestTemplate))
 	err := tmpl.Execute(buf, vars)
 	if err != nil {
 		panic(err)
@@ -233,6 +234,20 @@ func makeManifest(manifest AppManifest) []byte {
 	return buf.Bytes()
 }
 
+// escapeXMLAttr escapes the value of an XML attribute.
+// Characters that XML cannot represent are replaced with U+FFFD.
+func escapeXMLAttr(s string) (string, error) {
+	buf := &bytes.Buffer{}
+	err := xml.EscapeText(buf, []byte(s))
+	return buf.String(), err
+}
+
+// escapeXMLText escapes the text of an XML element, where line feeds may stay as is.
+func escapeXMLText(s string) (string, error) {
+	s, err := escapeXMLAttr(s)
+	return strings.ReplaceAll(s, "&#xA;", "\n"), err
+}
+
 type appManifestXML struct {
 	Identity struct {
 		Name    string `xml:"name,attr"`
-- 
2.43.0


From ed5bdbc3e7e1cae2ee5abc0fe92053c65016f473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 12/26] fix: cursors made from opaque images keep their 32 bits
 and alpha channel

---
 cursor.go | 21 +++++++++++++++++++++
 icon.go   |  3 +--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/cursor.go b/cursor.go
index 6e2e774..11716f9 100644
--- a/cursor.go
+++ b/cursor.go
@@ -291,6 +291,10 @@ func (cursor *Cursor) addImage(img image.Image, hotSpot HotSpot) error {
 	dib := buf.Bytes()[14:]
 
 	width, height := curImg.Bounds().Size().X, curImg.Bounds().Size().Y
+	if dib[14] == 24 {
+		// The encoder leaves the alpha channel out when the image is opaque.
+		dib = addAlphaToDIB(dib, width, height)
+	}
 	// Height must be doubled in the DIB header, as if there was an AND mask for transparency.
 	// In a 32 bits DIB, the mask can be the alpha channel, therefore there is no AND mask.
 	dib[8] = byte(height << 1)
@@ -311,6 +315,23 @@ func (cursor *Cursor) addImage(img image.Image, hotSpot HotSpot) error {
 	return nil
 }
 
+// addAlphaToDIB converts an opaque 24 bits DIB to a 32 bits one.
+func addAlphaToDIB(dib []byte, width int, height int) []byte {
+	const hdrLen = 40
+	stride := (width*3 + 3) &^ 3
+	out := make([]byte, hdrLen, hdrLen+width*height*4)
+	copy(out, dib)
+	out[14] = 32
+	binary.LittleEndian.PutUint32(out[20:], uint32(width*height*4))
+	for y := 0; y < height; y++ {
+		row := dib[hdrLen+y*stride:]
+		for x := 0; x < width; x++ {
+			out = append(out, row[x*3], row[x*3+1], row[x*3+2], 0xFF)
+		}
+	}
+	return out
+}
+
 func (cursor *Cursor) order() {
 	sort.SliceStable(cursor.images, func(i, j int) bool {
 		img1, img2 := &cursor.images[i].info, &cursor.images[j].info
diff --git a/icon.go b/icon.go
index 968290f..21ae863 100644
--- a/icon.go
+++ b/icon.go
@@ -6,7 +6,6 @@ import (
 	"errors"
 	"fmt"
 	"image"
-	"image/color"
 	"image/png"
 	"io"
 	"sort"
@@ -330,7 +329,7 @@ func resizeImage(img image.Image, size int) image.Image {
 
 func imageInSquareNRGBA(img image.Image, center bool) image.Image {
 	w, h := img.Bounds().Size().X, img.Bounds().Size().Y
-	if w == h && img.ColorModel() == color.NRGBAModel {
+	if _, ok := img.(*image.NRGBA); ok && w == h {
 		return img
 	}
 
-- 
2.43.0


From dea2e8e775ed734ac655ccf9c022ed9ee93a06f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:44 +0000
Subject: [PATCH 13/26] fix: refuse to patch an executable with a zero
 alignment

---
 exe.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exe.go b/exe.go
index d9e07b6..0628771 100644
--- a/exe.go
+++ b/exe.go
@@ -285,6 +285,9 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	if err != nil {
 		return nil, err
 	}
+	if pew.h.opt.getFileAlignment() == 0 || pew.h.opt.getSectionAlignment() == 0 {
+		return nil, errors.New(errUnknownPE)
+	}
 
 	if len(pew.h.dirs) > pe.IMAGE_DIRECTORY_ENTRY_SECURITY && pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress > 0 {
 		switch sigHandling {
-- 
2.43.0


From 9eaa99395c29d4d1fa0294f69673878f770169fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:46 +0000
Subject: [PATCH 14/26] fix: patch executables without a .reloc section, when
 .rsrc is not last

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 0628771..e5d9696 100644
--- a/exe.go
+++ b/exe.go
@@ -377,7 +377,7 @@ func (pew *peWriter) requiresNewSection() bool {
 	if endOfRSRC >= pew.src.virtEnd {
 		return false
 	}
-	if pew.relocHdr.VirtualAddress == endOfRSRC &&
+	if pew.relocHdr != nil && pew.relocHdr.VirtualAddress == endOfRSRC &&
 		pew.roundVirt(pew.relocHdr.VirtualAddress+pew.relocHdr.VirtualSize) >= pew.src.virtEnd {
 		return false
 	}
-- 
2.43.0


From 5050256d1e20b48a45819eac7228ec1cd6ebe8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:48 +0000
Subject: [PATCH 15/26] fix: read 65535 section headers without 16-bit overflow

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index e5d9696..1128bcc 100644
--- a/exe.go
+++ b/exe.go
@@ -661,7 +661,7 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	h.dirs = make([]pe.DataDirectory, numDirs)
 	binaryRead(optRead, &h.dirs)
 
-	h.sections = make([]pe.SectionHeader32, h.file.NumberOfSections, h.file.NumberOfSections+1)
+	h.sections = make([]pe.SectionHeader32, h.file.NumberOfSections, int(h.file.NumberOfSections)+1)
 	err = binaryRead(r, &h.sections)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 31b0d59a8c149d6fe55199b1689fc9a81b336b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:50 +0000
Subject: [PATCH 16/26] fix: refuse to patch an executable whose sections lie
 outside of the file

---
 exe.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 1128bcc..a858b06 100644
--- a/exe.go
+++ b/exe.go
@@ -310,7 +310,7 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		return nil, err
 	}
 
-	if pew.src.fileSize < int64(pew.src.dataEnd) {
+	if pew.src.fileSize < int64(pew.src.dataOffset) || pew.src.fileSize < int64(pew.src.dataEnd) {
 		return nil, io.ErrUnexpectedEOF
 	}
 	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
@@ -338,6 +338,9 @@ func (pew *peWriter) fillSectionsInfo() error {
 				return errors.New(errRSRCTwice)
 			}
 			pew.rsrcHdr = &pew.h.sections[i]
+			if int64(pew.rsrcHdr.PointerToRawData)+int64(pew.rsrcHdr.SizeOfRawData) > pew.src.fileSize {
+				return io.ErrUnexpectedEOF
+			}
 			pew.src.rsrcEnd = int64(pew.roundRaw(pew.rsrcHdr.PointerToRawData + pew.rsrcHdr.SizeOfRawData))
 		}
 		if pew.h.sections[i].VirtualAddress == pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_BASERELOC].VirtualAddress {
@@ -357,6 +360,9 @@ func (pew *peWriter) fillSectionsInfo() error {
 			// calculations, as they do not occupy any data in the file.
 			continue
 		}
+		if int64(pew.h.sections[i].PointerToRawData)+int64(pew.h.sections[i].SizeOfRawData) > pew.src.fileSize {
+			return io.ErrUnexpectedEOF
+		}
 		if pew.h.sections[i].PointerToRawData < pew.src.dataOffset {
 			pew.src.dataOffset = pew.h.sections[i].PointerToRawData
 		}
-- 
2.43.0


From 203b5c27aa725bd263c3b2ae1e27fecb1d42a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:52 +0000
Subject: [PATCH 17/26] fix: sections without raw data do not tell where data
 starts

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index a858b06..284951a 100644
--- a/exe.go
+++ b/exe.go
@@ -355,7 +355,7 @@ func (pew *peWriter) fillSectionsInfo() error {
 		if pew.h.sections[i].VirtualAddress+pew.h.sections[i].VirtualSize > pew.src.virtEnd {
 			pew.src.virtEnd = pew.h.sections[i].VirtualAddress + pew.h.sections[i].VirtualSize
 		}
-		if pew.h.sections[i].Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA != 0 {
+		if pew.h.sections[i].Characteristics&pe.IMAGE_SCN_CNT_UNINITIALIZED_DATA != 0 || pew.h.sections[i].SizeOfRawData == 0 {
 			// Exclude sections containing uninitialized data from file offset
 			// calculations, as they do not occupy any data in the file.
 			continue
-- 
2.43.0


From 102bcabe728cd8faa89954aaa3f807e929a6c965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:14 +0000
Subject: [PATCH 18/26] fix: check for header room when replacing the .rsrc
 section with a new one

---
 exe.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exe.go b/exe.go
index 284951a..86ffeb0 100644
--- a/exe.go
+++ b/exe.go
@@ -313,15 +313,15 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	if pew.src.fileSize < int64(pew.src.dataOffset) || pew.src.fileSize < int64(pew.src.dataEnd) {
 		return nil, io.ErrUnexpectedEOF
 	}
-	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
-		return nil, errors.New(errNoRoomForRSRC)
-	}
 
 	if pew.requiresNewSection() {
 		// Play it safe, abandon the existing .rsrc section and create a new one.
 		pew.rsrcHdr.Name = [8]byte{'o', 'l', 'd', '.', 'r', 's', 'r', 'c'}
 		pew.rsrcHdr = nil
 	}
+	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
+		return nil, errors.New(errNoRoomForRSRC)
+	}
 
 	pew.updateHeaders()
 
-- 
2.43.0


From d9730fefb02190725251dc03d5df1adce06f3f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:16 +0000
Subject: [PATCH 19/26] fix: a new .rsrc section keeps the data appended to the
 file, and does not repeat sections

---
 exe.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 86ffeb0..d271c08 100644
--- a/exe.go
+++ b/exe.go
@@ -318,6 +318,7 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		// Play it safe, abandon the existing .rsrc section and create a new one.
 		pew.rsrcHdr.Name = [8]byte{'o', 'l', 'd', '.', 'r', 's', 'r', 'c'}
 		pew.rsrcHdr = nil
+		pew.src.rsrcEnd = int64(pew.src.dataEnd)
 	}
 	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
 		return nil, errors.New(errNoRoomForRSRC)
@@ -330,7 +331,6 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 
 func (pew *peWriter) fillSectionsInfo() error {
 	pew.src.dataOffset = 0xFFFFFFFF
-	pew.src.rsrcEnd = pew.src.fileSize
 
 	for i := range pew.h.sections {
 		if pew.h.sections[i].VirtualAddress == pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_RESOURCE].VirtualAddress {
@@ -372,6 +372,10 @@ func (pew *peWriter) fillSectionsInfo() error {
 	}
 	pew.src.virtEnd = pew.roundVirt(pew.src.virtEnd)
 
+	if pew.rsrcHdr == nil {
+		pew.src.rsrcEnd = int64(pew.src.dataEnd)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 3e1362757e391455fee7d50c047c298656a426e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:17 +0000
Subject: [PATCH 20/26] fix: padding the .rsrc section must not shift the
 following sections

---
 exe.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index d271c08..ede8327 100644
--- a/exe.go
+++ b/exe.go
@@ -393,7 +393,8 @@ func (pew *peWriter) requiresNewSection() bool {
 	}
 
 	// From here, we should not shift data after the existing .rsrc section
-	if pew.rsrcHdr.SizeOfRawData >= uint32(len(pew.rsrcData)) {
+	if pew.rsrcHdr.SizeOfRawData >= uint32(len(pew.rsrcData)) &&
+		pew.roundVirt(pew.rsrcHdr.SizeOfRawData) == pew.roundVirt(pew.rsrcHdr.VirtualSize) {
 		// The .rsrc section won't grow, so we only have to ensure it won't shrink too much either
 		buf := make([]byte, pew.rsrcHdr.SizeOfRawData)
 		copy(buf, pew.rsrcData)
-- 
2.43.0


From ac9985598d05b6371de768fd64b4d357e0e3fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 21/26] fix: shift the certificate table along with the end of
 the file

---
 exe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index ede8327..b2e6197 100644
--- a/exe.go
+++ b/exe.go
@@ -449,7 +449,7 @@ func (pew *peWriter) updateHeaders() {
 	}
 
 	if pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress >= pew.src.dataEnd {
-		pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress += lastSection.PointerToRawData + lastSection.SizeOfRawData - pew.src.dataEnd
+		pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_SECURITY].VirtualAddress += pew.rsrcHdr.PointerToRawData + pew.rsrcHdr.SizeOfRawData - uint32(pew.src.rsrcEnd)
 	}
 
 	pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_RESOURCE].VirtualAddress = pew.rsrcHdr.VirtualAddress
-- 
2.43.0


From d5bb9fe8dff1adbc4d555cb099234c0fc38c9732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:44 +0000
Subject: [PATCH 22/26] fix: write blanks instead of seeking over whatever the
 destination holds

---
 exe.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/exe.go b/exe.go
index b2e6197..c4f29e4 100644
--- a/exe.go
+++ b/exe.go
@@ -573,16 +573,6 @@ func writeBlank(w io.Writer, length int64) error {
 		return nil
 	}
 
-	if ws, ok := w.(io.WriteSeeker); ok {
-		ws.Seek(length-1, io.SeekCurrent)
-		var b [1]byte
-		_, err := w.Write(b[:])
-		if err != nil {
-			return err
-		}
-		return nil
-	}
-
 	const bufLen = 0x100
 	var b [bufLen]byte
 	for length > 0 {
-- 
2.43.0


From 15cdd1f3f46e0e340bb7a46229d5ab86057fa216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 23/26] fix: report errors of the checksum pass before writing
 anything

---
 exe.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index c4f29e4..434a28c 100644
--- a/exe.go
+++ b/exe.go
@@ -263,7 +263,10 @@ func replaceRSRCSection(dst io.Writer, src io.ReadSeeker, rsrcData []byte, reloc
 
 	if options.forceCheckSum || pew.h.hasChecksum {
 		c := peCheckSum{}
-		pew.writeEXE(&c)
+		err = pew.writeEXE(&c)
+		if err != nil {
+			return err
+		}
 		pew.h.opt.setCheckSum(c.Sum())
 	}
 
-- 
2.43.0


From 7bcd34d0fe2b3f6435a221fcabd6173331d987a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:48 +0000
Subject: [PATCH 24/26] fix: report the errors of Seek

---
 exe.go    | 50 +++++++++++++++++++++++++++++++++++++-------------
 winres.go | 10 ++++++++--
 2 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/exe.go b/exe.go
index 434a28c..87294a4 100644
--- a/exe.go
+++ b/exe.go
@@ -197,9 +197,15 @@ func (h *peOptionalHeader64) setCheckSum(c uint32) {
 }
 
 func extractRSRCSection(r io.ReadSeeker) ([]byte, uint32, error) {
-	r.Seek(0, io.SeekStart)
+	_, err := r.Seek(0, io.SeekStart)
+	if err != nil {
+		return nil, 0, err
+	}
 
-	fileSize := getSeekerSize(r)
+	fileSize, err := getSeekerSize(r)
+	if err != nil {
+		return nil, 0, err
+	}
 
 	h, err := readPEHeaders(r)
 	if err != nil {
@@ -226,7 +232,10 @@ func extractRSRCSection(r io.ReadSeeker) ([]byte, uint32, error) {
 	}
 	data := make([]byte, sec.SizeOfRawData)
 
-	r.Seek(int64(sec.PointerToRawData), io.SeekStart)
+	_, err = r.Seek(int64(sec.PointerToRawData), io.SeekStart)
+	if err != nil {
+		return nil, 0, err
+	}
 	err = readFull(r, data)
 	if err != nil {
 		return nil, 0, err
@@ -252,7 +261,10 @@ type peWriter struct {
 }
 
 func replaceRSRCSection(dst io.Writer, src io.ReadSeeker, rsrcData []byte, reloc []int, options exeOptions) error {
-	src.Seek(0, io.SeekStart)
+	_, err := src.Seek(0, io.SeekStart)
+	if err != nil {
+		return err
+	}
 
 	pew, err := preparePEWriter(src, rsrcData, options.authenticodeHandling)
 	if err != nil {
@@ -282,7 +294,10 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 	pew.src.r = src
 	pew.rsrcData = rsrcData
 
-	pew.src.fileSize = getSeekerSize(src)
+	pew.src.fileSize, err = getSeekerSize(src)
+	if err != nil {
+		return nil, err
+	}
 
 	pew.h, err = readPEHeaders(src)
 	if err != nil {
@@ -617,7 +632,10 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	if err != nil {
 		return nil, err
 	}
-	r.Seek(h.stubLength, io.SeekStart)
+	_, err = r.Seek(h.stubLength, io.SeekStart)
+	if err != nil {
+		return nil, err
+	}
 
 	var sig [4]byte
 	err = readFull(r, sig[:])
@@ -679,18 +697,24 @@ func readPEHeaders(r io.ReadSeeker) (*peHeaders, error) {
 	return &h, nil
 }
 
-func getSeekerSize(r io.ReadSeeker) int64 {
+func getSeekerSize(r io.ReadSeeker) (int64, error) {
 	switch r := r.(type) {
 	case *os.File:
 		stat, err := r.Stat()
 		if err == nil {
-			return stat.Size()
+			return stat.Size(), nil
 		}
 	case interface{ Size() int64 }:
-		return r.Size()
+		return r.Size(), nil
+	}
+	pos, err := r.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+	size, err := r.Seek(0, io.SeekEnd)
+	if err != nil {
+		return 0, err
 	}
-	pos, _ := r.Seek(0, io.SeekCurrent)
-	size, _ := r.Seek(0, io.SeekEnd)
-	r.Seek(pos, io.SeekStart)
-	return size
+	_, err = r.Seek(pos, io.SeekStart)
+	return size, err
 }
diff --git a/winres.go b/winres.go
index dea9174..bba8ff8 100644
--- a/winres.go
+++ b/winres.go
@@ -346,8 +346,14 @@ func (rs *ResourceSet) WriteToEXE(dst io.Writer, src io.ReadSeeker, opt ...exeOp
 
 // IsSignedEXE helps knowing if an exe file is signed before encountering an error with WriteToEXE.
 func IsSignedEXE(exe io.ReadSeeker) (bool, error) {
-	pos, _ := exe.Seek(0, io.SeekCurrent)
-	exe.Seek(0, io.SeekStart)
+	pos, err := exe.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return false, err
+	}
+	_, err = exe.Seek(0, io.SeekStart)
+	if err != nil {
+		return false, err
+	}
 	h, err := readPEHeaders(exe)
 	exe.Seek(pos, io.SeekStart)
 	if err != nil {
-- 
2.43.0


From 1c2a43c0fb5553e8bce7eea87daadb1dafbf172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:31 +0000
Subject: [PATCH 25/26] fix: keep what the headers hold after the section table
 (bound imports)

---
 exe.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/exe.go b/exe.go
index 87294a4..5b5fd64 100644
--- a/exe.go
+++ b/exe.go
@@ -540,21 +540,17 @@ func (pew *peWriter) writeEXE(w io.Writer) error {
 	if err != nil {
 		return err
 	}
-	err = writeBlank(w, int64(pew.src.dataOffset)-pew.h.length)
-	if err != nil {
-		return err
-	}
-	_, err = pew.src.r.Seek(int64(pew.src.dataOffset), io.SeekStart)
+	_, err = pew.src.r.Seek(pew.h.length, io.SeekStart)
 	if err != nil {
 		return err
 	}
 
-	// Sections before .rsrc
+	// Rest of the headers, and sections before .rsrc
 	end := int64(pew.src.dataEnd)
 	if int64(pew.rsrcHdr.PointerToRawData) < end {
 		end = int64(pew.rsrcHdr.PointerToRawData)
 	}
-	_, err = io.CopyN(w, pew.src.r, end-int64(pew.src.dataOffset))
+	_, err = io.CopyN(w, pew.src.r, end-pew.h.length)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 33faf7aefa36bfe52fc59ece283c4efca6030944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:33 +0000
Subject: [PATCH 26/26] fix: a new section header must not overwrite bound
 imports

---
 exe.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/exe.go b/exe.go
index 5b5fd64..2f09921 100644
--- a/exe.go
+++ b/exe.go
@@ -338,7 +338,7 @@ func preparePEWriter(src io.ReadSeeker, rsrcData []byte, sigHandling authenticod
 		pew.rsrcHdr = nil
 		pew.src.rsrcEnd = int64(pew.src.dataEnd)
 	}
-	if pew.rsrcHdr == nil && (int64(pew.src.dataOffset) < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
+	if pew.rsrcHdr == nil && (pew.headersLimit() < pew.h.length+sizeOfSectionHeader || pew.h.file.NumberOfSections == 0xFFFF) {
 		return nil, errors.New(errNoRoomForRSRC)
 	}
 
@@ -397,6 +397,19 @@ func (pew *peWriter) fillSectionsInfo() error {
 	return nil
 }
 
+// headersLimit returns the offset that the section table must not exceed.
+func (pew *peWriter) headersLimit() int64 {
+	limit := pew.src.dataOffset
+	// Bound imports are stored in the headers, after the section table.
+	if len(pew.h.dirs) > pe.IMAGE_DIRECTORY_ENTRY_BOUND_IMPORT {
+		bound := pew.h.dirs[pe.IMAGE_DIRECTORY_ENTRY_BOUND_IMPORT].VirtualAddress
+		if bound > 0 && bound < limit {
+			limit = bound
+		}
+	}
+	return int64(limit)
+}
+
 func (pew *peWriter) requiresNewSection() bool {
 	if pew.rsrcHdr == nil {
 		return false
-- 
2.43.0

