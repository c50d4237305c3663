// Failed writes and reads are reported (C17). These contracts say nothing else, so panics are not their business:
// a call that panics does not return success.

define ANYSET = every(ResourceSet.types), every(ResourceSet.lastIconID), every(ResourceSet.lastCursorID), everymap(map[Identifier]*typeEntry), everymap(map[Identifier]*resourceEntry), everymap(map[ID]*dataEntry), every(typeEntry.orderedKeys), every(resourceEntry.orderedKeys), every(dataEntry.data)

define KEYS = every(typeEntry.orderedKeys), every(typeEntry.namesCount), every(resourceEntry.orderedKeys)

func (*winres.resourceEntry).order
props C17
scoped nosafety
  modifies re.orderedKeys

func (*winres.typeEntry).order
props C17
scoped nosafety
  modifies te.orderedKeys, te.namesCount, every(resourceEntry.orderedKeys)

func (*winres.ResourceSet).order
props C17
scoped nosafety
  modifies s.orderedKeys, s.namesCount, KEYS

func (*winres.ResourceSet).prepare
props C17
scoped nosafety
  modifies KEYS
  ensures result != nil && fresh(result)

func (*winres.ResourceSet).fullSize
props C17
scoped nosafety
  modifies KEYS

func (*winres.typeEntry).write
props C17
scoped nosafety
  modifies stream(w), s.offset
  inv @0 werr(w) == old(werr(w))
  inv @1 werr(w) == old(werr(w))
  ensures "a failed write is reported" told(w, result)

func (*winres.ResourceSet).writeTypeDir
props C17
scoped nosafety
  modifies stream(w), s.offset
  inv @0 werr(w) == old(werr(w))
  inv @1 werr(w) == old(werr(w))
  ensures "a failed write is reported" told(w, result)

func (*winres.ResourceSet).writeResDirs
props C17
scoped nosafety
  modifies stream(w), s.offset
  inv werr(w) == old(werr(w))
  ensures "a failed write is reported" told(w, result)

func (*winres.resourceEntry).write
props C17
scoped nosafety
  modifies stream(w), s.offset, s.relocAddr, every([]int)
  inv werr(w) == old(werr(w))
  ensures "a failed write is reported" told(w, result)

func (*winres.ResourceSet).writeLangDirs
props C17
scoped nosafety
  modifies stream(w), s.offset, s.relocAddr, every([]int)
  inv werr(w) == old(werr(w))
  ensures "a failed write is reported" told(w, result)

func (*winres.dataEntry).write
props C17
scoped nosafety
  modifies stream(w), s.offset
  ensures "a failed write is reported" told(w, result)

func (*winres.ResourceSet).writeDataIndex
props C17
scoped nosafety
  modifies stream(w), s.offset
  inv werr(w) == old(werr(w))
  ensures "a failed write is reported" told(w, result)

func (*winres.dataEntry).writeData
props C17
scoped nosafety
  modifies stream(w)
  ensures "a failed write is reported" told(w, result)

func (*winres.ResourceSet).writeData
props C17
scoped nosafety
  modifies stream(w)
  inv werr(w) == old(werr(w))
  ensures "a failed write is reported" told(w, result)

func (*winres.ResourceSet).write
props C17
scoped nosafety
  modifies stream(w), KEYS, every([]int)
  ensures "a failed write is reported" told(w, result1)

func winres.writeDirectoryTable
props C17
scoped nosafety
  modifies stream(w)
  ensures "a failed write is reported" told(w, result)

func winres.writeDirectoryEntry
props C17
scoped nosafety
  modifies stream(w)
  ensures "a failed write is reported" told(w, result)

func winres.writeDataEntry
props C17
scoped nosafety
  modifies stream(w)
  ensures "a failed write is reported" told(w, result)

func winres.writeRelocTable
props C17
scoped nosafety
  modifies stream(w)
  inv werr(w) == old(werr(w))
  ensures "a failed write is reported" told(w, result)

func winres.writeSymbol
props C17
scoped nosafety
  modifies stream(w)
  ensures "a failed write is reported" told(w, result)

func winres.writeObject
props C17
scoped nosafety
  modifies stream(w), KEYS, every([]int)
  ensures "a failed write is reported" told(w, result)

func (*winres.ResourceSet).WriteObject
props C17
scoped nosafety
  modifies stream(w), KEYS, every([]int)
  ensures "a failed write is reported" told(w, result)

func winres.writeBlank
props C17
scoped nosafety
  modifies stream(w)
  inv werr(w) == old(werr(w))
  ensures "a failed write is reported" told(w, result)

func (*winres.Icon).SaveICO
props C17
scoped nosafety
  modifies stream(ico), every(Icon.images), every([]iconImage)
  inv werr(ico) == old(werr(ico))
  ensures "a failed write is reported" told(ico, result)

func (*winres.Cursor).SaveCUR
props C17
scoped nosafety
  modifies stream(ico), every(Cursor.images), every([]cursorImage)
  inv werr(ico) == old(werr(ico))
  ensures "a failed write is reported" told(ico, result)

func (*winres.peWriter).writeEXE
props C17
scoped nosafety
  requires isold(pew)
  modifies stream(w), reader(pew.src.r)
  ensures "a failed write is reported" told(w, result)
  ensures "a failed read is reported" result == nil ==> rerr(pew.src.r) == old(rerr(pew.src.r))

func (*winres.peWriter).fillSectionsInfo
props C17
scoped nosafety
  modifies pew.rsrcHdr, pew.relocHdr, pew.src.dataOffset, pew.src.dataEnd, pew.src.virtEnd, pew.src.rsrcEnd

func (*winres.peWriter).requiresNewSection
props C17
scoped nosafety
  modifies pew.rsrcData

func winres.preparePEWriter
props C17
scoped nosafety
  modifies reader(src), every([]byte), every([]pe.SectionHeader32), every([]pe.DataDirectory), every(peOptionalHeader32.SizeOfInitializedData), every(peOptionalHeader32.SizeOfImage), every(peOptionalHeader32.CheckSum), every(peOptionalHeader64.SizeOfInitializedData), every(peOptionalHeader64.SizeOfImage), every(peOptionalHeader64.CheckSum)
  ensures result1 == nil ==> fresh(result0) && fresh(result0.h) && result0.src.r == src
  ensures "a failed read is reported" result1 == nil ==> rerr(src) == old(rerr(src))

func (*winres.peWriter).applyReloc
props C17
scoped nosafety
  modifies elems(pew.rsrcData)

func winres.replaceRSRCSection
props C17
scoped nosafety
  modifies stream(dst), reader(src), every([]byte), every([]pe.SectionHeader32), every([]pe.DataDirectory), every(peOptionalHeader32.SizeOfInitializedData), every(peOptionalHeader32.SizeOfImage), every(peOptionalHeader32.CheckSum), every(peOptionalHeader64.SizeOfInitializedData), every(peOptionalHeader64.SizeOfImage), every(peOptionalHeader64.CheckSum)
  ensures "a failed write is reported" told(dst, result)
  ensures "a failed read is reported" result == nil ==> rerr(src) == old(rerr(src))

func winres.extractRSRCSection
props C17
scoped nosafety
  modifies reader(r)
  ensures "a failed read is reported" result2 == nil ==> rerr(r) == old(rerr(r))

func winres.readPEHeaders
props C17
scoped nosafety
  modifies reader(r)
  ensures "a failed read is reported" result1 == nil ==> rerr(r) == old(rerr(r))
  ensures result1 == nil ==> fresh(result0) && fresh(result0.opt) && fresh(result0.dirs) && fresh(result0.sections)

func winres.getSeekerSize
props C17
scoped nosafety
  modifies reader(r)
  ensures "a failed read is reported" result1 == nil ==> rerr(r) == old(rerr(r))

func winres.LoadICO
props C17
scoped nosafety
  modifies reader(ico)
  inv rerr(ico) == old(rerr(ico))
  ensures "a failed read is reported" result1 == nil ==> rerr(ico) == old(rerr(ico))

func winres.LoadCUR
props C17
scoped nosafety
  modifies reader(cur)
  inv rerr(cur) == old(rerr(cur))
  ensures "a failed read is reported" result1 == nil ==> rerr(cur) == old(rerr(cur))

func (*winres.peCheckSum).Sum
props C17
scoped nosafety
  modifies nothing

func (*winres.peCheckSum).Write
props C17
scoped nosafety
  modifies *c, stream(c)

func (*winres.peWriter).updateHeaders
props C17
scoped nosafety
  modifies pew.rsrcHdr, pew.h.sections, pew.h.length, pew.h.file.NumberOfSections, every([]pe.SectionHeader32), every([]pe.DataDirectory), every(peOptionalHeader32.SizeOfInitializedData), every(peOptionalHeader32.SizeOfImage), every(peOptionalHeader32.CheckSum), every(peOptionalHeader64.SizeOfInitializedData), every(peOptionalHeader64.SizeOfImage), every(peOptionalHeader64.CheckSum)

func (*winres.peWriter).headersLimit
props C17
scoped nosafety
  modifies nothing

func (*winres.peWriter).roundRaw
props C17
scoped nosafety
  modifies nothing

func (*winres.peWriter).roundVirt
props C17
scoped nosafety
  modifies nothing

func (*winres.ResourceSet).Set
props C17
scoped nosafety
  modifies ANYSET

func (*winres.ResourceSet).read
props C17
scoped nosafety plain
  modifies ANYSET

func winres.loadFromEXE
props C17
scoped nosafety
  modifies reader(exe), ANYSET
  ensures "a failed read is reported" result1 == nil ==> rerr(exe) == old(rerr(exe))

func winres.LoadFromEXE
props C17
scoped nosafety
  modifies reader(exe), ANYSET
  ensures "a failed read is reported" result1 == nil ==> rerr(exe) == old(rerr(exe))

func winres.LoadFromEXESingleType
props C17
scoped nosafety
  modifies reader(exe), ANYSET
  ensures "a failed read is reported" result1 == nil ==> rerr(exe) == old(rerr(exe))

func (*winres.ResourceSet).bytes
props C17
scoped nosafety
  modifies KEYS, every([]int)

func (*winres.ResourceSet).WriteToEXE
props C17
scoped nosafety
  modifies *
  ensures "a failed write is reported" told(dst, result)
  ensures "a failed read is reported" result == nil ==> rerr(src) == old(rerr(src))

func (*winres.ResourceSet).set
props C17
scoped nosafety
  modifies ANYSET

func (winres.dirEntry).readDirTable
props C17
scoped nosafety
  modifies reader(section)
  ensures fresh(result0)

func (winres.dirEntry).readData
props C17
scoped nosafety
  modifies reader(section)
  ensures fresh(result0)

func winres.add16c
props C17
scoped nosafety
  modifies nothing
