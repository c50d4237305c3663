// C06: no executable can crash the loader, the signature test or the patcher.

macro is32(o) = typeis(o, *peOptionalHeader32) && as(o, *peOptionalHeader32) != nil
macro is64(o) = typeis(o, *peOptionalHeader64) && as(o, *peOptionalHeader64) != nil
macro filealign(o) = typeis(o, *peOptionalHeader32) ? as(o, *peOptionalHeader32).FileAlignment : as(o, *peOptionalHeader64).FileAlignment
macro sectalign(o) = typeis(o, *peOptionalHeader32) ? as(o, *peOptionalHeader32).SectionAlignment : as(o, *peOptionalHeader64).SectionAlignment
macro hok(h) = h != nil && (is32(h.opt) || is64(h.opt)) && len(h.dirs) >= 6
macro pewok(pew) = hok(pew.h) && filealign(pew.h.opt) != 0 && sectalign(pew.h.opt) != 0
define PEHEAPS = every([]pe.SectionHeader32), every([]pe.DataDirectory), every(peOptionalHeader32.SizeOfInitializedData), every(peOptionalHeader32.SizeOfImage), every(peOptionalHeader32.CheckSum), every(peOptionalHeader64.SizeOfInitializedData), every(peOptionalHeader64.SizeOfImage), every(peOptionalHeader64.CheckSum)

func winres.readPEOffset
props C06
scoped
terminates
  modifies reader(r)
  ensures result1 == nil ==> 0 <= result0 && result0 <= 0xFFFFFFFF

func winres.getSeekerSize
props C06
scoped
terminates
  requires r != nil
  modifies reader(r)

func winres.readPEHeaders
props C06
scoped
terminates
  requires r != nil
  modifies reader(r)
  ensures result1 == nil ==> hok(result0) && fresh(result0) && fresh(result0.opt) && fresh(result0.dirs) && fresh(result0.sections)

func winres.extractRSRCSection
props C06
scoped
terminates
  requires r != nil
  modifies reader(r)
  ensures result2 == nil ==> fresh(result0)

func winres.IsSignedEXE
props C06
scoped
terminates
  requires exe != nil
  modifies reader(exe)

func winres.readName
props C06
scoped
terminates
  requires section != nil
  modifies reader(section)

func (winres.dirEntry).readDirTable
props C06
scoped
terminates
  requires section != nil && 0 <= de.offset
  modifies reader(section)
  inv forall k: int :: {entries[k].ident} 0 <= k && k < iter ==> entries[k].ident != nil && 0 <= entries[k].offset
  inv de.leaf ==> forall k: int :: {entries[k].ident} 0 <= k && k < iter ==> typeis(entries[k].ident, ID)
  ensures fresh(result0)
  ensures result1 == nil ==> forall k: int :: {result0[k].ident} 0 <= k && k < len(result0) ==> result0[k].ident != nil && 0 <= result0[k].offset
  ensures result1 == nil && de.leaf ==> forall k: int :: {result0[k].ident} 0 <= k && k < len(result0) ==> typeis(result0[k].ident, ID)

func (winres.dirEntry).readData
props C06
scoped
terminates
  requires section != nil && 0 <= de.offset
  modifies reader(section)
  ensures fresh(result0)

func (*winres.peWriter).roundRaw
props C06 C12
scoped
  requires pewok(pew)
  modifies nothing

func (*winres.peWriter).roundVirt
props C06 C12
scoped
  requires pewok(pew)
  modifies nothing

func (*winres.peWriter).headersLimit
props C06 C12
scoped
  requires hok(pew.h)
  modifies nothing

func (*winres.peWriter).fillSectionsInfo
props C06
scoped
terminates
  requires pewok(pew) && pew.rsrcHdr == nil && pew.relocHdr == nil
  modifies pew.rsrcHdr, pew.relocHdr, pew.src.dataOffset, pew.src.dataEnd, pew.src.virtEnd, pew.src.rsrcEnd

func (*winres.peWriter).requiresNewSection
props C06 C12
scoped
terminates
  requires pewok(pew) && len(pew.rsrcData) < 0x100000000
  modifies pew.rsrcData
  ensures result ==> pew.rsrcHdr != nil
  ensures len(pew.rsrcData) >= old(len(pew.rsrcData)) && (pew.rsrcData == old(pew.rsrcData) || fresh(pew.rsrcData))

func (*winres.peWriter).updateHeaders
props C06
scoped
terminates
  requires pewok(pew)
  modifies pew.rsrcHdr, pew.h.sections, pew.h.length, pew.h.file.NumberOfSections, PEHEAPS
  ensures pewok(pew) && pew.rsrcHdr != nil

func winres.preparePEWriter
props C06
scoped
terminates
  requires src != nil && len(rsrcData) < 0x100000000
  modifies reader(src), every([]byte), PEHEAPS
  ensures result1 == nil ==> fresh(result0) && pewok(result0) && result0.rsrcHdr != nil && result0.src.r == src && len(result0.rsrcData) >= len(rsrcData)

func (*winres.peWriter).applyReloc
props C06
scoped
terminates
  requires pewok(pew) && pew.rsrcHdr != nil
  requires forall k: int :: {reloc[k]} 0 <= k && k < len(reloc) ==> 0 <= reloc[k] && reloc[k] + 4 <= len(pew.rsrcData)
  modifies elems(pew.rsrcData)

func (*winres.peWriter).writeEXE
props C06
scoped
terminates
  requires w != nil && pewok(pew) && pew.rsrcHdr != nil && pew.src.r != nil && isold(pew)
  modifies stream(w), reader(pew.src.r)

func winres.writeBlank
props C06
scoped
terminates
  requires w != nil
  modifies stream(w)
  variant length

func winres.replaceRSRCSection
props C06
scoped
terminates
  requires dst != nil && src != nil && len(rsrcData) < 0x100000000
  requires forall k: int :: {reloc[k]} 0 <= k && k < len(reloc) ==> 0 <= reloc[k] && reloc[k] + 4 <= len(rsrcData)
  modifies stream(dst), reader(src), every([]byte), PEHEAPS

func (*winres.peCheckSum).Sum
props C06 C12
scoped
terminates
  modifies nothing

func (*winres.peCheckSum).Write
props C06 C12
scoped
terminates
  modifies *c, stream(c)

func winres.add16c
props C06 C12
scoped
  modifies nothing

func (*winres.ResourceSet).read
props C06
scoped
terminates
  requires rs != nil && wf(rs) && typeID != nil
  modifies ANYSET
  ensures wf(rs)

func winres.loadFromEXE
props C06
scoped
terminates
  requires exe != nil && typeID != nil
  modifies reader(exe), ANYSET
  ensures result0 != nil ==> wf(result0)

func winres.LoadFromEXE
props C06
scoped
terminates
  requires exe != nil
  modifies reader(exe), ANYSET
  ensures result0 != nil ==> wf(result0)

func winres.LoadFromEXESingleType
props C06
scoped
terminates
  requires exe != nil && typeID != nil
  modifies reader(exe), ANYSET
  ensures result0 != nil ==> wf(result0)

// Only called by read: rs is the set being read.
func (winres.dirEntry).walk
props C06
scoped inline
  inv wf(rs)
