// C12: signed executables are never altered without consent.

// Where a file of fixed content has its parts.
macro rd(r) = rdata(r)
macro peoff(r) = le32(rdata(r), 60)
macro optoff(r) = peoff(r) + 24
macro opt32(r) = rdata(r)[optoff(r)+1] == 1
macro opt64(r) = rdata(r)[optoff(r)+1] == 2
macro dirsoff(r) = optoff(r) + (opt32(r) ? 96 : 112)
macro numdirs(r) = le32(rdata(r), dirsoff(r) - 4)
macro numsect(r) = le16(rdata(r), peoff(r) + 6)
macro soh(r) = le16(rdata(r), peoff(r) + 20)
macro hdrlen(r) = optoff(r) + soh(r) + 40*numsect(r)
// The headers can be read: every part of them is there and is what it must be.
macro wfpe(r) = rrel(r) && 64 <= rsize(r) && rdata(r)[0] == 77 && rdata(r)[1] == 90 && hdrlen(r) <= rsize(r) && le32(rdata(r), peoff(r)) == 0x4550 && rdata(r)[optoff(r)] == 11 && (opt32(r) || opt64(r)) && 6 <= numdirs(r) && soh(r) == dirsoff(r) - optoff(r) + 8*numdirs(r) && le32(rdata(r), optoff(r) + 32) != 0 && le32(rdata(r), optoff(r) + 36) != 0
macro sigva(r) = le32(rdata(r), dirsoff(r) + 32)
macro sigsize(r) = le32(rdata(r), dirsoff(r) + 36)

// h.length is the size of the headers it describes
macro optsize(h) = is32(h.opt) ? 96 : 112
macro hlen(h) = 0 <= h.stubLength && h.stubLength <= 0xFFFFFFFF && h.length == h.stubLength + 24 + optsize(h) + 8*len(h.dirs) + 40*len(h.sections)

func winres.readPEOffset
props C12
scoped nosafety
  modifies reader(r)
  ensures rrel(r) && old(rpos(r)) == 0 && result1 == nil ==> result0 == peoff(r)
  ensures rrel(r) && old(rpos(r)) == 0 && 64 <= rsize(r) && rdata(r)[0] == 77 && rdata(r)[1] == 90 ==> result1 == nil
  ensures rrel(r) == old(rrel(r))

func winres.getSeekerSize
props C12
scoped nosafety
  modifies reader(r)
  ensures rrel(r) && 0 <= old(rpos(r)) ==> result1 == nil && result0 == rsize(r) && rpos(r) == old(rpos(r))
  ensures rrel(r) == old(rrel(r))

func winres.readPEHeaders
props C12
scoped nosafety
  requires r != nil
  modifies reader(r)
  ensures "what the headers say of the signature" rrel(r) && old(rpos(r)) == 0 && result1 == nil ==> result0.dirs[4].VirtualAddress == sigva(r) && result0.dirs[4].Size == sigsize(r)
  ensures "good headers can be read" wfpe(r) && old(rpos(r)) == 0 ==> result1 == nil
  ensures "alignments are those of the file" rrel(r) && old(rpos(r)) == 0 && result1 == nil ==> sectalign(result0.opt) == le32(rdata(r), optoff(r) + 32) && filealign(result0.opt) == le32(rdata(r), optoff(r) + 36)
  ensures "the size of the headers is known" rrel(r) && old(rpos(r)) == 0 && result1 == nil ==> hlen(result0) && numdirs(r) == len(result0.dirs)
  ensures rrel(r) == old(rrel(r))
  ensures result1 == nil ==> hok(result0) && fresh(result0) && fresh(result0.opt) && fresh(result0.dirs) && fresh(result0.sections)

func winres.IsSignedEXE
props C12
scoped nosafety
  requires exe != nil
  modifies reader(exe)
  ensures "tells whether the signature entry is set" rrel(exe) && 0 <= old(rpos(exe)) && result1 == nil ==> (result0 <==> sigva(exe) != 0)
  ensures "answers for good headers" wfpe(exe) && 0 <= old(rpos(exe)) ==> result1 == nil

// A signature entry of the source, and what the caller said about it.
macro signed(r) = sigva(r) != 0
macro refused(r, how) = signed(r) && how != 1 && how != 2

func (*winres.peWriter).fillSectionsInfo
props C12
scoped nosafety
  requires pewok(pew) && pew.rsrcHdr == nil && pew.relocHdr == nil
  modifies pew.rsrcHdr, pew.relocHdr, pew.src.dataOffset, pew.src.dataEnd, pew.src.virtEnd, pew.src.rsrcEnd
  inv @1 pew.src.dataEnd > 0 || pew.src.dataOffset == 0xFFFFFFFF || pew.src.fileSize > 0xFFFFFFFF
  ensures "there is data in the file" result == nil && pew.src.fileSize < 0xFFFFFFFF && pew.src.fileSize >= pew.src.dataOffset ==> pew.src.dataEnd > 0

macro sigmoved(pew) = pew.h.dirs[4].VirtualAddress == (old(pew.h.dirs[4].VirtualAddress) >= pew.src.dataEnd ? (old(pew.h.dirs[4].VirtualAddress) + (pew.rsrcHdr.PointerToRawData + pew.rsrcHdr.SizeOfRawData - pew.src.rsrcEnd % 0x100000000)) % 0x100000000 : old(pew.h.dirs[4].VirtualAddress))

func (*winres.peWriter).updateHeaders
props C12
scoped nosafety
  requires pewok(pew)
  modifies pew.rsrcHdr, pew.h.sections, pew.h.length, pew.h.file.NumberOfSections, PEHEAPS
  inv @1 pew.h.dirs[4].Size == old(pew.h.dirs[4].Size) && sigmoved(pew)
  ensures pewok(pew) && pew.rsrcHdr != nil
  ensures "the signature entry follows the signature" pew.h.dirs == old(pew.h.dirs) && pew.h.dirs[4].Size == old(pew.h.dirs[4].Size) && sigmoved(pew)

func winres.preparePEWriter
props C12
scoped nosafety
  requires src != nil && len(rsrcData) < 0x100000000
  modifies reader(src), every([]byte), PEHEAPS
  ensures result1 == nil ==> fresh(result0) && pewok(result0) && result0.rsrcHdr != nil && result0.src.r == src && len(result0.rsrcData) >= len(rsrcData)
  ensures rrel(src) == old(rrel(src))
  ensures "refused unless allowed" rrel(src) && old(rpos(src)) == 0 && refused(src, sigHandling) ==> result1 != nil
  ensures "refused with the dedicated error" wfpe(src) && old(rpos(src)) == 0 && refused(src, sigHandling) ==> result1 == ErrSignedPE
  ensures "removal clears the entry" rrel(src) && old(rpos(src)) == 0 && rsize(src) < 0xFFFFFFFF && result1 == nil && sigHandling == 1 && signed(src) ==> result0.h.dirs[4].VirtualAddress == 0 && result0.h.dirs[4].Size == 0
  ensures "removal drops a signature that ends the file" rrel(src) && old(rpos(src)) == 0 && result1 == nil ==> result0.src.fileSize == rsize(src) && result0.src.sigSize == (sigHandling == 1 && signed(src) && sigva(src) + sigsize(src) == rsize(src) ? sigsize(src) : 0)
  ensures "a signature that is kept keeps its entry pointing at it" rrel(src) && old(rpos(src)) == 0 && result1 == nil && !(sigHandling == 1 && signed(src)) ==> result0.h.dirs[4].Size == sigsize(src) && result0.h.dirs[4].VirtualAddress == (sigva(src) >= result0.src.dataEnd ? (sigva(src) + (result0.rsrcHdr.PointerToRawData + result0.rsrcHdr.SizeOfRawData - result0.src.rsrcEnd % 0x100000000)) % 0x100000000 : sigva(src))
