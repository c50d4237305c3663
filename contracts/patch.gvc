// C09, C12: what the patched file is made of.

// What writeEXE relies on: positions are those of a file that can be patched.
macro cutend(pew) = pew.rsrcHdr.PointerToRawData < pew.src.dataEnd ? pew.rsrcHdr.PointerToRawData : pew.src.dataEnd
macro patchable(pew) = rrel(pew.src.r) && hlen(pew.h) && pew.src.fileSize == rsize(pew.src.r) && pew.h.length <= cutend(pew) && pew.src.dataEnd <= pew.src.fileSize && len(pew.rsrcData) <= pew.rsrcHdr.SizeOfRawData && 0 <= pew.src.rsrcEnd && 0 <= pew.src.sigSize && pew.src.rsrcEnd + pew.src.sigSize <= pew.src.fileSize
macro datapos(pew) = old(wlen(w)) + pew.rsrcHdr.PointerToRawData
macro tailpos(pew) = datapos(pew) + pew.rsrcHdr.SizeOfRawData

func winres.writeBlank
props C09 C12
scoped nosafety
  requires w != nil && wlen(w) >= 0
  modifies stream(w)
  inv app(w)
  inv length <= entry(length) && (0 <= entry(length) ==> 0 <= length) && wlen(w) + length == old(wlen(w)) + entry(length)
  inv forall k: int :: {wdata(w)[k]} old(wlen(w)) <= k && k < wlen(w) ==> wdata(w)[k] == 0
  ensures "blanks are zeros" result == nil ==> more(w, length <= 0 ? 0 : length) && (forall k: int :: {wdata(w)[k]} old(wlen(w)) <= k && k < wlen(w) ==> wdata(w)[k] == 0)

func (*winres.peWriter).writeEXE
props C12
scoped nosafety anybytes
  requires w != nil && wlen(w) >= 0 && rrel(pew.src.r) && pewok(pew) && pew.rsrcHdr != nil && pew.src.r != nil && isold(pew)
  modifies stream(w), reader(pew.src.r)
  ensures "nothing written before is lost" result == nil && patchable(pew) ==> app(w)
  ensures "the content after the resources follows them" result == nil && patchable(pew) ==> forall k: int :: {wdata(w)[k]} tailpos(pew) <= k && k < wlen(w) ==> wdata(w)[k] == rdata(pew.src.r)[k - tailpos(pew) + pew.src.rsrcEnd]
  ensures "nothing follows but a signature to remove" result == nil && patchable(pew) ==> wlen(w) == tailpos(pew) + pew.src.fileSize - pew.src.sigSize - pew.src.rsrcEnd

func (*winres.peWriter).writeEXE
props C09
scoped nosafety anybytes
  requires w != nil && wlen(w) >= 0 && rrel(pew.src.r) && pewok(pew) && pew.rsrcHdr != nil && pew.src.r != nil && isold(pew) && patchable(pew)
  modifies stream(w), reader(pew.src.r)
  ensures "nothing written before is lost" result == nil ==> app(w)
  ensures "the DOS stub is kept" result == nil ==> forall k: int :: {wdata(w)[k]} old(wlen(w)) <= k && k < old(wlen(w)) + pew.h.stubLength + 4 ==> wdata(w)[k] == rdata(pew.src.r)[k - old(wlen(w))]
  ensures "the content before the resources is kept in place" result == nil ==> forall k: int :: {wdata(w)[k]} old(wlen(w)) + pew.h.length <= k && k < old(wlen(w)) + cutend(pew) ==> wdata(w)[k] == rdata(pew.src.r)[k - old(wlen(w))]
  ensures "the resources are where their header says" result == nil ==> forall k: int :: {wdata(w)[k]} datapos(pew) <= k && k < datapos(pew) + len(pew.rsrcData) ==> wdata(w)[k] == old(pew.rsrcData[k - datapos(pew)])
  ensures "the content after the resources follows them" result == nil ==> forall k: int :: {wdata(w)[k]} tailpos(pew) <= k && k < wlen(w) ==> wdata(w)[k] == rdata(pew.src.r)[k - tailpos(pew) + pew.src.rsrcEnd]
  ensures "nothing follows but a signature to remove" result == nil ==> wlen(w) == tailpos(pew) + pew.src.fileSize - pew.src.sigSize - pew.src.rsrcEnd

func winres.replaceRSRCSection
props C12
scoped nosafety
  requires dst != nil && src != nil && wlen(dst) >= 0 && len(rsrcData) < 0x100000000 && rrel(src) && rsize(src) < 0xFFFFFFFF
  modifies stream(dst), reader(src), every([]byte), PEHEAPS
  ensures "refused before anything is written" refused(src, options.authenticodeHandling) ==> result != nil && wlen(dst) == old(wlen(dst)) && wdata(dst) == old(wdata(dst)) && werr(dst) == old(werr(dst))
  ensures "refused with the dedicated error" wfpe(src) && refused(src, options.authenticodeHandling) ==> result == ErrSignedPE
