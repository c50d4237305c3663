// C10, C09: headers of the patched file.

// rnd(x, a): x rounded up to a multiple of a; al: it is a multiple
pred rnd(x: int, a: int): int = x + a - 1 - (x + a - 1) % a
pred al(x: int, a: int) = x % a == 0
// alignments that the format allows
pred p2(a: int) = a == 1 || a == 2 || a == 4 || a == 8 || a == 16 || a == 32 || a == 64 || a == 128 || a == 256 || a == 512 || a == 1024 || a == 2048 || a == 4096 || a == 8192 || a == 16384 || a == 32768 || a == 65536 || a == 131072 || a == 262144 || a == 524288 || a == 1048576

lemma rnd_al(x: int, a: int)
  requires p2(a) && 0 <= x
  reveal p2
  reveal rnd
  reveal al
  ensures al(rnd(x, a), a) && x <= rnd(x, a) && rnd(x, a) < x + a
  pattern rnd(x, a)

lemma p2_small(a: int)
  requires p2(a)
  reveal p2
  ensures 1 <= a && a <= 1048576
  pattern p2(a)

func (*winres.peWriter).roundRaw
props C09 C10
scoped
  requires pewok(pew)
  reveal rnd
  modifies nothing
  ensures "rounds up to the file alignment" p + filealign(pew.h.opt) <= 0x100000000 ==> result == rnd(p, filealign(pew.h.opt))

func (*winres.peWriter).roundVirt
props C09 C10
scoped
  requires pewok(pew)
  reveal rnd
  modifies nothing
  ensures "rounds up to the section alignment" p + sectalign(pew.h.opt) <= 0x100000000 ==> result == rnd(p, sectalign(pew.h.opt))

macro SA(pew) = sectalign(pew.h.opt)
macro FA(pew) = filealign(pew.h.opt)
macro imgsize(o) = typeis(o, *peOptionalHeader32) ? as(o, *peOptionalHeader32).SizeOfImage : as(o, *peOptionalHeader64).SizeOfImage
macro inarr(p, s) = 0 <= idxof(p, s) && idxof(p, s) < len(s) && p == &s[idxof(p, s)]
macro isin(pew) = pew.rsrcHdr == nil || inarr(pew.rsrcHdr, pew.h.sections)
// The sections of a well-formed executable of less than 1 GiB, in memory.
macro wfmem(pew) = p2(SA(pew)) && p2(FA(pew)) && len(pew.rsrcData) <= 0x3FFFFFFF && (forall i: int :: {pew.h.sections[i].VirtualAddress} 0 <= i && i < len(pew.h.sections) ==> al(pew.h.sections[i].VirtualAddress, SA(pew)) && 0 < pew.h.sections[i].VirtualSize && pew.h.sections[i].VirtualAddress + pew.h.sections[i].VirtualSize <= 0x3FFFFFFF) && (pew.rsrcHdr != nil ==> forall i: int :: {pew.h.sections[i].VirtualAddress} 0 <= i && i < len(pew.h.sections) && i != idxof(pew.rsrcHdr, pew.h.sections) ==> pew.h.sections[i].VirtualAddress + pew.h.sections[i].VirtualSize <= pew.rsrcHdr.VirtualAddress || pew.rsrcHdr.VirtualAddress + rnd(pew.rsrcHdr.VirtualSize, SA(pew)) <= pew.h.sections[i].VirtualAddress)
// what virtEnd is for
macro above(pew) = pew.rsrcHdr == nil ==> pew.src.virtEnd <= 0x40100000 && (forall i: int :: {pew.h.sections[i].VirtualAddress} 0 <= i && i < len(pew.h.sections) ==> pew.h.sections[i].VirtualAddress + pew.h.sections[i].VirtualSize <= pew.src.virtEnd)

func (*winres.peWriter).updateHeaders
props C10
scoped nosafety
  requires pewok(pew) && isin(pew) && wfmem(pew) && above(pew)
  modifies pew.rsrcHdr, pew.h.sections, pew.h.length, pew.h.file.NumberOfSections, PEHEAPS
  inv @0 pew.rsrcHdr.VirtualAddress == old(pew.rsrcHdr.VirtualAddress) && pew.rsrcHdr == old(pew.rsrcHdr)
  inv @0 forall k: int :: {pew.h.sections[k].VirtualAddress} iter <= k && k < len(pew.h.sections) ==> pew.h.sections[k].VirtualAddress == old(pew.h.sections[k].VirtualAddress)
  inv @0 forall k: int :: {pew.h.sections[k].VirtualAddress} 0 <= k && k < iter && old(pew.h.sections[k].VirtualAddress) <= old(pew.rsrcHdr.VirtualAddress) ==> pew.h.sections[k].VirtualAddress == old(pew.h.sections[k].VirtualAddress)
  inv @0 forall k: int :: {pew.h.sections[k].VirtualAddress} 0 <= k && k < iter && old(pew.h.sections[k].VirtualAddress) > old(pew.rsrcHdr.VirtualAddress) ==> pew.h.sections[k].VirtualAddress == old(pew.h.sections[k].VirtualAddress) + rnd(len(pew.rsrcData), SA(pew)) - rnd(old(pew.rsrcHdr.VirtualSize), SA(pew))
  inv @0 forall k: int :: {pew.h.sections[k].VirtualAddress} 0 <= k && k < iter ==> pew.h.sections[k].VirtualAddress <= lastSection.VirtualAddress
  inv @0 inarr(lastSection, pew.h.sections)
  inv @0 lastSection.VirtualAddress >= pew.rsrcHdr.VirtualAddress && (lastSection == pew.rsrcHdr || lastSection.VirtualAddress > pew.rsrcHdr.VirtualAddress && idxof(lastSection, pew.h.sections) < iter)
  ensures pewok(pew) && pew.rsrcHdr != nil && isin(pew)
  ensures "a section is added only when there is none to replace" len(pew.h.sections) == old(len(pew.h.sections)) + (old(pew.rsrcHdr) == nil ? 1 : 0)
  ensures "what comes before the resources stays" forall k: int :: {pew.h.sections[k].VirtualAddress} 0 <= k && k < old(len(pew.h.sections)) && (old(pew.rsrcHdr) == nil || old(pew.h.sections[k].VirtualAddress) <= old(pew.rsrcHdr.VirtualAddress)) ==> pew.h.sections[k].VirtualAddress == old(pew.h.sections[k].VirtualAddress)
  ensures "what follows the resources moves with them" old(pew.rsrcHdr) != nil ==> forall k: int :: {pew.h.sections[k].VirtualAddress} 0 <= k && k < old(len(pew.h.sections)) && old(pew.h.sections[k].VirtualAddress) > old(pew.rsrcHdr.VirtualAddress) ==> pew.h.sections[k].VirtualAddress == old(pew.h.sections[k].VirtualAddress) + rnd(len(pew.rsrcData), SA(pew)) - rnd(old(pew.rsrcHdr.VirtualSize), SA(pew))
  ensures "the section of the resources has their size" pew.rsrcHdr.VirtualSize == len(pew.rsrcData)
  ensures "the others keep their size" forall k: int :: {pew.h.sections[k].VirtualAddress} 0 <= k && k < old(len(pew.h.sections)) && &pew.h.sections[k] != pew.rsrcHdr ==> pew.h.sections[k].VirtualSize == old(pew.h.sections[k].VirtualSize)

func (*winres.peWriter).updateHeaders
props C10
also places
scoped nosafety
  inv @0 pew.rsrcHdr.VirtualAddress == old(pew.rsrcHdr.VirtualAddress) && pew.rsrcHdr == old(pew.rsrcHdr)
  inv @0 pew.rsrcHdr.PointerToRawData == old(pew.rsrcHdr.PointerToRawData)
  inv @1 forall k: int :: {pew.h.dirs[k].VirtualAddress} iter <= k && k < len(pew.h.dirs) && k != 2 && k != 4 ==> pew.h.dirs[k].VirtualAddress == old(pew.h.dirs[k].VirtualAddress)
  inv @1 forall k: int :: {pew.h.dirs[k].VirtualAddress} 0 <= k && k < iter && k != 2 && k != 4 && (old(pew.rsrcHdr) == nil || old(pew.h.dirs[k].VirtualAddress) <= old(pew.rsrcHdr.VirtualAddress)) ==> pew.h.dirs[k].VirtualAddress == old(pew.h.dirs[k].VirtualAddress)
  inv @1 old(pew.rsrcHdr) != nil ==> forall k: int :: {pew.h.dirs[k].VirtualAddress} 0 <= k && k < iter && k != 2 && k != 4 && old(pew.h.dirs[k].VirtualAddress) > old(pew.rsrcHdr.VirtualAddress) && old(pew.rsrcHdr.VirtualAddress) + rnd(old(pew.rsrcHdr.VirtualSize), SA(pew)) <= old(pew.h.dirs[k].VirtualAddress) && old(pew.h.dirs[k].VirtualAddress) <= 0x3FFFFFFF ==> pew.h.dirs[k].VirtualAddress == old(pew.h.dirs[k].VirtualAddress) + rnd(len(pew.rsrcData), SA(pew)) - rnd(old(pew.rsrcHdr.VirtualSize), SA(pew))
  inv @1 pew.h.dirs[2].VirtualAddress == pew.rsrcHdr.VirtualAddress && pew.h.dirs[2].Size == len(pew.rsrcData)
  ensures "the resource directory entry designates the resources" pew.h.dirs[2].VirtualAddress == pew.rsrcHdr.VirtualAddress && pew.h.dirs[2].Size == len(pew.rsrcData)
  ensures "directories before the resources stay" forall k: int :: {pew.h.dirs[k].VirtualAddress} 0 <= k && k < len(pew.h.dirs) && k != 2 && k != 4 && (old(pew.rsrcHdr) == nil || old(pew.h.dirs[k].VirtualAddress) <= old(pew.rsrcHdr.VirtualAddress)) ==> pew.h.dirs[k].VirtualAddress == old(pew.h.dirs[k].VirtualAddress)
  ensures "directories after the resources move with them" old(pew.rsrcHdr) != nil ==> forall k: int :: {pew.h.dirs[k].VirtualAddress} 0 <= k && k < len(pew.h.dirs) && k != 2 && k != 4 && old(pew.h.dirs[k].VirtualAddress) > old(pew.rsrcHdr.VirtualAddress) && old(pew.rsrcHdr.VirtualAddress) + rnd(old(pew.rsrcHdr.VirtualSize), SA(pew)) <= old(pew.h.dirs[k].VirtualAddress) && old(pew.h.dirs[k].VirtualAddress) <= 0x3FFFFFFF ==> pew.h.dirs[k].VirtualAddress == old(pew.h.dirs[k].VirtualAddress) + rnd(len(pew.rsrcData), SA(pew)) - rnd(old(pew.rsrcHdr.VirtualSize), SA(pew))
  ensures "new resources come after everything else" old(pew.rsrcHdr) == nil ==> pew.rsrcHdr.VirtualAddress == rnd(pew.src.virtEnd, SA(pew))
  ensures "replaced resources keep their place" old(pew.rsrcHdr) != nil ==> pew.rsrcHdr == old(pew.rsrcHdr) && pew.rsrcHdr.VirtualAddress == old(pew.rsrcHdr.VirtualAddress) && pew.rsrcHdr.PointerToRawData == old(pew.rsrcHdr.PointerToRawData)
