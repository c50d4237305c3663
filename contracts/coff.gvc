// The object file: headers, relocations, symbol and string table (C04).

macro machine(arch) = arch == "386" ? 0x14C : arch == "amd64" ? 0x8664 : arch == "arm" ? 0x1C4 : 0xAA64
macro reltype(arch) = arch == "386" ? 7 : arch == "amd64" ? 3 : 2
macro known(arch) = arch == "386" || arch == "amd64" || arch == "arm" || arch == "arm64"

func winres.writeRelocTable
props C04
  requires w != nil && wlen(w) >= 0
  modifies stream(w)
  inv @0 more(w, 10 * iter)
  inv @0 forall k: int :: {addr[k]} 0 <= k && k < iter ==> (0 <= addr[k] && addr[k] <= 0xFFFFFFFF ==> put32(w, 10 * k) == addr[k]) && (0 <= symbolIndex && symbolIndex <= 0xFFFFFFFF ==> put32(w, 10 * k + 4) == symbolIndex) && put16(w, 10 * k + 8) == reltype(arch)
  ensures "an unknown architecture is refused, and nothing is written" !known(arch) ==> result != nil && wlen(w) == old(wlen(w))
  ensures "one relocation per address" result == nil ==> more(w, 10 * len(addr))
  ensures "each relocation has its address, the symbol, and the relocation type of the architecture" result == nil ==> forall k: int :: {addr[k]} 0 <= k && k < len(addr) ==> (0 <= addr[k] && addr[k] <= 0xFFFFFFFF ==> put32(w, 10 * k) == addr[k]) && (0 <= symbolIndex && symbolIndex <= 0xFFFFFFFF ==> put32(w, 10 * k + 4) == symbolIndex) && put16(w, 10 * k + 8) == reltype(arch)

func winres.writeSymbol
props C04
  requires w != nil && wlen(w) >= 0
  modifies stream(w)
  ensures "the symbol is 18 bytes" result == nil ==> more(w, 18)
  ensures "it is a static symbol called .rsrc, of the given section" result == nil && 0 <= sectionNumber && sectionNumber < 0x8000 ==> put32(w, 0) == 0x7273722E && put32(w, 4) == 0x63 && put32(w, 8) == 0 && put16(w, 12) == sectionNumber && put16(w, 14) == 0 && put16(w, 16) == 3

// w only received more bytes: what it held stays.
macro app(w) = old(wlen(w)) <= wlen(w) && (forall i: int :: {wdata(w)[i]} 0 <= i && i < old(wlen(w)) ==> wdata(w)[i] == old(wdata(w))[i])

// The k-th directory entry written by this call points at the address that the k-th relocation added by this call patches.
func (*winres.resourceEntry).write
props C04
scoped nosafety
  requires w != nil && wlen(w) >= 0
  modifies stream(w), s.offset, s.relocAddr, every([]int)
  inv @0 more(w, 16 + 8 * iter)
  inv @0 s.offset == old(s.offset) + 16 * iter
  inv @0 len(s.relocAddr) == old(len(s.relocAddr)) + iter
  inv @0 base(s.relocAddr) == old(base(s.relocAddr)) || fresh(s.relocAddr)
  inv @0 forall k: int :: {s.relocAddr[k]} 0 <= k && k < old(len(s.relocAddr)) ==> s.relocAddr[k] == old(s.relocAddr[k])
  inv @0 forall k: int :: {s.relocAddr[k]} old(len(s.relocAddr)) <= k && k < len(s.relocAddr) ==> s.relocAddr[k] == old(s.offset) + 16 * (k - old(len(s.relocAddr)))
  ensures "what was written before stays" result == nil ==> app(w) && more(w, 16 + 8 * len(re.orderedKeys))
  ensures "one relocation for each data entry, at its data address" result == nil ==> len(s.relocAddr) == old(len(s.relocAddr)) + len(re.orderedKeys) && s.offset == old(s.offset) + 16 * len(re.orderedKeys) && (forall k: int :: {s.relocAddr[k]} old(len(s.relocAddr)) <= k && k < len(s.relocAddr) ==> s.relocAddr[k] == old(s.offset) + 16 * (k - old(len(s.relocAddr)))) && (forall k: int :: {s.relocAddr[k]} 0 <= k && k < old(len(s.relocAddr)) ==> s.relocAddr[k] == old(s.relocAddr[k]))

func (*winres.dataEntry).write
props C04
scoped nosafety
  requires w != nil && wlen(w) >= 0
  modifies stream(w), s.offset
  ensures "what was written before stays" result == nil ==> app(w)

func (*winres.typeEntry).write
props C04
scoped nosafety
  requires w != nil && wlen(w) >= 0
  modifies stream(w), s.offset
  inv app(w)
  ensures "what was written before stays" result == nil ==> app(w)

func (*winres.ResourceSet).writeTypeDir
props C04
scoped nosafety
  requires w != nil && wlen(w) >= 0
  modifies stream(w), s.offset
  inv app(w)
  ensures "what was written before stays" result == nil ==> app(w)

func (*winres.ResourceSet).writeResDirs
props C04
scoped nosafety
  requires w != nil && wlen(w) >= 0
  modifies stream(w), s.offset, s.relocAddr, every([]int)
  inv app(w)
  ensures "what was written before stays" result == nil ==> app(w)

func (*winres.ResourceSet).writeLangDirs
props C04
scoped nosafety
  requires w != nil && wlen(w) >= 0
  modifies stream(w), s.offset, s.relocAddr, every([]int)
  inv app(w)
  ensures "what was written before stays" result == nil ==> app(w)

func (*winres.ResourceSet).writeDataIndex
props C04
scoped nosafety
  requires w != nil && wlen(w) >= 0
  modifies stream(w), s.offset, s.relocAddr, every([]int)
  inv app(w)
  ensures "what was written before stays" result == nil ==> app(w)

func (*winres.ResourceSet).writeData
props C04
scoped nosafety
  requires w != nil && wlen(w) >= 0
  modifies stream(w)
  inv app(w)
  ensures "what was written before stays" result == nil ==> app(w)

func (*winres.resourceEntry).order
props C04
scoped nosafety
  modifies re.orderedKeys

func (*winres.typeEntry).order
props C04
scoped nosafety
  modifies te.orderedKeys, te.namesCount, every(resourceEntry.orderedKeys)

func (*winres.ResourceSet).order
props C04
scoped nosafety
  modifies s.orderedKeys, s.namesCount, KEYS

func (*winres.ResourceSet).prepare
props C04
scoped nosafety
  modifies KEYS
  ensures result != nil && fresh(result) && len(result.relocAddr) == 0

func (*winres.ResourceSet).fullSize
props C04
scoped nosafety
  modifies KEYS

func (*winres.ResourceSet).write
props C04
scoped nosafety
  requires w != nil && wlen(w) >= 0
  modifies stream(w), KEYS, every([]int)
  ensures "what was written before stays" result1 == nil ==> app(w)

func winres.writeObject
props C04
scoped nosafety
  requires w != nil && wlen(w) >= 0
  modifies stream(w), KEYS, every([]int)
  ensures "an unknown architecture is refused, and nothing is written" !known(arch) ==> result != nil && wlen(w) == old(wlen(w))
  ensures "the machine is that of the architecture, with one section and one symbol" result == nil ==> put16(w, 0) == machine(arch) && put16(w, 2) == 1 && put32(w, 12) == 1 && put16(w, 16) == 0
  ensures "the section is called .rsrc, its content follows the headers, its relocations follow its content" result == nil ==> put32(w, 20) == 0x7273722E && put32(w, 24) == 0x63 && put32(w, 40) == 60 && put32(w, 44) == (60 + put32(w, 36)) % 0x100000000
  ensures "the symbol table follows the relocations" result == nil ==> put32(w, 8) == (put32(w, 44) + 10 * put16(w, 52)) % 0x100000000
  ensures "the string table ends the file" result == nil ==> wlen(w) >= old(wlen(w)) + 82 && le32(wdata(w), wlen(w) - 4) == 4
