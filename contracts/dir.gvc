// Writing the resource directory: the binary form of its tables and entries, and what every table holds.

// w received exactly n more bytes.
macro more(w, n) = wlen(w) == old(wlen(w)) + n && (forall i: int :: {wdata(w)[i]} 0 <= i && i < old(wlen(w)) ==> wdata(w)[i] == old(wdata(w))[i])
// the k-th byte, word, double word written by this call
macro put16(w, k) = le16(wdata(w), old(wlen(w)) + k)
macro put32(w, k) = le32(wdata(w), old(wlen(w)) + k)
// No write was reported as failed.
macro told(w, err) = err == nil ==> werr(w) == old(werr(w))

func winres.writeDirectoryTable
props C03 C04
  requires w != nil && wlen(w) >= 0
  modifies stream(w)
  ensures "a directory table is 16 bytes" result == nil ==> more(w, 16)
  ensures "a table counts its own entries, names first" result == nil ==> put16(w, 12) == numNameEntries % 0x10000 && put16(w, 14) == numIDEntries % 0x10000
  ensures "the rest of a table header is zero" result == nil ==> put32(w, 0) == 0 && put32(w, 4) == 0 && put32(w, 8) == 0

func winres.writeDirectoryEntry
props C03 C04
  requires w != nil && wlen(w) >= 0
  modifies stream(w)
  ensures "a directory entry is 8 bytes" result == nil ==> more(w, 8)
  ensures "a directory entry names its key: a string offset, flagged, or a number" result == nil && 0 <= id && id < 0x80000000 ==> put32(w, 0) == id + (isName ? 0x80000000 : 0)
  ensures "a directory entry points at its table, flagged, or at its data entry" result == nil && 0 <= offset && offset < 0x80000000 ==> put32(w, 4) == offset + (isSubDir ? 0x80000000 : 0)

func winres.writeDataEntry
props C03 C04
  requires w != nil && wlen(w) >= 0
  modifies stream(w)
  ensures "a data entry is 16 bytes" result == nil ==> more(w, 16)
  ensures "a data entry has the address and the exact size of its data" result == nil && 0 <= offset && offset <= 0xFFFFFFFF && 0 <= dataSize && dataSize <= 0xFFFFFFFF ==> put32(w, 0) == offset && put32(w, 4) == dataSize && put32(w, 8) == 0 && put32(w, 12) == 0

func winres.alignData
props C03 C04
  requires 0 <= offset
  ensures "data is 8-byte aligned, with the least padding" result % 8 == 0 && offset <= result && result < offset + 8

func (*winres.dataEntry).paddedDataSize
props C03 C04
  ensures "the room of a data is its length, padded to 8" result % 8 == 0 && len(de.data) <= result && result < len(de.data) + 8

func (*winres.dataEntry).write
props C03
  requires w != nil && wlen(w) >= 0 && s != nil
  requires 0 <= s.offset && s.offset + len(de.data) <= 0xFFFFFFF0
  modifies stream(w), s.offset
  ensures "the data entry has the address and the exact size of its data" result == nil ==> more(w, 16) && put32(w, 0) == old(s.offset) && put32(w, 4) == len(de.data) && put32(w, 8) == 0 && put32(w, 12) == 0
  ensures "the next data starts after this one, 8-byte aligned relative to it" result == nil ==> (s.offset - old(s.offset)) % 8 == 0 && old(s.offset) + len(de.data) <= s.offset && s.offset < old(s.offset) + len(de.data) + 8

func (*winres.dataEntry).writeData
props C03 C04
  requires w != nil && wlen(w) >= 0
  modifies stream(w)
  ensures "the exact data comes first" result == nil ==> forall k: int :: {wdata(w)[old(wlen(w)) + k]} 0 <= k && k < len(de.data) ==> wdata(w)[old(wlen(w)) + k] == de.data[k]
  ensures "then zeros up to the next multiple of 8" result == nil ==> (wlen(w) - old(wlen(w))) % 8 == 0 && old(wlen(w)) + len(de.data) <= wlen(w) && wlen(w) < old(wlen(w)) + len(de.data) + 8 && forall k: int :: {wdata(w)[k]} old(wlen(w)) + len(de.data) <= k && k < wlen(w) ==> wdata(w)[k] == 0
  ensures "nothing before changes" result == nil ==> forall i: int :: {wdata(w)[i]} 0 <= i && i < old(wlen(w)) ==> wdata(w)[i] == old(wdata(w))[i]

func (*winres.resourceEntry).write
props C03
reveal langs
  requires w != nil && wlen(w) >= 0 && s != nil
  requires re.data != nil && reok(re)
  requires 0 <= s.offset && s.offset + 16 * len(re.orderedKeys) < 0x80000000 && len(re.orderedKeys) < 0x10000
  modifies stream(w), s.offset, s.relocAddr, every([]int)
  inv @0 more(w, 16 + 8 * iter)
  inv @0 put32(w, 0) == 0 && put32(w, 4) == 0 && put32(w, 8) == 0 && put16(w, 12) == 0 && put16(w, 14) == len(re.orderedKeys)
  inv @0 s.offset == old(s.offset) + 16 * iter
  inv @0 len(s.relocAddr) == old(len(s.relocAddr)) + iter
  inv @0 base(s.relocAddr) == old(base(s.relocAddr)) || fresh(s.relocAddr)
  inv @0 forall k: int :: {s.relocAddr[k]} 0 <= k && k < old(len(s.relocAddr)) ==> s.relocAddr[k] == old(s.relocAddr[k])
  inv @0 forall k: int :: {s.relocAddr[k]} old(len(s.relocAddr)) <= k && k < len(s.relocAddr) ==> s.relocAddr[k] == old(s.offset) + 16 * (k - old(len(s.relocAddr)))
  inv @0 forall k: int :: {re.orderedKeys[k]} 0 <= k && k < iter ==> put32(w, 16 + 8 * k) == re.orderedKeys[k] && put32(w, 20 + 8 * k) == old(s.offset) + 16 * k
  inv @0 werr(w) == old(werr(w))
  ensures "a language table counts its entries" result == nil ==> more(w, 16 + 8 * len(re.orderedKeys)) && put32(w, 0) == 0 && put32(w, 4) == 0 && put32(w, 8) == 0 && put16(w, 12) == 0 && put16(w, 14) == len(re.data)
  ensures "its entries are the languages, in order, each pointing at its data entry" result == nil ==> forall k: int :: {re.orderedKeys[k]} 0 <= k && k < len(re.orderedKeys) ==> put32(w, 16 + 8 * k) == re.orderedKeys[k] && put32(w, 20 + 8 * k) == old(s.offset) + 16 * k
  ensures "the next table's data entries follow" result == nil ==> s.offset == old(s.offset) + 16 * len(re.data)
  ensures "one relocation for each data entry, at its data address" result == nil ==> len(s.relocAddr) == old(len(s.relocAddr)) + len(re.data) && (forall k: int :: {s.relocAddr[k]} old(len(s.relocAddr)) <= k && k < len(s.relocAddr) ==> s.relocAddr[k] == old(s.offset) + 16 * (k - old(len(s.relocAddr)))) && (forall k: int :: {s.relocAddr[k]} 0 <= k && k < old(len(s.relocAddr)) ==> s.relocAddr[k] == old(s.relocAddr[k]))
