// C13: the binary form of version information.

// 100 ns units since 1601-01-01
macro ticks(t) = (unixsec(t) + 11644473600) * 10000000 + nanos(t) / 100

func version.timeToTimestamp
props C13
scoped terminates
  modifies nothing
  ensures "an absent timestamp is 0" iszero(t) ==> result0 == 0 && result1 == 0
  ensures "a timestamp is in units of 100 ns since 1601" !iszero(t) && 0 <= unixsec(t) + 11644473600 && ticks(t) < 0x10000000000000000 ==> result0 * 0x100000000 + result1 == ticks(t)

func version.timestampToTime
props C13
scoped terminates
  modifies nothing
  ensures "0 is an absent timestamp" ms == 0 && ls == 0 ==> iszero(result)
  ensures "units of 100 ns since 1601" ms != 0 || ls != 0 ==> ticks(result) == ms * 0x100000000 + ls && nanos(result) % 100 == 0

func (*version.Info).fixedFileInfo
props C13
scoped terminates
  modifies nothing
  ensures "version numbers" result.FileVersionMS == vi.FileVersion[0] * 0x10000 + vi.FileVersion[1] && result.FileVersionLS == vi.FileVersion[2] * 0x10000 + vi.FileVersion[3] && result.ProductVersionMS == vi.ProductVersion[0] * 0x10000 + vi.ProductVersion[1] && result.ProductVersionLS == vi.ProductVersion[2] * 0x10000 + vi.ProductVersion[3]
  ensures "flags" result.FileFlags == (vi.Flags.Debug ? 1 : 0) + (vi.Flags.Prerelease ? 2 : 0) + (vi.Flags.Patched ? 4 : 0) + (vi.Flags.PrivateBuild ? 8 : 0) + (vi.Flags.SpecialBuild ? 32 : 0)
  ensures "file type" result.FileType == (vi.Type == App ? 1 : vi.Type == DLL ? 2 : 0)
  ensures "signature" result.Signature == 0xFEEF04BD
  ensures "timestamp" (iszero(vi.Timestamp) ==> result.FileDateMS == 0 && result.FileDateLS == 0) && (!iszero(vi.Timestamp) && 0 <= unixsec(vi.Timestamp) + 11644473600 && ticks(vi.Timestamp) < 0x10000000000000000 ==> result.FileDateMS * 0x100000000 + result.FileDateLS == ticks(vi.Timestamp))

macro w32(k) = le32(arr(data), off(data) + k)
func (*version.Info).readFixedStruct
props C13
scoped terminates
  requires len(data) >= 52
  modifies vi.FileVersion, vi.ProductVersion, vi.Flags, vi.Type, vi.Timestamp
  ensures "the signature is checked" (result == nil) == (w32(0) == 0xFEEF04BD)
  ensures "version numbers" result == nil ==> w32(8) == vi.FileVersion[0] * 0x10000 + vi.FileVersion[1] && w32(12) == vi.FileVersion[2] * 0x10000 + vi.FileVersion[3] && w32(16) == vi.ProductVersion[0] * 0x10000 + vi.ProductVersion[1] && w32(20) == vi.ProductVersion[2] * 0x10000 + vi.ProductVersion[3]
  ensures "flags" result == nil && w32(28) < 64 && w32(28) / 16 % 2 == 0 ==> w32(28) == (vi.Flags.Debug ? 1 : 0) + (vi.Flags.Prerelease ? 2 : 0) + (vi.Flags.Patched ? 4 : 0) + (vi.Flags.PrivateBuild ? 8 : 0) + (vi.Flags.SpecialBuild ? 32 : 0)
  ensures "file type" result == nil ==> vi.Type == (w32(36) == 1 ? App : w32(36) == 2 ? DLL : Unknown)
  ensures "timestamp" result == nil ==> (w32(44) == 0 && w32(48) == 0 ? iszero(vi.Timestamp) : ticks(vi.Timestamp) == w32(44) * 0x100000000 + w32(48))

macro al4(n) = n + (4 - n % 4) % 4
func version.align
props C13
scoped terminates
  requires 0 <= s && s < 0x4000000000000000
  modifies nothing
  ensures result == al4(s)

func version.writeAligned
props C13
scoped terminates
  requires buffer != nil && 0 <= wlen(buffer) && wlen(buffer) < 0x4000000000000000
  modifies stream(buffer)
  ensures "data is 4-byte aligned, after zeros" wlen(buffer) == al4(old(wlen(buffer))) + len(data) && (forall k: int :: {wdata(buffer)[k]} 0 <= k && k < old(wlen(buffer)) ==> wdata(buffer)[k] == old(wdata(buffer)[k])) && (forall k: int :: {wdata(buffer)[k]} old(wlen(buffer)) <= k && k < al4(old(wlen(buffer))) ==> wdata(buffer)[k] == 0) && (forall k: int :: {wdata(buffer)[k]} al4(old(wlen(buffer))) <= k && k < wlen(buffer) ==> wdata(buffer)[k] == old(data[k - al4(old(wlen(buffer)))]))

func version.nodeBytes
props C13
scoped terminates nosafety
  modifies nothing
  ensures "the declared length is the actual one" len(result) <= 0xFFFF ==> le16(arr(result), off(result)) == len(result)
  ensures "the declared value length" 0 <= valueLength && valueLength <= 0xFFFF ==> le16(arr(result), off(result) + 2) == valueLength
  ensures "the type" le16(arr(result), off(result) + 4) == (text ? 1 : 0)
  ensures "the value is 4-byte aligned and ends the node" len(value) <= len(result) && (len(result) - len(value)) % 4 == 0 && (forall k: int :: {result[k]} len(result) - len(value) <= k && k < len(result) ==> result[k] == old(value[k - len(result) + len(value)]))
