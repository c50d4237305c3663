// C08: no version data can crash the decoder, and it ends.

// The string tables are there.
macro tables(vi) = forall l: uint16 :: {vi.lt[l]} vi.lt != nil && dom(vi.lt)[l] ==> vi.lt[l] != nil && *vi.lt[l] != nil
define VIPARTS = vi.FileVersion, vi.ProductVersion, vi.Flags, vi.Type, vi.Timestamp, vi.lt, everymap(LangTable), everymap(StringTable)

func version.readNodeHeader
props C08
terminates
  modifies nothing
  ensures result2 == nil ==> len(data) >= 6 && result1 == 6

func version.readString
props C08
terminates
  requires pos != nil && 0 <= *pos && *pos <= len(data) && len(data) <= 0xFFFF
  modifies *pos
  ensures result1 == nil ==> old(*pos) + 4 <= *pos && *pos <= len(data)

func version.readStringWithLength
props C08
terminates
  requires pos != nil && 0 <= *pos && *pos <= len(data) && len(data) <= 0xFFFF
  modifies *pos
  ensures old(*pos) <= *pos && *pos <= len(data)

func (*version.Info).readFixedStruct
props C08
terminates
  requires len(data) >= 52
  modifies vi.FileVersion, vi.ProductVersion, vi.Flags, vi.Type, vi.Timestamp

func (*version.Info).Set
props C08
terminates
  requires tables(vi)
  modifies vi.lt, everymap(LangTable), everymap(StringTable)
  ensures tables(vi)

func (*version.Info).readNode
props C08
terminates
  requires tables(vi)
  decreases 2 * len(data)
  modifies VIPARTS
  ensures tables(vi)
  ensures result1 == nil ==> 6 <= result0 && result0 <= len(data)

func (*version.Info).readChildren
props C08
terminates
  requires pos != nil && 6 <= *pos
  requires tables(vi)
  decreases 2 * len(data) - 1
  modifies *pos, VIPARTS
  inv @0 tables(vi)
  inv @0 6 <= *pos
  variant @0 len(data) - *pos
  ensures tables(vi)

func version.fromBytes
props C08
terminates
  modifies everymap(LangTable), everymap(StringTable)

func version.FromBytes
props C08
terminates
  modifies everymap(LangTable), everymap(StringTable)
