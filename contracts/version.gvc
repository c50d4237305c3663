// C20: version texts and numbers.

// Decimal digits
macro dig(c) = 48 <= c && c <= 57
// dots(v, b, e): number of dots in v[b:e]
fn dots(v: string, b: int, e: int): int = e <= b ? 0 : dots(v, b, e - 1) + (v[e-1] == 46 ? 1 : 0)
// num(v, b, e, j): the number between dots j and j+1 of v[b:e]
fn num(v: string, b: int, e: int, j: int): int = e <= b ? 0 : (dig(v[e-1]) && dots(v, b, e - 1) == j ? (num(v, b, e - 1, j) * 10 + v[e-1] - 48) % 0x10000 : num(v, b, e - 1, j))
// the version text of v goes from b to e
macro first(v, b) = 0 <= b && b < len(v) && dig(v[b]) && (forall k: int :: {v[k]} 0 <= k && k < b ==> !dig(v[k]))
macro inver(v, b, k) = dig(v[k]) || v[k] == 46 && dots(v, b, k) < 3
macro verend(v, b, e) = b <= e && e <= len(v) && (forall k: int :: {v[k]} b <= k && k < e ==> inver(v, b, k)) && (e < len(v) ==> !inver(v, b, e))

lemma num_none(v: string, b: int, e: int, j: int)
  requires 0 <= b && e <= len(v) && (forall k: int :: {v[k]} 0 <= k && k < len(v) ==> !dig(v[k]))
  ensures num(v, b, e, j) == 0
  induction e
  pattern num(v, b, e, j)

// what was cut off
macro cut() = len(old(v)) - len(v)
func version.versionStringToArray
props C20
scoped
  modifies nothing
  inv @0 0 <= i && i <= iternum() && (iternum() > 0 ==> i < iternum())
  inv @0 forall k: int :: {v[k]} 0 <= k && k < iternum() ==> v[k] >= 128 || !dig(v[k])
  inv @1 0 <= cut() && part == dots(old(v), cut(), cut() + iternum()) && 0 <= part && part <= 3
  inv @1 forall j: int :: 0 <= j && j < 4 ==> ver[j] == num(old(v), cut(), cut() + iternum(), j)
  inv @1 forall k: int :: {old(v)[k]} cut() <= k && k < cut() + iternum() ==> inver(old(v), cut(), k)
  ensures "the numbers that start at the first digit" forall b: int, e: int :: first(v, b) && verend(v, b, e) ==> forall j: int :: 0 <= j && j < 4 ==> result[j] == num(v, b, e, j)
  ensures "no number without a digit" (forall k: int :: 0 <= k && k < len(v) ==> !dig(v[k])) ==> forall j: int :: 0 <= j && j < 4 ==> result[j] == 0

// strings of a language
macro lang(vi, l) = vi.lt != nil && dom(vi.lt)[l]
macro hass(vi, l, k) = *vi.lt[l] != nil && dom(*vi.lt[l])[k]
macro str(vi, l, k) = (*vi.lt[l])[k]
macro oktext(k, s) = k != "" && !hasnul(k) && !hasnul(s)
// no table, map or language changes, but for key k
macro others(vi, k) = (forall l: uint16 :: {vi.lt[l]} old(lang(vi, l)) ==> vi.lt[l] == old(vi.lt[l]) && *vi.lt[l] == old(*vi.lt[l])) && (forall l: uint16, s: string :: {dom(*vi.lt[l])[s]} old(lang(vi, l)) && s != k ==> dom(*vi.lt[l])[s] == old(dom(*vi.lt[l])[s])) && (forall l: uint16, s: string :: {(*vi.lt[l])[s]} old(lang(vi, l)) && s != k ==> (*vi.lt[l])[s] == old((*vi.lt[l])[s]))

func (*version.Info).Set
props C20
scoped
  requires tables(vi)
  modifies vi.lt, everymap(LangTable), everymap(StringTable)
  ensures tables(vi) && vi.lt != nil && (old(vi.lt) != nil ==> vi.lt == old(vi.lt))
  ensures "refused only when empty or with a NUL" (result == nil) == oktext(key, value)
  ensures "the string is set" result == nil ==> lang(vi, langID) && hass(vi, langID, key) && str(vi, langID, key) == value
  ensures "no other language appears or vanishes" forall l: uint16 :: {dom(vi.lt)[l]} lang(vi, l) == (old(lang(vi, l)) || result == nil && l == langID)
  ensures "no other string changes" others(vi, key)
  ensures "a refusal changes no string" result != nil ==> forall l: uint16 :: {vi.lt[l]} old(lang(vi, l)) ==> dom(*vi.lt[l]) == old(dom(*vi.lt[l])) && vals(*vi.lt[l]) == old(vals(*vi.lt[l]))
  ensures "the string set for a language stays there for the others that have it" result == nil ==> forall l: uint16 :: {vi.lt[l]} old(lang(vi, l) && hass(vi, l, key)) && old(str(vi, l, key)) == value ==> hass(vi, l, key) && str(vi, l, key) == value

func (*version.Info).SetFileVersion
props C20
scoped
  requires tables(vi)
  modifies vi.FileVersion, vi.lt, everymap(LangTable), everymap(StringTable)
  inv vi.lt == old(vi.lt) && vi.lt != nil && tables(vi)
  inv forall k: int :: {iterkey(k)} 0 <= k && k < iterlen() ==> dom(vi.lt)[iterkey(k)]
  inv forall l: uint16 :: {dom(vi.lt)[l]} lang(vi, l) == old(lang(vi, l))
  inv others(vi, "FileVersion")
  inv !hasnul(fileVersion) ==> forall l: uint16 :: {visited(l)} visited(l) ==> hass(vi, l, "FileVersion") && str(vi, l, "FileVersion") == fileVersion
  ensures "the numbers that start at the first digit" forall b: int, e: int :: first(fileVersion, b) && verend(fileVersion, b, e) ==> forall j: int :: 0 <= j && j < 4 ==> vi.FileVersion[j] == num(fileVersion, b, e, j)
  ensures "the text is set in every language" !hasnul(fileVersion) ==> forall l: uint16 :: {vi.lt[l]} lang(vi, l) ==> hass(vi, l, "FileVersion") && str(vi, l, "FileVersion") == fileVersion
  ensures "or in the neutral one" !hasnul(fileVersion) && old(len(vi.lt)) == 0 ==> lang(vi, 0)
  ensures "no other language appears or vanishes" forall l: uint16 :: {dom(vi.lt)[l]} lang(vi, l) == (old(lang(vi, l)) || !hasnul(fileVersion) && old(len(vi.lt)) == 0 && l == 0)
  ensures "no other string changes" others(vi, "FileVersion")

func (*version.Info).SetProductVersion
props C20
scoped
  requires tables(vi)
  modifies vi.ProductVersion, vi.lt, everymap(LangTable), everymap(StringTable)
  inv vi.lt == old(vi.lt) && vi.lt != nil && tables(vi)
  inv forall k: int :: {iterkey(k)} 0 <= k && k < iterlen() ==> dom(vi.lt)[iterkey(k)]
  inv forall l: uint16 :: {dom(vi.lt)[l]} lang(vi, l) == old(lang(vi, l))
  inv others(vi, "ProductVersion")
  inv !hasnul(productVersion) ==> forall l: uint16 :: {visited(l)} visited(l) ==> hass(vi, l, "ProductVersion") && str(vi, l, "ProductVersion") == productVersion
  ensures "the numbers that start at the first digit" forall b: int, e: int :: first(productVersion, b) && verend(productVersion, b, e) ==> forall j: int :: 0 <= j && j < 4 ==> vi.ProductVersion[j] == num(productVersion, b, e, j)
  ensures "the text is set in every language" !hasnul(productVersion) ==> forall l: uint16 :: {vi.lt[l]} lang(vi, l) ==> hass(vi, l, "ProductVersion") && str(vi, l, "ProductVersion") == productVersion
  ensures "or in the neutral one" !hasnul(productVersion) && old(len(vi.lt)) == 0 ==> lang(vi, 0)
  ensures "no other language appears or vanishes" forall l: uint16 :: {dom(vi.lt)[l]} lang(vi, l) == (old(lang(vi, l)) || !hasnul(productVersion) && old(len(vi.lt)) == 0 && l == 0)
  ensures "no other string changes" others(vi, "ProductVersion")
