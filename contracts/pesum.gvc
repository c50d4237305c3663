// Standard PE checksum: 16-bit end-around-carry sum of the little-endian words, plus the length.

fn add16(a: int, b: int): int = (a + b + ((a + b) / 0x10000)) % 0x10000

// csum(d, n): sum of the n first words of d
fn csum(d: [int]int, n: int): int fuel 3 =
  n <= 0 ? 0 : add16(csum(d, n - 1), d[2*(n-1)] + 256 * d[2*(n-1)+1])

// The standard checksum of the L bytes of d.
macro pechecksum(d, L) = (L % 2 == 0 ? csum(d, L / 2) : add16(csum(d, L / 2), d[L-1])) + L

lemma csum_range(d: [int]int, n: int)
  requires forall i: int :: {d[i]} 0 <= d[i] && d[i] <= 255
  ensures 0 <= csum(d, n) && csum(d, n) <= 0xFFFF
  induction n
  pattern csum(d, n)

macro bytes(d) = forall i: int :: {d[i]} 0 <= d[i] && d[i] <= 255

lemma csum_ext(d: [int]int, e: [int]int, n: int)
  requires forall i: int :: {d[i]} {e[i]} 0 <= i && i < 2 * n ==> d[i] == e[i]
  ensures csum(d, n) == csum(e, n)
  induction n
  pattern csum(d, n), csum(e, n)

// pecs(c): c has summed exactly the wlen(c) bytes of wdata(c).
macro pecs(c) =
  c.size == wlen(c)
  && c.sum == csum(wdata(c), wlen(c) / 2)
  && (wlen(c) % 2 == 1 ==> c.rem == wdata(c)[wlen(c) - 1])

func winres.add16c
props C11
  requires 0 <= a && a <= 0xFFFF && 0 <= b && b <= 0xFFFF
  ensures result == add16(a, b)

func (*winres.peCheckSum).Write
props C11
  requires pecs(c)
  requires wlen(c) >= 0 && wlen(c) + len(p) < 0x100000000
  modifies *c, stream(c)
  effect append(c, p)
  ensures "the sum covers exactly the bytes written so far" pecs(c)
  ensures "every byte is accepted" result0 == len(p) && err == nil
  ensures wlen(c) == old(wlen(c)) + len(p)
  ensures wdata(c) == bytecpy(old(wdata(c)), old(wlen(c)), old(arr(p)), off(p), len(p))
  ensures werr(c) == old(werr(c))
  inv @0 c.size == old(c.size) && o == c.size % 2 && l == len(p) && i % 2 == o && o <= i
  inv @0 i <= m
  inv @0 c.sum == csum(bytecpy(old(wdata(c)), old(wlen(c)), old(arr(p)), off(p), len(p)), (old(wlen(c)) + i) / 2)

func (*winres.peCheckSum).Sum
props C11
  requires pecs(c)
  requires wlen(c) < 0x100000000
  ensures "Sum is the PE checksum of what was written" result == pechecksum(wdata(c), wlen(c)) % 0x100000000
