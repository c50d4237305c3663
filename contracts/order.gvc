// Directory order: names before ordinals, names in ascending case-sensitive order, ordinals and languages ascending.

macro idlt(a, b) = typeis(a, Name) ? (typeis(b, Name) ? as(a, Name) < as(b, Name) : true) : (typeis(b, ID) && as(a, ID) < as(b, ID))

// keys a[o..o+n) are exactly the languages in d, ascending
pred langs(a: [int]ID, o: int, n: int, d: [ID]bool, card: int) =
  n == card
  && (forall i: int :: {a[i]} o <= i && i < o + n ==> d[a[i]])
  && (forall i: int, j: int :: {a[i], a[j]} o <= i && i < j && j < o + n ==> a[i] < a[j])
  && (forall l: ID :: {d[l]} d[l] ==> exists i: int :: o <= i && i < o + n && a[i] == l)

// keys a[o..o+n) are exactly the identifiers in d, in directory order, the nn first being the names
macro sorted(a, o, n, nn, d, card) =
  n == card && 0 <= nn && nn <= n
  && (forall i: int :: {a[i]} o <= i && i < o + n ==> d[a[i]] && typeis(a[i], Name) == (i < o + nn))
  && (forall i: int, j: int :: {a[i], a[j]} o <= i && i < j && j < o + n ==> idlt(a[i], a[j]))
  && (forall r: Identifier :: {d[r]} d[r] ==> exists i: int :: o <= i && i < o + n && a[i] == r)

pred idents(a: [int]Identifier, o: int, n: int, nn: int, d: [Identifier]bool, card: int) = sorted(a, o, n, nn, d, card)

// the same, for the types of a set
pred types(a: [int]Identifier, o: int, n: int, nn: int, d: [Identifier]bool, card: int) = sorted(a, o, n, nn, d, card)

// The key list of a resource is exactly its languages, ascending; that of a type, its names and ordinals in directory order.
macro reok(re) = re.orderedKeys != nil && langs(arr(re.orderedKeys), off(re.orderedKeys), len(re.orderedKeys), dom(re.data), len(re.data))
macro teok(te) = te.orderedKeys != nil && idents(arr(te.orderedKeys), off(te.orderedKeys), len(te.orderedKeys), te.namesCount, dom(te.resources), len(te.resources))

func (*winres.resourceEntry).order
props C02
reveal langs
  requires re.data != nil
  requires re.orderedKeys == nil || reok(re)
  modifies re.orderedKeys
  ensures "the key list is exactly the languages, ascending" reok(re)

func (*winres.typeEntry).order
props C02
reveal idents
  requires te.resources != nil
  requires forall r: Identifier :: {te.resources[r]} dom(te.resources)[r] ==> r != nil && te.resources[r] != nil && te.resources[r].data != nil && (te.resources[r].orderedKeys == nil || reok(te.resources[r]))
  requires te.orderedKeys == nil || teok(te)
  modifies te.orderedKeys, te.namesCount, every(resourceEntry.orderedKeys)
  inv @0 forall r: Identifier :: {te.resources[r]} dom(te.resources)[r] ==> te.resources[r].orderedKeys == nil || reok(te.resources[r])
  inv @0 forall k: int :: {iterkey(k)} 0 <= k && k < iternum() ==> reok(te.resources[iterkey(k)])
  inv @1 !isold(te.orderedKeys)
  inv @0 forall re: *resourceEntry :: {re.orderedKeys} re.orderedKeys == old(re.orderedKeys) || reok(re)
  ensures "the key list is exactly the names and ordinals, in directory order" teok(te)
  ensures te.orderedKeys == old(te.orderedKeys) || !isold(te.orderedKeys)
  ensures "the languages of every resource are in order" forall r: Identifier :: {te.resources[r]} dom(te.resources)[r] ==> reok(te.resources[r])
  ensures "cached key lists change only to correct ones" forall re: *resourceEntry :: {re.orderedKeys} re.orderedKeys == old(re.orderedKeys) || reok(re)

// Cached key lists are either absent or right.
macro cached(rs) =
  (forall t: Identifier :: {rs.types[t]} hast(rs, t) ==> t != nil && (rs.types[t].orderedKeys == nil || teok(rs.types[t])))
  && (forall t: Identifier, r: Identifier :: {rs.types[t].resources[r]} hasr(rs, t, r) ==>
     r != nil && (rs.types[t].resources[r].orderedKeys == nil || reok(rs.types[t].resources[r])))

// Calls of f since entry: all continued, each gave a resource of type t with its data, in directory order.
macro tcall(rs, t, f, k) = has(rs, t, callarg(f, 0)[k], callarg(f, 1)[k]) && callarg(f, 2)[k] == at(rs, t, callarg(f, 0)[k], callarg(f, 1)[k])
macro tless(f, k, m) = idlt(callarg(f, 0)[k], callarg(f, 0)[m]) || callarg(f, 0)[k] == callarg(f, 0)[m] && callarg(f, 1)[k] < callarg(f, 1)[m]

func (*winres.ResourceSet).WalkType
props C02
reveal langs
reveal idents
  requires wf(rs) && cached(rs) && f != nil
  modifies every(typeEntry.orderedKeys), every(typeEntry.namesCount), every(resourceEntry.orderedKeys), calls(f)
  inv forall k: int :: {callres(f, 0)[k]} old(ncalls(f)) <= k && k < ncalls(f) ==> callres(f, 0)[k]
  inv forall k: int :: {callarg(f, 0)[k]} old(ncalls(f)) <= k && k < ncalls(f) ==> tcall(rs, typeID, f, k)
  inv forall k: int, m: int :: {callarg(f, 0)[k], callarg(f, 0)[m]} old(ncalls(f)) <= k && k < m && m < ncalls(f) ==> tless(f, k, m)
  inv @0 forall k: int, m: int :: {callarg(f, 0)[k], te.orderedKeys[m]} old(ncalls(f)) <= k && k < ncalls(f) && iter <= m && m < len(te.orderedKeys) ==> idlt(callarg(f, 0)[k], te.orderedKeys[m])
  inv @1 forall k: int :: {callarg(f, 0)[k]} old(ncalls(f)) <= k && k < ncalls(f) ==> idlt(callarg(f, 0)[k], rk) || callarg(f, 0)[k] == rk
  inv @1 forall k: int, m: int :: {callarg(f, 0)[k], re.orderedKeys[m]} old(ncalls(f)) <= k && k < ncalls(f) && iter <= m && m < len(re.orderedKeys) ==> idlt(callarg(f, 0)[k], rk) || callarg(f, 0)[k] == rk && callarg(f, 1)[k] < re.orderedKeys[m]
  inv @0 forall r: int, j: int :: {te.resources[te.orderedKeys[r]].orderedKeys[j]} 0 <= r && r < iter && 0 <= j && j < len(te.resources[te.orderedKeys[r]].orderedKeys) ==> exists k: int :: old(ncalls(f)) <= k && k < ncalls(f) && callarg(f, 0)[k] == te.orderedKeys[r] && callarg(f, 1)[k] == te.resources[te.orderedKeys[r]].orderedKeys[j]
  inv @1 forall r: int, j: int :: {te.resources[te.orderedKeys[r]].orderedKeys[j]} 0 <= r && r < iter1 && 0 <= j && j < len(te.resources[te.orderedKeys[r]].orderedKeys) ==> exists k: int :: old(ncalls(f)) <= k && k < ncalls(f) && callarg(f, 0)[k] == te.orderedKeys[r] && callarg(f, 1)[k] == te.resources[te.orderedKeys[r]].orderedKeys[j]
  inv @1 forall j: int :: {re.orderedKeys[j]} 0 <= j && j < iter ==> exists k: int :: old(ncalls(f)) <= k && k < ncalls(f) && callarg(f, 0)[k] == rk && callarg(f, 1)[k] == re.orderedKeys[j]
  ensures "the callback only gets resources the set holds, with their data" forall k: int :: {callarg(f, 0)[k]} old(ncalls(f)) <= k && k < ncalls(f) ==> tcall(rs, typeID, f, k)
  ensures "in directory order, each once" forall k: int, m: int :: {callarg(f, 0)[k], callarg(f, 0)[m]} old(ncalls(f)) <= k && k < m && m < ncalls(f) ==> tless(f, k, m)
  ensures "the walk stops at the first false" forall k: int :: {callres(f, 0)[k]} old(ncalls(f)) <= k && k + 1 < ncalls(f) ==> callres(f, 0)[k]
  ensures "every resource of the type is visited, unless the callback stopped the walk" (ncalls(f) > old(ncalls(f)) && !callres(f, 0)[ncalls(f) - 1]) || forall r: Identifier, l: ID :: has(rs, typeID, r, l) ==> exists k: int :: old(ncalls(f)) <= k && k < ncalls(f) && callarg(f, 0)[k] == r && callarg(f, 1)[k] == l
  ensures "the set stays well formed" wf(rs) && cached(rs)

// The types of the set, in directory order.
macro stok(rs, s) = s.orderedKeys != nil && types(arr(s.orderedKeys), off(s.orderedKeys), len(s.orderedKeys), s.namesCount, dom(rs.types), len(rs.types))

// Every key list is there, and right.
macro ordered(rs) =
  (forall t: Identifier :: {rs.types[t]} hast(rs, t) ==> teok(rs.types[t]))
  && (forall t: Identifier, r: Identifier :: {rs.types[t].resources[r]} hasr(rs, t, r) ==> reok(rs.types[t].resources[r]))

func (*winres.ResourceSet).order
props C02
reveal types
  requires wf(rs) && cached(rs) && s != nil
  modifies s.orderedKeys, s.namesCount, every(typeEntry.orderedKeys), every(typeEntry.namesCount), every(resourceEntry.orderedKeys)
  inv @0 fresh(s.orderedKeys)
  inv @0 forall te: *typeEntry :: {te.orderedKeys} isold(te) ==> allocated(te.orderedKeys) && base(te.orderedKeys) != base(s.orderedKeys)
  inv @0 forall t: Identifier :: {rs.types[t]} hast(rs, t) ==> rs.types[t].orderedKeys == nil || teok(rs.types[t])
  inv @0 forall re: *resourceEntry :: {re.orderedKeys} re.orderedKeys == old(re.orderedKeys) || reok(re)
  inv @0 forall k: int :: {iterkey(k)} 0 <= k && k < iternum() ==> teok(rs.types[iterkey(k)])
  inv @0 forall k: int, r: Identifier :: {rs.types[iterkey(k)].resources[r]} 0 <= k && k < iternum() && dom(rs.types[iterkey(k)].resources)[r] ==> reok(rs.types[iterkey(k)].resources[r])
  ensures "the key list is exactly the types, in directory order" stok(rs, s)
  ensures "the resources and languages are in order" ordered(rs)

macro acall(rs, f, k) = has(rs, callarg(f, 0)[k], callarg(f, 1)[k], callarg(f, 2)[k]) && callarg(f, 3)[k] == at(rs, callarg(f, 0)[k], callarg(f, 1)[k], callarg(f, 2)[k])
macro aless(f, k, m) = idlt(callarg(f, 0)[k], callarg(f, 0)[m]) || callarg(f, 0)[k] == callarg(f, 0)[m]
  && (idlt(callarg(f, 1)[k], callarg(f, 1)[m]) || callarg(f, 1)[k] == callarg(f, 1)[m] && callarg(f, 2)[k] < callarg(f, 2)[m])
macro called(f, t, r, l) = exists k: int :: old(ncalls(f)) <= k && k < ncalls(f) && callarg(f, 0)[k] == t && callarg(f, 1)[k] == r && callarg(f, 2)[k] == l

macro keysof(rs, t, j) = rs.types[t].resources[rs.types[t].orderedKeys[j]].orderedKeys

func (*winres.ResourceSet).Walk
props C02
reveal langs
reveal idents
reveal types
  requires wf(rs) && cached(rs) && f != nil
  modifies every(typeEntry.orderedKeys), every(typeEntry.namesCount), every(resourceEntry.orderedKeys), calls(f)
  inv forall k: int :: {callres(f, 0)[k]} old(ncalls(f)) <= k && k < ncalls(f) ==> callres(f, 0)[k]
  inv forall k: int :: {callarg(f, 0)[k]} old(ncalls(f)) <= k && k < ncalls(f) ==> acall(rs, f, k)
  inv forall k: int, m: int :: {callarg(f, 0)[k], callarg(f, 0)[m]} old(ncalls(f)) <= k && k < m && m < ncalls(f) ==> aless(f, k, m)
  inv @0 forall k: int, m: int :: {callarg(f, 0)[k], s.orderedKeys[m]} old(ncalls(f)) <= k && k < ncalls(f) && iter <= m && m < len(s.orderedKeys) ==> idlt(callarg(f, 0)[k], s.orderedKeys[m])
  inv @1 forall k: int :: {callarg(f, 0)[k]} old(ncalls(f)) <= k && k < ncalls(f) ==> idlt(callarg(f, 0)[k], tk) || callarg(f, 0)[k] == tk
  inv @1 forall k: int, m: int :: {callarg(f, 0)[k], te.orderedKeys[m]} old(ncalls(f)) <= k && k < ncalls(f) && iter <= m && m < len(te.orderedKeys) ==> idlt(callarg(f, 0)[k], tk) || callarg(f, 0)[k] == tk && idlt(callarg(f, 1)[k], te.orderedKeys[m])
  inv @2 forall k: int :: {callarg(f, 0)[k]} old(ncalls(f)) <= k && k < ncalls(f) ==> idlt(callarg(f, 0)[k], tk) || callarg(f, 0)[k] == tk && (idlt(callarg(f, 1)[k], rk) || callarg(f, 1)[k] == rk)
  inv @2 forall k: int, m: int :: {callarg(f, 0)[k], re.orderedKeys[m]} old(ncalls(f)) <= k && k < ncalls(f) && iter <= m && m < len(re.orderedKeys) ==> idlt(callarg(f, 0)[k], tk) || callarg(f, 0)[k] == tk && (idlt(callarg(f, 1)[k], rk) || callarg(f, 1)[k] == rk && callarg(f, 2)[k] < re.orderedKeys[m])
  inv @0 forall i: int, j: int, n: int :: {rs.types[s.orderedKeys[i]].resources[rs.types[s.orderedKeys[i]].orderedKeys[j]].orderedKeys[n]} 0 <= i && i < iter && 0 <= j && j < len(rs.types[s.orderedKeys[i]].orderedKeys) && 0 <= n && n < len(keysof(rs, s.orderedKeys[i], j)) ==> called(f, s.orderedKeys[i], rs.types[s.orderedKeys[i]].orderedKeys[j], keysof(rs, s.orderedKeys[i], j)[n])
  inv @1 forall i: int, j: int, n: int :: {rs.types[s.orderedKeys[i]].resources[rs.types[s.orderedKeys[i]].orderedKeys[j]].orderedKeys[n]} 0 <= i && i < iter1 && 0 <= j && j < len(rs.types[s.orderedKeys[i]].orderedKeys) && 0 <= n && n < len(keysof(rs, s.orderedKeys[i], j)) ==> called(f, s.orderedKeys[i], rs.types[s.orderedKeys[i]].orderedKeys[j], keysof(rs, s.orderedKeys[i], j)[n])
  inv @1 forall j: int, n: int :: {te.resources[te.orderedKeys[j]].orderedKeys[n]} 0 <= j && j < iter && 0 <= n && n < len(te.resources[te.orderedKeys[j]].orderedKeys) ==> called(f, tk, te.orderedKeys[j], te.resources[te.orderedKeys[j]].orderedKeys[n])
  inv @2 forall i: int, j: int, n: int :: {rs.types[s.orderedKeys[i]].resources[rs.types[s.orderedKeys[i]].orderedKeys[j]].orderedKeys[n]} 0 <= i && i < iter2 && 0 <= j && j < len(rs.types[s.orderedKeys[i]].orderedKeys) && 0 <= n && n < len(keysof(rs, s.orderedKeys[i], j)) ==> called(f, s.orderedKeys[i], rs.types[s.orderedKeys[i]].orderedKeys[j], keysof(rs, s.orderedKeys[i], j)[n])
  inv @2 forall j: int, n: int :: {te.resources[te.orderedKeys[j]].orderedKeys[n]} 0 <= j && j < iter1 && 0 <= n && n < len(te.resources[te.orderedKeys[j]].orderedKeys) ==> called(f, tk, te.orderedKeys[j], te.resources[te.orderedKeys[j]].orderedKeys[n])
  inv @2 forall n: int :: {re.orderedKeys[n]} 0 <= n && n < iter ==> called(f, tk, rk, re.orderedKeys[n])
  ensures "the callback only gets resources the set holds, with their data" forall k: int :: {callarg(f, 0)[k]} old(ncalls(f)) <= k && k < ncalls(f) ==> acall(rs, f, k)
  ensures "in directory order, each once" forall k: int, m: int :: {callarg(f, 0)[k], callarg(f, 0)[m]} old(ncalls(f)) <= k && k < m && m < ncalls(f) ==> aless(f, k, m)
  ensures "the walk stops at the first false" forall k: int :: {callres(f, 0)[k]} old(ncalls(f)) <= k && k + 1 < ncalls(f) ==> callres(f, 0)[k]
  ensures "every resource is visited, unless the callback stopped the walk" (ncalls(f) > old(ncalls(f)) && !callres(f, 0)[ncalls(f) - 1]) || forall t: Identifier, r: Identifier, l: ID :: has(rs, t, r, l) ==> called(f, t, r, l)
  ensures "the set stays well formed" wf(rs) && cached(rs)
