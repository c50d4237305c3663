// The resource set: a map from (type, name, language) to data.

// The set holds something at (t, r, l).
macro hast(rs, t) = rs.types != nil && dom(rs.types)[t]
macro hasr(rs, t, r) = hast(rs, t) && dom(rs.types[t].resources)[r]
macro has(rs, t, r, l) = hasr(rs, t, r) && dom(rs.types[t].resources[r].data)[l]
macro at(rs, t, r, l) = rs.types[t].resources[r].data[l].data

// Every level is there, and nothing is shared between keys.
macro wf(rs) =
  (forall t: Identifier :: {rs.types[t]} hast(rs, t) ==>
     rs.types[t] != nil && rs.types[t].resources != nil)
  && (forall t: Identifier, u: Identifier :: {rs.types[t], rs.types[u]} hast(rs, t) && hast(rs, u) && t != u ==>
     rs.types[t] != rs.types[u] && rs.types[t].resources != rs.types[u].resources)
  && (forall t: Identifier, r: Identifier :: {rs.types[t].resources[r]} hasr(rs, t, r) ==>
     rs.types[t].resources[r] != nil && rs.types[t].resources[r].data != nil)
  && (forall t: Identifier, r: Identifier, u: Identifier, q: Identifier :: {rs.types[t].resources[r], rs.types[u].resources[q]}
     hasr(rs, t, r) && hasr(rs, u, q) && (t != u || r != q) ==>
     rs.types[t].resources[r] != rs.types[u].resources[q] && rs.types[t].resources[r].data != rs.types[u].resources[q].data)
  && (forall t: Identifier, r: Identifier, l: ID :: {rs.types[t].resources[r].data[l]} has(rs, t, r, l) ==>
     rs.types[t].resources[r].data[l] != nil && at(rs, t, r, l) != nil)
  && (forall t: Identifier, r: Identifier, l: ID, u: Identifier, q: Identifier, m: ID ::
     {rs.types[t].resources[r].data[l], rs.types[u].resources[q].data[m]}
     has(rs, t, r, l) && has(rs, u, q, m) && (t != u || r != q || l != m) ==>
     rs.types[t].resources[r].data[l] != rs.types[u].resources[q].data[m])

define SETHEAPS = rs.types, rs.lastIconID, rs.lastCursorID, everymap(map[Identifier]*typeEntry), everymap(map[Identifier]*resourceEntry), everymap(map[ID]*dataEntry), every(typeEntry.orderedKeys), every(resourceEntry.orderedKeys), every(dataEntry.data)

macro okid(x) = (typeis(x, ID) ==> as(x, ID) != 0) && (typeis(x, Name) ==> as(x, Name) != "" && !hasnul(as(x, Name)))

func (*winres.ResourceSet).set
props C01 C02
  requires wf(rs)
  modifies SETHEAPS
  ensures "cached key lists stay right" @C02,C05,C06 typeID != nil && resID != nil && old(cached(rs)) ==> cached(rs)
  ensures "the set stays well formed" wf(rs)
  ensures "the triple maps to the data just set" data != nil ==> has(rs, typeID, resID, langID) && at(rs, typeID, resID, langID) == data
  ensures "the triple is gone after a deletion" data == nil ==> !has(rs, typeID, resID, langID)
  ensures "no other triple appears or vanishes" forall t: Identifier, r: Identifier, l: ID :: t != typeID || r != resID || l != langID ==> has(rs, t, r, l) == old(has(rs, t, r, l))
  ensures "no other triple changes" forall t: Identifier, r: Identifier, l: ID :: (t != typeID || r != resID || l != langID) && old(has(rs, t, r, l)) ==> at(rs, t, r, l) == old(at(rs, t, r, l))

func (*winres.ResourceSet).Get
props C01
  requires wf(rs)
  modifies nothing
  ensures "a triple in the set gives its data" has(rs, typeID, resID, langID) ==> result == at(rs, typeID, resID, langID)
  ensures "any other gives nothing" !has(rs, typeID, resID, langID) ==> result == nil

func (*winres.ResourceSet).Set
props C01 C02
  requires wf(rs)
  modifies SETHEAPS
  ensures "cached key lists stay right" @C02,C05,C06 typeID != nil && resID != nil && old(cached(rs)) ==> cached(rs)
  ensures "the set stays well formed" wf(rs)
  ensures "a zero ordinal, an empty name or a name with a NUL is refused" !(okid(typeID) && okid(resID)) ==> err != nil
  ensures "the triple maps to the data just set" err == nil && data != nil ==> has(rs, typeID, resID, langID) && at(rs, typeID, resID, langID) == data
  ensures "the triple is gone after a deletion" err == nil && data == nil ==> !has(rs, typeID, resID, langID)
  ensures "a refusal changes nothing" err != nil ==> forall t: Identifier, r: Identifier, l: ID :: has(rs, t, r, l) == old(has(rs, t, r, l)) && (old(has(rs, t, r, l)) ==> at(rs, t, r, l) == old(at(rs, t, r, l)))
  ensures "no other triple appears or vanishes" forall t: Identifier, r: Identifier, l: ID :: t != typeID || r != resID || l != langID ==> has(rs, t, r, l) == old(has(rs, t, r, l))
  ensures "no other triple changes" forall t: Identifier, r: Identifier, l: ID :: (t != typeID || r != resID || l != langID) && old(has(rs, t, r, l)) ==> at(rs, t, r, l) == old(at(rs, t, r, l))
