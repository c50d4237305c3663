// C07: no icon or cursor data can crash their readers.

func winres.LoadICO
props C07
terminates
  requires ico != nil
  modifies reader(ico)
  ensures result1 == nil ==> result0 != nil

func winres.LoadCUR
props C07
terminates
  requires cur != nil
  modifies reader(cur)
  ensures result1 == nil ==> result0 != nil

func winres.readDIBBitCount
props C07
terminates
  modifies nothing

func (*winres.ResourceSet).firstLang
props C07
terminates
reveal langs
  requires wf(rs) && cached(rs)
  modifies every(resourceEntry.orderedKeys)
  ensures cached(rs)
  ensures "the first language of a resource of the set" hasr(rs, typeID, resID) && len(rs.types[typeID].resources[resID].data) > 0 ==> has(rs, typeID, resID, result)

func (*winres.ResourceSet).GetIcon
props C07
terminates
  requires wf(rs) && cached(rs)
  modifies every(resourceEntry.orderedKeys)
  ensures cached(rs)

func (*winres.ResourceSet).GetIconTranslation
props C07
terminates
  requires wf(rs) && cached(rs)
  modifies every(resourceEntry.orderedKeys)
  inv cached(rs)
  ensures cached(rs)

func (*winres.ResourceSet).GetCursor
props C07
terminates
  requires wf(rs) && cached(rs)
  modifies every(resourceEntry.orderedKeys)
  ensures cached(rs)

func (*winres.ResourceSet).GetCursorTranslation
props C07
terminates
  requires wf(rs) && cached(rs)
  modifies every(resourceEntry.orderedKeys)
  inv cached(rs)
  ensures cached(rs)
