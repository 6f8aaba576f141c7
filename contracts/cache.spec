// The caches (property C14). A cache hands out the slots of its Value slice one after the other: those below the
// length are in use, those beyond are not. The contracts callers use (base.spec) speak of fresh nodes; the #body
// contracts here say what the code does with the slots.
uf slotbase(int) int
define slot(c,i) = ref(c.Value[i])

// the node is the slot after those in use: clean, of the kind asked for, and every other slot and node is as it was
func (*ValueCache).getValue#body(c,t) (r)
  inlines (*DxValue).Reset
  caches
  modifies c.Value, c.fisroot, nodes(u, ref(u) == ref(now(r))), mem(r.fobject.strkvs), mem(r.farr)
  ensures r != nil && !singleton(r) && cleannode(r,t)
  ensures fresh(r.fobject.strkvs) || base(r.fobject.strkvs) == old(base(r.fobject.strkvs))
  ensures fresh(r.farr) || base(r.farr) == old(base(r.farr))
  ensures c != nil ==> len(c.Value) == old(len(c.Value)) + 1 && ref(r) == slot(c,old(len(c.Value))) && off(c.Value) == old(off(c.Value))
  ensures c != nil && old(len(c.Value) < cap(c.Value)) ==> base(c.Value) == old(base(c.Value)) && cap(c.Value) == old(cap(c.Value))
  ensures c != nil && old(len(c.Value) == cap(c.Value)) ==> fresh(c.Value)
  ensures c != nil ==> !c.fisroot && ref(r.ownercache) == ite(old(c.fisroot), ref(c), ite(old(len(c.Value) < cap(c.Value)), old(ref(c.Value[:cap(c.Value)][len(c.Value)].ownercache)), 0))
  ensures c == nil ==> r.ownercache != nil && fresh(r.ownercache) && len(r.ownercache.Value) == 1 && fresh(r.ownercache.Value) && ref(r) == slot(r.ownercache,0)

// a cache in use nowhere else, without slots in use, whose next slot becomes the owner
func getCache#body() (r)
  caches
  modifies r.fisroot
  ensures r != nil && r.fisroot && len(r.Value) == 0
  ensures forall(u, "ref", ref(u.ownercache) != ref(r), u.ownercache)

// one node, the only one in use of a cache of its own, owned by nobody else
func NewCacheValue#body(tp) (r)
  inlines getCache, (*ValueCache).getValue, (*DxValue).Reset
  caches
  modifies nodes(u, ref(u) == ref(now(r))), mem(r.fobject.strkvs), mem(r.farr), now(r.ownercache).*
  ensures r != nil
  ensures tp >= VT_NULL && tp <= VT_INF ==> singleton(r) && r.DataType == tp
  ensures tp < VT_NULL || tp > VT_INF ==> !singleton(r) && cleannode(r,tp) && r.ownercache != nil && len(r.ownercache.Value) == 1 && ref(r) == slot(r.ownercache,0)
  ensures tp < VT_NULL || tp > VT_INF ==> forall(u, "ref", ref(u) != ref(r) ==> ref(u.ownercache) != ref(r.ownercache), u.ownercache)

// clearing a root gives back all slots of its cache but its own, and touches no other cache or node
func (*DxValue).Clear#body(v) ()
  caches
  requires v != nil
  modifies v.fobject, v.fstrvalue, v.fbinary, v.farr, mem(v.fobject.strkvs), mem(v.farr), old(v.ownercache).Value
  ensures v.fbinary == nil && v.fstrvalue == "" && !v.fobject.keysUnescaped && len(v.fobject.strkvs) == 0 && (v.DataType != VT_Object ==> len(v.farr) == 0)
  ensures v.ownercache != nil ==> len(v.ownercache.Value) == 1 && slot(v.ownercache,0) == old(slot(v.ownercache,0)) && cap(v.ownercache.Value) == old(cap(v.ownercache.Value))

// freeing gives the cache, if any, to the pool with no slot in use and no owner, and touches no other cache or node
func FreeValue#body(v) ()
  inlines (*DxValue).Clear
  caches
  requires v != nil && v.ownercache != nil ==> forall(u, "ref", ref(u) != ref(v) ==> ref(u.ownercache) != ref(v.ownercache), u.ownercache)
  modifies v.ownercache, v.fobject, v.fstrvalue, v.fbinary, v.farr, mem(v.fobject.strkvs), mem(v.farr), old(v.ownercache).Value
  ensures v != nil ==> v.ownercache == nil && len(v.fobject.strkvs) == 0 && v.fbinary == nil && v.fstrvalue == ""
  ensures v != nil && old(v.ownercache != nil) ==> len(old(v.ownercache).Value) == 0

func (*ValueCache).Reset#body(c,toRoot) ()
  caches
  requires c != nil && cap(c.Value) >= 1
  modifies c.Value
  ensures len(c.Value) == ite(toRoot, 0, 1) && base(c.Value) == old(base(c.Value)) && off(c.Value) == old(off(c.Value)) && cap(c.Value) == old(cap(c.Value))
