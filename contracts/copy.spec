// Deep copies.

// cp is the set of nodes of the value that is copied (any set of nodes that existed when the outermost call was
// made, below k, and that is closed under children): they form a tree.
uf cp(int) bool
define treek(k) = forall(u, "ref", forall(i, 0, len(u.farr), cp(ref(u)) && 0 < ref(u) && ref(u) < k ==> rk(u.farr[i]) < rk(u) && ref(u.farr[i]) < k && cp(ref(u.farr[i])), u.farr[i]))
| && forall(u, "ref", forall(i, 0, len(u.fobject.strkvs), cp(ref(u)) && 0 < ref(u) && ref(u) < k ==> rk(u.fobject.strkvs[i].V) < rk(u) && ref(u.fobject.strkvs[i].V) < k && cp(ref(u.fobject.strkvs[i].V)), u.fobject.strkvs[i].V))

// src(r) == v records that r was returned by a call clone(v): a ghost attribute of the node, given to a fresh node
// when clone returns it and to the shared constants once and for all.
uf src(int) int

define copiedscalar(r,v) = r.DataType == v.DataType && r.ExtType == v.ExtType
| && (v.DataType >= VT_Int && v.DataType <= VT_DateTime ==> r.simpleV == v.simpleV)
| && (v.DataType == VT_String || v.DataType == VT_RawString ==> r.fstrvalue == v.fstrvalue)
define copiedbin(r,v) = v.DataType == VT_Binary || v.DataType == VT_ExBinary ==> len(r.fbinary) == len(v.fbinary) && fresh(r.fbinary) && forall(i, 0, len(v.fbinary), r.fbinary[i] == v.fbinary[i], r.fbinary[i])
define copiedobj(r,v) = v.DataType == VT_Object ==> r.fobject.keysUnescaped == v.fobject.keysUnescaped && len(r.fobject.strkvs) == len(v.fobject.strkvs)
| && forall(i, 0, len(v.fobject.strkvs), r.fobject.strkvs[i].K == v.fobject.strkvs[i].K, r.fobject.strkvs[i].K) && forall(i, 0, len(v.fobject.strkvs), src(r.fobject.strkvs[i].V) == ref(v.fobject.strkvs[i].V), src(r.fobject.strkvs[i].V))
define copiedarr(r,v) = v.DataType == VT_Array ==> len(r.farr) == len(v.farr) && forall(i, 0, len(v.farr), src(r.farr[i]) == ref(v.farr[i]), src(r.farr[i]))

func (*DxValue).clone(v,c) (r)
  ghost k
  requires treek(k)
  requires ref(v) < k && k <= next && cp(ref(v))
  decreases rk(v)
  assumes src(r) == ref(v)
  ensures v == nil || singleton(v) ==> r == v
  ensures v != nil && !singleton(v) ==> r != nil && fresh(r)
  ensures[C11] v != nil && !singleton(v) ==> copiedscalar(r,v)
  ensures[C11] v != nil && !singleton(v) ==> copiedbin(r,v)
  ensures[C11] v != nil && !singleton(v) ==> copiedobj(r,v)
  ensures[C11] v != nil && !singleton(v) ==> copiedarr(r,v)
  inv[C11] len($p.farr) == $i
  inv[C11] len($p.fobject.strkvs) == $i
  inv[C11] forall(j, 0, $i, src($p.farr[j]) == ref(v.farr[j]), src($p.farr[j]))
  inv[C11] forall(j, 0, $i, $p.fobject.strkvs[j].K == v.fobject.strkvs[j].K, $p.fobject.strkvs[j].K)
  inv[C11] forall(j, 0, $i, src($p.fobject.strkvs[j].V) == ref(v.fobject.strkvs[j].V), src($p.fobject.strkvs[j].V))
  inv[C11] copiedscalar($p,v) && $p.fobject.keysUnescaped == v.fobject.keysUnescaped
  inv[C11] copiedscalar($p,v)

func (*DxValue).Clone(v,usecache) (r)
  requires treek(next) && cp(ref(v))
  ensures v == nil || singleton(v) ==> r == v
  ensures v != nil && !singleton(v) ==> r != nil && fresh(r)
  ensures[C11] v != nil && !singleton(v) ==> copiedscalar(r,v)
  ensures[C11] v != nil && !singleton(v) ==> copiedbin(r,v)
  ensures[C11] v != nil && !singleton(v) ==> copiedobj(r,v)
  ensures[C11] v != nil && !singleton(v) ==> copiedarr(r,v)

// Copying into v: v is not part of the value that is copied.
func (*DxValue).CopyFrom(v,fromv,c) ()
  requires v != nil && fromv != nil
  requires treek(next) && cp(ref(fromv)) && !cp(ref(v))
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures unchanged(v.ownercache) && keeprows(v)
  ensures singleton(v) ==> samenode(v)
  ensures[C11] !singleton(v) ==> copiedscalar(v,fromv)
  ensures[C11] !singleton(v) ==> copiedbin(v,fromv)
  ensures[C11] !singleton(v) ==> copiedobj(v,fromv)
  ensures[C11] !singleton(v) ==> copiedarr(v,fromv)
  inv[C11] len(v.farr) == $i
  inv[C11] len(v.fobject.strkvs) == $i
  inv[C11] forall(j, 0, $i, src(v.farr[j]) == ref(fromv.farr[j]), src(v.farr[j]))
  inv[C11] forall(j, 0, $i, v.fobject.strkvs[j].K == fromv.fobject.strkvs[j].K, v.fobject.strkvs[j].K)
  inv[C11] forall(j, 0, $i, src(v.fobject.strkvs[j].V) == ref(fromv.fobject.strkvs[j].V), src(v.fobject.strkvs[j].V))
  inv[C11] copiedscalar(v,fromv) && v.fobject.keysUnescaped == fromv.fobject.keysUnescaped
  inv[C11] copiedscalar(v,fromv)
  inv keeprows(v)

// Adding the members of fromv to v (a container of the same kind): those of v stay, copies of fromv's follow in order.
func (*DxValue).AddFrom(v,fromv,c) ()
  requires v != nil && fromv != nil
  requires treek(next) && cp(ref(fromv)) && !cp(ref(v))
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr), fromv.fobject.keysUnescaped, mem(fromv.fobject.strkvs).K
  ensures unchanged(v.ownercache, v.DataType) && keeprows(v)
  ensures singleton(v) ==> samenode(v)
  ensures !singleton(v) && old(fromv.DataType) == VT_Array ==> len(v.farr) == old(len(v.farr)) + len(fromv.farr) && sameelems(v.farr, v.farr, old(len(v.farr))) && forall(i, 0, len(fromv.farr), src(v.farr[old(len(v.farr))+i]) == ref(fromv.farr[i]), fromv.farr[i])
  ensures !singleton(v) && old(fromv.DataType) == VT_Object ==> len(v.fobject.strkvs) == old(len(v.fobject.strkvs)) + len(fromv.fobject.strkvs) && forall(i, 0, old(len(v.fobject.strkvs)), ekey(v.fobject,i) == old(ekey(v.fobject,i)) && v.fobject.strkvs[i].V == old(v.fobject.strkvs[i].V), v.fobject.strkvs[i].K, v.fobject.strkvs[i].V)
  ensures !singleton(v) && old(fromv.DataType) == VT_Object ==> forall(i, 0, len(fromv.fobject.strkvs), ekey(v.fobject,old(len(v.fobject.strkvs))+i) == old(ekey(fromv.fobject,i)) && src(v.fobject.strkvs[old(len(v.fobject.strkvs))+i].V) == ref(fromv.fobject.strkvs[i].V), fromv.fobject.strkvs[i].V)
  ensures sameentries(fromv.fobject)
  inv keeprows(v)
  inv sameentries(fromv.fobject)
  inv len(v.farr) == old(len(v.farr)) + $i && sameelems(v.farr, v.farr, old(len(v.farr)))
  inv forall(j, 0, $i, src(v.farr[old(len(v.farr))+j]) == ref(fromv.farr[j]), fromv.farr[j])
  inv len(v.fobject.strkvs) == old(len(v.fobject.strkvs)) + $i && v.fobject.keysUnescaped && fromv.fobject.keysUnescaped
  inv forall(j, 0, old(len(v.fobject.strkvs)), v.fobject.strkvs[j].K == old(ekey(v.fobject,j)) && v.fobject.strkvs[j].V == old(v.fobject.strkvs[j].V), v.fobject.strkvs[j].K, v.fobject.strkvs[j].V)
  inv forall(j, 0, $i, v.fobject.strkvs[old(len(v.fobject.strkvs))+j].K == old(ekey(fromv.fobject,j)) && src(v.fobject.strkvs[old(len(v.fobject.strkvs))+j].V) == ref(fromv.fobject.strkvs[j].V), fromv.fobject.strkvs[j].V)
  inv treek(old(next))
