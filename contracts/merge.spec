// Merging.

// Arrays: cp is the set of nodes of the source (copy.spec). hit(i) says that element i of the source equals one of the
// target's elements (element hitj(i)), in the sense of the equations of equal.spec; wpos(i) is the number of the
// source's first i elements that equal none. They are defined by their equations over the heap at entry (gq(0)).
uf hit(int) bool
uf hitj(int) int
uf wpos(int) int
define hits(v,w) = forall(i, 0, len(w.farr), hit(i) ==> 0 <= hitj(i) && hitj(i) < len(v.farr) && eqv(ref(w.farr[i]),ref(v.farr[hitj(i)])), hit(i))
| && forall(i, 0, len(w.farr), forall(j, 0, len(v.farr), eqv(ref(w.farr[i]),ref(v.farr[j])) ==> hit(i), eqv(ref(w.farr[i]),ref(v.farr[j]))))
define wposeq(w) = wpos(0) == 0 && forall(i, 0, len(w.farr), wpos(i+1) == wpos(i) + ite(hit(i), 0, 1), hit(i), w.farr[i])

func mergeObject(parentpath,v,value,mergefunc) (r)
  trusted merging of objects is decided by the bounded stand-in (DESIGN.md, C13)
  requires v != nil && value != nil
  modifies nodes(u, !cp(ref(u)) && !singleton(u)), nodes(u, true).fobject.keysUnescaped, nodes(u, true).DataType, nodes(u, true).fstrvalue, rows(strkv, b, !cp(ref(owner(b,1)))), rows(nodeptr, b, !cp(ref(owner(b)))), rows(strkv, b, true).K, spare(parentpath)
  ensures seenkeys(v)
  ensures seennodes(v)

func (*DxValue).MergeWith(v,value,mergefunc) ()
  ghost k
  requires k <= next && treek(k)
  requires v != nil ==> !cp(ref(v))
  requires ref(value) < k && (value != nil ==> cp(ref(value)))
  requires gq(0) ==> ref(v) < k && members0(k) && noraw(k)
  requires gq(0) ==> eqnil(k) && eqsame(k) && eqkind(k) && eqscalar(k)
  requires gq(0) ==> eqbin(k)
  requires gq(0) ==> eqarr(k)
  requires gq(0) ==> eqobj(k)
  requires gq(0) && v != nil && value != nil ==> v.DataType == VT_Array && hits(v,value) && wposeq(value)
  modifies nodes(u, v.DataType == VT_Object && !cp(ref(u)) && !singleton(u)), v.farr, nodes(u, true).fobject.keysUnescaped, nodes(u, true).DataType, nodes(u, true).fstrvalue, rows(strkv, b, v.DataType == VT_Object && !cp(ref(owner(b,1)))), rows(nodeptr, b, v.DataType == VT_Object && !cp(ref(owner(b))) || b == base(v.farr)), rows(strkv, b, true).K
  ensures old(v.DataType != VT_Object) ==> seenkeys(v) && seennodes(v)
  ensures old(v != nil && value != nil && v.DataType == VT_Array && value.DataType == VT_Array) ==> len(v.farr) >= old(len(v.farr)) && sameelems(v.farr, v.farr, old(len(v.farr)))
  ensures gq(0) && old(v != nil && value != nil && value.DataType == VT_Array) ==> len(v.farr) == old(len(v.farr)) + wpos(len(value.farr)) && forall(i, 0, len(value.farr), !hit(i) ==> 0 <= wpos(i) && wpos(i) < wpos(len(value.farr)) && src(v.farr[old(len(v.farr))+wpos(i)]) == ref(value.farr[i]), hit(i))
  ensures old(v != nil && (value == nil || value.DataType != v.DataType)) ==> v.farr == old(v.farr) && sameelems(v.farr, v.farr, len(v.farr))
  inv seenkeys(v)
  inv seennodes(v)
  inv gq(0) ==> noraw(k)
  inv gq(0) ==> len($c) == wpos($i)
  inv gq(0) ==> forall(j, 0, $i, !hit(j) ==> 0 <= wpos(j) && wpos(j) < len($c) && src($c[wpos(j)]) == ref(value.farr[j]), hit(j))
  inv gq(0) ==> forall(j, 0, $i, !eqv(ref($p),ref(v.farr[j])), v.farr[j])
