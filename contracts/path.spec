// Lookup by path.

uf x_DxCommonLib.StrToIntDef_1(str,int) int
// the index a name means in an array
define toidx(s) = x_DxCommonLib.StrToIntDef_1(s,0-1)

// look(u,s): the member of u called s, or none (0). Defined by its equations over the heap at entry; in an object
// the names must be distinct for such a function to exist. lpos names the place of the entry.
uf look(int,str) int
uf lpos(int,str) int
define lookobj(k) = forall(u, "ref", forall(s, "str", forall(i, 0, len(u.fobject.strkvs), 0 < ref(u) && ref(u) < k && u.DataType == VT_Object && match(ekey(u.fobject,i),s) ==> look(ref(u),s) == ref(u.fobject.strkvs[i].V), trig(look(ref(u),s), u.fobject.strkvs[i].K))))
| && forall(u, "ref", forall(s, "str", 0 < ref(u) && ref(u) < k && u.DataType == VT_Object && look(ref(u),s) != 0 ==> 0 <= lpos(ref(u),s) && lpos(ref(u),s) < len(u.fobject.strkvs) && match(ekey(u.fobject,lpos(ref(u),s)),s) && look(ref(u),s) == ref(u.fobject.strkvs[lpos(ref(u),s)].V), look(ref(u),s)))
define lookarr(k) = forall(u, "ref", forall(s, "str", 0 < ref(u) && ref(u) < k && u.DataType == VT_Array ==> (0 <= toidx(s) && toidx(s) < len(u.farr) ==> look(ref(u),s) == ref(u.farr[toidx(s)])) && (!(0 <= toidx(s) && toidx(s) < len(u.farr)) ==> look(ref(u),s) == 0), look(ref(u),s)))
| && forall(u, "ref", forall(s, "str", 0 < ref(u) && ref(u) < k && u.DataType > VT_Array ==> look(ref(u),s) == 0, look(ref(u),s)))
| && forall(s, "str", look(0,s) == 0, look(0,s))

// wk(i): the node reached from v by the first i names (none, once a name is missing)
uf wk(int) int
define walk(v,k,paths) = forall(i, 0, len(paths)+1, wk(i) < k, wk(i)) && wk(0) == ref(v) && forall(i, 0, len(paths), wk(i+1) == look(wk(i),paths[i]), paths[i], wk(i+1)) && forall(i, 0, len(paths)+1, wk(i) == 0 ==> wk(len(paths)) == 0, wk(i))
define plainpath(paths) = forall(i, 0, len(paths), nopct(paths[i]), paths[i])

define seenback(x) = forall(u, "ref", forall(i, 0, len(u.fobject.strkvs), ekey(u.fobject,i) == old(ekey(u.fobject,i)), old(u.fobject.strkvs[i].K)))

func (*DxValue).ValueByPath(v,paths) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk(v,k,paths)
  requires plainpath(paths)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures ref(r) == wk(len(paths))
  inv seenkeys(v)
  inv seenback(v)
  inv ref($p) < k
  inv ref($p) == wk($i)

func (*DxValue).ForcePath(v,vt,paths) (r)
  requires v != nil
  modifies everything
  ensures r != nil
  ensures len(paths) == 0 ==> r == v
  ensures len(paths) > 0 ==> r.DataType == vt && !singleton(r)
  inv $p != nil ==> $i >= 1
  inv $i == 0 ==> $p == v
  inv len(paths) <= 1 ==> $p == v
