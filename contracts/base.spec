// Contracts of the value tree: nodes, objects, arrays, setters.

// ---- names ----
// Keys decoded from JSON are kept escaped until the first use (keysUnescaped false); unesc is the escape
// library's decoding. A name is seen by the caller in its unescaped form.
uf unesc(str) str
uf s_equalfold(str,str) bool
uf s_indexbyte(str,int) int

define ekey(o,i) = ite(o.keysUnescaped, o.strkvs[i].K, unesc(o.strkvs[i].K))

// a fresh, empty node of kind t
define cleannode(r,t) = r.DataType == t && r.ExtType == 0 && r.simpleV == 0 && !r.fobject.keysUnescaped && len(r.fobject.strkvs) == 0
| && len(r.farr) == 0 && r.fbinary == nil && len(r.fbinary) == 0 && r.fstrvalue == "" && (t != VT_Object ==> cap(r.fobject.strkvs) == 0) && (t != VT_Array ==> cap(r.farr) == 0)

func (*ValueCache).getValue(c,t) (r)
  trusted as if the node were new: the code hands out a clean slot that is in use nowhere else (proved of the slots as getValue#body, property C14)
  ensures r != nil && fresh(r) && !singleton(r)
  ensures cleannode(r,t) && prov(r.fstrvalue) == 0
  ensures fresh(r.fobject.strkvs) && fresh(r.farr)

func (*DxValue).ReadOnly(v) (r)
  inline
  ensures r == singleton(v)

func (*DxValue).Reset(v,dt) ()
  requires v != nil
  modifies v.DataType, v.ExtType, v.simpleV, v.fobject, v.fstrvalue, v.fbinary, v.farr, mem(v.fobject.strkvs), mem(v.farr)
  ensures !singleton(v) ==> cleannode(v,dt) && prov(v.fstrvalue) == 0
  ensures singleton(v) ==> unchanged(v.DataType, v.ExtType, v.fobject.strkvs, v.farr, v.fbinary)
  ensures base(v.farr) == old(base(v.farr)) || fresh(v.farr)
  ensures base(v.fobject.strkvs) == old(base(v.fobject.strkvs)) || fresh(v.fobject.strkvs)

func (*DxValue).Clear(v) ()
  requires v != nil
  modifies v.fobject, v.fstrvalue, v.fbinary, v.farr, mem(v.fobject.strkvs), mem(v.farr)
  ensures v.fbinary == nil && v.fstrvalue == "" && prov(v.fstrvalue) == 0 && !v.fobject.keysUnescaped
  ensures v.DataType == VT_Object ==> len(v.fobject.strkvs) == 0 && v.farr == old(v.farr)
  ensures v.DataType != VT_Object ==> len(v.fobject.strkvs) == 0 && len(v.farr) == 0
  ensures base(v.farr) == old(base(v.farr)) || fresh(v.farr)
  ensures base(v.fobject.strkvs) == old(base(v.fobject.strkvs)) || fresh(v.fobject.strkvs)

func FreeValue(v) ()
  modifies v.ownercache, v.fobject, v.fstrvalue, v.fbinary, v.farr, mem(v.fobject.strkvs), mem(v.farr)

// where the bytes of the names lie: as before, or in memory of their own
define keyprov(o) = forall(i, 0, len(o.strkvs), prov(o.strkvs[i].K) == 0 || prov(o.strkvs[i].K) >= old(next) || i < old(len(o.strkvs)) && prov(o.strkvs[i].K) == old(prov(o.strkvs[i].K)), prov(o.strkvs[i].K))

func (*VObject).UnEscapestrs(o) ()
  requires o != nil
  modifies o.keysUnescaped, mem(o.strkvs).K
  ensures o.keysUnescaped && o.strkvs == old(o.strkvs) && cap(o.strkvs) == old(cap(o.strkvs))
  ensures forall(i, 0, len(o.strkvs), o.strkvs[i].K == old(ekey(o,i)) && o.strkvs[i].V == old(o.strkvs[i].V), o.strkvs[i].K, o.strkvs[i].V)
  ensures[C15] keyprov(o)
  inv[C15] keyprov(o)
  inv forall(j, 0, $i, o.strkvs[j].K == unesc(old(o.strkvs[j].K)), o.strkvs[j].K)
  inv forall(j, 0, $i+1, o.strkvs[j].K == unesc(old(o.strkvs[j].K)), o.strkvs[j].K)
  inv forall(j, $i, len(o.strkvs), o.strkvs[j].K == old(o.strkvs[j].K), o.strkvs[j].K)
  inv forall(j, $i+1, len(o.strkvs), o.strkvs[j].K == old(o.strkvs[j].K), o.strkvs[j].K)

define match(k,n) = k == n || IgnoreCase && s_equalfold(k,n)
define nopct(s) = s_indexbyte(s,37) < 0
axiom unesc_plain (s str) {unesc(s)} s_indexbyte(s,92) < 0 && s_indexbyte(s,37) < 0 ==> unesc(s) == s
axiom fold_plain (a str, b str) {s_equalfold(a,b)} s_equalfold(a,b) ==> (s_indexbyte(b,92) < 0 ==> s_indexbyte(a,92) < 0) && (s_indexbyte(b,37) < 0 ==> s_indexbyte(a,37) < 0)

// the entries as the caller sees them are those of the old state
define sameentries(o) = len(o.strkvs) == old(len(o.strkvs)) && forall(i, 0, len(o.strkvs), ekey(o,i) == old(ekey(o,i)) && o.strkvs[i].V == old(o.strkvs[i].V), o.strkvs[i].K, o.strkvs[i].V)

func (*VObject).indexByName(o,name) (r)
  requires o != nil
  modifies o.keysUnescaped, mem(o.strkvs).K
  ensures o.strkvs == old(o.strkvs) && cap(o.strkvs) == old(cap(o.strkvs))
  ensures sameentries(o)
  ensures[C15] keyprov(o)
  inv[C15] keyprov(o)
  ensures o.keysUnescaped || r >= 0
  ensures -1 <= r && r < len(o.strkvs)
  ensures r >= 0 && nopct(name) ==> match(ekey(o,r),name)
  ensures r < 0 ==> forall(i, 0, len(o.strkvs), !match(ekey(o,i),name), o.strkvs[i].K)
  inv forall(j, 0, $i, !match(o.strkvs[j].K,name), o.strkvs[j].K)

func (*VObject).ValueByName(o,name) (r)
  requires o != nil
  modifies o.keysUnescaped, mem(o.strkvs).K
  ensures o.strkvs == old(o.strkvs) && cap(o.strkvs) == old(cap(o.strkvs))
  ensures sameentries(o)
  ensures nopct(name) ==> (r == nil && forall(i, 0, len(o.strkvs), !match(ekey(o,i),name), o.strkvs[i].K)) || exists(i, 0, len(o.strkvs), match(ekey(o,i),name) && o.strkvs[i].V == r)
  ensures nopct(name) && r == nil ==> exists(i, 0, len(o.strkvs), match(ekey(o,i),name) && o.strkvs[i].V == nil) || forall(i, 0, len(o.strkvs), !old(match(ekey(o,i),name)), old(o.strkvs[i].K))
  inv forall(j, 0, $i, !match(o.strkvs[j].K,name), o.strkvs[j].K)

define removed(o,r) = len(o.strkvs) == old(len(o.strkvs)) - 1
| && forall(i, 0, r, ekey(o,i) == old(ekey(o,i)) && o.strkvs[i].V == old(o.strkvs[i].V), o.strkvs[i].K, o.strkvs[i].V)
| && forall(i, r, len(o.strkvs), ekey(o,i) == old(ekey(o,i+1)) && o.strkvs[i].V == old(o.strkvs[i+1].V), o.strkvs[i].K, o.strkvs[i].V)

func (*VObject).Remove(o,name) ()
  requires o != nil
  modifies o.keysUnescaped, o.strkvs, mem(o.strkvs)
  ensures nopct(name) ==> (sameentries(o) && forall(i, 0, len(o.strkvs), !match(ekey(o,i),name), o.strkvs[i].K)) || exists(r, 0, old(len(o.strkvs)), old(match(ekey(o,r),name)) && removed(o,r))
  inv forall(j, 0, $i, !match(o.strkvs[j].K,name), o.strkvs[j].K)

func (*VObject).ExtractValue(o,name) (r)
  requires o != nil
  modifies o.keysUnescaped, o.strkvs, mem(o.strkvs)
  ensures nopct(name) ==> (r == nil && sameentries(o) && forall(i, 0, len(o.strkvs), !match(ekey(o,i),name), o.strkvs[i].K)) || exists(k, 0, old(len(o.strkvs)), old(match(ekey(o,k),name)) && removed(o,k) && r == old(o.strkvs[k].V))
  inv forall(j, 0, $i, !match(o.strkvs[j].K,name), o.strkvs[j].K)

// What is in the pool: caches without slots in use, owned by no node. Proved of everything put there (FreeValue#body).
poolinv ValueCachePool c = c != nil && len(c.Value) == 0 && forall(u, "ref", ref(u.ownercache) != ref(c), u.ownercache)

func getCache() (r)
  ensures r != nil

func NewValue(tp) (r)
  ensures r != nil
  ensures tp < VT_NULL || tp > VT_INF ==> fresh(r) && cleannode(r,tp) && fresh(r.fobject.strkvs) && fresh(r.farr) && r.ownercache == nil
  ensures tp >= VT_NULL && tp <= VT_INF ==> singleton(r) && r.DataType == tp

func NewArray(cached) (r)
  ensures r != nil && fresh(r) && cleannode(r,VT_Array) && fresh(r.farr)

func NewObject(cached) (r)
  ensures r != nil && fresh(r) && cleannode(r,VT_Object) && fresh(r.fobject.strkvs)

func NewCacheValue(tp) (r)
  ensures r != nil
  ensures tp < VT_NULL || tp > VT_INF ==> fresh(r) && cleannode(r,tp) && fresh(r.fobject.strkvs) && fresh(r.farr)
  ensures tp >= VT_NULL && tp <= VT_INF ==> singleton(r) && r.DataType == tp

// ---- setters ----
define isobj(v) = v.DataType == VT_Object
define samenode(u) = unchanged(u.DataType, u.ExtType, u.simpleV, u.fstrvalue, u.fbinary, u.farr, u.fobject.strkvs, u.fobject.keysUnescaped)

// key k of object v now carries r, every other entry is as before, a new entry is last
define keyset(v,name,r,k) = match(ekey(v.fobject,k),name) && v.fobject.strkvs[k].V == r
| && forall(i, 0, old(len(v.fobject.strkvs)), i != k ==> ekey(v.fobject,i) == old(ekey(v.fobject,i)) && v.fobject.strkvs[i].V == old(v.fobject.strkvs[i].V), v.fobject.strkvs[i].K, v.fobject.strkvs[i].V)
| && (len(v.fobject.strkvs) == old(len(v.fobject.strkvs)) && ekey(v.fobject,k) == old(ekey(v.fobject,k))
|  || len(v.fobject.strkvs) == old(len(v.fobject.strkvs)) + 1 && k == old(len(v.fobject.strkvs)) && ekey(v.fobject,k) == name && forall(i, 0, k, !match(old(ekey(v.fobject,i)),name), v.fobject.strkvs[i].K))

// the rows of a node stay its own or are new
define keeprows(v) = (base(v.farr) == old(base(v.farr)) || fresh(v.farr)) && (base(v.fobject.strkvs) == old(base(v.fobject.strkvs)) || fresh(v.fobject.strkvs))

// the names of v and the members are those it had, and the new one
define keyprovn(v,name) = forall(i, 0, len(v.fobject.strkvs), prov(v.fobject.strkvs[i].K) == 0 || prov(v.fobject.strkvs[i].K) >= old(next) || prov(v.fobject.strkvs[i].K) == prov(name) || i < old(len(v.fobject.strkvs)) && prov(v.fobject.strkvs[i].K) == old(prov(v.fobject.strkvs[i].K)), prov(v.fobject.strkvs[i].K))

func (*DxValue).SetKeyValue(v,name,value) ()
  requires v != nil
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures[C15] !singleton(v) && old(v.DataType) == VT_Object ==> v.DataType == VT_Object && keyprovn(v,name)
  ensures[C15,C18] !singleton(v) && old(v.DataType) == VT_Object ==> v.DataType == VT_Object && members(v,value)
  ensures singleton(v) ==> samenode(v)
  ensures keeprows(v)
  ensures[C08,C09,C17,C20] !singleton(v) && old(v.DataType) == VT_Object && nopct(name) ==> v.DataType == VT_Object && exists(k, 0, len(v.fobject.strkvs), keyset(v,name,value,k))
  ensures !singleton(v) && old(v.DataType) != VT_Array ==> v.DataType == VT_Object
  ensures unchanged(v.ownercache)

func (*DxValue).SetIndexValue(v,idx,value) ()
  requires v != nil
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures keeprows(v)
  ensures singleton(v) ==> samenode(v)
  ensures !singleton(v) ==> v.DataType == VT_Array
  ensures !singleton(v) && old(v.DataType) == VT_Array && idx >= 0 && idx < old(len(v.farr)) ==> len(v.farr) == old(len(v.farr)) && v.farr[idx] == value && forall(i, 0, len(v.farr), i != idx ==> v.farr[i] == old(v.farr[i]), v.farr[i])
  ensures !singleton(v) && old(v.DataType) == VT_Array && !(idx >= 0 && idx < old(len(v.farr))) ==> len(v.farr) == old(len(v.farr)) + 1 && v.farr[len(v.farr)-1] == value && sameelems(v.farr, v.farr, old(len(v.farr)))
  ensures !singleton(v) && old(v.DataType) != VT_Array ==> len(v.farr) == 1 && v.farr[0] == value
  ensures unchanged(v.ownercache)

// every node other than v and r is as it was
define othernodes(v,r) = forall(u, "ref", u != v && u != r && 0 < ref(u) && ref(u) < old(next) ==> samenode(u) && u.ownercache == old(u.ownercache),
|  u.DataType, u.ExtType, u.simpleV, u.fstrvalue, u.fbinary, u.farr, u.fobject.strkvs, u.fobject.keysUnescaped, u.ownercache)

// r is new and empty, or was a member of v and is kept as it was or emptied
define samerows(r) = forall(i, 0, len(r.farr), r.farr[i] == old(r.farr[i]), r.farr[i]) && forall(i, 0, len(r.fobject.strkvs), r.fobject.strkvs[i].K == old(r.fobject.strkvs[i].K) && prov(r.fobject.strkvs[i].K) == old(prov(r.fobject.strkvs[i].K)) && r.fobject.strkvs[i].V == old(r.fobject.strkvs[i].V), r.fobject.strkvs[i].K, r.fobject.strkvs[i].V)
define members(v,r) = forall(i, 0, len(v.farr), v.farr[i] == r || i < old(len(v.farr)) && v.farr[i] == old(v.farr[i]), v.farr[i])
| && forall(i, 0, len(v.fobject.strkvs), v.fobject.strkvs[i].V == r || i < old(len(v.fobject.strkvs)) && v.fobject.strkvs[i].V == old(v.fobject.strkvs[i].V), v.fobject.strkvs[i].V)
define handed(v,r,tp) = fresh(r) && cleannode(r,tp) && fresh(r.fobject.strkvs) && fresh(r.farr)
|  || !fresh(r) && (samenode(r) && samerows(r) || r == v || cleannode(r,tp)) && keeprows(r)
|   && (exists(i, 0, old(len(v.fobject.strkvs)), r == old(v.fobject.strkvs[i].V)) || exists(i, 0, old(len(v.farr)), r == old(v.farr[i])))

// a node just handed out by a setter: of the kind asked for
func (*DxValue).SetKeyCached(v,name,tp,c) (r)
  ghost bb
  requires[C15] prov(name) != bb
  requires v != nil
  modifies nodes(u, u == v && !singleton(v) || u == r), rows(strkv, b, b == base(v.fobject.strkvs) || !fresh(r) && b == base(r.fobject.strkvs)), rows(nodeptr, b, b == base(v.farr) || !fresh(r) && b == base(r.farr))
  ensures r != nil && r.DataType == tp
  ensures !singleton(r) && keeprows(v)
  ensures handed(v,r,tp)
  ensures !singleton(v) ==> members(v,r)
  ensures singleton(v) ==> fresh(r)
  ensures unchanged(v.ownercache)
  ensures[C08,C09,C17,C20] !singleton(v) && old(v.DataType) == VT_Object && nopct(name) && old(!exists(i, 0, len(v.fobject.strkvs), v.fobject.strkvs[i].V == v)) ==> v.DataType == VT_Object && exists(k, 0, len(v.fobject.strkvs), keyset(v,name,r,k))
  ensures !singleton(v) && old(v.DataType) != VT_Array && r != v ==> v.DataType == VT_Object

func (*DxValue).SetIndexCached(v,idx,tp,c) (r)
  requires v != nil
  modifies nodes(u, u == v && !singleton(v) || u == r), rows(strkv, b, b == base(v.fobject.strkvs) || !fresh(r) && b == base(r.fobject.strkvs)), rows(nodeptr, b, b == base(v.farr) || !fresh(r) && b == base(r.farr))
  ensures r != nil && r.DataType == tp
  ensures !singleton(r) && keeprows(v)
  ensures handed(v,r,tp)
  ensures !singleton(v) ==> members(v,r)
  ensures singleton(v) ==> fresh(r)
  ensures unchanged(v.ownercache)
  ensures !singleton(v) && r != v ==> v.DataType == VT_Array
  ensures !singleton(v) && old(v.DataType) == VT_Array && idx >= 0 && idx < old(len(v.farr)) && r != v ==> len(v.farr) == old(len(v.farr)) && v.farr[idx] == r && forall(i, 0, len(v.farr), i != idx ==> v.farr[i] == old(v.farr[i]), v.farr[i])
  ensures !singleton(v) && old(v.DataType) == VT_Array && !(idx >= 0 && idx < old(len(v.farr))) ==> len(v.farr) == old(len(v.farr)) + 1 && v.farr[len(v.farr)-1] == r && sameelems(v.farr, v.farr, old(len(v.farr)))
  ensures old(v.DataType) == VT_Array ==> fresh(r) || idx >= 0 && idx < old(len(v.farr)) && r == old(v.farr[idx])

func (*DxValue).InsertValue(v,idx,tp) (r)
  requires v != nil
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures keeprows(v)
  ensures r != nil && r.DataType == tp
  ensures singleton(v) ==> samenode(v)
  ensures unchanged(v.ownercache)
  ensures !singleton(v) ==> v.DataType == VT_Array
  ensures !singleton(v) && old(v.DataType) == VT_Array ==> len(v.farr) == old(len(v.farr)) + 1
  ensures !singleton(v) && old(v.DataType) == VT_Array && idx <= 0 ==> v.farr[0] == r && forall(i, 0, old(len(v.farr)), v.farr[i+1] == old(v.farr[i]), v.farr[i+1])
  ensures !singleton(v) && old(v.DataType) == VT_Array && idx > 0 && idx < old(len(v.farr)) ==> v.farr[idx] == r && forall(i, 0, idx, v.farr[i] == old(v.farr[i]), v.farr[i]) && forall(i, idx, old(len(v.farr)), v.farr[i+1] == old(v.farr[i]), v.farr[i+1])
  ensures !singleton(v) && old(v.DataType) == VT_Array && idx > 0 && idx >= old(len(v.farr)) ==> v.farr[len(v.farr)-1] == r && sameelems(v.farr, v.farr, old(len(v.farr)))

func (*DxValue).RemoveIndex(v,idx) ()
  requires v != nil
  modifies v.farr, mem(v.farr)
  ensures v.DataType != VT_Array || idx < 0 || idx >= old(len(v.farr)) ==> v.farr == old(v.farr) && sameelems(v.farr, v.farr, old(len(v.farr)))
  ensures v.DataType == VT_Array && idx >= 0 && idx < old(len(v.farr)) ==> len(v.farr) == old(len(v.farr)) - 1 && sameelems(v.farr, v.farr, idx) && forall(i, idx, len(v.farr), v.farr[i] == old(v.farr[i+1]), v.farr[i])

func (*DxValue).ValueByIndex(v,idx) (r)
  requires v != nil
  ensures v.DataType == VT_Object ==> ite(idx >= 0 && idx < len(v.fobject.strkvs), r == v.fobject.strkvs[idx].V, r == nil)
  ensures v.DataType == VT_Array ==> ite(idx >= 0 && idx < len(v.farr), r == v.farr[idx], r == nil)
  ensures v.DataType > VT_Array ==> r == nil

func (*DxValue).KeyNameByIndex(v,idx) (r)
  requires v != nil
  modifies v.fobject.keysUnescaped, mem(v.fobject.strkvs).K
  ensures v.DataType == VT_Object && idx >= 0 && idx < len(v.fobject.strkvs) ==> r == old(ekey(v.fobject,idx))
  ensures !(v.DataType == VT_Object && idx >= 0 && idx < len(v.fobject.strkvs)) ==> r == ""
  ensures sameentries(v.fobject)

func (*DxValue).Items(v,idx) (k,r)
  requires v != nil
  modifies v.fobject.keysUnescaped, mem(v.fobject.strkvs).K
  ensures v.DataType == VT_Object && idx >= 0 && idx < len(v.fobject.strkvs) ==> k == old(ekey(v.fobject,idx)) && r == old(v.fobject.strkvs[idx].V)
  ensures v.DataType == VT_Array && idx >= 0 && idx < len(v.farr) ==> k == "" && r == v.farr[idx]
  ensures v.DataType > VT_Array || idx < 0 || v.DataType == VT_Array && idx >= len(v.farr) || v.DataType == VT_Object && idx >= len(v.fobject.strkvs) ==> k == "" && r == nil
  ensures sameentries(v.fobject)

func (*DxValue).Count(v) (r)
  requires v != nil
  ensures r == ite(v.DataType == VT_Object, len(v.fobject.strkvs), ite(v.DataType == VT_Array, len(v.farr), 0))

func (*DxValue).ValueByName(v,name) (r)
  requires v != nil
  modifies v.fobject.keysUnescaped, mem(v.fobject.strkvs).K
  ensures sameentries(v.fobject) && v.fobject.strkvs == old(v.fobject.strkvs)
  ensures v.DataType == VT_Object && nopct(name) ==> (r == nil && forall(i, 0, len(v.fobject.strkvs), !match(ekey(v.fobject,i),name), v.fobject.strkvs[i].K)) || exists(i, 0, len(v.fobject.strkvs), match(ekey(v.fobject,i),name) && v.fobject.strkvs[i].V == r)
  ensures v.DataType > VT_Array ==> r == nil
  ensures v.DataType == VT_Array && 0 <= toidx(name) && toidx(name) < len(v.farr) ==> r == v.farr[toidx(name)]
  ensures v.DataType == VT_Array && !(0 <= toidx(name) && toidx(name) < len(v.farr)) ==> r == nil
  ensures v.DataType == VT_Object && nopct(name) && r == nil ==> exists(i, 0, len(v.fobject.strkvs), match(ekey(v.fobject,i),name) && v.fobject.strkvs[i].V == nil) || forall(i, 0, len(v.fobject.strkvs), !old(match(ekey(v.fobject,i),name)), old(v.fobject.strkvs[i].K))

func (*DxValue).RemoveKey(v,name) ()
  requires v != nil
  modifies v.fobject.keysUnescaped, v.fobject.strkvs, mem(v.fobject.strkvs)
  ensures v.DataType != VT_Object ==> v.fobject.strkvs == old(v.fobject.strkvs)
  ensures v.DataType == VT_Object && nopct(name) ==> (sameentries(v.fobject) && forall(i, 0, len(v.fobject.strkvs), !match(ekey(v.fobject,i),name), v.fobject.strkvs[i].K)) || exists(r, 0, old(len(v.fobject.strkvs)), old(match(ekey(v.fobject,r),name)) && removed(v.fobject,r))

func (*DxValue).ExtractValue(v,name) (r)
  requires v != nil
  modifies v.fobject.keysUnescaped, v.fobject.strkvs, mem(v.fobject.strkvs)
  ensures v.DataType != VT_Object ==> r == nil && v.fobject.strkvs == old(v.fobject.strkvs)
  ensures v.DataType == VT_Object && nopct(name) ==> (r == nil && sameentries(v.fobject) && forall(i, 0, len(v.fobject.strkvs), !match(ekey(v.fobject,i),name), v.fobject.strkvs[i].K)) || exists(k, 0, old(len(v.fobject.strkvs)), old(match(ekey(v.fobject,k),name)) && removed(v.fobject,k) && r == old(v.fobject.strkvs[k].V))

func (*DxValue).SetKey(v,name,tp) (r)
  requires v != nil
  modifies nodes(u, u == v && !singleton(v) || u == r), rows(strkv, b, b == base(v.fobject.strkvs) || !fresh(r) && b == base(r.fobject.strkvs)), rows(nodeptr, b, b == base(v.farr) || !fresh(r) && b == base(r.farr))
  ensures r != nil && r.DataType == tp
  ensures !singleton(r) && keeprows(v)
  ensures handed(v,r,tp)
  ensures !singleton(v) ==> members(v,r)
  ensures singleton(v) ==> fresh(r)
  ensures unchanged(v.ownercache)
  ensures[C08,C09,C17,C20] !singleton(v) && old(v.DataType) == VT_Object && nopct(name) && old(!exists(i, 0, len(v.fobject.strkvs), v.fobject.strkvs[i].V == v)) ==> v.DataType == VT_Object && exists(k, 0, len(v.fobject.strkvs), keyset(v,name,r,k))
  ensures !singleton(v) && old(v.DataType) != VT_Array && r != v ==> v.DataType == VT_Object

func (*DxValue).SetIndex(v,idx,tp) (r)
  requires v != nil
  modifies nodes(u, u == v && !singleton(v) || u == r), rows(strkv, b, b == base(v.fobject.strkvs) || !fresh(r) && b == base(r.fobject.strkvs)), rows(nodeptr, b, b == base(v.farr) || !fresh(r) && b == base(r.farr))
  ensures r != nil && r.DataType == tp
  ensures !singleton(r) && keeprows(v)
  ensures handed(v,r,tp)
  ensures !singleton(v) ==> members(v,r)
  ensures singleton(v) ==> fresh(r)
  ensures unchanged(v.ownercache)
  ensures !singleton(v) && r != v ==> v.DataType == VT_Array
  ensures !singleton(v) && old(v.DataType) == VT_Array && idx >= 0 && idx < old(len(v.farr)) && r != v ==> len(v.farr) == old(len(v.farr)) && v.farr[idx] == r && forall(i, 0, len(v.farr), i != idx ==> v.farr[i] == old(v.farr[i]), v.farr[i])
  ensures !singleton(v) && old(v.DataType) == VT_Array && !(idx >= 0 && idx < old(len(v.farr))) ==> len(v.farr) == old(len(v.farr)) + 1 && v.farr[len(v.farr)-1] == r && sameelems(v.farr, v.farr, old(len(v.farr)))
  ensures old(v.DataType) == VT_Array ==> fresh(r) || idx >= 0 && idx < old(len(v.farr)) && r == old(v.farr[idx])

func (*DxValue).Append(v,tp) (r)
  requires v != nil
  requires len(v.farr) <= 2147483647
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures keeprows(v)
  ensures r != nil && r.DataType == tp
  ensures singleton(v) ==> samenode(v)
  ensures !singleton(v) ==> v.DataType == VT_Array
  ensures !singleton(v) && old(v.DataType) == VT_Array ==> len(v.farr) == old(len(v.farr)) + 1 && v.farr[len(v.farr)-1] == r && sameelems(v.farr, v.farr, old(len(v.farr)))
