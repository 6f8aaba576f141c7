// Equality.

// eqr is the relation "same content", given by its defining equations over the heap below k (eqdef); eqv is the
// same relation under the name it has between children, so that the equations unfold one level only. eqd names a
// place where two containers of one length differ. All three are arbitrary functions that satisfy the equations:
// over a tree there is exactly one such relation. gq(0) says that no text is kept in escaped form below k.
uf eqr(int,int) bool
uf eqv(int,int) bool
uf eqd(int,int) int
uf gq(int) bool
uf feq(int,int) bool
uf i2f64(int) int
uf f32to64(int) int
axiom feq_sym (a int, b int) {feq(a,b)} feq(a,b) == feq(b,a)

define isnum(u) = u.DataType >= VT_Int && u.DataType <= VT_Double
define dbl(u) = ite(u.DataType == VT_Int, i2f64(signed(u.simpleV,64)), ite(u.DataType == VT_Float, f32to64(mod(u.simpleV,4294967296)), u.simpleV))
define both(u,w,k) = 0 < ref(u) && ref(u) < k && 0 < ref(w) && ref(w) < k
define bothof(u,w,k,t) = both(u,w,k) && u.DataType == t && w.DataType == t
define bincontent(u) = u.DataType == VT_Binary || u.DataType == VT_ExBinary

define eqnil(k) = forall(u, "ref", forall(w, "ref", ref(u) == 0 || ref(w) == 0 ==> eqr(ref(u),ref(w)) == (ref(u) == ref(w)), eqr(ref(u),ref(w))))
define eqsame(k) = forall(u, "ref", forall(w, "ref", eqr(ref(u),ref(w)) == eqv(ref(u),ref(w)), eqr(ref(u),ref(w))))
define eqkind(k) = forall(u, "ref", forall(w, "ref", both(u,w,k) && u.DataType != w.DataType ==> eqr(ref(u),ref(w)) == (isnum(u) && isnum(w) && feq(dbl(u),dbl(w))), eqr(ref(u),ref(w))))
define eqscalar(k) = forall(u, "ref", forall(w, "ref", both(u,w,k) && u.DataType == w.DataType ==>
|   (u.DataType == VT_String ==> eqr(ref(u),ref(w)) == (u.fstrvalue == w.fstrvalue))
|   && (u.DataType >= VT_NULL ==> eqr(ref(u),ref(w)))
|   && (u.DataType >= VT_Int && u.DataType <= VT_DateTime ==> eqr(ref(u),ref(w)) == (u.simpleV == w.simpleV)), eqr(ref(u),ref(w))))
define eqbin(k) = forall(u, "ref", forall(w, "ref", both(u,w,k) && bincontent(u) && u.DataType == w.DataType ==> eqr(ref(u),ref(w)) == (str(u.fbinary) == str(w.fbinary)), eqr(ref(u),ref(w))))
define eqarr(k) = forall(u, "ref", forall(w, "ref", bothof(u,w,k,VT_Array) ==>
|   (eqr(ref(u),ref(w)) ==> len(u.farr) == len(w.farr))
|   && (!eqr(ref(u),ref(w)) && len(u.farr) == len(w.farr) ==> 0 <= eqd(ref(u),ref(w)) && eqd(ref(u),ref(w)) < len(u.farr) && !eqv(ref(u.farr[eqd(ref(u),ref(w))]),ref(w.farr[eqd(ref(u),ref(w))]))), eqr(ref(u),ref(w))))
| && forall(u, "ref", forall(w, "ref", forall(i, 0, len(u.farr), bothof(u,w,k,VT_Array) && eqr(ref(u),ref(w)) ==> eqv(ref(u.farr[i]),ref(w.farr[i])), trig(eqr(ref(u),ref(w)), u.farr[i]))))
define entdiff(u,w,d) = ekey(u.fobject,d) != ekey(w.fobject,d) || !eqv(ref(u.fobject.strkvs[d].V),ref(w.fobject.strkvs[d].V))
define eqobj(k) = forall(u, "ref", forall(w, "ref", bothof(u,w,k,VT_Object) ==>
|   (eqr(ref(u),ref(w)) ==> len(u.fobject.strkvs) == len(w.fobject.strkvs))
|   && (!eqr(ref(u),ref(w)) && len(u.fobject.strkvs) == len(w.fobject.strkvs) ==> 0 <= eqd(ref(u),ref(w)) && eqd(ref(u),ref(w)) < len(u.fobject.strkvs) && entdiff(u,w,eqd(ref(u),ref(w)))), eqr(ref(u),ref(w))))
| && forall(u, "ref", forall(w, "ref", forall(i, 0, len(u.fobject.strkvs), bothof(u,w,k,VT_Object) && eqr(ref(u),ref(w)) ==> !entdiff(u,w,i), trig(eqr(ref(u),ref(w)), u.fobject.strkvs[i].V), trig(eqr(ref(u),ref(w)), u.fobject.strkvs[i].K))))
define members0(k) = forall(u, "ref", forall(i, 0, len(u.farr), ref(u.farr[i]) < k, u.farr[i])) && forall(u, "ref", forall(i, 0, len(u.fobject.strkvs), ref(u.fobject.strkvs[i].V) < k, u.fobject.strkvs[i].V))
define noraw(k) = forall(u, "ref", ref(u) < k ==> u.DataType != VT_RawString, u.DataType)

// text kept in escaped form may be replaced by its plain form when it is read
define seennodes(x) = forall(u, "ref", u.DataType == old(u.DataType) && u.fstrvalue == old(u.fstrvalue) || old(u.DataType) == VT_RawString && u.DataType == VT_String, u.DataType, u.fstrvalue)

define stayplain(x) = forall(u, "ref", old(u.fobject.keysUnescaped) ==> u.fobject.keysUnescaped, u.fobject.keysUnescaped)

func (*DxValue).Equal(v,value) (r)
  ghost k
  requires treek(k) && cp(ref(v))
  requires k <= next && ref(v) < k
  requires gq(0) ==> ref(value) < k && members0(k)
  requires gq(0) ==> noraw(k)
  requires gq(0) ==> eqnil(k) && eqsame(k) && eqkind(k) && eqscalar(k)
  requires gq(0) ==> eqbin(k)
  requires gq(0) ==> eqarr(k)
  requires gq(0) ==> eqobj(k)
  decreases rk(v)
  modifies nodes(u, true).fobject.keysUnescaped, nodes(u, true).DataType, nodes(u, true).fstrvalue, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures seennodes(v)
  ensures stayplain(v)
  ensures gq(0) ==> r == eqr(ref(v),ref(value)) && r == eqv(ref(v),ref(value))
  inv seenkeys(v)
  inv seennodes(v)
  inv stayplain(v)
  inv v.fobject.keysUnescaped && value.fobject.keysUnescaped
  inv gq(0) ==> forall(j, 0, $i, eqv(ref(v.farr[j]),ref(value.farr[j])), v.farr[j])
  inv gq(0) ==> forall(j, 0, $i, eqv(ref(v.fobject.strkvs[j].V),ref(value.fobject.strkvs[j].V)), v.fobject.strkvs[j].V)
  inv gq(0) ==> forall(j, 0, $i, ekey(v.fobject,j) == ekey(value.fobject,j), v.fobject.strkvs[j].K)
  inv gq(0) ==> noraw(k)
