// JSON decoder.

define iswb(c) = c == 32 || c == 10 || c == 9 || c == 13
// nothing, or a suffix of b
define jq(t,b) = len(t) <= len(b) && (len(t) == 0 || restq(t,b))

func skipWB(b) (r,skiplen)
  ensures jq(r,b) && 0 <= skiplen && skiplen <= len(b)
  ensures len(r) > 0 ==> !iswb(r[0])
  ensures forall(i, 0, len(b)-len(r), iswb(b[i]), b[i])
  inv forall(j, 0, $i, iswb(b[j]), b[j])

// what the text at the start of b stands for; t is the text behind it
uf x_DxCommonLib.StrToFloatDef_1(str,int) int
define jnumch(c) = 48 <= c && c <= 57 || c == 46 || c == 45 || c == 43 || c == 101 || c == 69
define jfloatch(c) = c == 46 || c == 101 || c == 69
define jword(b,t,n,a,c,d,e) = len(t) == len(b) - n && b[0] == a && b[1] == c && b[2] == d && (n > 3 ==> b[3] == e)
define jnum(n,b,t) = (n.DataType == VT_Int || n.DataType == VT_Double || !(48 <= b[0] && b[0] <= 57 || b[0] == 46) && (n.DataType == VT_NAN || n.DataType == VT_INF))
| && (n.DataType <= VT_Double ==> len(t) < len(b) && forall(i, 0, len(b)-len(t), jnumch(b[i]), b[i]) && (len(t) > 0 ==> !jnumch(b[len(b)-len(t)])))
| && (n.DataType == VT_Int ==> signed(n.simpleV,64) == x_DxCommonLib.StrToIntDef_1(str(b[0:len(b)-len(t)]),0) && forall(i, 0, len(b)-len(t), !jfloatch(b[i]), b[i]))
| && (n.DataType == VT_Double ==> n.simpleV == x_DxCommonLib.StrToFloatDef_1(str(b[0:len(b)-len(t)]),0))
define jstrtext(n,b,t) = n.fstrvalue == str(b[1:1+len(n.fstrvalue)]) && b[1+len(n.fstrvalue)] == 34 && len(t) == len(b) - len(n.fstrvalue) - 2
define jleaf(n,b,t) = (b[0] == 123 ==> n.DataType == VT_Object)
| && (b[0] == 91 ==> n.DataType == VT_Array)
| && (b[0] == 34 ==> (n.DataType == VT_RawString || n.DataType == VT_DateTime) && (n.DataType == VT_RawString ==> jstrtext(n,b,t)))
| && (b[0] == 116 ==> n.DataType == VT_True && jword(b,t,4,116,114,117,101))
| && (b[0] == 102 ==> n.DataType == VT_False && len(t) == len(b) - 5 && b[1] == 97 && b[2] == 108 && b[3] == 115 && b[4] == 101)
| && (b[0] == 110 ==> n.DataType == VT_NULL && jword(b,t,4,110,117,108,108) || n.DataType == VT_NAN && len(t) == len(b) - 3)
| && (b[0] != 123 && b[0] != 91 && b[0] != 34 && b[0] != 116 && b[0] != 102 && b[0] != 110 ==> jnum(n,b,t))
// the members of v were not there before
define newkids(v) = forall(i, 0, len(v.farr), v.DataType == VT_Array ==> fresh(v.farr[i]) || singleton(v.farr[i]), v.farr[i]) && forall(i, 0, len(v.fobject.strkvs), v.DataType == VT_Object ==> v.fobject.strkvs[i].V == nil || fresh(v.fobject.strkvs[i].V) || singleton(v.fobject.strkvs[i].V), v.fobject.strkvs[i].V)

// the kind of v is that of the document: its first byte that is no blank tells it
define jkind1(v,c) = (c == 123 ==> v.DataType == VT_Object) && (c == 91 ==> v.DataType == VT_Array) && (c == 34 ==> v.DataType == VT_RawString || v.DataType == VT_DateTime) && (c == 116 ==> v.DataType == VT_True) && (c == 102 ==> v.DataType == VT_False) && (c == 110 ==> v.DataType == VT_NULL || v.DataType == VT_NAN)
| && (48 <= c && c <= 57 || c == 46 ==> v.DataType == VT_Int || v.DataType == VT_Double)
define jkind(v,b) = forall(i, 0, len(b), !iswb(b[i]) && forall(j, 0, i, iswb(b[j]), b[j]) ==> jkind1(v,b[i]), b[i])

func parseJsonKey(b,sharebinary) (key,tail,err)
  ensures[C15] !sharebinary && !isErr(err) ==> prov(key) == 0 || prov(key) >= old(next)
  ensures !isErr(err) ==> rest(tail,b)
  ensures len(tail) <= len(b)

func parseJsonString(b,sharebinary) (value,tail,err)
  ensures[C15] !sharebinary && !isErr(err) ==> prov(value) == 0 || prov(value) >= old(next)
  ensures !isErr(err) ==> rest(tail,b)
  ensures len(tail) <= len(b)
  inv jq($b,b)
  inv 0 < $n && $n < len($b) && $b[$n] == 34
  ensures[C07,C18] !isErr(err) ==> value == str(b[0:len(value)]) && b[len(value)] == 34 && len(tail) == len(b)-len(value)-1

func jsonIntOverflow(ns) (r)

func parseJsonNum(b,c) (num,tail,err)
  ghost bb
  requires[C15] inbuf(bb,b)
  ensures !isErr(err) ==> num != nil && rest(tail,b)
  ensures len(tail) <= len(b)
  ensures[C15] !isErr(err) ==> singleton(num) || okv(num,bb)
  assumes[C15] !isErr(err) ==> okc(num)
  ensures[C07,C18] !isErr(err) ==> jnum(num,b,tail)
  inv[C07,C18] forall(j, 0, $i, jnumch(b[j]), b[j])
  inv[C07,C18] $f || forall(j, 0, $i, !jfloatch(b[j]), b[j])
  ensures[C18] !isErr(err) ==> fresh(num) || singleton(num)

func parseJsonNum2V(b,num) (tail,err)
  ghost bb
  requires[C15] inbuf(bb,b)
  requires num != nil && !singleton(num)
  modifies num.*, mem(num.fobject.strkvs), mem(num.farr)
  ensures keeprows(num)
  ensures !isErr(err) ==> rest(tail,b)
  ensures len(tail) <= len(b)
  ensures[C15] !isErr(err) ==> okv(num,bb)
  ensures[C07,C18] !isErr(err) ==> jnum(num,b,tail)
  inv[C07,C18] forall(j, 0, $i, jnumch(b[j]), b[j])
  inv[C07,C18] $f || forall(j, 0, $i, !jfloatch(b[j]), b[j])

func parseJsonValue(b,c,sharebinary) (r,tail,err)
  ghost bb
  requires[C15] inbuf(bb,b)
  decreases len(b), 0
  ensures !isErr(err) ==> r != nil && rest(tail,b)
  ensures len(tail) <= len(b)
  ensures[C15] !sharebinary && !isErr(err) ==> singleton(r) || okv(r,bb)
  assumes[C15] !sharebinary && !isErr(err) ==> okc(r)
  ensures[C07,C18] !isErr(err) ==> jleaf(r,b,tail)
  ensures[C18] !isErr(err) ==> fresh(r) || singleton(r)

func parseJsonObj(b,c,sharebinary) (r,tail,err)
  ghost bb
  requires[C15] inbuf(bb,b)
  decreases len(b), 1
  ensures !isErr(err) ==> r != nil && rest(tail,b) && r.DataType == VT_Object
  ensures len(tail) <= len(b)
  inv jq($b,b)
  ensures[C15] !sharebinary && !isErr(err) ==> singleton(r) || okv(r,bb)
  assumes[C15] !sharebinary && !isErr(err) ==> okc(r)
  inv[C15] !sharebinary ==> okself($p,bb)
  inv[C15] !sharebinary ==> okkeys($p,bb)
  inv[C15] !sharebinary ==> okelems($p)
  ensures[C18] !isErr(err) ==> fresh(r)

func parseJsonArray(b,c,sharebinary) (r,tail,err)
  ghost bb
  requires[C15] inbuf(bb,b)
  decreases len(b), 1
  ensures !isErr(err) ==> r != nil && rest(tail,b) && r.DataType == VT_Array
  ensures len(tail) <= len(b)
  inv jq($b,b)
  ensures[C15] !sharebinary && !isErr(err) ==> singleton(r) || okv(r,bb)
  assumes[C15] !sharebinary && !isErr(err) ==> okc(r)
  inv[C15] !sharebinary ==> okself($p,bb)
  inv[C15] !sharebinary ==> okkeys($p,bb)
  inv[C15] !sharebinary ==> okelems($p)
  ensures[C18] !isErr(err) ==> fresh(r)

func parseJsonObj2V(b,v,sharebinary) (tail,err)
  ghost bb
  requires[C15] inbuf(bb,b)
  requires v != nil && !singleton(v)
  decreases len(b), 1
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures keeprows(v)
  ensures !isErr(err) ==> rest(tail,b) && v.DataType == VT_Object
  ensures len(tail) <= len(b)
  inv jq($b,b)
  ensures[C15] !sharebinary && !isErr(err) ==> okv(v,bb)
  inv[C15] !sharebinary ==> okself(v,bb)
  inv[C15] !sharebinary ==> okkeys(v,bb)
  inv[C15] !sharebinary ==> okelems(v)
  ensures[C18] !isErr(err) ==> newkids(v)
  inv[C18] newkids(v)

func parseJsonArray2V(b,v,sharebinary) (tail,err)
  ghost bb
  requires[C15] inbuf(bb,b)
  requires v != nil && !singleton(v)
  decreases len(b), 1
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures keeprows(v)
  ensures !isErr(err) ==> rest(tail,b) && v.DataType == VT_Array
  ensures len(tail) <= len(b)
  inv jq($b,b)
  ensures[C15] !sharebinary && !isErr(err) ==> okv(v,bb)
  inv[C15] !sharebinary ==> okself(v,bb)
  inv[C15] !sharebinary ==> okkeys(v,bb)
  inv[C15] !sharebinary ==> okelems(v)
  ensures[C18] !isErr(err) ==> newkids(v)
  inv[C18] newkids(v)

func parseJson2Value(b,v,sharebinary) (tail,err)
  ghost bb
  requires[C15] inbuf(bb,b)
  requires v != nil && !singleton(v)
  decreases len(b), 2
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures keeprows(v)
  ensures !isErr(err) ==> rest(tail,b)
  ensures len(tail) <= len(b)
  ensures[C15] !sharebinary && !isErr(err) ==> okv(v,bb)
  ensures[C07,C18] !isErr(err) ==> jleaf(v,b,tail)
  ensures[C18] !isErr(err) ==> newkids(v)

func NewValueFromJson(b,useCache,sharebinary) (r,err)
  ghost bb
  requires[C15] inbuf(bb,b)
  ensures isErr(err) == (r == nil)
  ensures len(b) == 0 ==> isErr(err)
  ensures[C15] !sharebinary && !isErr(err) ==> singleton(r) || okv(r,bb)
  assumes[C15] !sharebinary && !isErr(err) ==> okc(r)
  ensures[C07,C18] !isErr(err) ==> jkind(r,b)

func (*DxValue).LoadFromJson(v,b,sharebinary) (err)
  ghost bb
  requires[C15] inbuf(bb,b)
  requires v != nil
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures singleton(v) ==> isErr(err) && samenode(v)
  ensures[C15] !sharebinary && !isErr(err) ==> okv(v,bb)
  ensures[C07,C18] !isErr(err) ==> jkind(v,b)
  ensures[C18] !isErr(err) ==> newkids(v) || len(v.farr) == 0 && len(v.fobject.strkvs) == 0