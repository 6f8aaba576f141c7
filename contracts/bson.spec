// BSON decoder.

define bmin(t) = ite(t == 8, 1, ite(t == 2 || t == 16, 4, ite(t == 5, 5, ite(t == 1 || t == 9 || t == 17 || t == 18, 8, ite(t == 7, 12, ite(t == 19, 16, 0))))))

func bsonMinLen(t) (r)
  ensures r == bmin(t)

// the types whose value has a length of its own
define btype(t) = t == 1 || t == 2 || 5 <= t && t <= 10 || 16 <= t && t <= 19 || t == 127 || t == 255

// what the value of type t at the start of b stands for; n is the number of bytes it takes
define bsstr(b) = le(b,0,4) >= 1 && le(b,0,4) <= len(b) - 4 && b[3+le(b,0,4)] == 0
define bsleaf(v,t,b,n) =
|  (t == 1 ==> v.DataType == VT_Double && v.simpleV == le(b,0,8) && n == 8)
| && (t == 2 ==> v.DataType == VT_String && bsstr(b) && v.fstrvalue == str(b[4:3+le(b,0,4)]) && n == 4+le(b,0,4))
| && (t == 8 ==> v.DataType == ite(b[0] == 1, VT_True, VT_False) && n == 1)
| && (t == 9 ==> v.DataType == VT_DateTime && n == 8)
| && (t == 10 ==> v.DataType == VT_NULL && n == 0)
| && (t == 16 ==> v.DataType == VT_Int && signed(v.simpleV,64) == signed(le(b,0,4),32) && n == 4)
| && (t == 18 ==> v.DataType == VT_Int && v.simpleV == le(b,0,8) && n == 8)
| && (t == 5 && b[4] == 0 ==> v.DataType == VT_Binary && len(v.fbinary) == le(b,0,4) && n == 5 + le(b,0,4) && forall(i, 0, len(v.fbinary), v.fbinary[i] == b[5+i], v.fbinary[i]))

func parseValue(t,b,value,shareBinary) (valueLen,parseIndex,err)
  ghost bb
  requires[C15] inbufs(bb,b,shareBinary)
  ensures[C15] !shareBinary && !isErr(err) ==> okself(value,bb)
  requires value != nil && !singleton(value)
  requires value.DataType == VT_NULL
  modifies value.*, mem(value.fobject.strkvs), mem(value.farr)
  ensures setframe(value)
  ensures 0 <= parseIndex
  ensures !isErr(err) ==> parseIndex <= len(b)
  ensures[C02,C18] !isErr(err) ==> bsleaf(value,t,b,parseIndex)
  ensures[C02,C18] btype(t) && t != 2 && t != 5 && len(b) >= bmin(t) ==> !isErr(err)
  ensures[C02,C18] t == 2 && len(b) >= 4 && bsstr(b) || t == 5 && len(b) >= 5 && b[4] == 0 && le(b,0,4) <= len(b) - 5 ==> !isErr(err)
  ensures !btype(t) || len(b) < bmin(t) ==> isErr(err)

func parseBsonDocument(b,c,sharebinary,v) (docLen,parseIndex,err)
  ghost bb
  requires[C15] inbufs(bb,b,sharebinary)
  requires v != nil && !singleton(v)
  decreases len(b)
  modifies nodes(u, true), rows(strkv, b, true), rows(nodeptr, b, true)
  ensures docLen >= 0
  ensures !isErr(err) ==> 5 <= docLen && docLen <= len(b) && docLen == le(b,0,4) && b[docLen-1] == 0 && parseIndex == docLen - 1

func parseBsonArray(b,c,v,sharebinary) (docLen,parseIndex,err)
  ghost bb
  requires[C15] inbufs(bb,b,sharebinary)
  requires v != nil && !singleton(v)
  decreases len(b)
  modifies nodes(u, true), rows(strkv, b, true), rows(nodeptr, b, true)
  ensures docLen >= 0
  ensures !isErr(err) ==> 5 <= docLen && docLen <= len(b) && docLen == le(b,0,4) && b[docLen-1] == 0 && parseIndex == docLen - 1

func NewValueFromBson(b,useCache,sharebinary) (r,err)
  ghost bb
  requires[C15] inbufs(bb,b,sharebinary)
  modifies nodes(u, true), rows(strkv, b, true), rows(nodeptr, b, true)
  ensures isErr(err) == (r == nil)
  ensures len(b) < 5 ==> isErr(err)

func (*DxValue).LoadFromBson(v,b,sharebinary) (err)
  ghost bb
  requires[C15] inbufs(bb,b,sharebinary)
  requires v != nil
  modifies nodes(u, true), rows(strkv, b, true), rows(nodeptr, b, true)
  ensures singleton(v) ==> isErr(err) && samenode(v)
  ensures !singleton(v) && len(b) > 0 && len(b) < 5 ==> isErr(err)
  ensures[C18] len(b) > 0 && !isErr(err) ==> len(b) >= 5 && le(b,0,4) <= len(b)
