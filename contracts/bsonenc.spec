// BSON encoder.

func putLittI32(i,dst) (r)
  modifies spare(dst)
  ensures grown(r,dst,4) && le(r,len(dst),4) == mod(i,4294967296)

func putLittI64(i,dst) (r)
  modifies spare(dst)
  ensures grown(r,dst,8) && le(r,len(dst),8) == mod(i,pow2(64))

define bintype(v) = ite(v.DataType == VT_Binary && v.ExtType == 7 && len(v.fbinary) == 12, 7, ite(v.DataType == VT_Binary && v.ExtType == 19 && len(v.fbinary) == 16, 19, 5))

func bsonBinaryType(v) (r)
  requires v != nil
  ensures r == bintype(v)

define isint32(v) = signed(v.simpleV,64) >= 0-2147483648 && signed(v.simpleV,64) <= 2147483647
// the BSON type of a value
define bstype(v) = ite(v == nil, 10, ite(v.DataType == VT_Object, 3, ite(v.DataType == VT_Array, 4, ite(v.DataType == VT_String || v.DataType == VT_RawString, 2,
| ite(v.DataType == VT_Int, ite(v.ExtType == 17, 17, ite(isint32(v), 16, 18)), ite(v.DataType == VT_DateTime, 9, ite(v.DataType == VT_Binary || v.DataType == VT_ExBinary, bintype(v),
| ite(v.DataType == VT_NULL, 10, ite(v.DataType == VT_True || v.DataType == VT_False, 8, 1)))))))))

func writeBsonElementType(element,dst) (r)
  modifies spare(dst)
  ensures grew(r,dst)
  ensures element == nil || element.DataType <= VT_INF ==> grown(r,dst,1) && r[len(dst)] == bstype(element)

// the payload of a scalar: n bytes after the first at of r
define bspay(v,r,at) =
|  (v.DataType == VT_Int && v.ExtType != 17 && isint32(v) ==> len(r) == at+4 && le(r,at,4) == mod(v.simpleV,4294967296))
| && (v.DataType == VT_Int && v.ExtType != 17 && !isint32(v) ==> len(r) == at+8 && le(r,at,8) == v.simpleV)
| && (v.DataType == VT_Double ==> len(r) == at+8 && le(r,at,8) == v.simpleV)
| && (v.DataType == VT_True ==> len(r) == at+1 && r[at] == 1)
| && (v.DataType == VT_False ==> len(r) == at+1 && r[at] == 0)
| && (v.DataType == VT_NULL ==> len(r) == at)
| && (v.DataType == VT_String ==> len(r) == at+5+len(v.fstrvalue) && le(r,at,4) == mod(len(v.fstrvalue)+1,4294967296) && r[len(r)-1] == 0 && forall(i, 0, len(v.fstrvalue), r[at+4+i] == v.fstrvalue[i], r[at+4+i]))
| && (v.DataType == VT_Binary && bintype(v) == 5 ==> len(r) == at+5+len(v.fbinary) && le(r,at,4) == mod(len(v.fbinary),4294967296) && r[at+4] == 0)

func writeSimpleBsonValue(v,dst) (r)
  requires v != nil
  modifies spare(dst)
  ensures grew(r,dst)
  ensures[C02] bspay(v,r,len(dst))

// keys keep the text the caller sees
define seenkeys(x) = forall(u, "ref", forall(i, 0, len(u.fobject.strkvs), ekey(u.fobject,i) == old(ekey(u.fobject,i)), u.fobject.strkvs[i].K))
// a document: its length in front, a zero behind
define bsdoc(r,dst) = grew(r,dst) && len(r) >= len(dst) + 5 && le(r,len(dst),4) == mod(len(r)-len(dst),4294967296) && r[len(r)-1] == 0

func writeObjBsonValue(v,dst) (r)
  requires v != nil
  requires tree(v)
  decreases rk(v)
  modifies spare(dst), nodes(u,true).fobject.keysUnescaped, rows(strkv,b,true).K
  ensures seenkeys(v)
  ensures bsdoc(r,dst)
  inv seenkeys(v)
  inv grew($b,dst) && len($b) >= len(dst) + 4

func writeArrayBsonValue(v,dst) (r)
  requires v != nil
  requires tree(v)
  decreases rk(v)
  modifies spare(dst), nodes(u,true).fobject.keysUnescaped, rows(strkv,b,true).K
  ensures seenkeys(v)
  ensures bsdoc(r,dst)
  inv seenkeys(v)
  inv grew($b,dst) && len($b) >= len(dst) + 4

func Value2Bson(v,dst) (r,err)
  requires v != nil
  requires tree(v)
  modifies spare(dst), nodes(u,true).fobject.keysUnescaped, rows(strkv,b,true).K
  ensures seenkeys(v)
  ensures isErr(err) == (v.DataType != VT_Object && v.DataType != VT_Array)
  ensures !isErr(err) ==> bsdoc(r,dst)

func (*DxValue).ToBson(v,dst) (r)
  requires v != nil
  requires tree(v)
  modifies spare(dst), nodes(u,true).fobject.keysUnescaped, rows(strkv,b,true).K
  ensures seenkeys(v)
  ensures grew(r,dst)
