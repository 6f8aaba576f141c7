// Go scalars and values (reflect_parse.go). The contracts are about the scalar types, directly or by pointer: each is
// verified once for every dynamic type named in its dyn clause. A pointer handed in is not nil and does not point
// into a node.

define dynint(x) = dynis(x,"int","uint","int8","uint8","int16","uint16","int32","uint32","int64","uint64")
// what u holds after x was stored in it; was is the kind it had
define holds(u,x,was) = (dynint(x) ==> u.DataType == VT_Int && signed(u.simpleV,64) == old(dynval(x)))
| && (dynis(x,"bool") ==> u.DataType == ite(old(dynval(x)), VT_True, VT_False))
| && (dynis(x,"string") ==> u.DataType == VT_String && u.fstrvalue == old(dynval(x)))
| && (dynis(x,"float32") ==> u.DataType == VT_Float && mod(u.simpleV,4294967296) == old(dynval(x)))
| && (dynis(x,"float64") ==> u.DataType == ite(was == VT_DateTime, VT_DateTime, VT_Double) && u.simpleV == old(dynval(x)))
| && (dynis(x,"[]byte") ==> u.DataType == VT_Binary && fresh(u.fbinary) && len(u.fbinary) == len(old(dynval(x))) && forall(i, 0, len(old(dynval(x))), u.fbinary[i] == old(dynval(x)[i]), u.fbinary[i]))

func (*DxValue).SetValue(v,value) ()
  dyn value int, *int, uint, *uint, int8, *int8, uint8, *uint8, int16, *int16, uint16, *uint16, int32, *int32, uint32, *uint32, int64, *int64, uint64, *uint64, bool, *bool, string, *string, float32, *float32, float64, *float64, []byte, *[]byte
  requires v != nil
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures singleton(v) ==> samenode(v)
  ensures !singleton(v) ==> holds(v,value,old(v.DataType))

func (*DxValue).SetKeyvalue(v,name,value,cache) ()
  dyn value int, *int, uint, *uint, int8, *int8, uint8, *uint8, int16, *int16, uint16, *uint16, int32, *int32, uint32, *uint32, int64, *int64, uint64, *uint64, bool, *bool, string, *string, float32, *float32, float64, *float64, []byte, *[]byte
  requires v != nil
  modifies v.fstrvalue, nodes(u, !singleton(u)), rows(strkv, b, true), rows(nodeptr, b, true)
  ensures singleton(v) ==> samenode(v)
  ensures[C20] okkey(v,name) ==> v.DataType == VT_Object && exists(k, 0, len(v.fobject.strkvs), keyed(v,name,k) && holds(v.fobject.strkvs[k].V,value,VT_Double))

func (*DxValue).SetIndexvalue(v,idx,value,cache) ()
  dyn value int, *int, uint, *uint, int8, *int8, uint8, *uint8, int16, *int16, uint16, *uint16, int32, *int32, uint32, *uint32, int64, *int64, uint64, *uint64, bool, *bool, string, *string, float32, *float32, float64, *float64, []byte, *[]byte
  requires v != nil
  modifies v.fstrvalue, nodes(u, !singleton(u)), rows(strkv, b, true), rows(nodeptr, b, true)
  ensures singleton(v) ==> samenode(v)
  ensures[C20] okidx(v) ==> v.DataType == VT_Array && idxset(v,idx,widx(v,idx)) && holds(v.farr[widx(v,idx)],value,VT_Double)

func (*DxValue).ToStdValue(v,dest,ignoreCase) (r)
  dyn dest *int, *uint, *int8, *uint8, *int16, *uint16, *int32, *uint32, *int64, *uint64, *bool, *string, *float32, *float64, *[]byte
  requires v != nil
  requires tree(v) && rk(v) <= 140737488355328
  modifies dest.*, nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K, nodes(u, true).DataType, nodes(u, true).fstrvalue
  ensures r
  ensures seennodes(v)
  ensures seenkeys(v)
  ensures dynint(dest) && old(v.DataType) == VT_Int ==> dynraw(dest) == dynfit(dest, signed(old(v.simpleV),64))
  ensures dynis(dest,"bool") && old(v.DataType) == VT_True ==> dynraw(dest)
  ensures dynis(dest,"bool") && old(v.DataType) == VT_False ==> !dynraw(dest)
  ensures dynis(dest,"string") && old(v.DataType) == VT_String ==> dynraw(dest) == old(v.fstrvalue)
  ensures dynis(dest,"float32") && old(v.DataType) == VT_Float ==> dynraw(dest) == mod(old(v.simpleV),4294967296)
  ensures dynis(dest,"float64") && old(v.DataType == VT_Double || v.DataType == VT_DateTime) ==> dynraw(dest) == old(v.simpleV)
  ensures dynis(dest,"[]byte") && old(v.DataType) == VT_Binary ==> dynraw(dest) == old(v.fbinary)

func NewValueFrom(value,cached) (r)
  dyn value int, *int, uint, *uint, int8, *int8, uint8, *uint8, int16, *int16, uint16, *uint16, int32, *int32, uint32, *uint32, int64, *int64, uint64, *uint64, bool, *bool, string, *string, float32, *float32, float64, *float64, []byte, *[]byte
  ensures r != nil && fresh(r) && holds(r,value,VT_Int)
