// Typed setters by name and by index, getters by index.

// the member of v called name is the one just written, every other entry is as before
define keyed(v,name,k) = keyset(v,name,v.fobject.strkvs[k].V,k)
// the element at idx (or the new last one) is the one just written, every other element is as before
define widx(v,idx) = ite(idx >= 0 && idx < old(len(v.farr)), idx, old(len(v.farr)))
define idxset(v,idx,k) = len(v.farr) == ite(idx >= 0 && idx < old(len(v.farr)), old(len(v.farr)), old(len(v.farr)) + 1)
| && forall(i, 0, old(len(v.farr)), i != k ==> v.farr[i] == old(v.farr[i]), v.farr[i])
define okkey(v,name) = !singleton(v) && old(v.DataType) == VT_Object && nopct(name) && old(!exists(i, 0, len(v.fobject.strkvs), v.fobject.strkvs[i].V == v))
define okidx(v) = !singleton(v) && old(v.DataType) == VT_Array && old(!exists(i, 0, len(v.farr), v.farr[i] == v))
func (*DxValue).SetKeyString(v,name,value) ()
  requires v != nil
  modifies nodes(u, !singleton(u)), rows(strkv, b, true), rows(nodeptr, b, true)
  ensures[C08,C09,C17,C20] okkey(v,name) ==> v.DataType == VT_Object && exists(k, 0, len(v.fobject.strkvs), keyed(v,name,k) && v.fobject.strkvs[k].V.DataType == VT_String && v.fobject.strkvs[k].V.fstrvalue == value)
  ensures singleton(v) ==> samenode(v)

func (*DxValue).SetIndexString(v,idx,value) ()
  requires v != nil
  modifies nodes(u, !singleton(u)), rows(strkv, b, true), rows(nodeptr, b, true)
  ensures okidx(v) ==> v.DataType == VT_Array && idxset(v,idx,widx(v,idx)) && v.farr[widx(v,idx)].DataType == VT_String && v.farr[widx(v,idx)].fstrvalue == value
  ensures singleton(v) ==> samenode(v)

func (*DxValue).SetKeyInt(v,name,value) ()
  requires v != nil
  modifies nodes(u, !singleton(u)), rows(strkv, b, true), rows(nodeptr, b, true)
  ensures[C08,C09,C17,C20] okkey(v,name) ==> v.DataType == VT_Object && exists(k, 0, len(v.fobject.strkvs), keyed(v,name,k) && v.fobject.strkvs[k].V.DataType == VT_Int && signed(v.fobject.strkvs[k].V.simpleV,64) == value)
  ensures singleton(v) ==> samenode(v)

func (*DxValue).SetIndexInt(v,idx,value) ()
  requires v != nil
  modifies nodes(u, !singleton(u)), rows(strkv, b, true), rows(nodeptr, b, true)
  ensures okidx(v) ==> v.DataType == VT_Array && idxset(v,idx,widx(v,idx)) && v.farr[widx(v,idx)].DataType == VT_Int && signed(v.farr[widx(v,idx)].simpleV,64) == value
  ensures singleton(v) ==> samenode(v)

func (*DxValue).SetKeyFloat(v,name,value) ()
  requires v != nil
  modifies nodes(u, !singleton(u)), rows(strkv, b, true), rows(nodeptr, b, true)
  ensures[C08,C09,C17,C20] okkey(v,name) ==> v.DataType == VT_Object && exists(k, 0, len(v.fobject.strkvs), keyed(v,name,k) && v.fobject.strkvs[k].V.DataType == VT_Float && mod(v.fobject.strkvs[k].V.simpleV,4294967296) == value)
  ensures singleton(v) ==> samenode(v)

func (*DxValue).SetIndexFloat(v,idx,value) ()
  requires v != nil
  modifies nodes(u, !singleton(u)), rows(strkv, b, true), rows(nodeptr, b, true)
  ensures okidx(v) ==> v.DataType == VT_Array && idxset(v,idx,widx(v,idx)) && v.farr[widx(v,idx)].DataType == VT_Float && mod(v.farr[widx(v,idx)].simpleV,4294967296) == value
  ensures singleton(v) ==> samenode(v)

func (*DxValue).SetKeyDouble(v,name,value) ()
  requires v != nil
  modifies nodes(u, !singleton(u)), rows(strkv, b, true), rows(nodeptr, b, true)
  ensures[C08,C09,C17,C20] okkey(v,name) ==> v.DataType == VT_Object && exists(k, 0, len(v.fobject.strkvs), keyed(v,name,k) && v.fobject.strkvs[k].V.DataType == VT_Double && v.fobject.strkvs[k].V.simpleV == value)
  ensures singleton(v) ==> samenode(v)

func (*DxValue).SetIndexDouble(v,idx,value) ()
  requires v != nil
  modifies nodes(u, !singleton(u)), rows(strkv, b, true), rows(nodeptr, b, true)
  ensures okidx(v) ==> v.DataType == VT_Array && idxset(v,idx,widx(v,idx)) && v.farr[widx(v,idx)].DataType == VT_Double && v.farr[widx(v,idx)].simpleV == value
  ensures singleton(v) ==> samenode(v)

func (*DxValue).SetKeyTime(v,name,value) ()
  requires v != nil
  modifies nodes(u, !singleton(u)), rows(strkv, b, true), rows(nodeptr, b, true)
  ensures[C08,C09,C17,C20] okkey(v,name) ==> v.DataType == VT_Object && exists(k, 0, len(v.fobject.strkvs), keyed(v,name,k) && v.fobject.strkvs[k].V.DataType == VT_DateTime)
  ensures singleton(v) ==> samenode(v)

func (*DxValue).SetIndexTime(v,idx,value) ()
  requires v != nil
  modifies nodes(u, !singleton(u)), rows(strkv, b, true), rows(nodeptr, b, true)
  ensures okidx(v) ==> v.DataType == VT_Array && idxset(v,idx,widx(v,idx)) && v.farr[widx(v,idx)].DataType == VT_DateTime
  ensures singleton(v) ==> samenode(v)

func (*DxValue).SetKeyBool(v,name,value) ()
  requires v != nil
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures singleton(v) ==> samenode(v)
  ensures[C08,C09,C17,C20] !singleton(v) && old(v.DataType) == VT_Object && nopct(name) ==> v.DataType == VT_Object && exists(k, 0, len(v.fobject.strkvs), keyed(v,name,k) && v.fobject.strkvs[k].V.DataType == ite(value, VT_True, VT_False))

func (*DxValue).SetIndexBool(v,idx,value) ()
  requires v != nil
  modifies nodes(u, !singleton(u)), rows(strkv, b, true), rows(nodeptr, b, true)
  ensures singleton(v) ==> samenode(v)
  ensures okidx(v) ==> v.DataType == VT_Array && idxset(v,idx,widx(v,idx)) && v.farr[widx(v,idx)].DataType == ite(value, VT_True, VT_False)

func (*DxValue).IntByIndex(v,idx,def) (r)
  requires v != nil
  ensures old(v.DataType > VT_Array || idx < 0 || v.DataType == VT_Object && idx >= len(v.fobject.strkvs) || v.DataType == VT_Array && idx >= len(v.farr)) ==> r == def
  ensures old(v.DataType == VT_Array && 0 <= idx && idx < len(v.farr) && v.farr[idx] != nil && ((v.farr[idx].DataType == VT_Int))) ==> r == signed(old(v.farr[idx].simpleV),64)
  ensures old(v.DataType == VT_Array && 0 <= idx && idx < len(v.farr) && v.farr[idx] != nil && ((v.farr[idx].DataType == VT_True))) ==> r == 1
  ensures old(v.DataType == VT_Array && 0 <= idx && idx < len(v.farr) && v.farr[idx] != nil && ((v.farr[idx].DataType == VT_False || v.farr[idx].DataType == VT_NULL || v.farr[idx].DataType == VT_NAN || v.farr[idx].DataType == VT_INF || v.farr[idx].DataType <= VT_Array || v.farr[idx].DataType == VT_Binary || v.farr[idx].DataType == VT_ExBinary))) ==> r == 0
  ensures old(v.DataType == VT_Object && 0 <= idx && idx < len(v.fobject.strkvs) && v.fobject.strkvs[idx].V != nil && ((v.fobject.strkvs[idx].V.DataType == VT_Int))) ==> r == signed(old(v.fobject.strkvs[idx].V.simpleV),64)
  ensures old(v.DataType == VT_Object && 0 <= idx && idx < len(v.fobject.strkvs) && v.fobject.strkvs[idx].V != nil && ((v.fobject.strkvs[idx].V.DataType == VT_True))) ==> r == 1
  ensures old(v.DataType == VT_Object && 0 <= idx && idx < len(v.fobject.strkvs) && v.fobject.strkvs[idx].V != nil && ((v.fobject.strkvs[idx].V.DataType == VT_False || v.fobject.strkvs[idx].V.DataType == VT_NULL || v.fobject.strkvs[idx].V.DataType == VT_NAN || v.fobject.strkvs[idx].V.DataType == VT_INF || v.fobject.strkvs[idx].V.DataType <= VT_Array || v.fobject.strkvs[idx].V.DataType == VT_Binary || v.fobject.strkvs[idx].V.DataType == VT_ExBinary))) ==> r == 0

func (*DxValue).StringByIndex(v,idx,def) (r)
  requires v != nil
  requires tree(v) && forall(u, "ref", rk(u) <= 140737488355328, rk(u))
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K, nodes(u, true).DataType, nodes(u, true).fstrvalue
  ensures seennodes(v)
  ensures seenkeys(v)
  ensures old(v.DataType > VT_Array || idx < 0 || v.DataType == VT_Object && idx >= len(v.fobject.strkvs) || v.DataType == VT_Array && idx >= len(v.farr)) ==> r == def
  ensures old(v.DataType == VT_Array && 0 <= idx && idx < len(v.farr) && v.farr[idx] != nil && (v.farr[idx].DataType == VT_String)) ==> r == old(v.farr[idx].fstrvalue)
  ensures old(v.DataType == VT_Array && 0 <= idx && idx < len(v.farr) && v.farr[idx] != nil && (v.farr[idx].DataType == VT_True)) ==> r == "true"
  ensures old(v.DataType == VT_Array && 0 <= idx && idx < len(v.farr) && v.farr[idx] != nil && (v.farr[idx].DataType == VT_False)) ==> r == "false"
  ensures old(v.DataType == VT_Array && 0 <= idx && idx < len(v.farr) && v.farr[idx] != nil && (v.farr[idx].DataType == VT_NULL)) ==> r == "null"
  ensures old(v.DataType == VT_Array && 0 <= idx && idx < len(v.farr) && v.farr[idx] != nil && (v.farr[idx].DataType == VT_Int)) ==> r == fmtint(signed(old(v.farr[idx].simpleV),64),10)
  ensures old(v.DataType == VT_Object && 0 <= idx && idx < len(v.fobject.strkvs) && v.fobject.strkvs[idx].V != nil && (v.fobject.strkvs[idx].V.DataType == VT_String)) ==> r == old(v.fobject.strkvs[idx].V.fstrvalue)
  ensures old(v.DataType == VT_Object && 0 <= idx && idx < len(v.fobject.strkvs) && v.fobject.strkvs[idx].V != nil && (v.fobject.strkvs[idx].V.DataType == VT_True)) ==> r == "true"
  ensures old(v.DataType == VT_Object && 0 <= idx && idx < len(v.fobject.strkvs) && v.fobject.strkvs[idx].V != nil && (v.fobject.strkvs[idx].V.DataType == VT_False)) ==> r == "false"
  ensures old(v.DataType == VT_Object && 0 <= idx && idx < len(v.fobject.strkvs) && v.fobject.strkvs[idx].V != nil && (v.fobject.strkvs[idx].V.DataType == VT_NULL)) ==> r == "null"
  ensures old(v.DataType == VT_Object && 0 <= idx && idx < len(v.fobject.strkvs) && v.fobject.strkvs[idx].V != nil && (v.fobject.strkvs[idx].V.DataType == VT_Int)) ==> r == fmtint(signed(old(v.fobject.strkvs[idx].V.simpleV),64),10)

func (*DxValue).BoolByIndex(v,idx,def) (r)
  requires v != nil
  ensures old(v.DataType > VT_Array || idx < 0 || v.DataType == VT_Object && idx >= len(v.fobject.strkvs) || v.DataType == VT_Array && idx >= len(v.farr)) ==> r == def
  ensures old(v.DataType == VT_Array && 0 <= idx && idx < len(v.farr) && v.farr[idx] != nil && (v.farr[idx].DataType == VT_True)) ==> r
  ensures old(v.DataType == VT_Array && 0 <= idx && idx < len(v.farr) && v.farr[idx] != nil && ((v.farr[idx].DataType == VT_False || v.farr[idx].DataType == VT_NULL || v.farr[idx].DataType == VT_NAN || v.farr[idx].DataType == VT_INF || v.farr[idx].DataType <= VT_Array || v.farr[idx].DataType == VT_Binary || v.farr[idx].DataType == VT_ExBinary))) ==> !r
  ensures old(v.DataType == VT_Array && 0 <= idx && idx < len(v.farr) && v.farr[idx] != nil && (v.farr[idx].DataType == VT_Int)) ==> r == (signed(old(v.farr[idx].simpleV),64) > 0)
  ensures old(v.DataType == VT_Object && 0 <= idx && idx < len(v.fobject.strkvs) && v.fobject.strkvs[idx].V != nil && (v.fobject.strkvs[idx].V.DataType == VT_True)) ==> r
  ensures old(v.DataType == VT_Object && 0 <= idx && idx < len(v.fobject.strkvs) && v.fobject.strkvs[idx].V != nil && ((v.fobject.strkvs[idx].V.DataType == VT_False || v.fobject.strkvs[idx].V.DataType == VT_NULL || v.fobject.strkvs[idx].V.DataType == VT_NAN || v.fobject.strkvs[idx].V.DataType == VT_INF || v.fobject.strkvs[idx].V.DataType <= VT_Array || v.fobject.strkvs[idx].V.DataType == VT_Binary || v.fobject.strkvs[idx].V.DataType == VT_ExBinary))) ==> !r
  ensures old(v.DataType == VT_Object && 0 <= idx && idx < len(v.fobject.strkvs) && v.fobject.strkvs[idx].V != nil && (v.fobject.strkvs[idx].V.DataType == VT_Int)) ==> r == (signed(old(v.fobject.strkvs[idx].V.simpleV),64) > 0)

func (*DxValue).FloatByIndex(v,idx,def) (r)
  requires v != nil
  ensures old(v.DataType > VT_Array || idx < 0 || v.DataType == VT_Object && idx >= len(v.fobject.strkvs) || v.DataType == VT_Array && idx >= len(v.farr)) ==> r == def
  ensures old(v.DataType == VT_Array && 0 <= idx && idx < len(v.farr) && v.farr[idx] != nil && (v.farr[idx].DataType == VT_Float)) ==> r == mod(old(v.farr[idx].simpleV),4294967296)
  ensures old(v.DataType == VT_Object && 0 <= idx && idx < len(v.fobject.strkvs) && v.fobject.strkvs[idx].V != nil && (v.fobject.strkvs[idx].V.DataType == VT_Float)) ==> r == mod(old(v.fobject.strkvs[idx].V.simpleV),4294967296)

func (*DxValue).DoubleByIndex(v,idx,def) (r)
  requires v != nil
  ensures old(v.DataType > VT_Array || idx < 0 || v.DataType == VT_Object && idx >= len(v.fobject.strkvs) || v.DataType == VT_Array && idx >= len(v.farr)) ==> r == def
  ensures old(v.DataType == VT_Array && 0 <= idx && idx < len(v.farr) && v.farr[idx] != nil && ((v.farr[idx].DataType == VT_Double || v.farr[idx].DataType == VT_DateTime))) ==> r == old(v.farr[idx].simpleV)
  ensures old(v.DataType == VT_Array && 0 <= idx && idx < len(v.farr) && v.farr[idx] != nil && (v.farr[idx].DataType == VT_Int)) ==> r == i2f64(signed(old(v.farr[idx].simpleV),64))
  ensures old(v.DataType == VT_Object && 0 <= idx && idx < len(v.fobject.strkvs) && v.fobject.strkvs[idx].V != nil && ((v.fobject.strkvs[idx].V.DataType == VT_Double || v.fobject.strkvs[idx].V.DataType == VT_DateTime))) ==> r == old(v.fobject.strkvs[idx].V.simpleV)
  ensures old(v.DataType == VT_Object && 0 <= idx && idx < len(v.fobject.strkvs) && v.fobject.strkvs[idx].V != nil && (v.fobject.strkvs[idx].V.DataType == VT_Int)) ==> r == i2f64(signed(old(v.fobject.strkvs[idx].V.simpleV),64))

