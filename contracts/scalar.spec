// Typed setters and getters.
// members are kept or dropped, never added
define noadd(v) = (len(v.farr) == 0 || v.farr == old(v.farr) && sameelems(v.farr, v.farr, old(len(v.farr))))
| && (len(v.fobject.strkvs) == 0 || v.fobject.strkvs == old(v.fobject.strkvs) && v.fobject.keysUnescaped == old(v.fobject.keysUnescaped) && forall(i, 0, len(v.fobject.strkvs), v.fobject.strkvs[i].K == old(v.fobject.strkvs[i].K) && prov(v.fobject.strkvs[i].K) == old(prov(v.fobject.strkvs[i].K)) && v.fobject.strkvs[i].V == old(v.fobject.strkvs[i].V), v.fobject.strkvs[i].K, v.fobject.strkvs[i].V))
define keepstr(v) = v.fstrvalue == "" && prov(v.fstrvalue) == 0 || v.fstrvalue == old(v.fstrvalue) && prov(v.fstrvalue) == old(prov(v.fstrvalue))
define keepbin(v) = v.fbinary == nil || v.fbinary == old(v.fbinary)
define setframe(v) = unchanged(v.ownercache) && keeprows(v) && noadd(v)

func (*DxValue).SetInt(v,value) ()
  requires v != nil
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures singleton(v) ==> samenode(v)
  ensures !singleton(v) ==> v.DataType == VT_Int && signed(v.simpleV,64) == value
  ensures setframe(v)
  ensures keepstr(v) && keepbin(v)

func (*DxValue).SetFloat(v,value) ()
  requires v != nil
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures singleton(v) ==> samenode(v)
  ensures !singleton(v) ==> v.DataType == VT_Float && mod(v.simpleV,4294967296) == value
  ensures setframe(v)
  ensures keepstr(v) && keepbin(v)

func (*DxValue).SetDouble(v,value) ()
  requires v != nil
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures singleton(v) ==> samenode(v)
  ensures !singleton(v) ==> v.simpleV == value && v.DataType == ite(old(v.DataType) == VT_DateTime, VT_DateTime, VT_Double)
  ensures setframe(v)
  ensures keepstr(v) && keepbin(v)

func (*DxValue).SetDelphiTime(v,value) ()
  requires v != nil
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures singleton(v) ==> samenode(v)
  ensures !singleton(v) ==> v.simpleV == value && v.DataType == ite(old(v.DataType) == VT_Double, VT_Double, VT_DateTime)
  ensures setframe(v)
  ensures keepstr(v) && keepbin(v)

func (*DxValue).SetTime(v,value) ()
  requires v != nil
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures singleton(v) ==> samenode(v)
  ensures !singleton(v) ==> v.DataType == ite(old(v.DataType) == VT_Double, VT_Double, VT_DateTime)
  ensures setframe(v)
  ensures keepstr(v) && keepbin(v)

func (*DxValue).SetString(v,value) ()
  requires v != nil
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures singleton(v) ==> samenode(v)
  ensures !singleton(v) ==> v.DataType == VT_String && v.fstrvalue == value
  ensures setframe(v)
  ensures keepbin(v)
  ensures !singleton(v) ==> prov(v.fstrvalue) == prov(value)

func (*DxValue).SetBool(v,value) ()
  requires v != nil
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures singleton(v) ==> samenode(v)
  ensures !singleton(v) ==> v.DataType == ite(value, VT_True, VT_False)
  ensures setframe(v)
  ensures keepstr(v) && keepbin(v)

func (*DxValue).SetExtType(v,t) ()
  requires v != nil
  modifies v.fbinary, mem(v.fbinary)
  ensures v.DataType == VT_ExBinary ==> len(v.fbinary) > 0 && v.fbinary[0] == t
  ensures v.DataType == VT_ExBinary && old(len(v.fbinary)) > 0 ==> v.fbinary == old(v.fbinary) && forall(i, 1, len(v.fbinary), v.fbinary[i] == old(v.fbinary[i]), v.fbinary[i])
  ensures v.DataType != VT_ExBinary ==> v.fbinary == old(v.fbinary)

func (*DxValue).SetBinary(v,b,valueClone) ()
  requires v != nil
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures setframe(v)
  ensures keepstr(v)
  ensures fresh(v.fbinary) || base(v.fbinary) == base(b) && !valueClone || v.fbinary == old(v.fbinary) && v.DataType == old(v.DataType) && v.DataType != VT_Binary && v.DataType != VT_ExBinary
  ensures old(v.DataType) == VT_Binary || old(v.DataType) == VT_ExBinary && old(len(v.fbinary)) == 0 ==> v.DataType == VT_Binary && len(v.fbinary) == len(b) && forall(i, 0, len(b), v.fbinary[i] == b[i], v.fbinary[i])
  ensures old(v.DataType) == VT_ExBinary && old(len(v.fbinary)) > 0 ==> v.DataType == VT_ExBinary && len(v.fbinary) == len(b)+1 && v.fbinary[0] == old(v.fbinary[0]) && forall(i, 0, len(b), v.fbinary[i+1] == b[i], v.fbinary[i+1])
  ensures[C15] valueClone && (old(v.DataType) == VT_Binary || old(v.DataType) == VT_ExBinary) ==> fresh(v.fbinary)
  ensures old(v.DataType) != VT_Binary && old(v.DataType) != VT_ExBinary ==> samenode(v)

func (*DxValue).Binary(v) (r)
  requires v != nil
  ensures v.DataType == VT_Binary ==> r == v.fbinary
  ensures v.DataType == VT_ExBinary && len(v.fbinary) > 0 ==> r == v.fbinary[1:]
  ensures !(v.DataType == VT_Binary || v.DataType == VT_ExBinary && len(v.fbinary) > 0) ==> r == nil && len(r) == 0

func (*DxValue).BinLen(v) (r)
  requires v != nil
  ensures v.DataType == VT_Binary ==> r == len(v.fbinary)
  ensures v.DataType == VT_ExBinary ==> r == ite(len(v.fbinary) > 0, len(v.fbinary) - 1, 0)
  ensures v.DataType != VT_Binary && v.DataType != VT_ExBinary ==> r == 0

func (*DxValue).BinExtType(v) (r)
  requires v != nil
  ensures r == ite(v.DataType == VT_ExBinary && len(v.fbinary) > 0, v.fbinary[0], 0)

func (*DxValue).Type(v) (r)
  requires v != nil
  ensures r == v.DataType

func (*DxValue).Int(v) (r)
  requires v != nil
  ensures v.DataType == VT_Int ==> r == signed(v.simpleV,64)
  ensures v.DataType == VT_True ==> r == 1
  ensures v.DataType == VT_False || v.DataType == VT_NULL || v.DataType == VT_NAN || v.DataType == VT_INF || v.DataType <= VT_Array || v.DataType == VT_Binary || v.DataType == VT_ExBinary ==> r == 0

func (*DxValue).Bool(v) (r)
  requires v != nil
  ensures v.DataType == VT_True ==> r
  ensures v.DataType == VT_False || v.DataType == VT_NULL || v.DataType == VT_NAN || v.DataType == VT_INF || v.DataType <= VT_Array || v.DataType == VT_Binary || v.DataType == VT_ExBinary ==> !r
  ensures v.DataType == VT_Int ==> r == (signed(v.simpleV,64) > 0)

func (*DxValue).Double(v) (r)
  requires v != nil
  ensures v.DataType == VT_Double || v.DataType == VT_DateTime ==> r == v.simpleV
  ensures v.DataType == VT_Int ==> r == i2f64(signed(v.simpleV,64))
  ensures v.DataType == VT_Float ==> r == f32to64(mod(v.simpleV,4294967296))

func (*DxValue).Float(v) (r)
  requires v != nil
  ensures v.DataType == VT_Float ==> r == mod(v.simpleV,4294967296)

func (*DxValue).DateTime(v) (r)
  requires v != nil
  ensures v.DataType == VT_Double || v.DataType == VT_DateTime ==> r == v.simpleV

func (*DxValue).GoTime(v) (r)
  requires v != nil
