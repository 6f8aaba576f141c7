// MessagePack.

define suffix(t,b,n) = base(t) == base(b) && off(t) == off(b)+n && len(t) == len(b)-n && cap(t) == cap(b)-n

func readCode(b) (code,tail,err)
  ensures isErr(err) == (len(b) == 0)
  ensures len(b) > 0 ==> code == b[0] && suffix(tail,b,1)
  ensures len(b) == 0 ==> len(tail) == 0

func parseUint8(b) (r,tail,err)
  ensures isErr(err) == (len(b) < 1)
  ensures len(b) >= 1 ==> r == b[0] && suffix(tail,b,1)
  ensures isErr(err) ==> suffix(tail,b,0) && r == 0

func parseUint16(b) (r,tail,err)
  ensures isErr(err) == (len(b) < 2)
  ensures len(b) >= 2 ==> r == be(b,0,2) && suffix(tail,b,2)
  ensures isErr(err) ==> suffix(tail,b,0) && r == 0

func parseUint32(b) (r,tail,err)
  ensures isErr(err) == (len(b) < 4)
  ensures len(b) >= 4 ==> r == be(b,0,4) && suffix(tail,b,4)
  ensures isErr(err) ==> suffix(tail,b,0) && r == 0

func parseUint64(b) (r,tail,err)
  ensures isErr(err) == (len(b) < 8)
  ensures len(b) >= 8 ==> r == be(b,0,8) && suffix(tail,b,8)
  ensures isErr(err) ==> suffix(tail,b,0) && r == 0

// width of the length field after a code, and the length it gives
define mpw(c) = ite(c == 217 || c == 196 || c == 199, 1, ite(c == 218 || c == 197 || c == 200 || c == 220 || c == 222, 2, ite(c == 219 || c == 198 || c == 201 || c == 221 || c == 223, 4, 0)))
define lenfield(c,b) = ite(mpw(c) == 1, be(b,0,1), ite(mpw(c) == 2, be(b,0,2), be(b,0,4)))
define isfixstr(c) = 160 <= c && c <= 191
define isstr(c) = isfixstr(c) || 217 <= c && c <= 219
define isbin(c) = 196 <= c && c <= 198
define isext(c) = 212 <= c && c <= 216 || 199 <= c && c <= 201
define isarr(c) = 144 <= c && c <= 159 || c == 220 || c == 221
define ismap(c) = 128 <= c && c <= 143 || c == 222 || c == 223
define isfixint(c) = c <= 127 || c >= 224

func parseLen(code,b) (n,tail,err)
  ensures isErr(err) == (!(isstr(code) || isbin(code)) || len(b) < mpw(code))
  ensures !isErr(err) ==> n == ite(isfixstr(code), code - 160, lenfield(code,b)) && suffix(tail,b,mpw(code))
  ensures isErr(err) ==> suffix(tail,b,0) && n == 0

func parseExtLen(code,b) (n,tail,err)
  ensures isErr(err) == (!isext(code) || len(b) < mpw(code))
  ensures !isErr(err) ==> n == ite(code == 212, 1, ite(code == 213, 2, ite(code == 214, 4, ite(code == 215, 8, ite(code == 216, 16, lenfield(code,b)))))) && suffix(tail,b,mpw(code))
  ensures isErr(err) ==> suffix(tail,b,0) && n == 0

func parseMapLen(code,b) (n,tail,err)
  ensures isErr(err) == (!ismap(code) || len(b) < mpw(code))
  ensures !isErr(err) ==> n == ite(code <= 143, code - 128, lenfield(code,b)) && suffix(tail,b,mpw(code))
  ensures isErr(err) ==> suffix(tail,b,0) && n == 0

func parseArrLen(code,b) (n,tail,err)
  ensures isErr(err) == (!isarr(code) || len(b) < mpw(code))
  ensures !isErr(err) ==> n == ite(code <= 159, code - 144, lenfield(code,b)) && suffix(tail,b,mpw(code))
  ensures isErr(err) ==> suffix(tail,b,0) && n == 0

define strlen(c,b) = ite(isfixstr(c), c - 160, lenfield(c,b))

func parseRawStringByte(code,b) (r,tail,err)
  ensures isErr(err) == (!(isstr(code) || isbin(code)) || len(b) < mpw(code) || len(b) < mpw(code) + strlen(code,b))
  ensures !isErr(err) ==> len(r) == strlen(code,b) && suffix(tail,b,mpw(code)+len(r)) && forall(i, 0, len(r), r[i] == b[mpw(code)+i], r[i])
  ensures !isErr(err) && len(r) > 0 ==> base(r) == base(b)
  ensures !isErr(err) ==> str(r) == str(b[mpw(code):mpw(code)+strlen(code,b)])
  ensures base(tail) == base(b) && off(tail)+len(tail) == off(b)+len(b) && len(tail) <= len(b)

func parseString(code,b) (r,tail,err)
  ensures isErr(err) == (!(isstr(code) || isbin(code)) || len(b) < mpw(code) || len(b) < mpw(code) + strlen(code,b))
  ensures !isErr(err) ==> len(r) == strlen(code,b) && suffix(tail,b,mpw(code)+len(r)) && forall(i, 0, len(r), r[i] == b[mpw(code)+i], r[i])
  ensures !isErr(err) && len(r) > 0 ==> base(r) == base(b)
  ensures !isErr(err) ==> str(r) == str(b[mpw(code):mpw(code)+strlen(code,b)])
  ensures base(tail) == base(b) && off(tail)+len(tail) == off(b)+len(b) && len(tail) <= len(b)

// a proper suffix of b
define rest(t,b) = base(t) == base(b) && off(t) > off(b) && off(t)+len(t) == off(b)+len(b) && len(t) < len(b)
define restq(t,b) = base(t) == base(b) && off(t) >= off(b) && off(t)+len(t) == off(b)+len(b) && len(t) <= len(b)

// the node n is what the scalar encoding at the start of b stands for, and t is what follows it
define mpleaf(n,b,t) =
|  (isfixint(b[0]) ==> n.DataType == VT_Int && signed(n.simpleV,64) == signed(b[0],8) && suffix(t,b,1))
| && (b[0] == 204 ==> n.DataType == VT_Int && n.simpleV == be(b,1,1) && suffix(t,b,2))
| && (b[0] == 205 ==> n.DataType == VT_Int && n.simpleV == be(b,1,2) && suffix(t,b,3))
| && (b[0] == 206 ==> n.DataType == VT_Int && n.simpleV == be(b,1,4) && suffix(t,b,5))
| && (b[0] == 207 || b[0] == 211 ==> n.DataType == VT_Int && n.simpleV == be(b,1,8) && suffix(t,b,9))
| && (b[0] == 208 ==> n.DataType == VT_Int && signed(n.simpleV,64) == signed(be(b,1,1),8) && suffix(t,b,2))
| && (b[0] == 209 ==> n.DataType == VT_Int && signed(n.simpleV,64) == signed(be(b,1,2),16) && suffix(t,b,3))
| && (b[0] == 210 ==> n.DataType == VT_Int && signed(n.simpleV,64) == signed(be(b,1,4),32) && suffix(t,b,5))
| && (b[0] == 202 ==> n.DataType == VT_Float && mod(n.simpleV,4294967296) == be(b,1,4) && suffix(t,b,5))
| && (b[0] == 203 ==> n.DataType == VT_Double && n.simpleV == be(b,1,8) && suffix(t,b,9))
| && (b[0] == 192 ==> n.DataType == VT_NULL && suffix(t,b,1))
| && (b[0] == 194 ==> n.DataType == VT_False && suffix(t,b,1))
| && (b[0] == 195 ==> n.DataType == VT_True && suffix(t,b,1))
define mpstr(n,b,t) = isstr(b[0]) ==> n.DataType == VT_String && n.fstrvalue == str(b[1+mpw(b[0]):1+mpw(b[0])+strlen(b[0],b[1:])]) && suffix(t,b,1+mpw(b[0])+strlen(b[0],b[1:]))
define mpbin(n,b,t) = isbin(b[0]) ==> n.DataType == VT_Binary && len(n.fbinary) == lenfield(b[0],b[1:]) && suffix(t,b,1+mpw(b[0])+len(n.fbinary)) && forall(i, 0, len(n.fbinary), n.fbinary[i] == b[1+mpw(b[0])+i], n.fbinary[i])
define extlen(c,b) = ite(c == 212, 1, ite(c == 213, 2, ite(c == 214, 4, ite(c == 215, 8, ite(c == 216, 16, lenfield(c,b))))))
define mpext(n,b,t) = isext(b[0]) && b[1+mpw(b[0])] != 255 ==> n.DataType == VT_ExBinary && len(n.fbinary) == extlen(b[0],b[1:])+1 && suffix(t,b,1+mpw(b[0])+len(n.fbinary)) && forall(i, 0, len(n.fbinary), n.fbinary[i] == b[1+mpw(b[0])+i], n.fbinary[i])
define mptime(n,b,t) = b[0] == 214 && b[1] == 255 ==> n.DataType == VT_DateTime && suffix(t,b,6)
define mpkind(n,b) = (isarr(b[0]) ==> n.DataType == VT_Array) && (ismap(b[0]) ==> n.DataType == VT_Object)

func parseMsgPackValue(b,c,sharebinary) (r,tail,err)
  ghost bb
  requires[C15] inbuf(bb,b)
  decreases len(b), 0
  ensures !isErr(err) ==> r != nil && rest(tail,b)
  ensures isErr(err) ==> len(tail) <= len(b)
  ensures !isErr(err) ==> mpkind(r,b)
  ensures[C01,C18] !isErr(err) ==> mpleaf(r,b,tail)
  ensures[C01,C18] !isErr(err) ==> mpstr(r,b,tail)
  ensures[C01,C18] !isErr(err) ==> mpbin(r,b,tail)
  ensures[C01,C18] !isErr(err) ==> mpext(r,b,tail)
  ensures[C15] !sharebinary && !isErr(err) ==> singleton(r) || okv(r,bb)
  assumes[C15] !sharebinary && !isErr(err) ==> okc(r)
  ensures[C18] !isErr(err) ==> fresh(r) || singleton(r)

func parseMsgPackArray(code,b,c,sharebinary) (r,tail,err)
  ghost bb
  requires[C15] inbuf(bb,b)
  decreases len(b), 1
  ensures !isErr(err) ==> r != nil && fresh(r) && r.DataType == VT_Array && restq(tail,b)
  ensures isErr(err) ==> len(tail) <= len(b)
  ensures !isErr(err) ==> len(r.farr) == ite(code <= 159, code - 144, lenfield(code,b))
  inv len($p.farr) == $i
  ensures[C15] !sharebinary && !isErr(err) ==> singleton(r) || okv(r,bb)
  assumes[C15] !sharebinary && !isErr(err) ==> okc(r)
  inv[C15] !sharebinary ==> okself($p,bb)
  inv[C15] !sharebinary ==> okkeys($p,bb)
  inv[C15] !sharebinary ==> okelems($p)

func parseMsgPackObject(code,b,c,sharebinary) (r,tail,err)
  ghost bb
  requires[C15] inbuf(bb,b)
  decreases len(b), 1
  ensures !isErr(err) ==> r != nil && fresh(r) && r.DataType == VT_Object && restq(tail,b)
  ensures isErr(err) ==> len(tail) <= len(b)
  ensures[C15] !sharebinary && !isErr(err) ==> singleton(r) || okv(r,bb)
  assumes[C15] !sharebinary && !isErr(err) ==> okc(r)
  inv[C15] !sharebinary ==> okself($p,bb)
  inv[C15] !sharebinary ==> okkeys($p,bb)
  inv[C15] !sharebinary ==> okelems($p)

func parseMsgPackArray2V(code,b,v,sharebinary) (tail,err)
  ghost bb
  requires[C15] inbuf(bb,b)
  requires v != nil && !singleton(v)
  decreases len(b), 1
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures keeprows(v)
  ensures !isErr(err) ==> v.DataType == VT_Array && restq(tail,b)
  ensures !isErr(err) ==> len(v.farr) == ite(code <= 159, code - 144, lenfield(code,b))
  ensures !isErr(err) ==> len(v.fobject.strkvs) == 0 && v.fstrvalue == "" && len(v.fbinary) == 0
  inv len(v.farr) == $i
  ensures[C15] !sharebinary && !isErr(err) ==> okv(v,bb)
  inv[C15] !sharebinary ==> okself(v,bb)
  inv[C15] !sharebinary ==> okkeys(v,bb)
  inv[C15] !sharebinary ==> okelems(v)
  ensures[C18] !isErr(err) ==> newkids(v)
  inv[C18] newkids(v)

func parseMsgPackObject2v(code,b,v,sharebinary) (tail,err)
  ghost bb
  requires[C15] inbuf(bb,b)
  requires v != nil && !singleton(v)
  decreases len(b), 1
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures keeprows(v)
  ensures !isErr(err) ==> v.DataType == VT_Object && restq(tail,b)
  ensures[C15] !sharebinary && !isErr(err) ==> okv(v,bb)
  inv[C15] !sharebinary ==> okself(v,bb)
  inv[C15] !sharebinary ==> okkeys(v,bb)
  inv[C15] !sharebinary ==> okelems(v)
  ensures[C18] !isErr(err) ==> newkids(v)
  inv[C18] newkids(v)

func parseMsgPack2Value(b,v,sharebinary) (tail,err)
  ghost bb
  requires[C15] inbuf(bb,b)
  requires v != nil && !singleton(v)
  decreases len(b), 2
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures keeprows(v)
  ensures !isErr(err) ==> rest(tail,b)
  ensures !isErr(err) ==> mpkind(v,b)
  ensures[C01,C18] !isErr(err) ==> mpleaf(v,b,tail)
  ensures[C01,C18] !isErr(err) ==> mpstr(v,b,tail)
  ensures[C01,C18] !isErr(err) ==> mpbin(v,b,tail)
  ensures[C01,C18] !isErr(err) ==> mpext(v,b,tail)
  ensures[C15] !sharebinary && !isErr(err) ==> okv(v,bb)
  inv[C15] !sharebinary ==> okself(v,bb)
  inv[C15] !sharebinary ==> okkeys(v,bb)
  inv[C15] !sharebinary ==> okelems(v)
  ensures[C18] !isErr(err) ==> newkids(v)

func NewValueFromMsgPack(b,useCache,sharebinary) (r,err)
  ghost bb
  requires[C15] inbuf(bb,b)
  ensures isErr(err) == (r == nil)
  ensures len(b) == 0 ==> isErr(err)
  ensures[C15] !sharebinary && !isErr(err) ==> singleton(r) || okv(r,bb)
  assumes[C15] !sharebinary && !isErr(err) ==> okc(r)

func (*DxValue).LoadFromMsgPack(v,b,sharebinary) (err)
  ghost bb
  requires[C15] inbuf(bb,b)
  requires v != nil
  modifies v.*, mem(v.fobject.strkvs), mem(v.farr)
  ensures singleton(v) ==> isErr(err) && samenode(v)
  ensures !isErr(err) && len(b) > 0 ==> mpkind(v,b)
  ensures[C15] !sharebinary && !isErr(err) ==> okv(v,bb)
  ensures[C18] !isErr(err) ==> newkids(v) || len(v.farr) == 0 && len(v.fobject.strkvs) == 0