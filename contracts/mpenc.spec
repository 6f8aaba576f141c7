// MessagePack encoder.

uf rk(int) int
axiom rk_nonneg (u int) {rk(u)} rk(u) >= 0
// the containers form a tree: a rank falls from every container to its members
define tree(x) = forall(u, "ref", forall(i, 0, len(u.farr), rk(u.farr[i]) < rk(u), u.farr[i]))
| && forall(u, "ref", forall(i, 0, len(u.fobject.strkvs), rk(u.fobject.strkvs[i].V) < rk(u), u.fobject.strkvs[i].V))

// r is dst with n bytes appended
define grown(r,dst,n) = len(r) == len(dst) + n && sameelems(r, dst, len(dst)) && (base(r) == base(dst) && off(r) == off(dst) && cap(r) == cap(dst) || fresh(r))
define grew(r,dst) = len(r) >= len(dst) && sameelems(r, dst, len(dst)) && (base(r) == base(dst) && off(r) == off(dst) && cap(r) == cap(dst) || fresh(r))

func writeInt(n,dst) (r)
  modifies spare(dst)
  ensures grew(r,dst)
  ensures 0 <= n && n < 128 ==> grown(r,dst,1) && r[len(dst)] == n
  ensures 128 <= n && n < 256 ==> grown(r,dst,2) && r[len(dst)] == 204 && be(r,len(dst)+1,1) == n
  ensures 256 <= n && n < 65536 ==> grown(r,dst,3) && r[len(dst)] == 205 && be(r,len(dst)+1,2) == n
  ensures 65536 <= n && n < 4294967296 ==> grown(r,dst,5) && r[len(dst)] == 206 && be(r,len(dst)+1,4) == n
  ensures 4294967296 <= n ==> grown(r,dst,9) && r[len(dst)] == 207 && be(r,len(dst)+1,8) == n
  ensures 0-32 <= n && n < 0 ==> grown(r,dst,1) && r[len(dst)] == n + 256
  ensures 0-128 <= n && n < 0-32 ==> grown(r,dst,2) && r[len(dst)] == 208 && be(r,len(dst)+1,1) == n + 256
  ensures 0-32768 <= n && n < 0-128 ==> grown(r,dst,3) && r[len(dst)] == 209 && be(r,len(dst)+1,2) == n + 65536
  ensures 0-2147483648 <= n && n < 0-32768 ==> grown(r,dst,5) && r[len(dst)] == 210 && be(r,len(dst)+1,4) == n + 4294967296
  ensures n < 0-2147483648 ==> grown(r,dst,9) && r[len(dst)] == 211 && be(r,len(dst)+1,8) == n + pow2(64)

define head(r,dst,c,w,n) = grown(r,dst,1+w) && r[len(dst)] == c && (w == 1 ==> be(r,len(dst)+1,1) == n) && (w == 2 ==> be(r,len(dst)+1,2) == n) && (w == 4 ==> be(r,len(dst)+1,4) == n)

func writeStrCode(strlen,dst) (r)
  requires 0 <= strlen
  modifies spare(dst)
  ensures grew(r,dst)
  ensures strlen < 32 ==> head(r,dst,160+strlen,0,0)
  ensures 32 <= strlen && strlen < 256 ==> head(r,dst,217,1,strlen)
  ensures 256 <= strlen && strlen < 65536 ==> head(r,dst,218,2,strlen)
  ensures 65536 <= strlen && strlen < 4294967296 ==> head(r,dst,219,4,strlen)

func writeBinCode(binlen,dst) (r)
  requires 0 <= binlen
  modifies spare(dst)
  ensures grew(r,dst)
  ensures binlen < 256 ==> head(r,dst,196,1,binlen)
  ensures 256 <= binlen && binlen < 65536 ==> head(r,dst,197,2,binlen)
  ensures 65536 <= binlen && binlen < 4294967296 ==> head(r,dst,198,4,binlen)

func writeExtCode(exlen,dst) (r)
  requires 0 <= exlen
  modifies spare(dst)
  ensures grew(r,dst)
  ensures exlen == 1 ==> head(r,dst,212,0,0)
  ensures exlen == 2 ==> head(r,dst,213,0,0)
  ensures exlen == 4 ==> head(r,dst,214,0,0)
  ensures exlen == 8 ==> head(r,dst,215,0,0)
  ensures exlen == 16 ==> head(r,dst,216,0,0)
  ensures exlen < 256 && exlen != 1 && exlen != 2 && exlen != 4 && exlen != 8 && exlen != 16 ==> head(r,dst,199,1,exlen)
  ensures 256 <= exlen && exlen < 65536 ==> head(r,dst,200,2,exlen)
  ensures 65536 <= exlen && exlen < 4294967296 ==> head(r,dst,201,4,exlen)

func writeMapCode(maplen,dst) (r)
  requires 0 <= maplen
  modifies spare(dst)
  ensures grew(r,dst)
  ensures maplen < 16 ==> head(r,dst,128+maplen,0,0)
  ensures 16 <= maplen && maplen < 65536 ==> head(r,dst,222,2,maplen)
  ensures 65536 <= maplen && maplen < 4294967296 ==> head(r,dst,223,4,maplen)

func writeArrayCode(arrlen,dst) (r)
  requires 0 <= arrlen
  modifies spare(dst)
  ensures grew(r,dst)
  ensures arrlen < 16 ==> head(r,dst,144+arrlen,0,0)
  ensures 16 <= arrlen && arrlen < 65536 ==> head(r,dst,220,2,arrlen)
  ensures 65536 <= arrlen && arrlen < 4294967296 ==> head(r,dst,221,4,arrlen)

// the bytes of a string or binary of length n behind its header of h bytes
define strhead(r,at,n) = (n < 32 ==> r[at] == 160+n) && (32 <= n && n < 256 ==> r[at] == 217 && be(r,at+1,1) == n) && (256 <= n && n < 65536 ==> r[at] == 218 && be(r,at+1,2) == n) && (65536 <= n && n < 4294967296 ==> r[at] == 219 && be(r,at+1,4) == n)
define binhead(r,at,n) = (n < 256 ==> r[at] == 196 && be(r,at+1,1) == n) && (256 <= n && n < 65536 ==> r[at] == 197 && be(r,at+1,2) == n) && (65536 <= n && n < 4294967296 ==> r[at] == 198 && be(r,at+1,4) == n)
define strheadlen(n) = ite(n < 32, 1, ite(n < 256, 2, ite(n < 65536, 3, 5)))
define binheadlen(n) = ite(n < 256, 2, ite(n < 65536, 3, 5))
define maphead(r,at,n) = (n < 16 ==> r[at] == 128+n) && (16 <= n && n < 65536 ==> r[at] == 222 && be(r,at+1,2) == n) && (65536 <= n && n < 4294967296 ==> r[at] == 223 && be(r,at+1,4) == n)
define arrhead(r,at,n) = (n < 16 ==> r[at] == 144+n) && (16 <= n && n < 65536 ==> r[at] == 220 && be(r,at+1,2) == n) && (65536 <= n && n < 4294967296 ==> r[at] == 221 && be(r,at+1,4) == n)
define contlen(n) = ite(n < 16, 1, ite(n < 65536, 3, 5))
define mpint(r,at,n) = (0 <= n && n < 128 ==> len(r) == at+1 && r[at] == n)
| && (128 <= n && n < 256 ==> len(r) == at+2 && r[at] == 204 && be(r,at+1,1) == n)
| && (256 <= n && n < 65536 ==> len(r) == at+3 && r[at] == 205 && be(r,at+1,2) == n)
| && (65536 <= n && n < 4294967296 ==> len(r) == at+5 && r[at] == 206 && be(r,at+1,4) == n)
| && (4294967296 <= n ==> len(r) == at+9 && r[at] == 207 && be(r,at+1,8) == n)
| && (0-32 <= n && n < 0 ==> len(r) == at+1 && r[at] == n + 256)
| && (0-128 <= n && n < 0-32 ==> len(r) == at+2 && r[at] == 208 && be(r,at+1,1) == n + 256)
| && (0-32768 <= n && n < 0-128 ==> len(r) == at+3 && r[at] == 209 && be(r,at+1,2) == n + 65536)
| && (0-2147483648 <= n && n < 0-32768 ==> len(r) == at+5 && r[at] == 210 && be(r,at+1,4) == n + 4294967296)
| && (n < 0-2147483648 ==> len(r) == at+9 && r[at] == 211 && be(r,at+1,8) == n + pow2(64))

func Value2MsgPack(v,dst) (r)
  requires tree(v)
  decreases rk(v)
  modifies spare(dst)
  ensures grew(r,dst)
  ensures[C01] v != nil && v.DataType == VT_Double ==> len(r) == len(dst)+9 && r[len(dst)] == 203 && be(r,len(dst)+1,8) == v.simpleV
  ensures[C01] v == nil || v.DataType == VT_NULL ==> len(r) == len(dst)+1 && r[len(dst)] == 192
  ensures[C01] v != nil && v.DataType == VT_False ==> len(r) == len(dst)+1 && r[len(dst)] == 194
  ensures[C01] v != nil && v.DataType == VT_True ==> len(r) == len(dst)+1 && r[len(dst)] == 195
  ensures[C01] v != nil && v.DataType == VT_Int ==> mpint(r,len(dst),signed(v.simpleV,64))
  ensures[C01] v != nil && v.DataType == VT_Float ==> len(r) == len(dst)+5 && r[len(dst)] == 202 && be(r,len(dst)+1,4) == mod(v.simpleV,4294967296)
  ensures[C01] v != nil && v.DataType == VT_String && len(v.fstrvalue) < 4294967296 ==> len(r) == len(dst)+strheadlen(len(v.fstrvalue))+len(v.fstrvalue) && strhead(r,len(dst),len(v.fstrvalue)) && forall(i, 0, len(v.fstrvalue), r[len(dst)+strheadlen(len(v.fstrvalue))+i] == v.fstrvalue[i], r[len(dst)+strheadlen(len(v.fstrvalue))+i])
  ensures[C01] v != nil && v.DataType == VT_Binary && len(v.fbinary) < 4294967296 ==> len(r) == len(dst)+binheadlen(len(v.fbinary))+len(v.fbinary) && binhead(r,len(dst),len(v.fbinary))
  ensures[C01] v != nil && v.DataType == VT_Object && len(v.fobject.strkvs) < 4294967296 ==> len(r) >= len(dst)+contlen(len(v.fobject.strkvs)) && maphead(r,len(dst),len(v.fobject.strkvs))
  ensures[C01] v != nil && v.DataType == VT_Array && len(v.farr) < 4294967296 ==> len(r) >= len(dst)+contlen(len(v.farr)) && arrhead(r,len(dst),len(v.farr))
  inv grew($b,dst)
  inv len(v.fobject.strkvs) < 4294967296 ==> len($b) >= len(dst)+contlen(len(v.fobject.strkvs)) && maphead($b,len(dst),len(v.fobject.strkvs))
  inv len(v.farr) < 4294967296 ==> len($b) >= len(dst)+contlen(len(v.farr)) && arrhead($b,len(dst),len(v.farr))

func (*DxValue).ToMsgPack(v,dst) (r)
  requires tree(v)
  modifies spare(dst)
  ensures grew(r,dst)
