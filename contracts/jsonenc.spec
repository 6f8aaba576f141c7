// JSON encoder.

func binary2Json(v,dst) (r)
  requires v != nil
  modifies spare(dst)
  ensures grew(r,dst)

uf fmtint(int,int) str
uf fmtfloat(int,int,int,int) str
uf escjson(str,int) str
define textat(r,at,s) = len(r) == at+len(s) && forall(i, 0, len(s), r[at+i] == s[i], r[at+i])
define quoted(r,at,s) = len(r) == at+len(s)+2 && r[at] == 34 && r[len(r)-1] == 34 && forall(i, 0, len(s), r[at+1+i] == s[i], r[at+1+i])
define jword4(r,at,a,b,c,d) = len(r) == at+4 && r[at] == a && r[at+1] == b && r[at+2] == c && r[at+3] == d
// the text of v in front of which dst stands
define jtext(v,r,dst,style) = (v == nil || v.DataType == VT_NULL ==> jword4(r,len(dst),110,117,108,108))
| && (v != nil && v.DataType == VT_True ==> jword4(r,len(dst),116,114,117,101))
| && (v != nil && v.DataType == VT_False ==> len(r) == len(dst)+5 && r[len(dst)] == 102 && r[len(dst)+1] == 97 && r[len(dst)+2] == 108 && r[len(dst)+3] == 115 && r[len(dst)+4] == 101)
| && (v != nil && v.DataType == VT_NAN ==> len(r) == len(dst)+3 && r[len(dst)] == 78 && r[len(dst)+1] == 97 && r[len(dst)+2] == 78)
| && (v != nil && v.DataType == VT_INF ==> len(r) == len(dst)+3 && r[len(dst)] == 73 && r[len(dst)+1] == 110 && r[len(dst)+2] == 102)
| && (v != nil && v.DataType == VT_Int ==> textat(r,len(dst),fmtint(signed(v.simpleV,64),10)))
| && (v != nil && v.DataType == VT_Double ==> textat(r,len(dst),fmtfloat(v.simpleV,102,0-1,64)))
| && (v != nil && v.DataType == VT_Float ==> textat(r,len(dst),fmtfloat(f32to64(mod(v.simpleV,4294967296)),102,0-1,64)))
| && (v != nil && v.DataType == VT_RawString ==> quoted(r,len(dst),v.fstrvalue))
| && (v != nil && v.DataType == VT_String ==> quoted(r,len(dst),ite(style == 0, v.fstrvalue, escjson(v.fstrvalue,ite(style == 1,1,0)))))
| && (v != nil && v.DataType == VT_Object ==> len(r) >= len(dst)+2 && r[len(dst)] == 123 && r[len(r)-1] == 125)
| && (v != nil && v.DataType == VT_Array ==> len(r) >= len(dst)+2 && r[len(dst)] == 91 && r[len(r)-1] == 93)

func Value2Json(v,style,escdate,dst) (r)
  requires tree(v)
  decreases rk(v)
  modifies spare(dst), nodes(u,true).fobject.keysUnescaped, rows(strkv,b,true).K
  ensures seenkeys(v)
  ensures grew(r,dst)
  ensures[C07] jtext(v,r,dst,style)
  inv seenkeys(v)
  inv grew($b,dst)
  inv len($b) >= len(dst)+1 && $b[len(dst)] == ite(v.DataType == VT_Object, 123, 91)

func formatValue(v,style,escdate,dst,level) (r)
  requires tree(v)
  requires level >= 0 && level + rk(v) <= 140737488355328
  decreases rk(v)
  modifies spare(dst), nodes(u,true).fobject.keysUnescaped, rows(strkv,b,true).K
  ensures seenkeys(v)
  ensures grew(r,dst)
  ensures[C07] jtext(v,r,dst,style)
  inv seenkeys(v)
  inv grew($b,dst)
  inv len($b) >= len(dst)+1 && $b[len(dst)] == ite(v.DataType == VT_Object, 123, 91)

func Value2FormatJson(v,style,escdate,dst) (r)
  requires tree(v)
  requires rk(v) <= 140737488355328
  modifies spare(dst), nodes(u,true).fobject.keysUnescaped, rows(strkv,b,true).K
  ensures seenkeys(v)
  ensures grew(r,dst)
  ensures[C07] jtext(v,r,dst,style)

func (*DxValue).ToJson(v,format,style,escdate,dst) (r)
  requires tree(v)
  requires rk(v) <= 140737488355328
  modifies spare(dst), nodes(u,true).fobject.keysUnescaped, rows(strkv,b,true).K
  ensures seenkeys(v)
  ensures grew(r,dst)
  ensures[C07] jtext(v,r,dst,style)
