// Getters by path and by name: the getter of the node found, or the caller's default.

define walk1(v,k,name) = wk(0) < k && wk(1) < k && wk(0) == ref(v) && wk(1) == look(wk(0),name) && (wk(0) == 0 ==> wk(1) == 0)

func (*DxValue).String(v) (r)
  inline
  requires v != nil
  requires tree(v) && rk(v) <= 140737488355328
  modifies v.DataType, v.fstrvalue, nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures v.DataType == ite(old(v.DataType) == VT_RawString, VT_String, old(v.DataType))
  ensures old(v.DataType) != VT_RawString ==> v.fstrvalue == old(v.fstrvalue)
  ensures old(v.DataType) == VT_String ==> r == v.fstrvalue
  ensures old(v.DataType) == VT_RawString ==> r == unesc(old(v.fstrvalue)) && v.fstrvalue == r
  ensures old(v.DataType) == VT_True ==> r == "true"
  ensures old(v.DataType) == VT_False ==> r == "false"
  ensures old(v.DataType) == VT_NULL ==> r == "null"
  ensures old(v.DataType) == VT_Int ==> r == fmtint(signed(v.simpleV,64),10)
  ensures old(v.DataType) == VT_ExBinary || old(v.DataType) > VT_False ==> r == ""
  ensures seenkeys(v)

func (*DxValue).Duration(v,def) (r)
  requires v != nil
  modifies v.DataType, v.fstrvalue
  ensures v.DataType == ite(old(v.DataType) == VT_RawString, VT_String, old(v.DataType))
  ensures old(v.DataType) != VT_RawString ==> v.fstrvalue == old(v.fstrvalue)
  ensures v.DataType == VT_Int ==> r == signed(v.simpleV,64)
  ensures v.DataType != VT_Int && v.DataType != VT_String ==> r == def

func (*DxValue).BoolByPath(v,def,paths) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk(v,k,paths) && plainpath(paths)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures wk(len(paths)) == 0 ==> r == def
  ensures wk(len(paths)) != 0 && (old(node(wk(len(paths))).DataType) == VT_True) ==> r
  ensures wk(len(paths)) != 0 && (old(node(wk(len(paths))).DataType) == VT_False || old(node(wk(len(paths))).DataType) == VT_NULL || old(node(wk(len(paths))).DataType) == VT_NAN || old(node(wk(len(paths))).DataType) == VT_INF || old(node(wk(len(paths))).DataType) <= VT_Array || old(node(wk(len(paths))).DataType) == VT_Binary || old(node(wk(len(paths))).DataType) == VT_ExBinary) ==> !r
  ensures wk(len(paths)) != 0 && (old(node(wk(len(paths))).DataType) == VT_Int) ==> r == (signed(old(node(wk(len(paths))).simpleV),64) > 0)

func (*DxValue).IntByPath(v,def,paths) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk(v,k,paths) && plainpath(paths)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures wk(len(paths)) == 0 ==> r == def
  ensures wk(len(paths)) != 0 && (old(node(wk(len(paths))).DataType) == VT_Int) ==> r == signed(old(node(wk(len(paths))).simpleV),64)
  ensures wk(len(paths)) != 0 && (old(node(wk(len(paths))).DataType) == VT_True) ==> r == 1
  ensures wk(len(paths)) != 0 && (old(node(wk(len(paths))).DataType) == VT_False || old(node(wk(len(paths))).DataType) == VT_NULL || old(node(wk(len(paths))).DataType) == VT_NAN || old(node(wk(len(paths))).DataType) == VT_INF || old(node(wk(len(paths))).DataType) <= VT_Array || old(node(wk(len(paths))).DataType) == VT_Binary || old(node(wk(len(paths))).DataType) == VT_ExBinary) ==> r == 0

func (*DxValue).FloatByPath(v,def,paths) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk(v,k,paths) && plainpath(paths)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures wk(len(paths)) == 0 ==> r == def
  ensures wk(len(paths)) != 0 && (old(node(wk(len(paths))).DataType) == VT_Float) ==> r == mod(old(node(wk(len(paths))).simpleV),4294967296)

func (*DxValue).DoubleByPath(v,def,paths) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk(v,k,paths) && plainpath(paths)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures wk(len(paths)) == 0 ==> r == def
  ensures wk(len(paths)) != 0 && (old(node(wk(len(paths))).DataType) == VT_Double || old(node(wk(len(paths))).DataType) == VT_DateTime) ==> r == old(node(wk(len(paths))).simpleV)
  ensures wk(len(paths)) != 0 && (old(node(wk(len(paths))).DataType) == VT_Int) ==> r == i2f64(signed(old(node(wk(len(paths))).simpleV),64))

func (*DxValue).DateTimeByPath(v,def,paths) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk(v,k,paths) && plainpath(paths)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures wk(len(paths)) == 0 ==> r == def
  ensures wk(len(paths)) != 0 && (old(node(wk(len(paths))).DataType) == VT_Double || old(node(wk(len(paths))).DataType) == VT_DateTime) ==> r == old(node(wk(len(paths))).simpleV)

func (*DxValue).GoTimeByPath(v,def,paths) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk(v,k,paths) && plainpath(paths)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures wk(len(paths)) == 0 ==> r == def

func (*DxValue).DurationByPath(v,def,paths) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk(v,k,paths) && plainpath(paths)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K, nodes(u, true).DataType, nodes(u, true).fstrvalue
  ensures seennodes(v)
  ensures seenkeys(v)
  ensures wk(len(paths)) == 0 ==> r == def
  ensures wk(len(paths)) != 0 && (old(node(wk(len(paths))).DataType) == VT_Int) ==> r == signed(old(node(wk(len(paths))).simpleV),64)
  ensures wk(len(paths)) != 0 && (old(node(wk(len(paths))).DataType) != VT_Int && old(node(wk(len(paths))).DataType) != VT_String && old(node(wk(len(paths))).DataType) != VT_RawString) ==> r == def

func (*DxValue).StringByPath(v,def,paths) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk(v,k,paths) && plainpath(paths)
  requires tree(v) && forall(u, "ref", rk(u) <= 140737488355328, rk(u))
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K, nodes(u, true).DataType, nodes(u, true).fstrvalue
  ensures seennodes(v)
  ensures seenkeys(v)
  ensures wk(len(paths)) == 0 ==> r == def
  ensures wk(len(paths)) != 0 && (old(node(wk(len(paths))).DataType) == VT_String) ==> r == old(node(wk(len(paths))).fstrvalue)
  ensures wk(len(paths)) != 0 && (old(node(wk(len(paths))).DataType) == VT_True) ==> r == "true"
  ensures wk(len(paths)) != 0 && (old(node(wk(len(paths))).DataType) == VT_False) ==> r == "false"
  ensures wk(len(paths)) != 0 && (old(node(wk(len(paths))).DataType) == VT_NULL) ==> r == "null"
  ensures wk(len(paths)) != 0 && (old(node(wk(len(paths))).DataType) == VT_Int) ==> r == fmtint(signed(old(node(wk(len(paths))).simpleV),64),10)

func (*DxValue).AsString(v,name,def) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk1(v,k,name) && nopct(name)
  requires tree(v) && forall(u, "ref", rk(u) <= 140737488355328, rk(u))
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K, nodes(u, true).DataType, nodes(u, true).fstrvalue
  ensures seennodes(v)
  ensures seenkeys(v)
  ensures wk(1) == 0 ==> r == def
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_String) ==> r == old(node(wk(1)).fstrvalue)
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_True) ==> r == "true"
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_False) ==> r == "false"
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_NULL) ==> r == "null"
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_Int) ==> r == fmtint(signed(old(node(wk(1)).simpleV),64),10)

func (*DxValue).AsBool(v,name,def) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk1(v,k,name) && nopct(name)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures wk(1) == 0 ==> r == def
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_True) ==> r
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_False || old(node(wk(1)).DataType) == VT_NULL || old(node(wk(1)).DataType) == VT_NAN || old(node(wk(1)).DataType) == VT_INF || old(node(wk(1)).DataType) <= VT_Array || old(node(wk(1)).DataType) == VT_Binary || old(node(wk(1)).DataType) == VT_ExBinary) ==> !r
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_Int) ==> r == (signed(old(node(wk(1)).simpleV),64) > 0)

func (*DxValue).AsInt(v,name,def) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk1(v,k,name) && nopct(name)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures wk(1) == 0 ==> r == def
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_Int) ==> r == signed(old(node(wk(1)).simpleV),64)
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_True) ==> r == 1
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_False || old(node(wk(1)).DataType) == VT_NULL || old(node(wk(1)).DataType) == VT_NAN || old(node(wk(1)).DataType) == VT_INF || old(node(wk(1)).DataType) <= VT_Array || old(node(wk(1)).DataType) == VT_Binary || old(node(wk(1)).DataType) == VT_ExBinary) ==> r == 0

func (*DxValue).AsInt64(v,name,def) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk1(v,k,name) && nopct(name)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures wk(1) == 0 ==> r == def
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_Int) ==> r == signed(old(node(wk(1)).simpleV),64)
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_True) ==> r == 1
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_False || old(node(wk(1)).DataType) == VT_NULL || old(node(wk(1)).DataType) == VT_NAN || old(node(wk(1)).DataType) == VT_INF || old(node(wk(1)).DataType) <= VT_Array || old(node(wk(1)).DataType) == VT_Binary || old(node(wk(1)).DataType) == VT_ExBinary) ==> r == 0

func (*DxValue).AsFloat(v,name,def) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk1(v,k,name) && nopct(name)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures wk(1) == 0 ==> r == def
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_Float) ==> r == mod(old(node(wk(1)).simpleV),4294967296)

func (*DxValue).AsDouble(v,name,def) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk1(v,k,name) && nopct(name)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures wk(1) == 0 ==> r == def
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_Double || old(node(wk(1)).DataType) == VT_DateTime) ==> r == old(node(wk(1)).simpleV)
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_Int) ==> r == i2f64(signed(old(node(wk(1)).simpleV),64))

func (*DxValue).AsDateTime(v,name,def) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk1(v,k,name) && nopct(name)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures wk(1) == 0 ==> r == def
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_Double || old(node(wk(1)).DataType) == VT_DateTime) ==> r == old(node(wk(1)).simpleV)

func (*DxValue).StringByName(v,name,def) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk1(v,k,name) && nopct(name)
  requires tree(v) && forall(u, "ref", rk(u) <= 140737488355328, rk(u))
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K, nodes(u, true).DataType, nodes(u, true).fstrvalue
  ensures seennodes(v)
  ensures seenkeys(v)
  ensures wk(1) == 0 ==> r == def
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_String) ==> r == old(node(wk(1)).fstrvalue)
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_True) ==> r == "true"
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_False) ==> r == "false"
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_NULL) ==> r == "null"
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_Int) ==> r == fmtint(signed(old(node(wk(1)).simpleV),64),10)

func (*DxValue).IntByName(v,name,def) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk1(v,k,name) && nopct(name)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures wk(1) == 0 ==> r == def
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_Int) ==> r == signed(old(node(wk(1)).simpleV),64)
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_True) ==> r == 1
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_False || old(node(wk(1)).DataType) == VT_NULL || old(node(wk(1)).DataType) == VT_NAN || old(node(wk(1)).DataType) == VT_INF || old(node(wk(1)).DataType) <= VT_Array || old(node(wk(1)).DataType) == VT_Binary || old(node(wk(1)).DataType) == VT_ExBinary) ==> r == 0

func (*DxValue).BoolByName(v,name,def) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk1(v,k,name) && nopct(name)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures wk(1) == 0 ==> r == def
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_True) ==> r
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_False || old(node(wk(1)).DataType) == VT_NULL || old(node(wk(1)).DataType) == VT_NAN || old(node(wk(1)).DataType) == VT_INF || old(node(wk(1)).DataType) <= VT_Array || old(node(wk(1)).DataType) == VT_Binary || old(node(wk(1)).DataType) == VT_ExBinary) ==> !r
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_Int) ==> r == (signed(old(node(wk(1)).simpleV),64) > 0)

func (*DxValue).FloatByName(v,name,def) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk1(v,k,name) && nopct(name)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures wk(1) == 0 ==> r == def
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_Float) ==> r == mod(old(node(wk(1)).simpleV),4294967296)

func (*DxValue).DoubleByName(v,name,def) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk1(v,k,name) && nopct(name)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures wk(1) == 0 ==> r == def
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_Double || old(node(wk(1)).DataType) == VT_DateTime) ==> r == old(node(wk(1)).simpleV)
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_Int) ==> r == i2f64(signed(old(node(wk(1)).simpleV),64))

func (*DxValue).TimeByName(v,name,def) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk1(v,k,name) && nopct(name)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K
  ensures seenkeys(v)
  ensures wk(1) == 0 ==> r == def

func (*DxValue).AsDuration(v,def,name) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk1(v,k,name) && nopct(name)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K, nodes(u, true).DataType, nodes(u, true).fstrvalue
  ensures seennodes(v)
  ensures seenkeys(v)
  ensures wk(1) == 0 ==> r == def
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_Int) ==> r == signed(old(node(wk(1)).simpleV),64)
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) != VT_Int && old(node(wk(1)).DataType) != VT_String && old(node(wk(1)).DataType) != VT_RawString) ==> r == def

func (*DxValue).DurationByName(v,def,name) (r)
  ghost k
  requires lookobj(k) && lookarr(k) && k <= next
  requires walk1(v,k,name) && nopct(name)
  modifies nodes(u, true).fobject.keysUnescaped, rows(strkv, b, true).K, nodes(u, true).DataType, nodes(u, true).fstrvalue
  ensures seennodes(v)
  ensures seenkeys(v)
  ensures wk(1) == 0 ==> r == def
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) == VT_Int) ==> r == signed(old(node(wk(1)).simpleV),64)
  ensures wk(1) != 0 && (old(node(wk(1)).DataType) != VT_Int && old(node(wk(1)).DataType) != VT_String && old(node(wk(1)).DataType) != VT_RawString) ==> r == def

