From d95677399a9a3471ffaa05ef632fa0c251607cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:35 +0000
Subject: [PATCH 01/50] fix: msgpack map header without any data made the
 decoder index an empty slice

---
 msgpackparse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index a2df411..2c1c8cf 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -34,7 +34,7 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 	if maplen == 0{
 		return b,nil
 	}
-	if !MsgPackCode(b[0]).IsStr(){
+	if len(b) > 0 && !MsgPackCode(b[0]).IsStr(){
 		return b,ErrMapKey
 	}
 	var rawbyte []byte
@@ -72,7 +72,7 @@ func parseMsgPackObject(code MsgPackCode,b []byte,c *ValueCache,sharebinary bool
 	if maplen == 0{
 		return c.getValue(VT_Object),b,nil
 	}
-	if !MsgPackCode(b[0]).IsStr(){
+	if len(b) > 0 && !MsgPackCode(b[0]).IsStr(){
 		return nil,b,ErrMapKey
 	}
 	var rawbyte []byte
-- 
2.43.0


From ea7d28c70beb7ff2d586a49e5bb85229031b6365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:39 +0000
Subject: [PATCH 02/50] fix: msgpack extension data needs its type byte, and an
 ext 8 timestamp its 12 bytes

---
 msgpackparse.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index 2c1c8cf..9568d14 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -290,11 +290,11 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 			return result,b,err
 		}
 		haslen := len(b)
-		if haslen < exlen{
+		if haslen < exlen + 1{ //类型占一个字节
 			return nil,b, fmt.Errorf("msgpack: binay data truncated,totalen=%d,realLen=%d",exlen,haslen)
 		}
 		tail = b[exlen+1:]
-		if code.IsTime(b[0]){
+		if code.IsTime(b[0]) && (code != CodeExt8 || exlen == 12){
 			//日期时间
 			result = c.getValue(VT_DateTime)
 			switch code {
@@ -449,11 +449,11 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 			return b,err
 		}
 		haslen := len(b)
-		if haslen < exlen{
+		if haslen < exlen + 1{ //类型占一个字节
 			return b, fmt.Errorf("msgpack: binay data truncated,totalen=%d,realLen=%d",exlen,haslen)
 		}
 		tail = b[exlen+1:]
-		if code.IsTime(b[0]){
+		if code.IsTime(b[0]) && (code != CodeExt8 || exlen == 12){
 			//日期时间
 			switch code {
 			case CodeFixExt4:
-- 
2.43.0


From 6a21a664047ef55d723285cc1bfe3853a28584eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:53 +0000
Subject: [PATCH 03/50] fix: an empty msgpack extension was written without its
 type byte

---
 msgpackparse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msgpackparse.go b/msgpackparse.go
index 9568d14..7631647 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -569,6 +569,10 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 			blen = len(v.fbinary[1:])
 		}
 		dst = writeExtCode(blen,dst)
+		if len(v.fbinary) == 0{
+			//没有设置类型，类型字节也必须写入
+			dst = append(dst,0)
+		}
 		//直接写入内容
 		dst = append(dst,v.fbinary...)
 	case VT_Binary:
-- 
2.43.0


From 06b58576ea4ce803b8ef3fd07dea82b4dabb6e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:57 +0000
Subject: [PATCH 04/50] fix: strings and keys decoded from JSON were written to
 msgpack with their JSON escapes

---
 msgpackparse.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index 7631647..7ab1bce 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -522,6 +522,9 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 		dst = writeMapCode(l,dst)
 		for i := 0;i < l;i++{
 			kv := v.fobject.strkvs[i]
+			if !v.fobject.keysUnescaped{
+				kv.K = DxCommonLib.ParserEscapeStr(DxCommonLib.FastString2Byte(kv.K))
+			}
 			l := len(kv.K)
 			dst = writeStrCode(l,dst)
 			dst = append(dst,DxCommonLib.FastString2Byte(kv.K)...)
@@ -588,9 +591,12 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 	case VT_Int:
 		dst = writeInt(v.Int(),dst)
 	case VT_String,VT_RawString:
-		l := len(v.fstrvalue)
-		dst = writeStrCode(l,dst)
-		dst = append(dst,DxCommonLib.FastString2Byte(v.fstrvalue)...)
+		str := v.fstrvalue
+		if v.DataType == VT_RawString{
+			str = DxCommonLib.ParserEscapeStr(DxCommonLib.FastString2Byte(str))
+		}
+		dst = writeStrCode(len(str),dst)
+		dst = append(dst,DxCommonLib.FastString2Byte(str)...)
 	case VT_False:
 		dst = append(dst,byte(CodeFalse))
 	case VT_True:
-- 
2.43.0


From 1b510f7fcee938c09ea4553d73a34fe5a02776f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:01 +0000
Subject: [PATCH 05/50] fix: NaN and infinity constants were left out of
 msgpack maps and arrays, which corrupted them

---
 msgpackparse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msgpackparse.go b/msgpackparse.go
index 7ab1bce..0e37227 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -603,6 +603,12 @@ func Value2MsgPack(v *DxValue,dst []byte)[]byte  {
 		dst = append(dst,byte(CodeTrue))
 	case VT_NULL:
 		dst = append(dst,byte(CodeNil))
+	case VT_NAN,VT_INF:
+		u64 := math.Float64bits(math.NaN())
+		if v.DataType == VT_INF{
+			u64 = math.Float64bits(math.Inf(1))
+		}
+		dst = append(dst,byte(CodeDouble),byte(u64 >> 56),byte(u64 >> 48),byte(u64 >> 40),byte(u64 >> 32),byte(u64 >> 24),byte(u64 >> 16),byte(u64 >> 8),byte(u64))
 	}
 	return dst
 }
\ No newline at end of file
-- 
2.43.0


From 626c3d5e099659967a0d5fc564179af4add95c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:25 +0000
Subject: [PATCH 06/50] fix: the unused msgpack code 0xc1 decoded to no value
 and no error

---
 msgpackparse.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index 0e37227..93ac800 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -323,8 +323,9 @@ func parseMsgPackValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,
 				result.fbinary = append(result.fbinary[:0],b[:exlen+1]...)
 			}
 		}
+		return result,tail,nil
 	}
-	return
+	return nil,b,ErrInvalidateCode
 }
 
 func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error)  {
@@ -343,6 +344,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		}else{
 			v.fstrvalue = string(strbt)
 		}
+		return tail,nil
 	case code.IsArray():
 		return parseMsgPackArray2V(code,b,v,sharebinary)
 	case code.IsMap():
@@ -480,8 +482,9 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 				v.fbinary = append(v.fbinary,b[:exlen+1]...)
 			}
 		}
+		return tail,nil
 	}
-	return
+	return b,ErrInvalidateCode
 }
 
 func NewValueFromMsgPack(b []byte,useCache bool,sharebinary bool)(*DxValue,error)  {
-- 
2.43.0


From 6a9cce97da556add79036107f27fbbad13e23edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:29 +0000
Subject: [PATCH 07/50] fix: decoding msgpack into an existing value kept that
 value's old kind

---
 msgpackparse.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/msgpackparse.go b/msgpackparse.go
index 93ac800..0e40c4e 100644
--- a/msgpackparse.go
+++ b/msgpackparse.go
@@ -31,6 +31,7 @@ func parseMsgPackObject2v(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)
 	if err != nil{
 		return b,err
 	}
+	v.Reset(VT_Object)
 	if maplen == 0{
 		return b,nil
 	}
@@ -140,11 +141,11 @@ func parseMsgPackArray2V(code MsgPackCode,b []byte,v *DxValue,sharebinary bool)(
 	if err != nil{
 		return b,err
 	}
+	v.Reset(VT_Array)
 	if arrlen == 0{
 		return b,nil
 	}
 	var value *DxValue
-	v.Reset(VT_Array)
 	for i := 0;i<arrlen;i++{
 		value,b,err = parseMsgPackValue(b,c,sharebinary)
 		if err != nil{
@@ -339,6 +340,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return tail,err
 		}
+		v.Reset(VT_String)
 		if sharebinary{
 			v.fstrvalue = DxCommonLib.FastByte2String(strbt)
 		}else{
@@ -413,6 +415,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		if err != nil{
 			return b,err
 		}
+		v.Reset(VT_Double)
 		v.SetDouble(*(*float64)(unsafe.Pointer(&u64)))
 		return b,nil
 	case code == CodeTrue:
@@ -436,6 +439,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		haslen := len(b)
 		if blen <= haslen{
 			tail = b[blen:]
+			v.Reset(VT_Binary)
 			if sharebinary{
 				v.fbinary = b[:blen]
 			}else{
@@ -457,6 +461,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 		tail = b[exlen+1:]
 		if code.IsTime(b[0]) && (code != CodeExt8 || exlen == 12){
 			//日期时间
+			v.Reset(VT_DateTime)
 			switch code {
 			case CodeFixExt4:
 				sec := binary.BigEndian.Uint32(b[1:])
@@ -476,6 +481,7 @@ func parseMsgPack2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err er
 				v.SetDouble(float64(DxCommonLib.Time2DelphiTime(t)))
 			}
 		}else{
+			v.Reset(VT_ExBinary)
 			if sharebinary{
 				v.fbinary = b[:exlen+1]
 			}else{
-- 
2.43.0


From 850b8890dd10536c75fbeb5949cecb8f0c80a401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:33 +0000
Subject: [PATCH 08/50] fix: msgpack extensions of length 1, 2, 4, 8 and 16
 were written with two headers

---
 msgpack_value.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/msgpack_value.go b/msgpack_value.go
index 3c3c8a9..6970a1c 100644
--- a/msgpack_value.go
+++ b/msgpack_value.go
@@ -169,15 +169,15 @@ func getExtcode(exbinLen int)MsgPackCode  {
 func writeExtCode(exlen int,dst []byte)[]byte  {
 	switch exlen {
 	case 1:
-		dst = append(dst,byte(CodeFixExt1))
+		return append(dst,byte(CodeFixExt1))
 	case 2:
-		dst = append(dst,byte(CodeFixExt2))
+		return append(dst,byte(CodeFixExt2))
 	case 4:
-		dst = append(dst,byte(CodeFixExt4))
+		return append(dst,byte(CodeFixExt4))
 	case 8:
-		dst = append(dst,byte(CodeFixExt8))
+		return append(dst,byte(CodeFixExt8))
 	case 16:
-		dst = append(dst,byte(CodeFixExt16))
+		return append(dst,byte(CodeFixExt16))
 	}
 	if exlen < 256 {
 		dst = append(dst,byte(CodeExt8),byte(exlen))
-- 
2.43.0


From 88a27adebab92e01d1cd9e049b7e3292cfc8a896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:35 +0000
Subject: [PATCH 09/50] fix: Reset kept the old number, which a reused node
 then showed and Equal compared

---
 dxvalue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dxvalue.go b/dxvalue.go
index 75bc829..17c2a7f 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -321,6 +321,7 @@ func (v *DxValue)Reset(dt ValueType)  {
 	}
 	v.DataType = dt
 	v.ExtType = 0
+	v.simpleV = [8]byte{}
 	v.fobject.keysUnescaped = false
 	switch dt {
 	case VT_Object:
-- 
2.43.0


From 2096affb7910a7f3abb89303dbbfa9dffb8c1d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:39 +0000
Subject: [PATCH 10/50] fix: SetInt, SetString, SetTime and SetDelphiTime wrote
 into the shared constants

---
 dxvalue.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index 17c2a7f..7ba2a53 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -699,6 +699,9 @@ func (v *DxValue)ForcePath(vt ValueType,paths ...string)*DxValue  {
 }
 
 func (v *DxValue)SetInt(value int64)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Int{
 		v.Reset(VT_Int)
 	}
@@ -813,6 +816,9 @@ func (v *DxValue)Items(idx int)(string,*DxValue)  {
 }
 
 func (v *DxValue)SetString(value string)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_String{
 		v.Reset(VT_String)
 	}
@@ -996,6 +1002,9 @@ func (v *DxValue)SetDouble(value float64)  {
 }
 
 func (v *DxValue)SetTime(value time.Time)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Double && v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
@@ -1003,6 +1012,9 @@ func (v *DxValue)SetTime(value time.Time)  {
 }
 
 func (v *DxValue)SetDelphiTime(value DxCommonLib.TDateTime)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Double && v.DataType != VT_DateTime{
 		v.Reset(VT_DateTime)
 	}
-- 
2.43.0


From bf6c663e832d09216a44b4b28b1c0397c8c64503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:43 +0000
Subject: [PATCH 11/50] fix: setting keys and indexes on a shared constant, or
 copying into it, wrote into the constant

---
 dxvalue.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index 7ba2a53..4e7bb0e 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -579,6 +579,9 @@ func (v *DxValue)clone(c *ValueCache)*DxValue  {
 }
 
 func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
+	if v.ReadOnly(){
+		return
+	}
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
@@ -599,6 +602,9 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 }
 
 func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
+	if v.ReadOnly(){
+		return
+	}
 	v.Reset(fromv.DataType)
 	switch fromv.DataType {
 	case VT_Object:
@@ -1137,6 +1143,9 @@ func (v *DxValue)GoTimeByPath(DefaultValue time.Time, paths ...string)time.Time
 }
 
 func (v *DxValue)SetKeyCached(Name string,tp ValueType,c *ValueCache)*DxValue  {
+	if v.ReadOnly(){
+		return c.getValue(tp)
+	}
 	if v.DataType == VT_Array{
 		idx := DxCommonLib.StrToIntDef(Name,-1)
 		if idx != -1{
@@ -1170,6 +1179,9 @@ func (v *DxValue)SetKey(Name string,tp ValueType)*DxValue  {
 
 
 func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType == VT_Array{
 		idx := DxCommonLib.StrToIntDef(Name,-1)
 		if idx != -1{
@@ -1191,6 +1203,9 @@ func (v *DxValue)SetKeyValue(Name string,value *DxValue)  {
 }
 
 func (v *DxValue)SetIndexValue(idx int,value *DxValue)  {
+	if v.ReadOnly(){
+		return
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
@@ -1228,6 +1243,9 @@ func (v *DxValue)Append(tp ValueType)*DxValue  {
 
 
 func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
+	if v.ReadOnly(){
+		return c.getValue(tp)
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
@@ -1254,6 +1272,9 @@ func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
 }
 
 func (v *DxValue)InsertValue(idx int,tp ValueType)*DxValue  {
+	if v.ReadOnly(){
+		return NewValue(tp)
+	}
 	if v.DataType != VT_Array{
 		v.Reset(VT_Array)
 	}
-- 
2.43.0


From 13226106b33e6d6d0cf882c0aa59d24868585f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:47 +0000
Subject: [PATCH 12/50] fix: LoadFromMsgPack, LoadFromJson, LoadFromYaml and
 LoadFromBson wrote into the shared constants

---
 dxvalue.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index 4e7bb0e..3e88ee5 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -2,6 +2,7 @@ package dxsvalue
 
 import (
 	"bytes"
+	"errors"
 	"github.com/suiyunonghen/DxCommonLib"
 	"math"
 	"reflect"
@@ -31,6 +32,7 @@ const(
 )
 var(
 	IgnoreCase = false		//是否忽略大小写
+	ErrReadOnly = errors.New("the shared constant value can not be changed")
 )
 
 
@@ -257,6 +259,9 @@ func NewCacheValue(tp ValueType)*DxValue  {
 }
 
 func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	if len(b) == 0{
 		return nil
@@ -266,6 +271,9 @@ func (v *DxValue)LoadFromMsgPack(b []byte,sharebinary bool)error  {
 }
 
 func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	b,_ = skipWB(b)
 	if len(b) == 0{
@@ -276,6 +284,9 @@ func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
 }
 
 func (v *DxValue)LoadFromYaml(b []byte)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	spacount := 0
 	for i := 0;i<len(b);i++{
@@ -307,6 +318,9 @@ func (v *DxValue)LoadFromYaml(b []byte)error  {
 }
 
 func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
+	if v.ReadOnly(){
+		return ErrReadOnly
+	}
 	v.Clear()
 	if len(b) == 0{
 		return nil
-- 
2.43.0


From 20af4a19eac7d34676dc3f2f4aaa71e8826eddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:51 +0000
Subject: [PATCH 13/50] fix: SetKey on a key that holds nil dereferenced it

---
 dxvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 3e88ee5..87acac6 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1172,7 +1172,7 @@ func (v *DxValue)SetKeyCached(Name string,tp ValueType,c *ValueCache)*DxValue  {
 	idx := v.fobject.indexByName(Name)
 	if idx >= 0{
 		result := v.fobject.strkvs[idx].V
-		if result == valueTrue || result == valueFalse || result == valueINF || result == valueNAN || result == valueNull{
+		if result == nil || result == valueTrue || result == valueFalse || result == valueINF || result == valueNAN || result == valueNull{
 			result = c.getValue(tp)
 			v.fobject.strkvs[idx].V = result
 		}else if result.DataType != tp {
-- 
2.43.0


From 74eeddbd62a0617a2666a4dd09579c35af8255c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:55 +0000
Subject: [PATCH 14/50] fix: Equal compared the length of an array with itself

---
 dxvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 87acac6..35d0f23 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -526,7 +526,7 @@ func (v *DxValue)Equal(value *DxValue)bool  {
 			}
 		}
 	case VT_Array:
-		if len(v.farr) != len(v.farr){
+		if len(v.farr) != len(value.farr){
 			return false
 		}
 		for i := 0;i<len(v.farr);i++{
-- 
2.43.0


From a7da55b9959507de93f2cb56d95872cca14e9c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:59 +0000
Subject: [PATCH 15/50] fix: clone dropped binary contents and extension type,
 shared non-constant booleans, and panicked on nil children

---
 dxvalue.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dxvalue.go b/dxvalue.go
index 35d0f23..e61b48a 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -566,10 +566,11 @@ func (v *DxValue)Int()int64  {
 }
 
 func (v *DxValue)clone(c *ValueCache)*DxValue  {
-	if v.DataType >= VT_True{ //系统固定的值不变更
+	if v == nil || v.ReadOnly(){ //系统固定的值不变更
 		return v
 	}
 	rootv := c.getValue(v.DataType)
+	rootv.ExtType = v.ExtType
 	if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
 		copy(rootv.simpleV[:],v.simpleV[:])
 		return rootv
@@ -577,6 +578,8 @@ func (v *DxValue)clone(c *ValueCache)*DxValue  {
 	switch v.DataType {
 	case VT_String,VT_RawString:
 		rootv.fstrvalue = v.fstrvalue
+	case VT_Binary,VT_ExBinary:
+		rootv.fbinary = append(rootv.fbinary,v.fbinary...)
 	case VT_Object:
 		rootv.fobject.keysUnescaped = v.fobject.keysUnescaped
 		for i := 0; i<len(v.fobject.strkvs);i++{
-- 
2.43.0


From 013edc58b498eff0e85a6ad21e2ea9243edc7b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:03 +0000
Subject: [PATCH 16/50] fix: CopyFrom dropped binary contents and extension
 type, and emptied a value copied from itself

---
 dxvalue.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index e61b48a..e5e583f 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -622,7 +622,11 @@ func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
 	if v.ReadOnly(){
 		return
 	}
+	if v == fromv{
+		return
+	}
 	v.Reset(fromv.DataType)
+	v.ExtType = fromv.ExtType
 	switch fromv.DataType {
 	case VT_Object:
 		if c == nil{
@@ -641,6 +645,8 @@ func (v *DxValue)CopyFrom(fromv *DxValue,c *ValueCache)  {
 		}
 	case VT_String,VT_RawString:
 		v.fstrvalue = fromv.fstrvalue
+	case VT_Binary,VT_ExBinary:
+		v.fbinary = append(v.fbinary,fromv.fbinary...)
 	default:
 		if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
 			copy(v.simpleV[:],fromv.simpleV[:])
-- 
2.43.0


From 37641f29d5955b3e1ad052bf1fd089d01dc87414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:07 +0000
Subject: [PATCH 17/50] fix: AddFrom mixed escaped and unescaped keys, and
 never ended when a value was added to itself

---
 dxvalue.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index e5e583f..26bb907 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -604,15 +604,19 @@ func (v *DxValue)AddFrom(fromv *DxValue,c *ValueCache)  {
 		if c == nil{
 			c = v.ownercache
 		}
-		v.fobject.keysUnescaped = fromv.fobject.keysUnescaped
-		for i := 0; i<len(fromv.fobject.strkvs);i++{
+		v.fobject.UnEscapestrs()
+		fromv.fobject.UnEscapestrs()
+		l := len(fromv.fobject.strkvs)
+		for i := 0; i<l;i++{
+			value := fromv.fobject.strkvs[i].V.clone(c)
 			rkv := v.fobject.getKv()
 			rkv.K = fromv.fobject.strkvs[i].K
-			rkv.V = fromv.fobject.strkvs[i].V.clone(c)
+			rkv.V = value
 		}
 	case VT_Array:
 		c := v.ownercache
-		for i := 0;i < len(fromv.farr);i++{
+		l := len(fromv.farr)
+		for i := 0;i < l;i++{
 			v.farr = append(v.farr, fromv.farr[i].clone(c))
 		}
 	}
-- 
2.43.0


From bae4bf3367363706aafedb211789030ede59c586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:43 +0000
Subject: [PATCH 18/50] fix: merging objects stopped at the first shared
 container key, dropped values of different kinds, wrote into constants and
 reported wrong paths

---
 dxvalue.go | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index 26bb907..c3d40e8 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -428,30 +428,38 @@ type MergeFunc	func(keyPath string, oldv *DxValue,newv *DxValue)MergeOp
 
 func mergeObject(parentpath []byte,v,value *DxValue,mergefunc MergeFunc)[]byte  {
 	mergeOp := MO_Normal
+	pathlen := len(parentpath)
+	v.fobject.UnEscapestrs()
+	value.fobject.UnEscapestrs()
 	for i := 0;i<len(value.fobject.strkvs);i++{
 		idx := v.fobject.indexByName(value.fobject.strkvs[i].K)
 		if idx != -1{
+			parentpath = parentpath[:pathlen]
+			if pathlen != 0{
+				parentpath = append(parentpath,'/')
+			}
+			parentpath = append(parentpath,value.fobject.strkvs[i].K...)
+			oldv,newv := v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V
 			if mergefunc!=nil{
-				if len(parentpath) != 0{
-					parentpath = append(parentpath,'/')
-				}
-				parentpath = append(parentpath,value.fobject.strkvs[i].K...)
-				mergeOp = mergefunc(DxCommonLib.FastByte2String(parentpath),v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V)
+				mergeOp = mergefunc(string(parentpath),oldv,newv)
 			}
 			if mergeOp == MO_Normal{
-				if v.fobject.strkvs[idx].V.DataType <= VT_Array{
-					return mergeObject(parentpath,v.fobject.strkvs[idx].V,value.fobject.strkvs[i].V,mergefunc)
+				if oldv != nil && newv != nil && oldv.DataType <= VT_Array && oldv.DataType == newv.DataType{
+					if oldv.DataType == VT_Object{
+						parentpath = mergeObject(parentpath,oldv,newv,mergefunc)
+					}else{
+						oldv.MergeWith(newv,mergefunc)
+					}
 				}else{
 					//合并成数组
-					oldobj := v.fobject.strkvs[idx].V.clone(nil)
-					v.fobject.strkvs[idx].V.Reset(VT_Array)
-					v.fobject.strkvs[idx].V.SetIndexValue(0,oldobj)
-					v.fobject.strkvs[idx].V.SetIndexValue(1,value.fobject.strkvs[i].V.clone(nil))
+					arr := NewArray(false)
+					arr.SetIndexValue(0,oldv)
+					arr.SetIndexValue(1,newv.clone(nil))
+					v.fobject.strkvs[idx].V = arr
 				}
 			}else if mergeOp == MO_Replace{
 				//直接替换
-				v.fobject.strkvs[idx].V.Reset(VT_NULL)
-				v.fobject.strkvs[idx].V = value.fobject.strkvs[i].V.clone(nil)
+				v.fobject.strkvs[idx].V = newv.clone(nil)
 			}
 		}else{
 			//没有，直接增加
-- 
2.43.0


From 503b6f4b88547c08fcbabcaf5c1e79d0ea1e4341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:47 +0000
Subject: [PATCH 19/50] fix: KeyNameByIndex and Visit gave key names with their
 JSON escapes

---
 dxvalue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index c3d40e8..9600ee6 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1386,6 +1386,7 @@ func (v *DxValue)ValueByIndex(idx int)*DxValue{
 func (v *DxValue)KeyNameByIndex(idx int)string  {
 	if v.DataType == VT_Object{
 		if idx >= 0 && idx < len(v.fobject.strkvs){
+			v.fobject.UnEscapestrs()
 			return v.fobject.strkvs[idx].K
 		}
 	}
@@ -1395,6 +1396,7 @@ func (v *DxValue)KeyNameByIndex(idx int)string  {
 func (v *DxValue)Visit(f func(Key string,value *DxValue) bool)  {
 	switch v.DataType {
 	case VT_Object:
+		v.fobject.UnEscapestrs()
 		for i := 0;i<len(v.fobject.strkvs);i++{
 			if !f(v.fobject.strkvs[i].K,v.fobject.strkvs[i].V){
 				return
-- 
2.43.0


From f16cfa6323c9f2387294a41b903eed58582d22d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:51 +0000
Subject: [PATCH 20/50] fix: Bool read a 32-bit float as a 64-bit integer

---
 dxvalue.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dxvalue.go b/dxvalue.go
index 9600ee6..22773e3 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -924,6 +924,9 @@ func (v *DxValue)SetKeyTime(Name string,value time.Time)  {
 }
 
 func (v *DxValue)Bool()bool  {
+	if v.DataType == VT_Float{
+		return *((*float32)(unsafe.Pointer(&v.simpleV[0]))) > 0
+	}
 	if v.DataType >= VT_Int && v.DataType <= VT_DateTime{
 		return *((*int64)(unsafe.Pointer(&v.simpleV[0]))) > 0
 	}
-- 
2.43.0


From ba0e3f2a89609782dc67fe2ed9168e082e379813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:55 +0000
Subject: [PATCH 21/50] fix: String panicked on binary values shorter than 12
 bytes

---
 bin_value.go | 8 ++++++++
 dxvalue.go   | 6 +++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/bin_value.go b/bin_value.go
index 2b49c58..e5116c8 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -27,6 +27,14 @@ func (v *DxValue)BinLen()int  {
 	}
 }
 
+//最多返回前面的n个字节
+func (v *DxValue)binHead(n int)[]byte  {
+	if len(v.fbinary) < n{
+		return v.fbinary
+	}
+	return v.fbinary[:n]
+}
+
 func (v *DxValue)SetExtType(t byte)  {
 	if v.DataType == VT_ExBinary{
 		if len(v.fbinary) > 0{
diff --git a/dxvalue.go b/dxvalue.go
index 22773e3..d508233 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -776,18 +776,18 @@ func (v *DxValue)String()string  {
 		case uint8(BSON_ObjectID):
 			dst = make([]byte,0,48)
 			dst = append(dst,`{"$oid":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(v.binHead(12))...)
 			dst = append(dst,'"','}')
 
 		case uint8(BSON_Decimal128):
 			dst = make([]byte,0,48)
 			dst = append(dst,`{"Decimal128":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:16])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(v.binHead(16))...)
 			dst = append(dst,'"','}')
 		default:
 			dst = make([]byte,0,128)
 			dst = append(dst,"Bin("...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
+			dst = append(dst,DxCommonLib.Bin2Hex(v.binHead(12))...)
 			dst = append(dst,')')
 		}
 		return DxCommonLib.FastByte2String(dst)
-- 
2.43.0


From 695dd2526393afa9778c8a738dee79ba474cbd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:29 +0000
Subject: [PATCH 22/50] fix: a JSON key with an escape was parsed and then
 scanned on as if it had not been

---
 jsonparse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonparse.go b/jsonparse.go
index 3bd1cc5..9a3cb10 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -235,6 +235,7 @@ func parseJsonKey(b []byte,sharebinary bool) (key string, tail []byte, err error
 					jpe.Type = JET_NoKeyEnd
 				}
 			}
+			return
 		}
 	}
 	return "", nil, &ErrorParseJson{
-- 
2.43.0


From b044d5dfb0c23e5d46ce642a35526c168c1408c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:33 +0000
Subject: [PATCH 23/50] fix: printing a JSON error without data panicked

---
 jsonparse.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 9a3cb10..4517c90 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -54,10 +54,14 @@ type ErrorParseJson struct {
 func (err *ErrorParseJson)Error()string  {
 	b := err.parseB
 	l := len(b)
-	if l > err.InvalidIndex + 32{
-		l = err.InvalidIndex + 32
+	if err.InvalidIndex < l{
+		if l > err.InvalidIndex + 32{
+			l = err.InvalidIndex + 32
+		}
+		b = b[err.InvalidIndex:l]
+	}else{
+		b = nil
 	}
-	b = b[err.InvalidIndex:l]
 	return fmt.Sprintf("解析在数据%s处发生错误：%s",string(b),err.Type.String())
 }
 
-- 
2.43.0


From 6ce4fcf66d8e1741e2f2d20663e6b39a5eb3bce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:37 +0000
Subject: [PATCH 24/50] fix: any JSON word that starts with n but nan itself
 was read as NaN

---
 jsonparse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 4517c90..82cdf09 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -482,7 +482,7 @@ func parseJsonValue(b []byte,c *ValueCache,sharebinary bool)(result *DxValue,tai
 	if b[0] == 'n' {
 		blen := len(b)
 		if blen < 4 || bytes.Compare(b[:4],nullbyte) != 0 {
-			if blen >= 3 && bytes.Compare(b[:3],nanbyte) != 0 {
+			if blen >= 3 && bytes.Compare(b[:3],nanbyte) == 0 {
 				return valueNAN, b[3:], nil
 			}
 			return nil, b,errors.New("无效的Json格式")
@@ -539,7 +539,7 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 	if b[0] == 'n' {
 		blen := len(b)
 		if blen < 4 || bytes.Compare(b[:4],nullbyte) != 0 {
-			if blen >= 3 && bytes.Compare(b[:3],nanbyte) != 0 {
+			if blen >= 3 && bytes.Compare(b[:3],nanbyte) == 0 {
 				v.Reset(VT_NAN)
 				return  b[3:], nil
 			}
-- 
2.43.0


From ee1e18072721fc121ede4ad8296ea57ad556442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:41 +0000
Subject: [PATCH 25/50] fix: a JSON number at the end of the input gave neither
 a value nor an error

---
 jsonparse.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 82cdf09..55b1fdf 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -553,11 +553,13 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 
 func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
 	isfloat := false
-	for i := 0; i < len(b); i++ {
-		ch := b[i]
-		isfloat = ch == '.'
-		if (ch >= '0' && ch <= '9') || isfloat || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
-			continue
+	for i := 0; i <= len(b); i++ {
+		if i < len(b){
+			ch := b[i]
+			isfloat = ch == '.'
+			if (ch >= '0' && ch <= '9') || isfloat || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
+				continue
+			}
 		}
 		if i == 0 || i == 1 && (b[0] == '-' || b[0] == '+') {
 			if len(b[i:]) >= 3 {
@@ -584,18 +586,20 @@ func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
 		}
 		return b, nil
 	}
-	return nil, nil
+	return b, errors.New("无效的Json格式")
 }
 
 func parseJsonNum(b []byte,c *ValueCache) (num *DxValue, tail []byte,err error) {
 	isfloat := false
-	for i := 0; i < len(b); i++ {
-		ch := b[i]
-		if !isfloat{
-			isfloat = ch == '.'
-		}
-		if (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
-			continue
+	for i := 0; i <= len(b); i++ {
+		if i < len(b){
+			ch := b[i]
+			if !isfloat{
+				isfloat = ch == '.'
+			}
+			if (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
+				continue
+			}
 		}
 		if i == 0 || i == 1 && (b[0] == '-' || b[0] == '+') {
 			if len(b[i:]) >= 3 {
@@ -622,7 +626,7 @@ func parseJsonNum(b []byte,c *ValueCache) (num *DxValue, tail []byte,err error)
 		}
 		return num, b, nil
 	}
-	return nil, nil, nil
+	return nil, b, errors.New("无效的Json格式")
 }
 
 func skipWB(b []byte) (r []byte,skiplen int) {
-- 
2.43.0


From 9c47e13e1348a408fad72b6aeab0629bcb25fd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:27 +0000
Subject: [PATCH 26/50] fix: JSON numbers with an exponent or with digits after
 the point could be read as integers, and so as 0

---
 jsonparse.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 55b1fdf..0aff9e7 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -556,8 +556,10 @@ func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
 	for i := 0; i <= len(b); i++ {
 		if i < len(b){
 			ch := b[i]
-			isfloat = ch == '.'
-			if (ch >= '0' && ch <= '9') || isfloat || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
+			if !isfloat{
+				isfloat = ch == '.' || ch == 'e' || ch == 'E'
+			}
+			if (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
 				continue
 			}
 		}
@@ -595,7 +597,7 @@ func parseJsonNum(b []byte,c *ValueCache) (num *DxValue, tail []byte,err error)
 		if i < len(b){
 			ch := b[i]
 			if !isfloat{
-				isfloat = ch == '.'
+				isfloat = ch == '.' || ch == 'e' || ch == 'E'
 			}
 			if (ch >= '0' && ch <= '9') || ch == '.' || ch == '-' || ch == 'e' || ch == 'E' || ch == '+' {
 				continue
-- 
2.43.0


From 6a759218336b9a1fb5b81fe84a0da9c22c5501dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:31 +0000
Subject: [PATCH 27/50] fix: JSON numbers with a fraction lost everything
 beyond 32-bit float precision

---
 jsonparse.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 0aff9e7..7e03204 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -581,7 +581,8 @@ func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
 		b = b[i:]
 		if isfloat{
 			v := DxCommonLib.StrToFloatDef(DxCommonLib.FastByte2String(ns),0)
-			num.SetFloat(float32(v))
+			num.Reset(VT_Double)
+			num.SetDouble(v)
 		}else{
 			v := DxCommonLib.StrToIntDef(DxCommonLib.FastByte2String(ns),0)
 			num.SetInt(v)
@@ -619,8 +620,8 @@ func parseJsonNum(b []byte,c *ValueCache) (num *DxValue, tail []byte,err error)
 		b = b[i:]
 		if isfloat{
 			v := DxCommonLib.StrToFloatDef(DxCommonLib.FastByte2String(ns),0)
-			num = c.getValue(VT_Float)
-			num.SetFloat(float32(v))
+			num = c.getValue(VT_Double)
+			num.SetDouble(v)
 		}else{
 			v := DxCommonLib.StrToIntDef(DxCommonLib.FastByte2String(ns),0)
 			num = c.getValue(VT_Int)
-- 
2.43.0


From 9916a166db72b9d6547c870b2fdaef0e5b24704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:35 +0000
Subject: [PATCH 28/50] fix: JSON integers beyond 64 bits, which large floats
 are written as, were read as 0

---
 jsonparse.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 7e03204..2c58ae7 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -551,6 +551,12 @@ func parseJson2Value(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error
 	return parseJsonNum2V(b,v)
 }
 
+//超出int64范围的整数，只能用浮点数表示
+func jsonIntOverflow(ns []byte)bool  {
+	_,err := DxCommonLib.ParseInt64(DxCommonLib.FastByte2String(ns))
+	return errors.Is(err,strconv.ErrRange)
+}
+
 func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
 	isfloat := false
 	for i := 0; i <= len(b); i++ {
@@ -579,7 +585,7 @@ func parseJsonNum2V(b []byte,num *DxValue) (tail []byte,err error) {
 		}
 		ns := b[:i]
 		b = b[i:]
-		if isfloat{
+		if isfloat || jsonIntOverflow(ns){
 			v := DxCommonLib.StrToFloatDef(DxCommonLib.FastByte2String(ns),0)
 			num.Reset(VT_Double)
 			num.SetDouble(v)
@@ -618,7 +624,7 @@ func parseJsonNum(b []byte,c *ValueCache) (num *DxValue, tail []byte,err error)
 		}
 		ns := b[:i]
 		b = b[i:]
-		if isfloat{
+		if isfloat || jsonIntOverflow(ns){
 			v := DxCommonLib.StrToFloatDef(DxCommonLib.FastByte2String(ns),0)
 			num = c.getValue(VT_Double)
 			num.SetDouble(v)
-- 
2.43.0


From 7d7181361e7ea23a47dcf73e3c5d827e2e8d15f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:39 +0000
Subject: [PATCH 29/50] fix: decoding a JSON object or array into an existing
 value kept that value's old kind

---
 jsonparse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonparse.go b/jsonparse.go
index 2c58ae7..58f0e01 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -161,6 +161,7 @@ func parseJsonObj2V(b []byte,v *DxValue,sharebinary bool)(tail []byte,err error)
 			parseB:oldb,
 		}
 	}
+	v.Reset(VT_Object)
 	if b[0] == '}'{
 		tail = b[1:]
 		return
@@ -359,6 +360,7 @@ func parseJsonArray2V(b []byte,result *DxValue,sharebinary bool)(tail []byte,err
 		}
 		return oldb, err
 	}
+	result.Reset(VT_Array)
 	if b[0] == ']' {
 		return b[1:], nil
 	}
-- 
2.43.0


From 1dba282fd11ee79eaa95d57740b1633208d02d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:43 +0000
Subject: [PATCH 30/50] fix: LoadFromJson accepted data after the value that
 NewValueFromJson rejects

---
 dxvalue.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index d508233..92a0ab1 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -279,8 +279,18 @@ func (v *DxValue)LoadFromJson(b []byte,sharebinary bool)error  {
 	if len(b) == 0{
 		return nil
 	}
-	_,err := parseJson2Value(b,v,sharebinary)
-	return err
+	tail,err := parseJson2Value(b,v,sharebinary)
+	if err != nil{
+		return err
+	}
+	if b,skiplen := skipWB(tail);len(b) > 0{
+		return &ErrorParseJson{
+			Type:         JET_Invalidate,
+			InvalidIndex: skiplen,
+			parseB:       tail,
+		}
+	}
+	return nil
 }
 
 func (v *DxValue)LoadFromYaml(b []byte)error  {
-- 
2.43.0


From ce2f231b69eb10dd550d8dca7d0144d193884a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:47 +0000
Subject: [PATCH 31/50] fix: binary values, NaN, infinity and nil children made
 the JSON text malformed or the encoder panic

---
 jsonparse.go | 52 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/jsonparse.go b/jsonparse.go
index 58f0e01..ace7081 100644
--- a/jsonparse.go
+++ b/jsonparse.go
@@ -663,10 +663,32 @@ const(
 )
 
 
+//二进制没有对应的Json类型，用字符串或者扩展对象表示
+func binary2Json(v *DxValue,dst []byte)[]byte  {
+	if v.DataType == VT_Binary{
+		switch v.ExtType {
+		case uint8(BSON_ObjectID):
+			dst = append(dst,`{"$oid":"`...)
+			dst = append(dst,DxCommonLib.Bin2Hex(v.binHead(12))...)
+			return append(dst,'"','}')
+		case uint8(BSON_Decimal128):
+			dst = append(dst,`{"Decimal128":"`...)
+			dst = append(dst,DxCommonLib.Bin2Hex(v.binHead(16))...)
+			return append(dst,'"','}')
+		}
+	}
+	dst = append(dst,`"Bin(`...)
+	dst = append(dst,DxCommonLib.Bin2Hex(v.binHead(12))...)
+	return append(dst,')','"')
+}
+
 func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst []byte)[]byte  {
 	if dst == nil{
 		dst = make([]byte,0,256)
 	}
+	if v == nil{
+		return append(dst,'n','u','l','l')
+	}
 	switch v.DataType {
 	case VT_Object:
 		dst = append(dst,'{')
@@ -742,6 +764,12 @@ func Value2Json(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 			dst = append(dst,'"')
 		}
 
+	case VT_Binary,VT_ExBinary:
+		dst = binary2Json(v,dst)
+	case VT_NAN:
+		dst = append(dst,"NaN"...)
+	case VT_INF:
+		dst = append(dst,"Inf"...)
 	case VT_NULL:
 		dst = append(dst,'n','u','l','l')
 	}
@@ -756,6 +784,9 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 	if dst == nil{
 		dst = make([]byte,0,256)
 	}
+	if v == nil{
+		return append(dst,'n','u','l','l')
+	}
 
 	formatSpace := func(level int) {
 		for i := 0;i<level;i++{
@@ -789,21 +820,8 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 		dst = append(dst,'\r','\n')
 		formatSpace(level)
 		dst = append(dst,'}')
-	case VT_Binary:
-		switch v.ExtType {
-		case uint8(BSON_ObjectID):
-			dst = append(dst,`{"$oid":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
-			dst = append(dst,'"','}')
-		case uint8(BSON_Decimal128):
-			dst = append(dst,`{"Decimal128":"`...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:16])...)
-			dst = append(dst,'"','}')
-		default:
-			dst = append(dst,"Bin("...)
-			dst = append(dst,DxCommonLib.Bin2Hex(v.fbinary[:12])...)
-			dst = append(dst,')')
-		}
+	case VT_Binary,VT_ExBinary:
+		dst = binary2Json(v,dst)
 	case VT_String:
 		dst = append(dst,'"')
 		if escapeStyle == JSE_NoEscape {
@@ -852,6 +870,10 @@ func formatValue(v *DxValue,escapeStyle JsonEscapeStyle,escapeDatetime bool, dst
 			dst = append(dst,'"')
 		}
 
+	case VT_NAN:
+		dst = append(dst,"NaN"...)
+	case VT_INF:
+		dst = append(dst,"Inf"...)
 	case VT_NULL:
 		dst = append(dst,'n','u','l','l')
 	}
-- 
2.43.0


From 331a563f75402a4512504ffd766b688b23f8d679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:44 +0000
Subject: [PATCH 32/50] fix: BSON documents and arrays were read past their
 length, and empty ones were rejected

---
 bson_parse.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index ad1e012..25b09a5 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -27,15 +27,16 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 	}
 	//文档长度
 	docLen = int(binary.LittleEndian.Uint32(b[:4]))
-	if docLen > len(b){
+	if docLen < 5 || docLen > len(b) || b[docLen-1] != 0{
 		return docLen,0,ErrBadBSONDocLen
 	}
+	b = b[:docLen-1] //元素都在结束符之前
 	parseIndex = 4
 	var element *DxValue
 	var keyName string
 	//读取文档体，由一个个的元素组成
 	//每个元素为一个类型+字段名+值组成
-	for parseIndex < docLen{
+	for parseIndex < len(b){
 		//读取类型
 		btype := BsonType(b[parseIndex])
 		parseIndex++
@@ -79,27 +80,27 @@ func parseBsonDocument(b []byte,c *ValueCache,sharebinary bool,documentValue *Dx
 				return docLen,parseIndex + parseidx,err
 			}
 		}
-
-		if parseIndex == docLen - 1 && b[parseIndex] == 0{
-			break
-		}
 	}
 	return docLen,parseIndex,nil
 }
 
 //数组结构解析和文档结构解析差不多，将数组的索引号设定为docment的key
 func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docLen,parseIndex int,err error)  {
+	if len(b) <= 4{
+		return 0,0,ErrBadBSONDocLen
+	}
 	//文档长度
 	docLen = int(binary.LittleEndian.Uint32(b[:4]))
-	if docLen > len(b){
+	if docLen < 5 || docLen > len(b) || b[docLen-1] != 0{
 		return docLen,0,ErrBadBSONDocLen
 	}
+	b = b[:docLen-1] //元素都在结束符之前
 	parseIndex = 4
 	keyName := ""
 	//读取元素
 	//每个元素为一个类型+字段名+值组成,字段名为数组的索引序号
 	var element *DxValue
-	for parseIndex < docLen{
+	for parseIndex < len(b){
 		btype := BsonType(b[parseIndex])
 		parseIndex++
 		//读取字段,cstring,ansic
@@ -148,9 +149,6 @@ func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docL
 				return docLen,parseIndex + parseidx,err
 			}
 		}
-		if parseIndex == docLen - 1 && b[parseIndex] == 0{
-			break
-		}
 	}
 	return docLen,parseIndex,nil
 }
-- 
2.43.0


From 2a31a38932ec6515000a7a86a5a611cab0384cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:40 +0000
Subject: [PATCH 33/50] fix: truncated BSON values were read past the end of
 the data

---
 bson_parse.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/bson_parse.go b/bson_parse.go
index 25b09a5..03e53fd 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -153,7 +153,29 @@ func parseBsonArray(b []byte,c *ValueCache,value *DxValue,shareBinary bool)(docL
 	return docLen,parseIndex,nil
 }
 
+//数据至少需要的长度
+func bsonMinLen(btype BsonType)int  {
+	switch btype {
+	case BSON_Boolean:
+		return 1
+	case BSON_String,BSON_Int32:
+		return 4
+	case BSON_Binary:
+		return 5
+	case BSON_Double,BSON_DateTime,BSON_Timestamp,BSON_Int64:
+		return 8
+	case BSON_ObjectID:
+		return 12
+	case BSON_Decimal128:
+		return 16
+	}
+	return 0
+}
+
 func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueLen,parseIndex int,err error)  {
+	if len(b) < bsonMinLen(btype){
+		return 0,0,ErrInvalidBSON
+	}
 	switch btype {
 	case BSON_Double:
 		u64 := binary.LittleEndian.Uint64(b[:8])
@@ -163,6 +185,9 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		//UTF8
 		valueLen = int(binary.LittleEndian.Uint32(b[:4]))
 		parseIndex += 4
+		if valueLen < 1 || valueLen > len(b) - 4 || b[3+valueLen] != 0{
+			return valueLen,parseIndex,ErrInvalidBSON
+		}
 		start := parseIndex
 		parseIndex += valueLen
 		//由于会多写一个字符串结束符0，所以，实际长度应该减去1
@@ -177,6 +202,9 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		//先读取长度
 		valueLen = int(binary.LittleEndian.Uint32(b[:4]))
 		parseIndex = 4
+		if valueLen > len(b) - 5{
+			return valueLen,parseIndex,ErrInvalidBSON
+		}
 		//子类型
 		b = b[parseIndex:]
 		subType := b[0]
-- 
2.43.0


From 09bcd776c8af0ba1bcf349b4249b90f3f11cedc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:44 +0000
Subject: [PATCH 34/50] fix: BSON binary came back with its subtype byte in
 front, and the old binary subtype at the wrong offset

---
 bson_parse.go | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index 03e53fd..c8e1e94 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -197,8 +197,6 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 			value.SetString(string(b[start:parseIndex - 1]))
 		}
 	case BSON_Binary:
-		value.DataType = VT_ExBinary
-		value.ExtType = uint8(btype)
 		//先读取长度
 		valueLen = int(binary.LittleEndian.Uint32(b[:4]))
 		parseIndex = 4
@@ -206,29 +204,28 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 			return valueLen,parseIndex,ErrInvalidBSON
 		}
 		//子类型
-		b = b[parseIndex:]
-		subType := b[0]
-		if subType == 2{
-			parseIndex ++
-			b = b[parseIndex:]
-			//再重新处理一遍
-			valueLen = int(binary.LittleEndian.Uint32(b[:4]))
-			parseIndex += 4
-			b = b[parseIndex:]
-			if valueLen > len(b){
+		subType := b[parseIndex]
+		start := parseIndex
+		parseIndex += 1 + valueLen
+		if subType == uint8(BinaryGeneric){
+			start++
+			value.Reset(VT_Binary)
+		}else if subType == 2{
+			//旧的二进制格式，数据前面还有一个长度
+			if valueLen < 4 || int(binary.LittleEndian.Uint32(b[5:9])) != valueLen - 4{
 				return valueLen,parseIndex,ErrInvalidBSON
 			}
-			value.DataType = VT_Binary
-			value.ExtType = 0
+			start += 5
+			value.Reset(VT_Binary)
 		}else{
 			//VT_ExBinary要将subType带上
-			valueLen ++
+			value.Reset(VT_ExBinary)
+			value.ExtType = uint8(btype)
 		}
-		parseIndex += valueLen
 		if shareBinary{
-			value.SetBinary(b[:valueLen],false)
+			value.fbinary = b[start:parseIndex]
 		}else {
-			value.SetBinary(b[:valueLen],true)
+			value.fbinary = append(value.fbinary,b[start:parseIndex]...)
 		}
 	case BSON_Undefined:
 	case BSON_ObjectID:
-- 
2.43.0


From 474e3cbed2c1c1f3772534b40bff2feca75af78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:47 +0000
Subject: [PATCH 35/50] fix: negative BSON 32-bit integers were read as
 unsigned

---
 bson_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bson_parse.go b/bson_parse.go
index c8e1e94..f3e6287 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -255,7 +255,7 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 	case BSON_Symbol:
 	case BSON_CodeWithScope:
 	case BSON_Int32:
-		value.SetInt(int64(binary.LittleEndian.Uint32(b[:4])))
+		value.SetInt(int64(int32(binary.LittleEndian.Uint32(b[:4]))))
 		return 4,4,nil
 	case BSON_Timestamp:
 		//64 位值 前4个字节是一个增量，后4个字节是一个时间戳。
-- 
2.43.0


From 989a0641fbfa4ff564482bbf8ad522c89c363e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:51 +0000
Subject: [PATCH 36/50] fix: the data of BSON types without support was read as
 the next elements

---
 bson_parse.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index f3e6287..e2a0764 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -249,11 +249,6 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		return 8,8,nil
 	case BSON_Null:
 		//啥都不干
-	case BSON_Regex:
-	case BSON_DBPointer:
-	case BSON_JavaScript:
-	case BSON_Symbol:
-	case BSON_CodeWithScope:
 	case BSON_Int32:
 		value.SetInt(int64(int32(binary.LittleEndian.Uint32(b[:4]))))
 		return 4,4,nil
@@ -273,6 +268,9 @@ func parseValue(btype BsonType, b []byte,value *DxValue,shareBinary bool)(valueL
 		return 16,16,nil
 	case BSON_MinKey:
 	case BSON_MaxKey:
+	default:
+		//不支持的类型，数据长度未知，无法继续
+		return 0,0,ErrInvalidBSON
 	}
 	return
 }
-- 
2.43.0


From e834feda4aaa5fbc31647de9d2abc67b30584865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:55 +0000
Subject: [PATCH 37/50] fix: 32-bit floats were written to BSON as the bits of
 another double

---
 bson_parse.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index e2a0764..2de6e02 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -410,8 +410,7 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 			}
 		}
 	case VT_Float,VT_Double:
-		u64 := *(*int64)(unsafe.Pointer(&v.simpleV[0]))
-		dst = putLittI64(u64,dst)
+		dst = putLittI64(int64(math.Float64bits(v.Double())),dst)
 	case VT_DateTime:
 		unixMillisecond := int64(v.GoTime().Sub(time.Date(1970,1,1,0,0,0,0,time.UTC))/time.Millisecond)
 		dst = putLittI64(unixMillisecond,dst)
-- 
2.43.0


From c0a517a121f18d2ed179326dc9b9e83f5368c216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:00 +0000
Subject: [PATCH 38/50] fix: NaN and infinity constants were written to BSON
 without type and data

---
 bson_parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bson_parse.go b/bson_parse.go
index 2de6e02..1d33bb7 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -411,6 +411,10 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 		}
 	case VT_Float,VT_Double:
 		dst = putLittI64(int64(math.Float64bits(v.Double())),dst)
+	case VT_NAN:
+		dst = putLittI64(int64(math.Float64bits(math.NaN())),dst)
+	case VT_INF:
+		dst = putLittI64(int64(math.Float64bits(math.Inf(1))),dst)
 	case VT_DateTime:
 		unixMillisecond := int64(v.GoTime().Sub(time.Date(1970,1,1,0,0,0,0,time.UTC))/time.Millisecond)
 		dst = putLittI64(unixMillisecond,dst)
@@ -472,7 +476,7 @@ func writeBsonElementType(element *DxValue,dst []byte)[]byte  {
 				dst = append(dst,byte(BSON_Int32))
 			}
 		}
-	case VT_Float,VT_Double:
+	case VT_Float,VT_Double,VT_NAN,VT_INF:
 		dst = append(dst,byte(BSON_Double))
 	case VT_DateTime:
 		dst = append(dst,byte(BSON_DateTime))
-- 
2.43.0


From 46ec7bf7aac5417fcdb6148685cc552daa9f8d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:04 +0000
Subject: [PATCH 39/50] fix: writing a value to BSON changed the kind of its
 raw strings

---
 bson_parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bson_parse.go b/bson_parse.go
index 1d33bb7..7f15d16 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -391,7 +391,11 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 	switch v.DataType {
 	case VT_String,VT_RawString:
 		//写入长度
-		vstr := DxCommonLib.FastString2Byte(v.String())
+		str := v.fstrvalue
+		if v.DataType == VT_RawString{
+			str = DxCommonLib.ParserEscapeStr(DxCommonLib.FastString2Byte(str))
+		}
+		vstr := DxCommonLib.FastString2Byte(str)
 		//加上一个字符结束空白
 		dst = putLittI32(int32(len(vstr)+1),dst)
 		//写入内容
-- 
2.43.0


From c3824db0fa3ee29a0bd6041cb909837cdcea0d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:09 +0000
Subject: [PATCH 40/50] fix: binary values whose length does not fit their BSON
 type were written malformed or panicked

---
 bson_parse.go | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/bson_parse.go b/bson_parse.go
index 7f15d16..902a9eb 100644
--- a/bson_parse.go
+++ b/bson_parse.go
@@ -387,6 +387,19 @@ func putLittI64(i int64,dst []byte)[]byte  {
 	return dst
 }
 
+//定长的二进制类型，只有长度符合才能按该类型写入
+func bsonBinaryType(v *DxValue)BsonType  {
+	if v.DataType == VT_Binary{
+		if v.ExtType == uint8(BSON_ObjectID) && len(v.fbinary) == 12{
+			return BSON_ObjectID
+		}
+		if v.ExtType == uint8(BSON_Decimal128) && len(v.fbinary) == 16{
+			return BSON_Decimal128
+		}
+	}
+	return BSON_Binary
+}
+
 func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 	switch v.DataType {
 	case VT_String,VT_RawString:
@@ -423,11 +436,9 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 		unixMillisecond := int64(v.GoTime().Sub(time.Date(1970,1,1,0,0,0,0,time.UTC))/time.Millisecond)
 		dst = putLittI64(unixMillisecond,dst)
 	case VT_Binary:
-		switch v.ExtType {
-		case uint8(BSON_ObjectID):
-			dst = append(dst,v.fbinary[:12]...)
-		case uint8(BSON_Decimal128):
-			dst = append(dst,v.fbinary[:16]...)
+		switch bsonBinaryType(v) {
+		case BSON_ObjectID,BSON_Decimal128:
+			dst = append(dst,v.fbinary...)
 		default:
 			//先写入长度
 			dst = putLittI32(int32(len(v.fbinary)),dst)
@@ -437,7 +448,7 @@ func writeSimpleBsonValue(v *DxValue,dst []byte)[]byte  {
 			dst = append(dst,v.fbinary...)
 		}
 	case VT_ExBinary:
-		if v.ExtType == byte(BSON_Binary){
+		if v.ExtType == byte(BSON_Binary) && len(v.fbinary) > 0{
 			//实际长度需要减去一个子类型占据的位
 			dst = putLittI32(int32(len(v.fbinary)-1),dst)
 		}else{
@@ -485,19 +496,7 @@ func writeBsonElementType(element *DxValue,dst []byte)[]byte  {
 	case VT_DateTime:
 		dst = append(dst,byte(BSON_DateTime))
 	case VT_Binary,VT_ExBinary:
-		if element.ExtType != 0{
-			dst = append(dst,element.ExtType)
-		}else{
-			dst = append(dst,byte(BSON_Binary))
-		}
-		/*switch element.ExtType {
-		case uint8(BSON_ObjectID):
-			dst = append(dst,byte(BSON_ObjectID))
-		case uint8(BSON_Decimal128):
-			dst = append(dst,byte(BSON_Decimal128))
-		default:
-			dst = append(dst,byte(BSON_Binary))
-		}*/
+		dst = append(dst,byte(bsonBinaryType(element)))
 	case VT_NULL:
 		dst = append(dst,byte(BSON_Null))
 	case VT_True,VT_False:
-- 
2.43.0


From c12e3dbf7fe9ed531fae4c8cc56e486c96831faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:14 +0000
Subject: [PATCH 41/50] fix: LoadFromBson kept the old kind of the value it
 loads into

---
 dxvalue.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dxvalue.go b/dxvalue.go
index 92a0ab1..c18b431 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -335,6 +335,7 @@ func (v *DxValue)LoadFromBson(b []byte,sharebinary bool)error  {
 	if len(b) == 0{
 		return nil
 	}
+	v.Reset(VT_Object)
 	_,_,err := parseBsonDocument(b,v.ownercache,sharebinary,v)
 	return  err
 }
-- 
2.43.0


From 4a5847738c9d53a55ce5b30ae775096cbc31fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:13 +0000
Subject: [PATCH 42/50] fix: YAML parsing never ended when the last line is
 short and has no newline

---
 yamlparse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamlparse.go b/yamlparse.go
index d909717..6e7e9c5 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -498,7 +498,7 @@ func (parser *yamlParser)parse()error  {
 		}
 		if curLineEnd - istart < 2{
 			istart = curLineEnd + 1
-			if istart == datalen{
+			if istart >= datalen{
 				break
 			}
 			continue
-- 
2.43.0


From 33c781c43841facab0faf57616c7ba95c4993115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:18 +0000
Subject: [PATCH 43/50] fix: a blank YAML line of spaces panicked

---
 yamlparse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yamlparse.go b/yamlparse.go
index 6e7e9c5..c1894bb 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -175,6 +175,10 @@ var(
 )
 func (parser *yamlParser)parseLine(lineData []byte,spaceCount int)error  {
 	dataLine := lineData[spaceCount:]
+	if len(bytes.TrimFunc(dataLine,spaceTrim)) == 0{
+		//空行，不做处理
+		return nil
+	}
 	if dataLine[0] == '#'{
 		//注释，不做处理
 		return nil
-- 
2.43.0


From 1df935bfd1990d6fba8721d59cd21281b5faaf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:22 +0000
Subject: [PATCH 44/50] fix: an empty YAML scalar panicked

---
 yamlparse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yamlparse.go b/yamlparse.go
index c1894bb..f9a5eeb 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -420,6 +420,10 @@ func (parser *yamlParser)splitKv(dataline []byte)(k,v []byte,bool2 bool)  {
 
 func (parser *yamlParser)parseStringValue(target *DxValue,vstr []byte,isfirst bool)  {
 	vlen := len(vstr)
+	if vlen == 0{
+		target.SetString("")
+		return
+	}
 	if vlen == 4 && bytes.Compare(vstr,truebyte) == 0{
 		target.SetBool(true)
 		return
-- 
2.43.0


From da8c5aa573cf10a171b1195da694f822c3768d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:27 +0000
Subject: [PATCH 45/50] fix: a pooled YAML parser kept its state from a failed
 document

---
 yamlparse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yamlparse.go b/yamlparse.go
index f9a5eeb..e256ee1 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -52,6 +52,7 @@ func freeyamlParser(parser *yamlParser)  {
 
 func (parser *yamlParser)reset(data []byte)  {
 	parser.parseData = data
+	parser.ifFirstObjEle = false
 	parser.root = nil
 	parser.fparentCache = nil
 	for i := 0;i<len(parser.fParsingValues);i++{
-- 
2.43.0


From 206cc39bad00d89bcc0516e04ab93b5cfde2639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:32 +0000
Subject: [PATCH 46/50] fix: YAML lines indented less than the first one
 replaced the root value

---
 yamlparse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yamlparse.go b/yamlparse.go
index e256ee1..4e589f2 100644
--- a/yamlparse.go
+++ b/yamlparse.go
@@ -88,8 +88,8 @@ func (parser *yamlParser)getUseage(cacheName string)*DxValue  {
 func (parser *yamlParser)popLast(popCount int)  {
 	l := len(parser.fParsingValues)
 	if l > 0{
-		if popCount > l{
-			popCount = l
+		if popCount > l - 1{ //根节点始终保留
+			popCount = l - 1
 		}
 		for i,j := l - 1,popCount;i>=0 && j > 0;i,j = i-1,j-1{
 			parser.fParsingValues[i].v = nil
-- 
2.43.0


From 32c34d6814026bed29fb45d2e9798a1e87d5f0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:37 +0000
Subject: [PATCH 47/50] fix: SetValue ignored a byte slice unless the value
 already was binary

---
 reflect_parse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index ec0bfd0..a2eebae 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -254,8 +254,10 @@ func (v *DxValue)SetValue(value interface{})  {
 	case *float64:
 		v.SetDouble(*realv)
 	case []byte:
+		v.Reset(VT_Binary)
 		v.SetBinary(realv,true)
 	case *[]byte:
+		v.Reset(VT_Binary)
 		v.SetBinary(*realv,true)
 	case map[string]interface{}:
 		v.Reset(VT_Object)
-- 
2.43.0


From f65b83c557ddd88b9bc101da0f26810dc16b500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:42 +0000
Subject: [PATCH 48/50] fix: a pointer to a string was not stored by SetValue,
 SetKeyvalue and SetIndexvalue

---
 reflect_parse.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reflect_parse.go b/reflect_parse.go
index a2eebae..b9ca349 100644
--- a/reflect_parse.go
+++ b/reflect_parse.go
@@ -233,6 +233,8 @@ func (v *DxValue)SetValue(value interface{})  {
 		v.SetInt(int64(*realv))
 	case string:
 		v.SetString(realv)
+	case *string:
+		v.SetString(*realv)
 	case *DxValue:
 		v.CopyFrom(realv,nil)
 	case DxValue:
@@ -500,6 +502,8 @@ func (v *DxValue)SetKeyvalue(Name string,value interface{},cache *ValueCache)  {
 		v.SetKeyCached(Name,VT_Int,cache).SetInt(int64(*realv))
 	case string:
 		v.SetKeyCached(Name,VT_String,cache).SetString(realv)
+	case *string:
+		v.SetKeyCached(Name,VT_String,cache).SetString(*realv)
 	case *DxValue:
 		v.SetKeyValue(Name,realv)
 	case DxValue:
@@ -736,6 +740,8 @@ func (v *DxValue)SetIndexvalue(idx int,value interface{},cache *ValueCache)  {
 		v.SetIndexCached(idx,VT_Int,cache).SetInt(int64(*realv))
 	case string:
 		v.SetIndexCached(idx,VT_String,cache).SetString(realv)
+	case *string:
+		v.SetIndexCached(idx,VT_String,cache).SetString(*realv)
 	case *DxValue:
 		v.SetIndexValue(idx,realv)
 	case DxValue:
-- 
2.43.0


From afe114578fb5a72f1048d9e853196f62da6654e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:01 +0000
Subject: [PATCH 49/50] fix: SetBinary with copying wrote into the slice shared
 before

---
 bin_value.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bin_value.go b/bin_value.go
index e5116c8..d61c6d3 100644
--- a/bin_value.go
+++ b/bin_value.go
@@ -63,18 +63,18 @@ func (v *DxValue)SetBinary(b []byte,valueClone bool)  {
 	switch v.DataType {
 	case VT_Binary:
 		if valueClone{
-			v.fbinary = append(v.fbinary[:0],b...)
+			//原来的fbinary可能是共享的,不能直接写入
+			v.fbinary = append([]byte{},b...)
 		}else{
 			v.fbinary = b
 		}
 	case VT_ExBinary:
 		if len(v.fbinary) > 0{
-			v.fbinary = append(v.fbinary[:0],v.fbinary[0])
-			v.fbinary = append(v.fbinary,b...)
+			v.fbinary = append([]byte{v.fbinary[0]},b...)
 		}else{
 			v.Reset(VT_Binary)
 			if valueClone{
-				v.fbinary = append(v.fbinary[:0],b...)
+				v.fbinary = append([]byte{},b...)
 			}else{
 				v.fbinary = b
 			}
-- 
2.43.0


From 2f0360bda0323bc4283e4031767fa041ca5de399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:13 +0000
Subject: [PATCH 50/50] fix: SetIndex handed out the shared constant stored at
 the index, so what was set on it was lost

---
 dxvalue.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/dxvalue.go b/dxvalue.go
index c18b431..f789282 100644
--- a/dxvalue.go
+++ b/dxvalue.go
@@ -1301,16 +1301,11 @@ func (v *DxValue)SetIndexCached(idx int,tp ValueType,c *ValueCache)*DxValue  {
 	l := len(v.farr)
 	if idx >= 0 && idx < l{
 		result := v.farr[idx]
-		if result != nil && result.DataType != tp{
-			if result == valueTrue || result == valueNull || result == valueFalse || result == valueINF || result == valueNAN{
-				result = c.getValue(tp)
-				v.farr[idx] = result
-			}else if result.DataType != tp {
-				result.Reset(tp)
-			}
-		}else if result == nil{
+		if result == nil || result == valueTrue || result == valueNull || result == valueFalse || result == valueINF || result == valueNAN{
 			result = c.getValue(tp)
 			v.farr[idx] = result
+		}else if result.DataType != tp {
+			result.Reset(tp)
 		}
 		return result
 	}else{
-- 
2.43.0

