#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run by hand after editing).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=state or [],observe_at=obs or [],hook_needed=None)))
W="The repository's tests print values and contain no assertion at all; they run a handful of fixed documents. "
p("C01","MessagePack encode then decode restores the value",
 "For every value built from objects with distinct keys, arrays, strings, 64-bit integers, 32- and 64-bit floats, booleans, null, binary and extension binary (of a type other than the timestamp's), decoding its MessagePack encoding succeeds and gives back the same kinds, contents, key names and order, and consumes exactly the bytes written. The bytes are those the MessagePack specification prescribes (shortest header for the length or integer). A date-time is written as the MessagePack timestamp of its instant.",
 ["inputs"],"every value tree of the named kinds, every integer, every float bit pattern, every string/binary/collection length, cached and uncached, shared and copied",
 W+"The width classes (31/32, 255/256, 65535/65536, int8..int64 limits) are boundaries a sample does not reach, and nothing compares the decoded value.",
 ["msgpackparse.go","msgpack_value.go","msgpack_codes.go"],
 [("Value2MsgPack","msgpackparse.go"),("parseMsgPackValue / parseMsgPackObject / parseMsgPackArray","msgpackparse.go"),("writeInt, write*Code","msgpack_value.go"),("parseUint*, parse*Len","msgpack_value.go")],
 obs=["Value2MsgPack","DxValue.ToMsgPack","NewValueFromMsgPack"])
p("C02","BSON encode then decode restores the document",
 "For every document whose keys are distinct and contain no NUL byte and whose values are objects, arrays, strings, 64-bit integers, 32- and 64-bit floats, booleans, null and binary, decoding its BSON encoding succeeds and gives back the same keys, order and contents (a 32-bit float comes back as the same number in 64 bits, and array elements keep their positions). The bytes are those the BSON specification prescribes, every embedded length included.",
 ["inputs"],"every such document, empty and nested ones included, every integer, every float",
 W+"One fixed document is encoded; negative integers, empty documents, 32-bit floats and binary contents never occur.",
 ["bson_parse.go","bson_code.go"],
 [("writeObjBsonValue / writeArrayBsonValue / writeSimpleBsonValue / writeBsonElementType","bson_parse.go"),("parseBsonDocument / parseBsonArray / parseValue","bson_parse.go")],
 obs=["Value2Bson","DxValue.ToBson","NewValueFromBson"])
p("C03","MessagePack decoding is total",
 "Decoding any byte string as MessagePack, into a new or an existing value, returns: it never panics or loops forever (stack and memory permitting). It yields either an error or a value, never neither, and a header that promises more data than is present is an error.",
 ["inputs"],"every byte string, truncated, corrupt or hostile, and both sharing modes",
 W+"The only MessagePack input file in the tests is empty.",
 ["msgpackparse.go","msgpack_value.go"],[("bounds checks before every read","msgpackparse.go, msgpack_value.go")],obs=["NewValueFromMsgPack","DxValue.LoadFromMsgPack"])
p("C04","BSON decoding is total",
 "Decoding any byte string as BSON, into a new or an existing value, returns: it never panics or loops forever (stack and memory permitting), and yields an error or a value. Nothing is read outside the document's own declared length, and a length that exceeds the data is an error.",
 ["inputs"],"every byte string, with every combination of embedded lengths and type codes",
 W+"The BSON input file of the test does not exist; only a document the library itself produced is decoded.",
 ["bson_parse.go"],[("length checks","bson_parse.go:parseBsonDocument, parseBsonArray, parseValue")],obs=["NewValueFromBson","DxValue.LoadFromBson"])
p("C05","JSON decoding is total",
 "Decoding any byte string as JSON, into a new or an existing value, returns: it never panics or loops forever (stack and memory permitting). A new value is either an error or a value, never neither, and every error it returns can be printed.",
 ["inputs"],"every byte string and both sharing modes",
 W+"Two well-formed documents are parsed; no malformed text is.",
 ["jsonparse.go"],[("index checks in the parse functions","jsonparse.go"),("ErrorParseJson.Error","jsonparse.go")],obs=["NewValueFromJson","DxValue.LoadFromJson"])
p("C06","YAML decoding is total",
 "Decoding any byte string as YAML, into a new or an existing value, returns an error or a result: it never panics and never loops forever, whatever the indentation, anchors, aliases, merges, comments or line endings. (An input without content may give no value.)",
 ["inputs"],"every byte string, with or without a trailing newline, with arbitrary indentation and self-referring anchors",
 W+"One well-formed block document is parsed.",
 ["yamlparse.go","dxvalue.go"],[("yamlParser.parse / parseLine / parseArray / parseObject","yamlparse.go"),("AddFrom, CopyFrom, clone","dxvalue.go")],obs=["NewValueFromYaml","DxValue.LoadFromYaml"])
p("C07","JSON encode then decode restores the value",
 "For every value built from objects with distinct keys, arrays, strings, 64-bit integers, floats, booleans and null, the compact and the indented JSON text produced with escaping on is accepted by the decoder and decodes to the same structure with the same keys, order, strings, integers, booleans and nulls; a finite float comes back as the same number to within double rounding. (Strings that are not valid UTF-8, or contain '%', characters outside the Basic Multilingual Plane, or text that is itself a JSON date literal are excepted: the escape library treats them specially.)",
 ["inputs"],"every such value, every nesting, every escape position, both layouts and both escaping styles",
 W+"The output is printed and never parsed back; quotes, backslashes and control characters in keys never occur.",
 ["jsonparse.go"],[("Value2Json / formatValue","jsonparse.go"),("parseJsonValue / parseJsonObj / parseJsonArray / parseJsonString / parseJsonKey / parseJsonNum","jsonparse.go")],obs=["Value2Json","Value2FormatJson","DxValue.ToJson","NewValueFromJson"])
p("C08","An object is an ordered map from names to values",
 "After setting a key, looking that key up gives the value that was set and every other key keeps its value and its position; a new key is added at the end, and setting an existing one adds nothing. Removing or extracting a key removes that entry alone and keeps the order of the rest, and an absent key changes nothing. Names match exactly, or ignoring case when case-insensitivity is switched on, and this holds also for objects decoded from JSON whose key names contain escapes (names with '%' apart, which the escape library treats specially).",
 ["inputs","histories"],"every object reachable by API calls, every name (backslashes, quotes, empty), both case modes, every operation",
 W+"A few distinct ASCII keys are set; nothing checks the other keys, removal is never called.",
 ["dxvalue.go"],[("VObject.indexByName / ValueByName / Remove / ExtractValue / getKv / UnEscapestrs","dxvalue.go"),("SetKeyCached / SetKeyValue","dxvalue.go")],
 state=[dict(name="fobject.strkvs",meaning="ordered entries",where="dxvalue.go"),dict(name="fobject.keysUnescaped",meaning="whether entry names are still in escaped form",where="dxvalue.go")],
 obs=["ValueByName","SetKey*","RemoveKey","ExtractValue","Count","Items"])
p("C09","An array is a sequence",
 "Setting an index inside the array replaces that element alone; any other index appends one element at the end. Inserting puts the new element at the given position (clamped to the ends) and shifts the rest without losing or reordering any, removing an index removes that element alone, and an index outside the array changes nothing. Reading by index gives the element or nothing.",
 ["inputs","histories"],"every array length, every index including negative and huge ones, every operation",
 W+"Insert, append and remove are never called by a test.",
 ["dxvalue.go"],[("SetIndexCached / SetIndexValue / InsertValue / RemoveIndex / ValueByIndex / Append","dxvalue.go")],
 state=[dict(name="farr",meaning="elements",where="dxvalue.go")],obs=["SetIndex*","InsertValue","Append","RemoveIndex","ValueByIndex","Items"])
p("C10","The shared constants never change",
 "The values that stand for true, false, null, NaN and infinity are shared by all documents and stay what they are: no operation on a value or a document, and no decoding into one, changes their kind or puts content into them. Replacing such a value inside a document changes that document only.",
 ["inputs","histories"],"every public operation applied to a shared constant or to a document that contains one",
 W+"Tests never look at the shared constants after using them.",
 ["dxvalue.go","jsonparse.go","reflect_parse.go","bson_parse.go","msgpackparse.go"],
 [("ReadOnly guard in Reset/Set*","dxvalue.go"),("replacement instead of mutation in SetKeyCached/SetIndexCached","dxvalue.go"),("valueTrue, valueFalse, valueNull, valueNAN, valueINF","jsonparse.go")],obs=["every Set*, Reset, Clear, LoadFrom*, MergeWith"])
p("C11","A clone is a deep, equal and independent copy",
 "Cloning a value, or copying one value into another, gives a value with the same kind and content at every level, binary contents and extension type included. No container or node is shared between the two, except the immutable shared constants, so a later change to one is never visible in the other.",
 ["inputs","histories"],"every value tree, cached and uncached copies, every later mutation",
 W+"One array of strings is cloned and printed.",
 ["dxvalue.go"],[("clone / Clone / CopyFrom / AddFrom","dxvalue.go")],obs=["Clone","CopyFrom"])
p("C12","Equality compares content",
 "Comparing two values never panics and is symmetric. Values of the same kind are equal exactly when their content is: the same bytes or text, the same number bit for bit, the same constant, arrays of the same length with equal elements in order, objects with the same entries in order. Numbers of different numeric kinds are equal exactly when they are the same number as 64-bit floats, and other values of different kinds, text in its escaped and unescaped form apart, are unequal.",
 ["inputs"],"every pair of values, whatever they were used for before",
 W+"Equality is only reached through one array merge of three scalars.",
 ["dxvalue.go"],[("Equal","dxvalue.go"),("Reset clears the scalar payload","dxvalue.go")],obs=["Equal","MergeWith"])
p("C13","Merging keeps everything that is not in conflict",
 "Merging one object into another adds a copy of every key the target lacks, merges sub-objects key by key, and resolves each remaining conflict the way the caller's function says (by default both values end up in an array); no key of either side is lost and the source is not changed. The function is asked with the key path of the conflict. Merging arrays appends a copy of exactly those elements that equal none of the target's.",
 ["inputs"],"every pair of objects or arrays, every number and order of conflicting keys, every decision function",
 W+"One merge with conflicts under a single key is run and printed.",
 ["dxvalue.go"],[("MergeWith / mergeObject","dxvalue.go")],obs=["MergeWith"])
p("C14","Pooled nodes are handed out clean and to one owner",
 "A node obtained from a cache carries nothing of what it was used for before: it has the requested kind, no content, a zero number and no extension type. It is not any node that is still part of a live value: two values built at the same time from caches never share a node, and freeing one value leaves all others as they were.",
 ["inputs","histories"],"every sequence of allocations, clears, frees and reuses, any cache growth",
 W+"Values are freed at the end of a test and never reused.",
 ["cache.go","dxvalue.go"],[("ValueCache.getValue / getCache / Reset, FreeValue","cache.go"),("DxValue.Reset / Clear","dxvalue.go")],
 state=[dict(name="ValueCache.Value",meaning="slots; the first len are in use",where="cache.go")],obs=["NewCacheValue","NewObject","NewArray","FreeValue","SetKey*","NewValueFrom*"])
p("C15","Without sharing, a decoded value owns its bytes",
 "A value decoded from MessagePack, JSON or BSON with sharing off, or from YAML, keeps its keys, strings and binary contents whatever the caller later writes into the input buffer. Binary set with copying on is likewise independent of the caller's slice, and does not write into a slice shared earlier. Decoding never writes into the input buffer in either mode.",
 ["inputs","histories"],"every input, every later write to any byte of the buffer",
 W+"No test touches the buffer after decoding.",
 ["msgpackparse.go","jsonparse.go","bson_parse.go","yamlparse.go","bin_value.go"],[("string(...)/append(...) instead of FastByte2String when sharebinary is false","all parsers"),("SetBinary","bin_value.go")],obs=["NewValueFrom*","LoadFrom*","SetBinary"])
p("C16","Encoders only append, and only read",
 "Encoding a value to JSON, MessagePack or BSON into a caller's buffer returns that buffer's bytes unchanged followed by exactly the encoding the value has on its own. Encoding does not change the value: kinds, keys as seen by the caller, contents and order stay the same, and encoding twice gives the same bytes.",
 ["inputs"],"every value, every buffer length and spare capacity",
 W+"Buffers are nil or empty in all tests.",
 ["jsonparse.go","msgpackparse.go","msgpack_value.go","bson_parse.go"],[("append-only writers","all encoders")],obs=["Value2Json","Value2FormatJson","Value2MsgPack","Value2Bson","ToJson/ToMsgPack/ToBson"])
p("C17","Typed setters and getters agree, and getters are total",
 "What a typed setter stores, the getter of that type returns unchanged: integers, both float widths, strings, booleans, binary with its extension type. Every getter returns normally on a value of any kind, with the documented conversion (true is 1, an integer converts to a float, text is parsed, anything else is zero, false or empty), and a lookup by name, path or index of something that is not there returns exactly the caller's default.",
 ["inputs"],"every value of every kind, every number, every stored text and binary length, every path",
 W+"Getters are used on matching kinds only; short binaries and missing paths are not tried.",
 ["dxvalue.go","bin_value.go"],[("Int/Double/Float/Bool/String/..., SetX","dxvalue.go"),("XByPath/XByName/XByIndex/AsX","dxvalue.go"),("Binary/SetBinary/BinLen/BinExtType/SetExtType","bin_value.go")],obs=["all getters and setters"])
p("C18","Loading into a value replaces what was there",
 "Decoding a MessagePack, JSON or BSON document, blank input apart, into an existing value, of whatever kind and content but not one of the shared constants, gives the same value as decoding the same bytes into a new one: the kind is that of the document and nothing of the earlier content remains visible. A decoding error is reported in both cases or in neither.",
 ["inputs","histories"],"every earlier kind and content of the target, every document",
 W+"Loading is only done into an object from an object document.",
 ["dxvalue.go","jsonparse.go","msgpackparse.go","bson_parse.go"],[("LoadFrom*, Clear","dxvalue.go"),("parseJson2Value / parseMsgPack2Value","jsonparse.go, msgpackparse.go")],obs=["LoadFromJson","LoadFromMsgPack","LoadFromBson"])
p("C19","Path lookup follows the path, and a forced path exists afterwards",
 "Looking up a path gives the node reached by looking up its names one after the other, and nothing when one is missing. After forcing a path of object keys from a value that is not a shared constant, looking the same path up gives the node that was returned, of the requested kind, and entries off the path are untouched where the path runs through existing objects.",
 ["inputs","histories"],"every document, every path length, scalars and shared constants along the way",
 W+"Two forced paths are printed.",
 ["dxvalue.go"],[("ValueByPath","dxvalue.go"),("ForcePath","dxvalue.go")],obs=["ValueByPath","ForcePath","XByPath"])
p("C20","Go scalars convert to values and back without loss",
 "Assigning any Go integer, float, boolean, string, byte slice or non-nil pointer to one to a value, directly or under a key or index, stores exactly that content in the matching kind (a date-time keeps its kind when a 64-bit float is assigned). Reading it back into a variable of the same Go type gives the original; reading into a narrower integer type gives Go's conversion.",
 ["inputs"],"every scalar Go type the conversion knows and every value of it, every earlier kind of the target",
 W+"One struct is converted.",
 ["reflect_parse.go"],[("SetValue / SetKeyvalue / SetIndexvalue","reflect_parse.go"),("ToStdValue","reflect_parse.go")],obs=["NewValueFrom","SetValue","SetKeyvalue","SetIndexvalue","ToStdValue"])
p("C21","YAML block documents decode to what they denote",
 "A block-style YAML document of nested mappings and sequences with plain scalars decodes to the value it denotes: nesting follows indentation, scalars become booleans, numbers or strings, aliases and merges copy the anchored value.",
 ["inputs"],"every document of the supported subset, every indentation step",
 W+"One document is printed.",
 ["yamlparse.go"],[("yamlParser","yamlparse.go")],obs=["NewValueFromYaml"])
p("C22","Structs, maps and slices convert to values and back",
 "Assigning a Go struct, map with string keys or slice to a value stores one entry per field, key or element with that field's content, and reading it back fills a struct or map with the same contents.",
 ["inputs","programs"],"every Go type reachable by reflection",
 W+"One struct type is converted.",
 ["reflect_parse.go","struct_type.go"],[("reflection branches of SetValue/SetKeyvalue/SetIndexvalue, decode2reflectFromdxValue, decodeArray2reflect","reflect_parse.go")],obs=["NewValueFrom","ToStdValue"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,x["title"]
print(len(P))
