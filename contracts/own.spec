// The bytes of a decoded value. bb is the address of the input buffer. Without sharing, no string, key or binary of
// the value lies in that buffer.
//
// okc(u) records that u was returned by a decoding function without sharing: a ghost attribute of the node, given to
// it when the function returns. Every such function is proved to return a node whose own strings lie elsewhere and
// whose members have the attribute already, and none of them writes to a node that was returned before.
uf okc(int) bool
define okself(u,bb) = (u.DataType == VT_String || u.DataType == VT_RawString ==> prov(u.fstrvalue) != bb) && (u.DataType == VT_Binary || u.DataType == VT_ExBinary ==> base(u.fbinary) != bb)
define okkeys(u,bb) = forall(i, 0, len(u.fobject.strkvs), u.DataType == VT_Object ==> prov(u.fobject.strkvs[i].K) != bb, prov(u.fobject.strkvs[i].K)) && forall(i, 0, len(u.fobject.strkvs), u.DataType == VT_Object ==> u.fobject.strkvs[i].V == nil || okc(u.fobject.strkvs[i].V), u.fobject.strkvs[i].V)
define okelems(u) = forall(i, 0, len(u.farr), u.DataType == VT_Array ==> okc(u.farr[i]), u.farr[i])
define okv(u,bb) = okself(u,bb) && okkeys(u,bb) && okelems(u)
define inbuf(bb,b) = bb < next && (len(b) > 0 ==> base(b) == bb)

// BSON documents are decoded into nodes that may be written again (a repeated name), so the attribute is not used:
// every scalar decoded keeps none of the buffer, and neither does any name handed to SetKeyCached.
define inbufs(bb,b,share) = bb < next && (len(b) > 0 ==> (base(b) == bb) == !share)
