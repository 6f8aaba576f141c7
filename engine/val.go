package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// ---------- symbolic values ----------

type Val interface{}

type Sc struct { // scalar: integer, bool, float bits, reference, opaque
	t   *T
	typ types.Type
}
type StrV struct{ s, prov *T }
type SliceV struct {
	base, off, ln, cp *T
	elem              types.Type
	src               *T // the string whose bytes these are, if known
	arr               *CellPtr
	simple            *FieldPtr // slice over DxValue.simpleV
}
type StructV struct {
	typ types.Type
	f   []Val
}
type ArrV struct {
	elem types.Type
	e    []Val
}
type TupleV []Val
type FieldPtr struct {
	ref  *T
	root string
	path string
	typ  types.Type // pointee
}
type ElemPtr struct {
	base, idx *T
	elem      types.Type
	path      string
	typ       types.Type
}
type CellPtr struct {
	id   int
	path []int
	typ  types.Type
}
type GlobPtr struct {
	g   *ssa.Global
	typ types.Type
}
type BytePtr struct { // pointer to byte i of an 8-byte scalar store
	p   Val
	idx *T
}
type CastPtr struct {
	p   Val // BytePtr(0) or pointer to integer cell
	typ types.Type
}
type FuncV struct {
	fn    *ssa.Function
	binds []Val
	t     *T // unknown function value
}
type IfaceV struct {
	t   *T         // 0 = nil
	typ types.Type // dynamic type when known
	v   Val
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---------- type layout ----------

type leaf struct {
	path string
	sort Sort
	typ  types.Type // Go type for ranges (nil for slice parts)
	part string     // base/off/len/cap/prov or ""
}

func join(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return a + "." + b
}

// simple8 is the [8]byte payload of a value, kept as one 64-bit little-endian integer.
func isByteArr(t types.Type) (int64, bool) {
	if a, ok := t.Underlying().(*types.Array); ok {
		if b, ok := a.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && a.Len() <= 8 {
			return a.Len(), true
		}
	}
	return 0, false
}

func opaqueStruct(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() != repoPkg {
			if _, ok := n.Underlying().(*types.Struct); ok {
				return true
			}
		}
	}
	return false
}

func leaves(t types.Type) []leaf {
	if opaqueStruct(t) {
		return []leaf{{"", SInt, t, ""}}
	}
	if _, ok := isByteArr(t); ok {
		return []leaf{{"", SInt, t, "bits"}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return []leaf{{"", SStr, t, ""}, {"prov", SInt, nil, "prov"}}
		case u.Info()&types.IsBoolean != 0:
			return []leaf{{"", SBool, t, ""}}
		default:
			return []leaf{{"", SInt, t, ""}}
		}
	case *types.Pointer, *types.Signature, *types.Interface, *types.Map, *types.Chan:
		return []leaf{{"", SInt, t, ""}}
	case *types.Slice:
		return []leaf{{"base", SInt, nil, "base"}, {"off", SInt, nil, "off"}, {"len", SInt, nil, "len"}, {"cap", SInt, nil, "cap"}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				out = append(out, leaf{join(f.Name(), l.path), l.sort, l.typ, l.part})
			}
		}
		return out
	}
	unsup("layout of %s", t)
	return nil
}

// build makes a Val of type t by reading its leaves.
func build(t types.Type, path string, rd func(path string, s Sort) *T) Val {
	if opaqueStruct(t) {
		return Sc{rd(path, SInt), t}
	}
	if _, ok := isByteArr(t); ok {
		return Sc{rd(path, SInt), t}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return StrV{rd(path, SStr), rd(join(path, "prov"), SInt)}
		case u.Info()&types.IsBoolean != 0:
			return Sc{rd(path, SBool), t}
		default:
			return Sc{rd(path, SInt), t}
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return Sc{rd(path, SInt), t}
	case *types.Signature:
		return FuncV{t: rd(path, SInt)}
	case *types.Interface:
		return IfaceV{t: rd(path, SInt)}
	case *types.Slice:
		return SliceV{base: rd(join(path, "base"), SInt), off: rd(join(path, "off"), SInt), ln: rd(join(path, "len"), SInt), cp: rd(join(path, "cap"), SInt), elem: u.Elem()}
	case *types.Struct:
		s := StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			s.f = append(s.f, build(f.Type(), join(path, f.Name()), rd))
		}
		return s
	}
	unsup("value of type %s", t)
	return nil
}

// flatten writes the leaves of v (of type t).
func flatten(t types.Type, path string, v Val, wr func(path string, x *T)) {
	switch x := v.(type) {
	case Sc:
		wr(path, x.t)
	case StrV:
		wr(path, x.s)
		wr(join(path, "prov"), x.prov)
	case SliceV:
		wr(join(path, "base"), x.base)
		wr(join(path, "off"), x.off)
		wr(join(path, "len"), x.ln)
		wr(join(path, "cap"), x.cp)
	case FuncV:
		if x.t != nil {
			wr(path, x.t)
		} else {
			wr(path, K(1))
		}
	case IfaceV:
		wr(path, x.t)
	case StructV:
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			flatten(u.Field(i).Type(), join(path, u.Field(i).Name()), x.f[i], wr)
		}
	case ElemPtr:
		unsup("element pointer stored in memory")
	default:
		unsup("flatten %T", v)
	}
}

func zero(t types.Type) Val {
	return build(t, "", func(p string, s Sort) *T {
		switch s {
		case SBool:
			return False
		case SStr:
			return strConst("")
		}
		return K(0)
	})
}

// ---------- integer ranges ----------

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	if _, isb := isByteArr(t); isb {
		n, _ := isByteArr(t)
		return big.NewInt(0), new(big.Int).Sub(pow2(uint(8*n)), big.NewInt(1)), true
	}
	b, okb := t.Underlying().(*types.Basic)
	if !okb {
		return nil, nil, false
	}
	one := big.NewInt(1)
	sgn := func(w uint) (*big.Int, *big.Int, bool) {
		return new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), one), true
	}
	uns := func(w uint) (*big.Int, *big.Int, bool) { return big.NewInt(0), new(big.Int).Sub(pow2(w), one), true }
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return sgn(64)
	case types.Int32, types.UntypedRune:
		return sgn(32)
	case types.Int16:
		return sgn(16)
	case types.Int8:
		return sgn(8)
	case types.Uint, types.Uint64, types.Uintptr, types.Float64, types.UntypedFloat:
		return uns(64)
	case types.Uint32, types.Float32:
		return uns(32)
	case types.Uint16:
		return uns(16)
	case types.Uint8:
		return uns(8)
	}
	return nil, nil, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

var maxLen = pow2(47)

func setRange(t *T, lo, hi *big.Int) {
	if t.isConst() || t.bound {
		return
	}
	rangeMu.Lock()
	defer rangeMu.Unlock()
	if _, ok := rangeTab[t]; !ok {
		rangeTab[t] = [2]*big.Int{lo, hi}
	}
}

// facts that hold of every well-typed value
func typeFacts(t types.Type, v Val, next *T, out *[]*T) {
	switch x := v.(type) {
	case Sc:
		if x.t.sort == SInt && t != nil {
			if lo, hi, ok := intRange(t); ok {
				if !x.t.isConst() {
					*out = append(*out, intern(&T{op: "<=", sort: SBool, args: []*T{KB(lo), x.t}}), intern(&T{op: "<=", sort: SBool, args: []*T{x.t, KB(hi)}}))
					if x.t.op != "+" && x.t.op != "*" && x.t.op != "ite" {
						setRange(x.t, lo, hi)
					}
				}
			} else if _, ok := t.Underlying().(*types.Pointer); ok {
				*out = append(*out, Le(K(0), x.t))
				if next != nil {
					*out = append(*out, Lt(x.t, next))
				}
			}
		}
	case StrV:
		*out = append(*out, Le(K(0), slen(x.s)), Le(slen(x.s), KB(maxLen)))
	case SliceV:
		*out = append(*out, rawLe(K(0), x.base), rawLe(K(0), x.off), rawLe(x.off, KB(maxLen)), rawLe(K(0), x.ln), rawLe(x.ln, x.cp), rawLe(x.cp, KB(maxLen)),
			Imp(Eq(x.base, K(0)), And(Eq(x.cp, K(0)), Eq(x.off, K(0)))))
		for _, y := range []*T{x.off, x.ln, x.cp} {
			if y.op == "var" || y.op == "select" {
				setRange(y, big.NewInt(0), maxLen)
			}
		}
		if next != nil {
			*out = append(*out, Lt(x.base, next))
		}
	case StructV:
		u := t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			typeFacts(u.Field(i).Type(), x.f[i], next, out)
		}
	case IfaceV:
		*out = append(*out, Le(K(0), x.t))
	}
}

// rawLe builds a<=b without the interval simplification (the fact itself establishes the interval).
func rawLe(a, b *T) *T {
	if a.isConst() && b.isConst() {
		return BoolT(a.val.Cmp(b.val) <= 0)
	}
	if len(a.args) == 0 || len(b.args) == 0 || a.op == "select" || b.op == "select" {
		return intern(&T{op: "<=", sort: SBool, args: []*T{a, b}})
	}
	return Le(a, b)
}

func isNodePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	return isNode(p.Elem())
}
func isNode(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "DxValue" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == repoPkg
}

func typeName(t types.Type) string {
	switch x := t.(type) {
	case *types.Named:
		return x.Obj().Name()
	case *types.Basic:
		if x.Kind() == types.Uint8 {
			return "byte"
		}
		return x.Name()
	case *types.Pointer:
		return "p_" + typeName(x.Elem())
	case *types.Alias:
		return typeName(types.Unalias(x))
	case *types.Interface:
		return "iface"
	case *types.Slice:
		return "s_" + typeName(x.Elem())
	}
	return sanitize(t.String())
}

func sanitize(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.') {
			b[i] = '_'
		}
	}
	return string(b)
}

// ---------- strings ----------

func slen(s *T) *T {
	t := App("slen", SInt, s)
	return t
}
func sbyte(s, i *T) *T { return App("sbyte", SInt, s, i) }

var strLits = map[string]*T{}
var strLitIdx = map[*T]string{}

func strConst(s string) *T {
	funMu.Lock()
	t, ok := strLits[s]
	if !ok {
		nm := fmt.Sprintf("str!%x", s)
		if len(s) == 0 {
			nm = "str!empty"
		}
		if len(nm) > 120 {
			nm = nm[:120] + fmt.Sprint(len(strLits))
		}
		t = intern(&T{op: "app", name: nm, sort: SStr})
		funDecl[nm] = "(declare-fun " + nm + " () Str)"
		strLits[s] = t
		strLitIdx[t] = s
	}
	funMu.Unlock()
	return t
}

// literal facts: length and bytes
func strLitFacts(t *T) []*T {
	s, ok := litOf(t)
	if !ok {
		return nil
	}
	out := []*T{Eq(slen(t), K(int64(len(s))))}
	if len(s) <= 64 {
		for i := 0; i < len(s); i++ {
			out = append(out, Eq(sbyte(t, K(int64(i))), K(int64(s[i]))))
		}
	}
	return out
}
