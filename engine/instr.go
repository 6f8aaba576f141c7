package main

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (e *Exec) instr(st *State, fr *Frame, in ssa.Instruction) Val {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		if isNode(t) || heapStruct(t) && x.Heap {
			return e.allocStruct(st, t)
		}
		e.ncell++
		st.cells[e.ncell] = e.zeroVal(t)
		return CellPtr{id: e.ncell, typ: t}
	case *ssa.BinOp:
		return e.binop(st, x.Op, e.val(st, fr, x.X), e.val(st, fr, x.Y), x.X.Type(), x.Type(), x.Pos())
	case *ssa.ChangeType:
		return retype(e.val(st, fr, x.X), x.Type())
	case *ssa.Convert:
		return e.convert(st, e.val(st, fr, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeInterface:
		return e.val(st, fr, x.X)
	case *ssa.MakeInterface:
		return e.makeIface(st, e.val(st, fr, x.X), x.X.Type())
	case *ssa.Extract:
		return e.val(st, fr, x.Tuple).(TupleV)[x.Index]
	case *ssa.Field:
		v := e.val(st, fr, x.X)
		if s, ok := v.(StructV); ok {
			return s.f[x.Field]
		}
		unsup("field of %T", v)
	case *ssa.FieldAddr:
		return e.fieldAddr(st, e.val(st, fr, x.X), x.Field, x.Type().(*types.Pointer).Elem(), x.Pos())
	case *ssa.Index:
		return e.index(st, e.val(st, fr, x.X), e.val(st, fr, x.Index).(Sc).t, x.Type(), x.Pos())
	case *ssa.Lookup:
		v := e.val(st, fr, x.X)
		if s, ok := v.(StrV); ok {
			i := e.val(st, fr, x.Index).(Sc).t
			e.inRange(st, i, slen(s.s), x.Pos(), "string index")
			return e.strAt(st, s.s, i)
		}
		unsup("map lookup")
	case *ssa.IndexAddr:
		return e.indexAddr(st, e.val(st, fr, x.X), e.val(st, fr, x.Index).(Sc).t, x.Type().(*types.Pointer).Elem(), x.Pos())
	case *ssa.MakeSlice:
		n := e.val(st, fr, x.Len).(Sc).t
		c := e.val(st, fr, x.Cap).(Sc).t
		e.oblige(st, "no-panic", "make: length and capacity in range", x.Pos(), And(Le(K(0), n), Le(n, c), Le(c, KB(maxLen))))
		el := x.Type().Underlying().(*types.Slice).Elem()
		return e.makeSlice(st, el, n, c)
	case *ssa.MakeClosure:
		f := FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, e.val(st, fr, b))
		}
		return f
	case *ssa.Slice:
		return e.slice(st, fr, x)
	}
	unsup("instruction %T in %s", in, fr.fn)
	return nil
}

func heapStruct(t types.Type) bool {
	if opaqueStruct(t) {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func retype(v Val, t types.Type) Val {
	switch x := v.(type) {
	case Sc:
		return Sc{x.t, t}
	case StructV:
		return StructV{t, x.f}
	}
	return v
}

func (e *Exec) unop(st *State, fr *Frame, x *ssa.UnOp) Val {
	v := e.val(st, fr, x.X)
	switch x.Op {
	case token.NOT:
		return Sc{Not(v.(Sc).t), x.Type()}
	case token.SUB:
		if isFloat(x.Type()) {
			return Sc{e.uf("fneg", x.Type(), v.(Sc).t), x.Type()}
		}
		return Sc{e.wrap(st, Neg(v.(Sc).t), x.Type()), x.Type()}
	case token.XOR:
		lo, hi, _ := intRange(x.Type())
		if lo.Sign() < 0 {
			return Sc{Sub(K(-1), v.(Sc).t), x.Type()}
		}
		return Sc{Sub(KB(hi), v.(Sc).t), x.Type()}
	}
	unsup("unary %s", x.Op)
	return nil
}

// uf applies an uninterpreted function and states the result's type range.
func (e *Exec) uf(name string, t types.Type, args ...*T) *T {
	s := SInt
	if isBool(t) {
		s = SBool
	} else if isString(t) {
		s = SStr
	}
	r := App(name, s, args...)
	if s == SInt {
		if lo, hi, ok := intRange(t); ok {
			setRange(r, lo, hi)
		}
	}
	return r
}

// wrap gives the machine value of the mathematical integer r in type t: r itself when it is known to fit.
func (e *Exec) wrap(st *State, r *T, t types.Type) *T {
	lo, hi, ok := intRange(t)
	if !ok {
		return r
	}
	if l, h, ok := bounds(r); ok && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return r
	}
	in := And(Le(KB(lo), r), Le(r, KB(hi)))
	if in == True {
		return r
	}
	if st != nil && e.light.query(st.pc, Not(in)) == "unsat" {
		st.assume(in)
		return r
	}
	w := new(big.Int).Sub(hi, lo)
	w.Add(w, big.NewInt(1))
	if lo.Sign() == 0 {
		return ModK(r, w)
	}
	// signed: two's complement
	m := ModK(r, w)
	if st != nil && e.light.query(st.pc, Not(And(Le(K(0), r), Lt(r, KB(w))))) == "unsat" {
		m = r
	}
	return Ite(Le(m, KB(hi)), m, Sub(m, KB(w)))
}

func tz(t *T) uint { // number of low bits known to be zero
	l := toLin(t)
	z := uint(200)
	if l.c.Sign() != 0 {
		z = l.c.TrailingZeroBits()
	}
	for x, c := range l.ts {
		n := c.TrailingZeroBits()
		if x.op == "*nl" {
			n += 0
		}
		if n < z {
			z = n
		}
	}
	return z
}

func (e *Exec) binop(st *State, op token.Token, a, b Val, xt, rt types.Type, pos token.Pos) Val {
	switch x := a.(type) {
	case StrV:
		y := b.(StrV)
		switch op {
		case token.EQL:
			e.strExt(st, x.s, y.s)
			return Sc{Eq(x.s, y.s), rt}
		case token.NEQ:
			e.strExt(st, x.s, y.s)
			return Sc{Not(Eq(x.s, y.s)), rt}
		case token.ADD:
			r := App("scat", SStr, x.s, y.s)
			st.assume(Eq(slen(r), Add(slen(x.s), slen(y.s))), rawLe(slen(r), KB(maxLen)))
			e.assumed["string concatenation stays below 2^47 bytes"] = true
			return StrV{r, K(0)}
		}
		return Sc{e.uf("scmp_"+opName(op), rt, x.s, y.s), rt}
	case SliceV: // comparison with nil
		y := b.(SliceV)
		t := Eq(x.base, K(0))
		if !(y.base.isConst() && y.base.val.Sign() == 0) {
			t = Eq(y.base, K(0))
		}
		if op == token.NEQ {
			t = Not(t)
		}
		return Sc{t, rt}
	case IfaceV:
		y := b.(IfaceV)
		t := Eq(x.t, y.t)
		if op == token.NEQ {
			t = Not(t)
		}
		return Sc{t, rt}
	case FuncV:
		t := False
		y := b.(FuncV)
		if x.t != nil && y.t != nil {
			t = Eq(x.t, y.t)
		}
		if op == token.NEQ {
			t = Not(t)
		}
		return Sc{t, rt}
	case FieldPtr, ElemPtr, CellPtr:
		if y, ok := b.(Sc); ok && y.t.isConst() {
			return Sc{BoolT(op == token.NEQ), rt}
		}
		unsup("pointer comparison %T", a)
	case StructV:
		unsup("struct comparison")
	}
	if y, ok := b.(FieldPtr); ok {
		_ = y
		return Sc{BoolT(op == token.NEQ), rt}
	}
	x, okx := a.(Sc)
	y, oky := b.(Sc)
	if !okx || !oky {
		unsup("binary %s on %T,%T", op, a, b)
	}
	if isFloat(xt) {
		switch op {
		case token.EQL:
			return Sc{feq(x.t, y.t), rt}
		case token.NEQ:
			return Sc{Not(feq(x.t, y.t)), rt}
		}
		sfx := ""
		if xt.Underlying().(*types.Basic).Kind() == types.Float32 {
			sfx = "32"
		}
		return Sc{e.uf("f"+opName(op)+sfx, rt, x.t, y.t), rt}
	}
	if isBool(xt) {
		switch op {
		case token.EQL:
			return Sc{Eq(x.t, y.t), rt}
		case token.NEQ:
			return Sc{Not(Eq(x.t, y.t)), rt}
		case token.AND:
			return Sc{And(x.t, y.t), rt}
		case token.OR:
			return Sc{Or(x.t, y.t), rt}
		}
	}
	switch op {
	case token.EQL:
		return Sc{Eq(x.t, y.t), rt}
	case token.NEQ:
		return Sc{Not(Eq(x.t, y.t)), rt}
	case token.LSS:
		return Sc{Lt(x.t, y.t), rt}
	case token.LEQ:
		return Sc{Le(x.t, y.t), rt}
	case token.GTR:
		return Sc{Lt(y.t, x.t), rt}
	case token.GEQ:
		return Sc{Le(y.t, x.t), rt}
	case token.ADD:
		return Sc{e.wrap(st, Add(x.t, y.t), rt), rt}
	case token.SUB:
		return Sc{e.wrap(st, Sub(x.t, y.t), rt), rt}
	case token.MUL:
		return Sc{e.wrap(st, Mul(x.t, y.t), rt), rt}
	case token.QUO, token.REM:
		if !y.t.isConst() {
			e.oblige(st, "no-panic", "divisor is not zero", pos, Ne(y.t, K(0)))
			return Sc{e.uf("i"+opName(op), rt, x.t, y.t), rt}
		}
		k := y.t.val
		if k.Sign() <= 0 {
			unsup("division by non-positive constant")
		}
		q := DivK(x.t, k)
		if lo, _, ok := bounds(x.t); !ok || lo.Sign() < 0 {
			if e.light.query(st.pc, Lt(x.t, K(0))) != "unsat" {
				q = Ite(Le(K(0), x.t), DivK(x.t, k), Neg(DivK(Neg(x.t), k)))
			}
		}
		if op == token.QUO {
			return Sc{q, rt}
		}
		if q.op == "div" {
			return Sc{ModK(x.t, k), rt}
		}
		return Sc{Sub(x.t, MulK(k, q)), rt}
	case token.SHL:
		if !y.t.isConst() {
			return Sc{e.uf("ishl", rt, x.t, y.t), rt}
		}
		return Sc{e.wrap(st, MulK(pow2(uint(y.t.val.Int64())), x.t), rt), rt}
	case token.SHR:
		if !y.t.isConst() {
			return Sc{e.uf("ishr", rt, x.t, y.t), rt}
		}
		return Sc{DivK(x.t, pow2(uint(y.t.val.Int64()))), rt}
	case token.AND:
		return Sc{e.bitAnd(st, x.t, y.t, rt), rt}
	case token.OR:
		return Sc{e.bitOr(st, x.t, y.t, rt), rt}
	case token.XOR, token.AND_NOT:
		return Sc{e.uf("i"+opName(op), rt, x.t, y.t), rt}
	}
	unsup("binary %s", op)
	return nil
}

func opName(op token.Token) string {
	switch op {
	case token.ADD:
		return "add"
	case token.SUB:
		return "sub"
	case token.MUL:
		return "mul"
	case token.QUO:
		return "quo"
	case token.REM:
		return "rem"
	case token.LSS:
		return "lt"
	case token.LEQ:
		return "le"
	case token.GTR:
		return "gt"
	case token.GEQ:
		return "ge"
	case token.XOR:
		return "xor"
	case token.AND_NOT:
		return "andnot"
	}
	return "op"
}

func feq(a, b *T) *T {
	if a.h > b.h {
		a, b = b, a
	}
	return App("feq", SBool, a, b)
}

func (e *Exec) bitAnd(st *State, a, b *T, t types.Type) *T {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && b.val.Sign() >= 0 {
		m := b.val
		if m.Sign() == 0 {
			return K(0)
		}
		// contiguous mask 2^hi - 2^lo
		lo := m.TrailingZeroBits()
		hi := uint(m.BitLen())
		c := new(big.Int).Sub(pow2(hi), pow2(lo))
		if c.Cmp(m) == 0 {
			r := ModK(a, pow2(hi))
			_, h, _ := intRange(t)
			if h != nil && h.Cmp(new(big.Int).Sub(pow2(hi), big.NewInt(1))) <= 0 {
				r = a
			}
			if lo == 0 {
				return r
			}
			return MulK(pow2(lo), DivK(r, pow2(lo)))
		}
	}
	return e.uf("iand", t, a, b)
}

func (e *Exec) bitOr(st *State, a, b *T, t types.Type) *T {
	if a.isConst() && a.val.Sign() == 0 {
		return b
	}
	if b.isConst() && b.val.Sign() == 0 {
		return a
	}
	try := func(a, b *T) *T { // a multiple of 2^z, 0<=b<2^z
		z := tz(a)
		if z == 0 || z >= 200 {
			return nil
		}
		if lo, hi, ok := bounds(b); ok && lo.Sign() >= 0 && hi.Cmp(pow2(z)) < 0 {
			return Add(a, b)
		}
		if e.light.query(st.pc, Not(And(Le(K(0), b), Lt(b, KB(pow2(z)))))) == "unsat" {
			return Add(a, b)
		}
		return nil
	}
	if r := try(a, b); r != nil {
		return r
	}
	if r := try(b, a); r != nil {
		return r
	}
	if a.isConst() {
		a, b = b, a
	}
	return e.uf("ior", t, a, b)
}

func (e *Exec) convert(st *State, v Val, from, to types.Type) Val {
	switch {
	case isInt(from) && isInt(to):
		return Sc{e.wrap(st, v.(Sc).t, to), to}
	case isInt(from) && isFloat(to):
		return Sc{e.uf("i2f"+fw(to), to, v.(Sc).t), to}
	case isFloat(from) && isInt(to):
		r := e.uf("f"+fw(from)+"toi_"+to.Underlying().(*types.Basic).Name(), to, v.(Sc).t)
		e.facts(st, to, Sc{r, to})
		return Sc{r, to}
	case isFloat(from) && isFloat(to):
		if fw(from) == fw(to) {
			return Sc{v.(Sc).t, to}
		}
		return Sc{e.uf("f"+fw(from)+"to"+fw(to), to, v.(Sc).t), to}
	case isString(to):
		if s, ok := v.(SliceV); ok {
			if s.src != nil {
				return StrV{s.src, K(0)}
			}
			return StrV{e.strOf(st, s), K(0)}
		}
		if s, ok := v.(StrV); ok {
			return s
		}
		if isInt(from) {
			r := App("s_rune", SStr, v.(Sc).t)
			st.assume(Le(slen(r), K(4)))
			return StrV{r, K(0)}
		}
	case isString(from):
		if _, ok := to.Underlying().(*types.Slice); ok {
			return e.bytesOf(st, v.(StrV).s, to.Underlying().(*types.Slice).Elem())
		}
	}
	// unsafe.Pointer conversions
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if p, ok := to.Underlying().(*types.Pointer); ok {
			return CastPtr{p: v, typ: p.Elem()}
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return retype(v, to)
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}

func fw(t types.Type) string {
	if t.Underlying().(*types.Basic).Kind() == types.Float32 {
		return "32"
	}
	return "64"
}

// ---------- strings and byte slices ----------

func (e *Exec) bmem(st *State) *T { return st.get("M:byte.", SArr(SArr(SInt))) }

func (e *Exec) strAt(st *State, s, i *T) Val {
	t := sbyte(s, i)
	v := Sc{t, types.Typ[types.Uint8]}
	e.facts(st, v.typ, v)
	return v
}

// strOf: the string with the current bytes of s.
func (e *Exec) strOf(st *State, s SliceV) *T {
	if s.ln.isConst() && s.ln.val.Sign() == 0 {
		return strConst("")
	}
	a := Sel(e.bmem(st), s.base)
	r := mkstr(a, s.off, s.ln)
	e.mkstrFacts(st, a, s.off, s.ln)
	return r
}

func mkstr(a, off, ln *T) *T { return App("mkstr", SStr, a, off, ln) }

func (e *Exec) mkstrFacts(st *State, a, off, ln *T) {
	r := mkstr(a, off, ln)
	st.assume(Eq(slen(r), ln))
	i := BVar("i", SInt)
	st.assume(Forall([]*T{i}, Imp(And(Le(K(0), i), Lt(i, ln)), Eq(sbyte(r, i), Sel(a, Add(off, i)))), []*T{sbyte(r, i)}))
}

// bytesOf: a fresh byte slice holding the bytes of s.
func (e *Exec) bytesOf(st *State, s *T, elem types.Type) SliceV {
	base := e.newBase(st)
	a := e.fresh("strb", SArr(SInt))
	i := BVar("i", SInt)
	st.assume(Forall([]*T{i}, Imp(And(Le(K(0), i), Lt(i, slen(s))), Eq(Sel(a, i), sbyte(s, i))), []*T{Sel(a, i)}))
	st.assume(Le(K(0), slen(s)), Le(slen(s), KB(maxLen)))
	if lit, ok := litOf(s); ok && len(lit) <= 64 {
		for j := 0; j < len(lit); j++ {
			a = Sto(a, K(int64(j)), K(int64(lit[j])))
		}
		n := K(int64(len(lit)))
		st.set("M:byte.", Sto(e.bmem(st), base, a))
		return SliceV{base: base, off: K(0), ln: n, cp: n, elem: elem, src: s}
	}
	st.set("M:byte.", Sto(e.bmem(st), base, a))
	return SliceV{base: base, off: K(0), ln: slen(s), cp: slen(s), elem: elem, src: s}
}

func litOf(s *T) (string, bool) {
	funMu.Lock()
	defer funMu.Unlock()
	x, ok := strLitIdx[s]
	return x, ok
}

// strExt: extensionality for one pair (equal length and equal bytes imply equal strings).
func (e *Exec) strExt(st *State, a, b *T) {
	if a == b {
		return
	}
	st.assume(strExtT(a, b))
	st.assume(strLitFacts(a)...)
	st.assume(strLitFacts(b)...)
}

func strExtT(a, b *T) *T {
	if a.h > b.h {
		a, b = b, a
	}
	d := App("sdiff", SInt, a, b)
	return Or(Eq(a, b), Ne(slen(a), slen(b)), And(Le(K(0), d), Lt(d, slen(a)), Ne(sbyte(a, d), sbyte(b, d))))
}

// ---------- addresses ----------

func (e *Exec) fieldAddr(st *State, p Val, idx int, ft types.Type, pos token.Pos) Val {
	switch x := p.(type) {
	case Sc:
		e.nonNil(st, x, pos)
		dt := derefT(x.typ)
		f := dt.Underlying().(*types.Struct).Field(idx)
		return FieldPtr{x.t, typeName(dt), f.Name(), f.Type()}
	case FieldPtr:
		f := x.typ.Underlying().(*types.Struct).Field(idx)
		return FieldPtr{x.ref, x.root, join(x.path, f.Name()), f.Type()}
	case ElemPtr:
		f := x.typ.Underlying().(*types.Struct).Field(idx)
		return ElemPtr{x.base, x.idx, x.elem, join(x.path, f.Name()), f.Type()}
	case CellPtr:
		return CellPtr{x.id, append(append([]int{}, x.path...), idx), ft}
	}
	unsup("field address through %T", p)
	return nil
}

func (e *Exec) inRange(st *State, i, n *T, pos token.Pos, what string) {
	e.oblige(st, "bounds", what+" in range", pos, And(Le(K(0), i), Lt(i, n)))
}

func slotOf(base, i *T) *T { return App("slot", SInt, base, i) }

func (e *Exec) slotFacts(st *State, base, i *T) *T {
	r := slotOf(base, i)
	st.assume(Eq(App("slotbase", SInt, r), base), Eq(App("slotidx", SInt, r), i), Lt(r, K(0)))
	return r
}

func (e *Exec) indexAddr(st *State, p Val, i *T, et types.Type, pos token.Pos) Val {
	switch x := p.(type) {
	case SliceV:
		e.inRange(st, i, x.ln, pos, "index")
		ab := Add(x.off, i)
		if isNode(x.elem) {
			return Sc{e.slotFacts(st, x.base, ab), types.NewPointer(x.elem)}
		}
		if x.simple != nil {
			return BytePtr{*x.simple, ab}
		}
		return ElemPtr{x.base, ab, x.elem, "", x.elem}
	case FieldPtr:
		if n, ok := isByteArr(x.typ); ok {
			e.inRange(st, i, K(n), pos, "array index")
			return BytePtr{x, i}
		}
	case CellPtr:
		if a, ok := x.typ.Underlying().(*types.Array); ok {
			e.inRange(st, i, K(a.Len()), pos, "array index")
			if _, b := isByteArr(x.typ); b {
				return BytePtr{x, i}
			}
			if !i.isConst() {
				unsup("symbolic index into local array")
			}
			return CellPtr{x.id, append(append([]int{}, x.path...), int(i.val.Int64())), et}
		}
	}
	unsup("index address through %T", p)
	return nil
}

func (e *Exec) index(st *State, p Val, i *T, t types.Type, pos token.Pos) Val {
	switch x := p.(type) {
	case StrV:
		e.inRange(st, i, slen(x.s), pos, "string index")
		return e.strAt(st, x.s, i)
	case ArrV:
		if i.isConst() {
			return x.e[i.val.Int64()]
		}
	}
	unsup("index of %T", p)
	return nil
}

func (e *Exec) makeSlice(st *State, el types.Type, n, c *T) SliceV {
	base := e.newBase(st)
	if !isNode(el) {
		for _, l := range leaves(el) {
			k := memKey(el, l.path)
			z := K(0)
			switch l.sort {
			case SBool:
				z = False
			case SStr:
				z = strConst("")
			}
			m := st.get(k, SArr(SArr(l.sort)))
			st.set(k, Sto(m, base, ConstArr(l.sort, z)))
		}
	}
	st.assume(Ne(base, K(0)))
	return SliceV{base: base, off: K(0), ln: n, cp: c, elem: el}
}

func (e *Exec) slice(st *State, fr *Frame, x *ssa.Slice) Val {
	v := e.val(st, fr, x.X)
	get := func(o ssa.Value, d *T) *T {
		if o == nil {
			return d
		}
		return e.val(st, fr, o).(Sc).t
	}
	switch s := v.(type) {
	case SliceV:
		lo, hi := get(x.Low, K(0)), get(x.High, s.ln)
		mx := get(x.Max, s.cp)
		if x.High == nil {
			e.oblige(st, "bounds", "slice bounds in range", x.Pos(), And(Le(K(0), lo), Le(lo, hi)))
		} else {
			e.oblige(st, "bounds", "slice bounds in range", x.Pos(), And(Le(K(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, s.cp)))
		}
		r := SliceV{base: s.base, off: Add(s.off, lo), ln: Sub(hi, lo), cp: Sub(mx, lo), elem: s.elem, simple: s.simple}
		if x.Low == nil && x.High == nil {
			r.src = s.src
		}
		st.assume(Le(r.off, KB(maxLen))) // offset inside one object
		return r
	case StrV:
		lo, hi := get(x.Low, K(0)), get(x.High, slen(s.s))
		e.oblige(st, "bounds", "string slice bounds in range", x.Pos(), And(Le(K(0), lo), Le(lo, hi), Le(hi, slen(s.s))))
		return StrV{e.substr(st, s.s, lo, hi), s.prov}
	case CellPtr:
		if a, ok := s.typ.Underlying().(*types.Array); ok {
			n := K(a.Len())
			lo, hi := get(x.Low, K(0)), get(x.High, n)
			e.oblige(st, "bounds", "array slice bounds in range", x.Pos(), And(Le(K(0), lo), Le(lo, hi), Le(hi, n)))
			return e.sliceOfArr(st, e.cellGet(st, s), a, lo, hi, n)
		}
	case FieldPtr:
		if n, ok := isByteArr(s.typ); ok {
			nn := K(n)
			lo, hi := get(x.Low, K(0)), get(x.High, nn)
			e.oblige(st, "bounds", "array slice bounds in range", x.Pos(), And(Le(K(0), lo), Le(lo, hi), Le(hi, nn)))
			b := e.bitsOf(st, s)
			base := e.newBase(st)
			a := ConstArr(SInt, K(0))
			for i := int64(0); i < n; i++ {
				a = Sto(a, K(i), ModK(DivK(b, pow2(uint(8*i))), big.NewInt(256)))
			}
			st.set("M:byte.", Sto(e.bmem(st), base, a))
			return SliceV{base: base, off: lo, ln: Sub(hi, lo), cp: Sub(nn, lo), elem: types.Typ[types.Uint8], simple: &s}
		}
	}
	unsup("slice of %T", v)
	return nil
}

func (e *Exec) substr(st *State, s, lo, hi *T) *T {
	if lo.isConst() && lo.val.Sign() == 0 && hi == slen(s) {
		return s
	}
	r := App("ssub", SStr, s, lo, hi)
	st.assume(Eq(slen(r), Sub(hi, lo)))
	i := BVar("i", SInt)
	st.assume(Forall([]*T{i}, Imp(And(Le(K(0), i), Lt(i, Sub(hi, lo))), Eq(sbyte(r, i), sbyte(s, Add(lo, i)))), []*T{sbyte(r, i)}))
	return r
}

// sliceOfArr materialises a local array as slice memory (variadic arguments and literals).
func (e *Exec) sliceOfArr(st *State, v Val, a *types.Array, lo, hi, n *T) Val {
	base := e.newBase(st)
	el := a.Elem()
	if isNode(el) {
		for i, x := range v.(ArrV).e {
			e.store(st, Sc{e.slotFacts(st, base, K(int64(i))), types.NewPointer(el)}, x, token.NoPos)
		}
		return SliceV{base: base, off: lo, ln: Sub(hi, lo), cp: Sub(n, lo), elem: el}
	}
	if sc, ok := v.(Sc); ok { // packed byte array
		arr := ConstArr(SInt, K(0))
		for i := int64(0); i < a.Len(); i++ {
			arr = Sto(arr, K(i), ModK(DivK(sc.t, pow2(uint(8*i))), big.NewInt(256)))
		}
		st.set("M:byte.", Sto(e.bmem(st), base, arr))
		return SliceV{base: base, off: lo, ln: Sub(hi, lo), cp: Sub(n, lo), elem: el}
	}
	av := v.(ArrV)
	arrs := map[string]*T{}
	for _, l := range leaves(el) {
		z := K(0)
		switch l.sort {
		case SBool:
			z = False
		case SStr:
			z = strConst("")
		}
		arrs[l.path] = ConstArr(l.sort, z)
	}
	for i, x := range av.e {
		flatten(el, "", x, func(path string, t *T) {
			if a := arrs[path]; a.op == "constarr" && a.args[0] == t {
				return // still the default
			}
			arrs[path] = Sto(arrs[path], K(int64(i)), t)
		})
	}
	for _, l := range leaves(el) {
		k := memKey(el, l.path)
		st.set(k, Sto(st.get(k, SArr(SArr(l.sort))), base, arrs[l.path]))
	}
	return SliceV{base: base, off: lo, ln: Sub(hi, lo), cp: Sub(n, lo), elem: el}
}

// ---------- interfaces ----------

func typeTag(t types.Type) *T {
	s := t.String()
	return K(int64(fnv(14695981039346656037, s)&0xffffff) + 16)
}

func (e *Exec) makeIface(st *State, v Val, t types.Type) Val {
	r := e.fresh("iface", SInt)
	st.assume(Lt(K(2000000), r), Eq(itag(r), typeTag(t)))
	if s, ok := v.(Sc); ok && s.t.sort == SInt {
		st.assume(Eq(idata(r), s.t))
	}
	return IfaceV{t: r, typ: t, v: v}
}

func (e *Exec) typeAssert(st *State, fr *Frame, x *ssa.TypeAssert, k func(*State, Val)) {
	v := e.val(st, fr, x.X).(IfaceV)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	done := func(s *State, ok bool, val Val) {
		if x.CommaOk {
			if !ok {
				val = e.zeroVal(x.AssertedType)
			}
			k(s, TupleV{val, Sc{BoolT(ok), types.Typ[types.Bool]}})
			return
		}
		if !ok {
			e.oblige(s, "no-panic", "type assertion holds", x.Pos(), False)
			return
		}
		k(s, val)
	}
	if v.typ != nil {
		if toIface {
			done(st, types.Implements(v.typ, x.AssertedType.Underlying().(*types.Interface)), v)
			return
		}
		if types.Identical(v.typ, x.AssertedType) {
			done(st, true, v.v)
		} else {
			done(st, false, nil)
		}
		return
	}
	if v.t.isConst() && v.t.val.Sign() == 0 {
		done(st, false, nil)
		return
	}
	var c *T
	if toIface {
		c = App("implements_"+sanitize(typeName(x.AssertedType)), SBool, itag(v.t))
	} else {
		c = And(Ne(v.t, K(0)), Eq(itag(v.t), typeTag(x.AssertedType)))
	}
	e.branch(st, c, x.Pos(), func(s *State, ok bool) {
		if !ok {
			done(s, false, nil)
			return
		}
		if toIface {
			done(s, true, v)
			return
		}
		if _, p := x.AssertedType.Underlying().(*types.Pointer); p {
			s.assume(Lt(K(0), idata(v.t)))
			e.assumed["a pointer held by an error value is not nil"] = true
			done(s, true, Sc{idata(v.t), x.AssertedType})
			return
		}
		done(s, true, e.freshVal(s, x.AssertedType, "asserted"))
	})
}
