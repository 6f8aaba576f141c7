package main

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val))

var models map[string]modelFn

func init() {
	models = map[string]modelFn{
		"bytes.IndexByte":   mIndexByte,
		"strings.IndexByte": mIndexByte,
		"bytes.Index":       mIndex,
		"strings.Index":     mIndex,
		"bytes.Compare":     mCompare,
		"bytes.Equal":       mCompare,
		"bytes.TrimFunc":    mTrim,
		"bytes.TrimSpace":   mTrim,
		"bytes.EqualFold":   mEqualFold,
		"strings.EqualFold": mEqualFold,

		"(encoding/binary.bigEndian).Uint16":       mEndian(2, true),
		"(encoding/binary.bigEndian).Uint32":       mEndian(4, true),
		"(encoding/binary.bigEndian).Uint64":       mEndian(8, true),
		"(encoding/binary.littleEndian).Uint16":    mEndian(2, false),
		"(encoding/binary.littleEndian).Uint32":    mEndian(4, false),
		"(encoding/binary.littleEndian).Uint64":    mEndian(8, false),
		"(encoding/binary.bigEndian).PutUint16":    mPutEndian(2, true),
		"(encoding/binary.bigEndian).PutUint32":    mPutEndian(4, true),
		"(encoding/binary.bigEndian).PutUint64":    mPutEndian(8, true),
		"(encoding/binary.littleEndian).PutUint32": mPutEndian(4, false),
		"(encoding/binary.littleEndian).PutUint64": mPutEndian(8, false),

		"math.Float32bits":     mIdent,
		"math.Float64bits":     mIdent,
		"math.Float32frombits": mIdent,
		"math.Float64frombits": mIdent,

		"DxCommonLib.FastByte2String": func(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
			b := args[0].(SliceV)
			e.assumed["bytes viewed through FastByte2String are not modified while the string is in use"] = true
			k(st, StrV{e.sliceStr(st, b), b.base})
		},
		"DxCommonLib.FastString2Byte": func(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
			s := args[0].(StrV)
			e.assumed["FastString2Byte: the byte view of a string is only read"] = true
			k(st, e.bytesOf(st, s.s, types.Typ[types.Uint8]))
		},
		"DxCommonLib.ParserEscapeStr": func(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
			b := args[0].(SliceV)
			r := App("unesc", SStr, e.sliceStr(st, b))
			st.assume(Le(K(0), slen(r)), Le(slen(r), KB(maxLen)))
			e.assumed["external DxCommonLib.ParserEscapeStr is a total function of the bytes (unesc) and changes nothing"] = true
			k(st, StrV{r, K(0)})
		},
		"DxCommonLib.EscapeJsonbyte": func(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
			f := Ite(args[1].(Sc).t, K(1), K(0))
			r := App("escjson", SStr, args[0].(StrV).s, f)
			st.assume(Le(K(0), slen(r)), Le(slen(r), KB(maxLen)))
			e.assumed["external DxCommonLib.EscapeJsonbyte appends a function of the string (escjson) to dst and changes nothing else"] = true
			k(st, e.appendLoose(st, args[2].(SliceV), r))
		},
		"strconv.AppendInt": func(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
			r := App("fmtint", SStr, args[1].(Sc).t, args[2].(Sc).t)
			st.assume(Le(K(1), slen(r)), Le(slen(r), K(65)))
			e.assumed["external strconv.AppendInt appends fmtint(n) to dst"] = true
			k(st, e.appendV(st, args[0].(SliceV), StrV{r, K(0)}, pos))
		},
		"strconv.AppendFloat": func(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
			r := App("fmtfloat", SStr, args[1].(Sc).t, args[2].(Sc).t, args[3].(Sc).t, args[4].(Sc).t)
			st.assume(Le(K(1), slen(r)), Le(slen(r), K(400)))
			e.assumed["external strconv.AppendFloat appends fmtfloat(x) to dst"] = true
			k(st, e.appendV(st, args[0].(SliceV), StrV{r, K(0)}, pos))
		},
		"strconv.FormatInt": func(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
			r := App("fmtint", SStr, args[0].(Sc).t, args[1].(Sc).t)
			st.assume(Le(K(1), slen(r)), Le(slen(r), K(65)))
			e.assumed["external strconv.FormatInt is fmtint(n)"] = true
			k(st, StrV{r, K(0)})
		},
		"strconv.Itoa": func(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
			r := App("fmtint", SStr, args[0].(Sc).t, K(10))
			st.assume(Le(K(1), slen(r)), Le(slen(r), K(65)))
			e.assumed["external strconv.Itoa is fmtint(n)"] = true
			k(st, StrV{r, K(0)})
		},
		"(time.Time).AppendFormat": func(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
			r := App("fmttime", SStr, args[0].(Sc).t, args[2].(StrV).s)
			st.assume(Le(K(1), slen(r)), Le(slen(r), K(100)))
			k(st, e.appendV(st, args[1].(SliceV), StrV{r, K(0)}, pos))
		},
		"fmt.Errorf":           mErr,
		"errors.New":           mErr,
		"(*sync.Pool).Get":     mPoolGet,
		"(*sync.Pool).Put":     mPoolPut,
		"(reflect.Value).Kind": nil,
	}
	for k, v := range models {
		if v == nil {
			delete(models, k)
		}
	}
}

func mNop(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	k(st, nil)
}

func mIdent(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	k(st, Sc{args[0].(Sc).t, rt})
}

func mErr(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	r := e.fresh("err", SInt)
	st.assume(Lt(K(2000000), r), Eq(itag(r), K(1)))
	e.assumed["fmt.Errorf and errors.New return a non-nil error and change nothing"] = true
	k(st, IfaceV{t: r})
}

// poolType: the one dynamic type ever put in a pool variable.
func (p *Prog) poolType(g *ssa.Global) types.Type {
	var t types.Type
	for _, fn := range p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil || fullName(c.Common().StaticCallee()) != "(*sync.Pool).Put" || c.Common().Args[0] != g {
					continue
				}
				mi, ok := c.Common().Args[1].(*ssa.MakeInterface)
				if !ok || t != nil && !types.Identical(t, mi.X.Type()) {
					return nil
				}
				t = mi.X.Type()
			}
		}
	}
	return t
}

func mPoolGet(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	g, ok := args[0].(GlobPtr)
	if !ok {
		unsup("pool %T", args[0])
	}
	t := e.P.poolType(g.g)
	if t == nil {
		unsup("pool %s holds values of no single type", g.g.Name())
	}
	e.assumed["sync.Pool "+g.g.Name()+" returns nil or a value put into it, which nobody else holds"] = true
	r := e.fresh("pool", SInt)
	st.assume(Le(K(0), r), Imp(Ne(r, K(0)), Eq(itag(r), typeTag(t))))
	e.branch(st, Eq(r, K(0)), pos, func(s *State, isnil bool) {
		if isnil {
			k(s, IfaceV{t: K(0)})
			return
		}
		// a pooled object: some object allocated earlier, now exclusively ours
		p := e.freshVal(s, t, "pooled")
		if sc, ok := p.(Sc); ok {
			s.assume(Lt(K(0), sc.t))
			if m := e.P.ctrs.pools[g.g.Name()]; m != nil {
				// it is as it was when it was put there
				s.assume(Lt(sc.t, s.get("next", SInt)), e.poolInv(s, m, p))
				k(s, IfaceV{t: r, typ: t, v: p})
				return
			}
			for _, l := range leaves(derefT(t)) {
				key := fieldKey(typeName(derefT(t)), l.path)
				s.set(key, Sto(s.get(key, SArr(l.sort)), sc.t, e.fresh("pl_"+l.path, l.sort)))
			}
		}
		k(s, IfaceV{t: r, typ: t, v: p})
	})
}

func byteAt(e *Exec, st *State, v Val, i *T) *T {
	switch x := v.(type) {
	case SliceV:
		return Sel(Sel(e.bmem(st), x.base), Add(x.off, i))
	case StrV:
		return sbyte(x.s, i)
	}
	unsup("bytes of %T", v)
	return nil
}

func lenOf(v Val) *T {
	switch x := v.(type) {
	case SliceV:
		return x.ln
	case StrV:
		return slen(x.s)
	}
	unsup("length of %T", v)
	return nil
}

func (e *Exec) strOfVal(st *State, v Val) *T {
	switch x := v.(type) {
	case SliceV:
		return e.sliceStr(st, x)
	case StrV:
		return x.s
	}
	unsup("string of %T", v)
	return nil
}

func mIndexByte(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	n := lenOf(args[0])
	c := args[1].(Sc).t
	r := e.fresh("idx", SInt)
	if s, ok := args[0].(StrV); ok {
		r = App("s_indexbyte", SInt, s.s, c)
		st.assume(Le(K(0), n), Le(n, KB(maxLen)))
	}
	st.assume(rawLe(K(-1), r), Lt(r, n))
	setRange(r, big.NewInt(-1), maxLen)
	st.assume(Imp(Le(K(0), r), Eq(byteAt(e, st, args[0], r), c)))
	j := BVar("j", SInt)
	bj := byteAt(e, st, args[0], j)
	st.assume(Forall([]*T{j}, Imp(And(Le(K(0), j), Or(And(Le(K(0), r), Lt(j, r)), And(Lt(r, K(0)), Lt(j, n)))), Ne(bj, c)), []*T{bj}))
	k(st, Sc{r, rt})
}

func mIndex(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	n := lenOf(args[0])
	r := App("s_index", SInt, e.strOfVal(st, args[0]), e.strOfVal(st, args[1]))
	st.assume(Le(K(-1), r), Imp(Le(K(0), r), Le(Add(r, lenOf(args[1])), n)))
	setRange(r, big.NewInt(-1), maxLen)
	e.assumed["Index finds a position at which the separator fits"] = true
	k(st, Sc{r, rt})
}

func mCompare(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	a, b := e.strOfVal(st, args[0]), e.strOfVal(st, args[1])
	e.strExt(st, a, b)
	e.emptyStr(st, a)
	e.emptyStr(st, b)
	if isBool(rt) {
		k(st, Sc{Eq(a, b), rt})
		return
	}
	r := App("s_compare", SInt, a, b)
	st.assume(Le(K(-1), r), Le(r, K(1)), Eq(Eq(r, K(0)), Eq(a, b)))
	setRange(r, big.NewInt(-1), big.NewInt(1))
	k(st, Sc{r, rt})
}

func (e *Exec) emptyStr(st *State, a *T) {
	z := strConst("")
	if a != z {
		st.assume(Eq(Eq(slen(a), K(0)), Eq(a, z)), Eq(slen(z), K(0)))
	}
}

// EqualFold: reflexive, otherwise unknown but deterministic.
func mEqualFold(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	a, b := e.strOfVal(st, args[0]), e.strOfVal(st, args[1])
	r := App("s_equalfold", SBool, a, b)
	st.assume(Imp(Eq(a, b), r))
	e.assumed["EqualFold is a deterministic relation that holds of equal strings"] = true
	k(st, Sc{r, rt})
}

func mTrim(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	b := args[0].(SliceV)
	r := SliceV{base: e.fresh("tb", SInt), off: e.fresh("to", SInt), ln: e.fresh("tl", SInt), cp: e.fresh("tc", SInt), elem: b.elem}
	setRange(r.off, big.NewInt(0), maxLen)
	setRange(r.ln, big.NewInt(0), maxLen)
	setRange(r.cp, big.NewInt(0), maxLen)
	isnil := And(Eq(r.base, K(0)), Eq(r.ln, K(0)), Eq(r.cp, K(0)), Eq(r.off, K(0)))
	sub := And(Eq(r.base, b.base), Le(b.off, r.off), Le(Add(r.off, r.ln), Add(b.off, b.ln)), rawLe(r.ln, r.cp), Eq(Add(r.off, r.cp), Add(b.off, b.cp)))
	st.assume(Or(isnil, sub), rawLe(K(0), r.off), rawLe(K(0), r.ln), rawLe(r.ln, r.cp), rawLe(r.cp, KB(maxLen)), rawLe(r.off, KB(maxLen)), Lt(r.base, st.get("next", SInt)), rawLe(K(0), r.base))
	if len(args) > 1 {
		e.trimFacts(st, b, r, args[1])
	}
	e.assumed["bytes.TrimFunc returns a subslice of its argument (or nil) and its predicate has no effect"] = true
	k(st, r)
}

// trimFacts: nothing more is needed than the subslice fact.
func (e *Exec) trimFacts(st *State, b, r SliceV, f Val) {}

func mEndian(n int, big bool) modelFn {
	return func(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
		b := args[1].(SliceV)
		e.oblige(st, "bounds", "fixed-width read in range", pos, Le(K(int64(n)), b.ln))
		var ts []*T
		for i := 0; i < n; i++ {
			x := Sc{byteAt(e, st, b, K(int64(i))), types.Typ[types.Uint8]}
			e.facts(st, x.typ, x)
			sh := uint(8 * i)
			if big {
				sh = uint(8 * (n - 1 - i))
			}
			ts = append(ts, MulK(pow2(sh), x.t))
		}
		k(st, Sc{Add(ts...), rt})
	}
}

func mPutEndian(n int, bigE bool) modelFn {
	return func(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
		b := args[1].(SliceV)
		v := args[2].(Sc).t
		e.oblige(st, "bounds", "fixed-width write in range", pos, Le(K(int64(n)), b.ln))
		if b.simple != nil {
			unsup("fixed-width write into a packed payload")
		}
		m := e.bmem(st)
		row := Sel(m, b.base)
		for i := 0; i < n; i++ {
			sh := uint(8 * i)
			if bigE {
				sh = uint(8 * (n - 1 - i))
			}
			row = Sto(row, Add(b.off, K(int64(i))), ModK(DivK(v, pow2(sh)), big.NewInt(256)))
		}
		st.set("M:byte.", Sto(m, b.base, row))
		k(st, nil)
	}
}

// appendLoose: an external appends a text; it may move to a new object even while there is room, and scribble over
// the unused capacity behind the result.
func (e *Exec) appendLoose(st *State, d SliceV, s *T) Val {
	n := slen(s)
	st.assume(Le(K(0), n), Le(n, KB(maxLen)))
	nl := Add(d.ln, n)
	nx := st.get("next", SInt)
	base, cp := e.fresh("ab", SInt), e.fresh("acap", SInt)
	setRange(cp, pow2(0).SetInt64(0), maxLen)
	inplace := And(Ne(d.base, K(0)), Le(nl, d.cp), Eq(base, d.base), Eq(cp, d.cp))
	st.assume(Or(inplace, Eq(base, nx)), rawLe(K(0), cp), rawLe(cp, KB(maxLen)), rawLe(nl, cp))
	st.set("next", Add(nx, K(1)))
	st.allocs = append(st.allocs, nx)
	key := memKey(d.elem, "")
	m := st.get(key, SArr(SArr(SInt)))
	row0 := Sel(m, d.base)
	at := Add(d.off, d.ln)
	row := e.fresh("arow", SArr(SInt))
	i := BVar("i", SInt)
	in := And(Le(at, i), Lt(i, Add(at, n)))
	st.assume(Forall([]*T{i}, Imp(in, Eq(Sel(row, i), sbyte(s, Sub(i, at)))), []*T{Sel(row, i)}))
	st.assume(Forall([]*T{i}, Imp(Or(Lt(i, at), Le(Add(d.off, d.cp), i)), Eq(Sel(row, i), Sel(row0, i))), []*T{Sel(row, i)}))
	st.set(key, Sto(m, base, row))
	return SliceV{base: base, off: d.off, ln: nl, cp: cp, elem: d.elem}
}

func (e *Exec) poolInv(st *State, m *macro, p Val) *T {
	ev := &specEnv{e: e, st: st, old: st, vars: map[string]Val{m.params[0]: p}}
	return e.evalClause(st, ev, Clause{expr: m.body})
}

// mPoolPut: what holds of everything in the pool holds of what is put there.
func mPoolPut(e *Exec, st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	if g, ok := args[0].(GlobPtr); ok && e.ctr != nil && e.ctr.caches {
		if m := e.P.ctrs.pools[g.g.Name()]; m != nil {
			v := args[1].(IfaceV)
			for _, c := range conj(e.poolInv(st, m, v.v)) {
				e.oblige(st, "data-invariant", "what is put into the pool "+g.g.Name()+" is in use nowhere else", pos, c)
			}
		}
	}
	mNop(e, st, fn, args, rt, pos, k)
}
