package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Exec) call(st *State, fr *Frame, instr ssa.Value, c *ssa.CallCommon, pos token.Pos, k func(*State, Val)) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(st, fr, a))
	}
	rt := instr.Type()
	if c.IsInvoke() {
		v := e.val(st, fr, c.Value).(IfaceV)
		if v.typ != nil {
			if fn := e.P.prog.LookupMethod(v.typ, c.Method.Pkg(), c.Method.Name()); fn != nil && fn.Package() == e.P.pkg {
				e.callFn(st, fr, fn, append([]Val{v.v}, args...), nil, rt, pos, k)
				return
			}
		}
		if c.Method.Name() == "Error" {
			e.oblige(st, "no-nil-deref", "error value is not nil", pos, Ne(v.t, K(0)))
			e.assumed["(error).Error returns some string and changes nothing"] = true
			k(st, e.freshVal(st, rt, "errstr"))
			return
		}
		unsup("interface call %s", c.Method.Name())
	}
	switch f := e.val(st, fr, c.Value).(type) {
	case *ssa.Builtin:
		e.builtin(st, fr, f, c, args, rt, pos, k)
		return
	case FuncV:
		if f.fn != nil {
			e.callFn(st, fr, f.fn, args, f.binds, rt, pos, k)
			return
		}
		if f.t != nil {
			e.oblige(st, "no-nil-deref", "function value is not nil", pos, Ne(f.t, K(0)))
		}
		e.assumed["caller-supplied callbacks return normally and do not modify the values involved"] = true
		res := e.resultVal(st, rt, "cb")
		if e.ctr != nil && len(e.ctr.cbNames) == len(args)+1 {
			ev := e.env(e.ctr, e.fn, e.args, st, e.entry)
			for i, a := range args {
				ev.vars[e.ctr.cbNames[i]] = a
			}
			for i, c := range e.ctr.cbReq {
				if tagOK(c.tags, e.tags) {
					e.oblige(st, "callback", fmt.Sprintf("the caller's function is called with #%d: %s", i, c.text), pos, e.evalClause(st, ev, c))
				}
			}
			ev.vars[e.ctr.cbNames[len(args)]] = res
			for _, c := range e.ctr.cbAss {
				if tagOK(c.tags, e.tags) {
					st.assume(e.named(st, e.evalClause(st, ev, c)))
				}
			}
		}
		k(st, res)
		return
	}
	unsup("call through %T", c.Value)
}

func (e *Exec) resultVal(st *State, rt types.Type, h string) Val {
	if tp, ok := rt.(*types.Tuple); ok && tp.Len() == 0 {
		return nil
	}
	return e.freshVal(st, rt, h)
}

func resVal(rs []Val) Val {
	switch len(rs) {
	case 0:
		return nil
	case 1:
		return rs[0]
	}
	return TupleV(rs)
}

func (e *Exec) callFn(st *State, fr *Frame, fn *ssa.Function, args, binds []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	inRepo := fn.Package() == e.P.pkg || fn.Parent() != nil
	if !inRepo {
		if o := fn.Origin(); o != nil && o.Package() == e.P.pkg {
			inRepo = true
		}
	}
	if m, ok := models[fullName(fn)]; ok {
		e.called[fullName(fn)] = true
		m(e, st, fn, args, rt, pos, k)
		return
	}
	if inRepo {
		if fn.Parent() == nil {
			if ctr := e.P.ctrs.byFn[shortName(fn)]; ctr != nil && !ctr.inline && tagOK(ctr.tags, e.tags) && !e.inlines(shortName(fn)) {
				e.applyContract(st, ctr, fn, args, rt, pos, k)
				return
			}
		}
		// inline
		for f := fr; f != nil; f = f.up {
			if f.fn == fn {
				unsup("recursive call of %s without a contract", shortName(fn))
			}
		}
		if fr.depth > 12 {
			unsup("inlining too deep at %s", fn)
		}
		if fn.Parent() == nil {
			e.inlined[shortName(fn)] = true
		}
		e.callBody(st, fn, args, binds, fr.depth+1, fr, func(s *State, rs []Val) { k(s, resVal(rs)) })
		return
	}
	e.extern(st, fn, args, rt, pos, k)
}

// ---------- contracts at call sites ----------

func (e *Exec) env(ctr *Contract, fn *ssa.Function, args []Val, st, old *State) *specEnv {
	s := &specEnv{e: e, st: st, old: old, vars: map[string]Val{}}
	if len(ctr.params) > len(args) {
		unsup("contract of %s names %d parameters, the function has %d", ctr.name, len(ctr.params), len(args))
	}
	for i, p := range ctr.params {
		if p != "_" {
			s.vars[p] = args[i]
		}
	}
	for _, g := range ctr.ghosts {
		s.vars[g] = Sc{e.ghost(g, st), tInt}
	}
	return s
}

// ghost: a ghost parameter of a contract. The function under verification gets an arbitrary value (its
// preconditions may constrain it); a callee gets the caller's ghost of the same name or, if it has none, the
// first address the caller's own allocations can have. Preconditions are checked with that instance.
func (e *Exec) ghost(g string, st *State) *T {
	if e.ctr != nil {
		for _, x := range e.ctr.ghosts {
			if x == g {
				if e.ghosts == nil {
					e.ghosts = map[string]*T{}
				}
				if e.ghosts[g] == nil {
					t := e.fresh("gh_"+g, SInt)
					e.ghosts[g] = t
					st.assume(Lt(K(0), t), Le(t, st.get("next", SInt)))
				}
				return e.ghosts[g]
			}
		}
	}
	if e.entry != nil {
		return e.entry.get("next", SInt)
	}
	return st.get("next", SInt)
}

func (s *specEnv) bindResults(ctr *Contract, rs []Val) {
	for i, n := range ctr.results {
		if i < len(rs) && n != "_" {
			s.vars[n] = rs[i]
		}
	}
}

// evalClause evaluates a clause, assuming the type facts of what it reads.
func (e *Exec) evalClause(st *State, s *specEnv, c Clause) *T {
	var side []*T
	s.side = &side
	t := s.Bool(c.expr)
	s.side = nil
	st.assume(side...)
	return t
}

func (e *Exec) applyContract(st *State, ctr *Contract, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	name := shortName(fn)
	e.called[name] = true
	if ctr.trusted != "" {
		e.assumed["contract of "+name+" is assumed: "+ctr.trusted] = true
	}
	pre := e.env(ctr, fn, args, st, st)
	if ctr.dynParam != "" {
		v, ok := pre.vars[ctr.dynParam].(IfaceV)
		if !ok || v.typ == nil {
			unsup("call of %s with a value of unknown dynamic type", name)
		}
		in := False
		for _, x := range ctr.dynTypes {
			if types.Identical(v.typ, e.P.typeNamed(x)) {
				in = True
			}
		}
		e.oblige(st, "precondition", fmt.Sprintf("%s takes a value of type %s", name, v.typ), pos, in)
	}
	for i, c := range ctr.requires {
		if !tagOK(c.tags, e.tags) {
			continue
		}
		e.oblige(st, "precondition", fmt.Sprintf("%s requires #%d: %s", name, i, c.text), pos, e.evalClause(st, pre, c))
	}
	e.checkDecrease(st, ctr, fn, pre, pos)
	old := st.snap()
	nx := st.get("next", SInt)
	nn := e.fresh("next", SInt)
	st.set("next", nn)
	st.assume(Le(nx, nn))
	var res Val
	var rs []Val
	if tp, ok := rt.(*types.Tuple); ok {
		if tp.Len() > 0 {
			tv := e.freshVal(st, rt, "r_"+fn.Name()).(TupleV)
			rs = []Val(tv)
			res = tv
		}
	} else {
		res = e.freshVal(st, rt, "r_"+fn.Name())
		rs = []Val{res}
	}
	pre.bindResults(ctr, rs)
	e.havoc(st, ctr, pre.in(old), nx)
	post := e.env(ctr, fn, args, st, old)
	post.bindResults(ctr, rs)
	for _, c := range ctr.ensures {
		if !tagOK(c.tags, e.tags) {
			continue
		}
		if c.trusted {
			e.assumed["assumed of "+name+": "+c.text] = true
		}
		st.assume(e.named(st, e.evalClause(st, post, c)))
	}
	k(st, res)
}

func (e *Exec) structLeaves(root types.Type, path string) []leaf {
	var out []leaf
	for _, l := range leaves(root) {
		if path == "*" || l.path == path || strings.HasPrefix(l.path, path+".") {
			out = append(out, l)
		}
	}
	return out
}

func (e *Exec) havoc(st *State, ctr *Contract, pre *specEnv, nx *T) {
	pre.old = pre.st
	// any call may use the caches
	for _, l := range leaves(e.P.byName["ValueCache"]) {
		st.set(fieldKey("ValueCache", l.path), e.fresh("vc_"+l.path, SArr(l.sort)))
	}
	// frame conditions do not speak about error objects
	for _, k := range sortedKeys(st.heap) {
		if strings.HasPrefix(k, "ErrorParse") {
			st.set(k, e.fresh("err_"+k, st.heap[k].sort))
		}
	}
	defer func() { st.assume(e.constFacts(st)...) }()
	for _, m := range ctr.modifies {
		if !tagOK(m.tags, e.tags) {
			continue
		}
		switch m.kind {
		case "field":
			v := pre.eval(m.expr)
			ref, root, rootT, pfx := e.refOf(v)
			for _, l := range e.structLeaves(rootT, m.path) {
				key := fieldKey(root, join(pfx, l.path))
				a := st.get(key, SArr(l.sort))
				f := e.fresh("m_"+l.path, l.sort)
				st.set(key, Sto(a, ref, f))
				if l.typ != nil {
					e.facts(st, l.typ, leafVal(l, f))
				}
			}
		case "mem", "spare":
			sl := pre.eval(m.expr).(SliceV)
			for _, l := range leaves(sl.elem) {
				if !m.covers(l.path) {
					continue
				}
				key := memKey(sl.elem, l.path)
				a := st.get(key, SArr(SArr(l.sort)))
				row := e.fresh("row", SArr(l.sort))
				if m.kind == "spare" {
					i := BVar("i", SInt)
					st.assume(Forall([]*T{i}, Imp(Lt(i, Add(sl.off, sl.ln)), Eq(Sel(row, i), Sel(Sel(a, sl.base), i))), []*T{Sel(row, i)}))
				}
				st.set(key, Sto(a, sl.base, row))
			}
		case "nodes":
			t := e.P.byName["DxValue"]
			u := BVar("u", SInt)
			p := pre.with(m.path, Sc{u, types.NewPointer(t)})
			p.inq++
			ok := p.Bool(m.expr)
			for _, l := range leaves(t) {
				if !m.covers(l.path) {
					continue
				}
				key := fieldKey("DxValue", l.path)
				a := st.get(key, SArr(l.sort))
				n := e.fresh("N_"+l.path, SArr(l.sort))
				e.wild[n] = e.wild[n] || ok == True
				st.assume(Forall([]*T{u}, Imp(And(Lt(K(0), u), Lt(u, nx), Not(ok)), Eq(Sel(n, u), Sel(a, u))), []*T{Sel(n, u)}))
				st.set(key, n)
			}
		case "rows":
			q := strings.Split(m.path, "|")
			t := e.P.specType(q[0])
			u := BVar("u", SInt)
			p := pre.with(q[1], Sc{u, tInt})
			p.inq++
			ok := p.Bool(m.expr)
			for _, l := range leaves(t) {
				if !m.covers(l.path) {
					continue
				}
				key := memKey(t, l.path)
				a := st.get(key, SArr(SArr(l.sort)))
				n := e.fresh("R_"+l.path, SArr(SArr(l.sort)))
				e.wild[n] = e.wild[n] || ok == True
				st.assume(Forall([]*T{u}, Imp(And(Lt(K(0), u), Lt(u, nx), Not(ok)), Eq(Sel(n, u), Sel(a, u))), []*T{Sel(n, u)}))
				st.set(key, n)
			}
		case "global":
			g, ok := e.P.pkg.Members[m.path].(*ssa.Global)
			if !ok {
				unsup("no variable %s", m.path)
			}
			t := g.Type().(*types.Pointer).Elem()
			for _, l := range leaves(t) {
				st.set("G:"+m.path+"."+l.path, e.fresh("g", l.sort))
			}
		}
	}
}

func leafVal(l leaf, t *T) Val {
	if l.sort == SStr {
		return StrV{t, K(0)}
	}
	return Sc{t, l.typ}
}

func (p *Prog) specType(n string) types.Type {
	switch n {
	case "byte":
		return types.Typ[types.Uint8]
	case "nodeptr":
		return types.NewPointer(p.byName["DxValue"])
	}
	if t := p.byName[n]; t != nil {
		return t
	}
	panic("spec type " + n)
}

func (e *Exec) refOf(v Val) (ref *T, root string, t types.Type, pfx string) {
	switch x := v.(type) {
	case Sc:
		d := derefT(x.typ)
		return x.t, typeName(d), d, ""
	case FieldPtr:
		return x.ref, x.root, x.typ, x.path
	case IfaceV:
		if x.typ != nil {
			return e.refOf(x.v)
		}
	}
	unsup("reference %T", v)
	return
}

// checkDecrease: a call inside a recursive cycle lowers the caller's measure.
func (e *Exec) checkDecrease(st *State, ctr *Contract, fn *ssa.Function, pre *specEnv, pos token.Pos) {
	if !e.P.sameSCC(e.fn, fn) {
		return
	}
	if e.ctr == nil || len(e.ctr.decreases) == 0 || len(ctr.decreases) == 0 {
		if ctr.trusted != "" {
			return
		}
		e.oblige(st, "termination", "recursive call of "+shortName(fn)+" has a measure", pos, False)
		return
	}
	var a, b []*T
	for _, x := range e.ctr.decreases {
		a = append(a, e.entryEv.Int(x))
	}
	p := pre.in(st)
	for _, x := range ctr.decreases {
		b = append(b, p.Int(x))
	}
	for len(a) < len(b) {
		a = append(a, K(0))
	}
	for len(b) < len(a) {
		b = append(b, K(0))
	}
	var alts []*T
	eq := True
	for i := range a {
		alts = append(alts, And(eq, Lt(b[i], a[i]), Le(K(0), a[i])))
		eq = And(eq, Eq(a[i], b[i]))
	}
	e.oblige(st, "termination", "measure decreases at call of "+shortName(fn), pos, Or(alts...))
}

// ---------- builtins ----------

func (e *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			k(st, Sc{x.ln, tInt})
			return
		case StrV:
			st.assume(Le(K(0), slen(x.s)), Le(slen(x.s), KB(maxLen)))
			st.assume(strLitFacts(x.s)...)
			if l, ok := litOf(x.s); ok {
				k(st, Sc{K(int64(len(l))), tInt})
				return
			}
			k(st, Sc{slen(x.s), tInt})
			return
		}
	case "cap":
		if x, ok := args[0].(SliceV); ok {
			k(st, Sc{x.cp, tInt})
			return
		}
	case "append":
		if d := args[0].(SliceV); isNode(d.elem) {
			e.appendNodes(st, d, args[1], pos, k)
			return
		}
		k(st, e.appendV(st, args[0].(SliceV), args[1], pos))
		return
	case "copy":
		k(st, e.copyV(st, args[0].(SliceV), args[1], pos))
		return
	case "ssa:wrapnilchk":
		if x, ok := args[0].(Sc); ok {
			e.nonNil(st, x, pos)
		}
		k(st, args[0])
		return
	case "min", "max":
		a, b2 := args[0].(Sc), args[1].(Sc)
		c := Le(a.t, b2.t)
		if b.Name() == "max" {
			c = Le(b2.t, a.t)
		}
		k(st, Sc{Ite(c, a.t, b2.t), a.typ})
		return
	}
	unsup("builtin %s", b.Name())
}

// srcRow gives element-wise access to the appended/copied source for one leaf.
func (e *Exec) srcRow(st *State, src Val, path string, so Sort) (row, off, n *T, str *T) {
	switch x := src.(type) {
	case StrV:
		return nil, K(0), slen(x.s), x.s
	case SliceV:
		k := memKey(x.elem, path)
		return Sel(st.get(k, SArr(SArr(so))), x.base), x.off, x.ln, nil
	}
	unsup("source %T", src)
	return
}

// appendV: the result is in place when the capacity suffices, in a new object otherwise. Elements keep
// their offset in either case (the offset of a new object is not observable).
func (e *Exec) appendV(st *State, d SliceV, src Val, pos token.Pos) Val {
	if isNode(d.elem) {
		unsup("append to a slice of values")
	}
	if y, ok := src.(SliceV); ok && y.base.isConst() && y.base.val.Sign() == 0 {
		return d
	}
	var n *T
	if s, ok := src.(StrV); ok {
		n = slen(s.s)
		if l, ok := litOf(s.s); ok {
			n = K(int64(len(l)))
			st.assume(strLitFacts(s.s)...)
		}
		st.assume(Le(K(0), n), Le(n, KB(maxLen)))
	} else {
		n = src.(SliceV).ln
	}
	nl := Add(d.ln, n)
	e.assumed["slices stay below 2^47 elements (appending never overflows a length)"] = true
	nx := st.get("next", SInt)
	base := e.fresh("ab", SInt)
	cp := e.fresh("acap", SInt)
	setRange(cp, pow2(0).SetInt64(0), maxLen)
	fit := Le(nl, d.cp)
	if n.isConst() && n.val.Sign() == 0 {
		fit = True
	}
	st.assume(Imp(And(fit, Ne(d.base, K(0))), And(Eq(base, d.base), Eq(cp, d.cp))), Imp(And(Not(fit), Ne(n, K(0))), And(Eq(base, nx), Le(nl, cp))))
	st.assume(Imp(And(Eq(d.base, K(0)), Eq(n, K(0))), And(Eq(base, K(0)), Eq(cp, K(0)))))
	st.assume(rawLe(K(0), cp), rawLe(cp, KB(maxLen)), rawLe(nl, cp), rawLe(K(0), base), Or(Eq(base, d.base), Eq(base, nx)))
	st.set("next", Add(nx, K(1)))
	st.allocs = append(st.allocs, nx)
	// write
	small := int64(-1)
	if n.isConst() && n.val.IsInt64() && n.val.Int64() <= 32 {
		small = n.val.Int64()
	}
	for _, l := range leaves(d.elem) {
		key := memKey(d.elem, l.path)
		m := st.get(key, SArr(SArr(l.sort)))
		row0 := Sel(m, d.base)
		at := Add(d.off, d.ln)
		if l.part == "prov" {
			// provenance of strings travels with them
		}
		row := row0
		if small >= 0 {
			for i := int64(0); i < small; i++ {
				var x *T
				r, o, _, s := e.srcRow(st, src, l.path, l.sort)
				if s != nil {
					if lit, ok := litOf(s); ok {
						x = K(int64(lit[i]))
					} else {
						x = sbyte(s, K(i))
					}
				} else {
					x = Sel(r, Add(o, K(i)))
				}
				row = Sto(row, Add(at, K(i)), x)
			}
		} else {
			row = e.fresh("arow", SArr(l.sort))
			i := BVar("i", SInt)
			r, o, _, s := e.srcRow(st, src, l.path, l.sort)
			var x *T
			if s != nil {
				x = sbyte(s, Sub(i, at))
			} else {
				x = Sel(r, Add(o, Sub(i, at)))
			}
			in := And(Le(at, i), Lt(i, Add(at, n)))
			st.assume(Forall([]*T{i}, Imp(in, Eq(Sel(row, i), x)), []*T{Sel(row, i)}))
			st.assume(Forall([]*T{i}, Imp(Not(in), Eq(Sel(row, i), Sel(row0, i))), []*T{Sel(row, i)}))
		}
		st.set(key, Sto(m, base, row))
	}
	return SliceV{base: base, off: d.off, ln: nl, cp: cp, elem: d.elem}
}

// appendNodes: []DxValue growth moves the value structs; the moved ones keep their contents under new addresses.
// The rows they hold move with them, so only the new element is used afterwards (its rows are its own).
func (e *Exec) appendNodes(st *State, d SliceV, src Val, pos token.Pos, k func(*State, Val)) {
	x, ok := src.(SliceV)
	if !ok || !x.ln.isConst() || x.ln.val.Int64() != 1 {
		unsup("append to a slice of values")
	}
	from := slotOf(x.base, x.off)
	e.branch(st, Le(Add(d.ln, K(1)), d.cp), pos, func(s *State, fit bool) {
		r := d
		if !fit {
			nb := e.newBase(s)
			cp := e.fresh("acap", SInt)
			s.assume(Le(Add(d.ln, K(1)), cp), Le(cp, KB(maxLen)))
			for _, l := range leaves(d.elem) {
				key := fieldKey("DxValue", l.path)
				old := s.get(key, SArr(l.sort))
				now := e.fresh("mv_"+l.path, SArr(l.sort))
				u := BVar("u", SInt)
				ix := App("slotidx", SInt, u)
				moved := And(Eq(App("slotbase", SInt, u), nb), Lt(u, K(0)), Le(d.off, ix), Lt(ix, Add(d.off, d.ln)))
				s.assume(Forall([]*T{u}, Eq(Sel(now, u), Ite(moved, Sel(old, slotOf(d.base, ix)), Sel(old, u))), []*T{Sel(now, u)}))
				s.set(key, now)
			}
			r = SliceV{base: nb, off: d.off, cp: cp, elem: d.elem}
		}
		r.ln = Add(d.ln, K(1))
		to := e.slotFacts(s, r.base, Add(r.off, d.ln))
		for _, l := range leaves(d.elem) {
			key := fieldKey("DxValue", l.path)
			a := s.get(key, SArr(l.sort))
			s.set(key, Sto(a, to, Sel(a, from)))
		}
		k(s, r)
	})
}

func (e *Exec) inlines(n string) bool {
	if e.ctr != nil {
		for _, x := range e.ctr.inlines {
			if x == n {
				return true
			}
		}
	}
	return false
}

func (e *Exec) copyV(st *State, d SliceV, src Val, pos token.Pos) Val {
	var n *T
	if s, ok := src.(StrV); ok {
		n = slen(s.s)
	} else {
		n = src.(SliceV).ln
	}
	cnt := Ite(Le(n, d.ln), n, d.ln)
	if d.simple != nil {
		s, ok := src.(SliceV)
		if ok && s.simple == nil && d.ln.isConst() && d.ln == s.ln && d.ln.val.Int64() == 8 && d.off.isConst() && d.off.val.Sign() == 0 {
			row := Sel(st.get(memKey(s.elem, ""), SArr(SArr(SInt))), s.base)
			v := K(0)
			w := K(1)
			for i := int64(0); i < 8; i++ {
				x := Sel(row, Add(s.off, K(i)))
				st.assume(Le(K(0), x), Lt(x, K(256)))
				v = Add(v, Mul(w, x))
				w = Mul(w, K(256))
			}
			e.setBits(st, *d.simple, v)
			return Sc{K(8), tInt}
		}
		if !ok || s.simple == nil || !d.ln.isConst() || !s.ln.isConst() || d.ln != s.ln || !d.off.isConst() || d.off.val.Sign() != 0 || !s.off.isConst() || s.off.val.Sign() != 0 || d.ln.val.Int64() != 8 {
			unsup("partial copy into a packed payload")
		}
		e.setBits(st, *d.simple, e.bitsOf(st, *s.simple))
		return Sc{K(8), tInt}
	}
	for _, l := range leaves(d.elem) {
		key := memKey(d.elem, l.path)
		m := st.get(key, SArr(SArr(l.sort)))
		row0 := Sel(m, d.base)
		row := e.fresh("crow", SArr(l.sort))
		i := BVar("i", SInt)
		r, o, _, s := e.srcRow(st, src, l.path, l.sort)
		var x *T
		if s != nil {
			x = sbyte(s, Sub(i, d.off))
		} else {
			x = Sel(r, Add(o, Sub(i, d.off)))
		}
		in := And(Le(d.off, i), Lt(i, Add(d.off, cnt)))
		st.assume(Forall([]*T{i}, Imp(in, Eq(Sel(row, i), x)), []*T{Sel(row, i)}))
		st.assume(Forall([]*T{i}, Imp(Not(in), Eq(Sel(row, i), Sel(row0, i))), []*T{Sel(row, i)}))
		st.set(key, Sto(m, d.base, row))
	}
	return Sc{cnt, tInt}
}

// ---------- externals ----------

// pureExt: functions outside the repository treated as unknown deterministic functions of their
// arguments that return normally and change nothing.
var pureExt = map[string]bool{
	"time.Unix": true, "(time.Time).Unix": true, "(time.Time).UnixNano": true, "(time.Time).Nanosecond": true, "(time.Time).Format": true,
	"(time.Time).Add": true, "(time.Time).Sub": true, "time.Date": true, "(time.Time).UnixMilli": true, "(time.Time).In": true, "(time.Time).IsZero": true,
	"time.ParseInLocation": true, "time.ParseDuration": true,
	"DxCommonLib.Time2DelphiTime": true, "(DxCommonLib.TDateTime).ToTime": true, "DxCommonLib.ParserJsonTime": true,
	"DxCommonLib.StrToIntDef": true, "DxCommonLib.StrToFloatDef": true, "DxCommonLib.Bin2Hex": true, "DxCommonLib.ParseFloat": true, "DxCommonLib.ParseInt64": true, "errors.Is": true,
	"strings.HasPrefix": true, "strings.HasSuffix": true, "strings.Contains": true, "strings.ToUpper": true, "strings.Compare": true, "strings.Count": true, "strings.ContainsRune": true, "strings.IndexRune": true,
	"bytes.HasPrefix": true, "bytes.HasSuffix": true, "bytes.Contains": true, "bytes.Count": true, "unicode.IsSpace": true, "unicode.IsDigit": true, "unicode.IsLetter": true, "math.Signbit": true, "math.Abs": true,
	"strconv.FormatInt": true, "strconv.FormatFloat": true, "strconv.Itoa": true, "strconv.ParseFloat": true, "strconv.ParseInt": true,
	"strings.EqualFold": true, "bytes.EqualFold": true, "strings.ToLower": true, "strings.TrimSpace": true,
	"math.IsNaN": true, "math.IsInf": true, "math.Inf": true, "math.NaN": true, "fmt.Sprintf": true,
}

func (e *Exec) ufArgs(st *State, args []Val) []*T {
	var out []*T
	for _, a := range args {
		switch x := a.(type) {
		case Sc:
			out = append(out, x.t)
		case StrV:
			out = append(out, x.s)
		case SliceV:
			if b, ok := x.elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				out = append(out, e.sliceStr(st, x))
			} else if !(x.base.isConst() && x.base.val.Sign() == 0) {
				unsup("slice argument of an external function")
			}
		case IfaceV:
			out = append(out, x.t)
		case StructV:
			out = append(out, e.ufArgs(st, x.f)...)
		default:
			unsup("argument %T of an external function", a)
		}
	}
	return out
}

func (e *Exec) sliceStr(st *State, x SliceV) *T {
	if x.src != nil {
		return x.src
	}
	return e.strOf(st, x)
}

func (e *Exec) extern(st *State, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos, k func(*State, Val)) {
	n := fullName(fn)
	if !pureExt[n] {
		unsup("external function %s", n)
	}
	e.assumed["external "+n+" is total, deterministic and changes nothing"] = true
	var as []*T
	if n == "fmt.Sprintf" {
		k(st, e.freshVal(st, rt, "sprintf"))
		return
	}
	as = e.ufArgs(st, args)
	k(st, e.ufResult(st, "x_"+sanitize(n), rt, as))
}

// ufResult builds a result whose leaves are uninterpreted functions of the arguments.
func (e *Exec) ufResult(st *State, name string, rt types.Type, as []*T) Val {
	i := 0
	var mk func(t types.Type) Val
	mk = func(t types.Type) Val {
		if tp, ok := t.(*types.Tuple); ok {
			var r TupleV
			for j := 0; j < tp.Len(); j++ {
				r = append(r, mk(tp.At(j).Type()))
			}
			return r
		}
		if _, ok := t.Underlying().(*types.Slice); ok {
			v := e.freshVal(st, t, name)
			return v
		}
		v := build(t, "", func(p string, s Sort) *T {
			if strings.HasSuffix(p, "prov") {
				return K(0)
			}
			i++
			return App(fmt.Sprintf("%s_%d", name, i), s, as...)
		})
		e.facts(st, t, v)
		return v
	}
	if tp, ok := rt.(*types.Tuple); ok && tp.Len() == 0 {
		return nil
	}
	return mk(rt)
}

// ---------- call graph ----------

func (p *Prog) callees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && !seen[g] {
						seen[g] = true
						if g.Parent() != nil {
							scan(g)
						} else if g.Package() == p.pkg {
							out = append(out, g)
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			if !seen[a] {
				seen[a] = true
				scan(a)
			}
		}
	}
	scan(fn)
	return out
}

func (p *Prog) reach(a *ssa.Function) map[*ssa.Function]bool {
	p.reachMu.Lock()
	defer p.reachMu.Unlock()
	if r, ok := p.reachTab[a]; ok {
		return r
	}
	r := map[*ssa.Function]bool{}
	st := p.callees(a)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if r[x] {
			continue
		}
		r[x] = true
		st = append(st, p.callees(x)...)
	}
	p.reachTab[a] = r
	return r
}

func (p *Prog) sameSCC(a, b *ssa.Function) bool {
	return p.reach(a)[b] && p.reach(b)[a]
}
