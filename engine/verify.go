package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnResult struct {
	Name    string
	Obls    []*Obl
	Assumed map[string]bool
	Inlined map[string]bool
	Called  map[string]bool
	Unsup   string
	Paths   int
	Returns int
	Vacuous string
	LightN  int
	Secs    float64
}

func (e *Exec) entryState() *State {
	st := &State{heap: map[string]*T{}, env: map[envKey]Val{}, cells: map[int]Val{}, known: map[*T]bool{}, written: map[string]bool{}}
	st.assume(Lt(K(1000), st.get("next", SInt)))
	for _, n := range []string{"DxValue", "ValueCache"} {
		for _, l := range leaves(e.P.byName[n]) {
			st.get(fieldKey(n, l.path), SArr(l.sort))
		}
	}
	for _, n := range []string{"byte", "strkv", "nodeptr"} {
		t := e.P.specType(n)
		for _, l := range leaves(t) {
			st.get(memKey(t, l.path), SArr(SArr(l.sort)))
		}
	}
	st.assume(e.constFacts(st)...)
	// the memory that exists holds only references to what exists
	for _, n := range []string{"strkv", "nodeptr"} {
		t := e.P.specType(n)
		for _, l := range leaves(t) {
			if l.sort == SInt {
				b, i := BVar("b", SInt), BVar("i", SInt)
				x := Sel(Sel(st.get(memKey(t, l.path), SArr(SArr(SInt))), b), i)
				st.assume(Forall([]*T{b, i}, And(Le(K(0), x), Lt(x, st.get("next", SInt))), []*T{x}))
			}
		}
	}
	if e.ctr != nil && e.ctr.caches {
		u := BVar("u", SInt)
		x := Sel(st.get("DxValue.ownercache", SArr(SInt)), u)
		st.assume(Forall([]*T{u}, And(Le(K(0), x), Lt(x, st.get("next", SInt))), []*T{x}))
	}
	return st
}

// constFacts: the shared constants have their kind and no content.
func (e *Exec) constFacts(st *State) []*T {
	var out []*T
	for _, g := range e.P.nodeGlobals() {
		gi := e.P.glob[g]
		r := K(gi.ref)
		for _, l := range leaves(e.P.byName["DxValue"]) {
			z := K(0)
			switch {
			case l.path == "DataType":
				z = K(gi.nodeK)
			case l.path == "fobject.keysUnescaped" || l.part == "prov" || l.part == "off" || l.part == "cap":
				continue
			case l.sort == SStr:
				z = strConst("")
			case l.sort == SBool:
				z = False
			}
			out = append(out, Eq(Sel(st.get(fieldKey("DxValue", l.path), SArr(l.sort)), r), z))
		}
	}
	return out
}

// constsKept: a return leaves the shared constants as they were.
func (e *Exec) constsKept(s *State, pos token.Pos) {
	var bad []*T
	for _, f := range e.constFacts(s) {
		if f != True && !s.known[f] {
			bad = append(bad, f)
		}
	}
	if len(bad) > 0 {
		e.oblige(s, "data-invariant", "the shared constants are unchanged", pos, And(bad...))
	}
}

func (e *Exec) run() (res *FnResult) {
	t0 := time.Now()
	res = &FnResult{Name: e.name, Assumed: e.assumed, Inlined: e.inlined, Called: e.called}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				res.Unsup = x.msg
			case string:
				res.Unsup = x
				if debugOn {
					debug.PrintStack()
				}
			default:
				if debugOn {
					debug.PrintStack()
				}
				res.Unsup = fmt.Sprint("internal: ", r)
			}
		}
		res.Obls = e.obls
		res.Paths = e.paths
		res.Returns = e.retSeen
		res.LightN = e.light.n
		e.light.close()
		res.Secs = time.Since(t0).Seconds()
		if res.Unsup == "" && res.Returns == 0 {
			res.Vacuous = "no path reaches a return"
		}
	}()
	pass := func(dyn types.Type) {
		st := e.entryState()
		e.ghosts = nil
		var args []Val
		for _, p := range e.fn.Params {
			v := e.freshVal(st, p.Type(), "p_"+p.Name())
			if fp, ok := v.(FieldPtr); ok {
				st.assume(Lt(K(0), fp.ref), Lt(fp.ref, st.get("next", SInt)))
			}
			if sv, ok := v.(StrV); ok {
				st.assume(Le(K(0), sv.prov), Lt(sv.prov, st.get("next", SInt)))
			}
			if fv, ok := v.(FuncV); ok && fv.t != nil {
				st.assume(Le(K(0), fv.t))
			}
			args = append(args, v)
		}
		if dyn != nil {
			for i, p := range e.ctr.params {
				if p != e.ctr.dynParam {
					continue
				}
				iv := args[i].(IfaceV)
				iv.typ = dyn
				iv.v = e.freshVal(st, dyn, "dyn_"+p)
				if sc, ok := iv.v.(Sc); ok && isPtr(dyn) {
					st.assume(Lt(K(0), sc.t), Lt(sc.t, st.get("next", SInt)))
				}
				if sv, ok := iv.v.(StrV); ok {
					st.assume(Le(K(0), sv.prov), Lt(sv.prov, st.get("next", SInt)))
				}
				st.assume(Ne(iv.t, K(0)), Eq(itag(iv.t), typeTag(dyn)))
				args[i] = iv
			}
		}
		// a method receiver of pointer type may be nil unless the contract excludes it
		ctr := e.ctr
		if ctr == nil {
			ctr = &Contract{name: e.name}
			e.ctr = ctr
		}
		e.args = args
		ev := e.env(ctr, e.fn, args, st, st)
		for _, c := range ctr.requires {
			if tagOK(c.tags, e.tags) {
				st.assume(e.evalClause(st, ev, c))
			}
		}
		if len(ctr.requires) > 0 {
			if e.light.query(st.pc) == "unsat" {
				res.Vacuous = "the preconditions contradict each other"
			}
		}
		e.entry = st.snap()
		e.entryEv = e.env(ctr, e.fn, args, e.entry, e.entry)
		entryPC := append([]*T{}, st.pc...)
		_ = entryPC
		pos := e.fn.Pos()
		e.callBody(st, e.fn, args, nil, 0, nil, func(s *State, rs []Val) {
			e.retSeen++
			post := e.env(ctr, e.fn, args, s, e.entry)
			post.bindResults(ctr, rs)
			if len(ctr.results) > len(rs) {
				unsup("contract of %s names %d results, the function has %d", ctr.name, len(ctr.results), len(rs))
			}
			for i, c := range ctr.ensures {
				if !tagOK(c.tags, e.tags) || c.trusted {
					continue
				}
				t := e.evalClause(s, post, c)
				for _, g := range conj(t) {
					e.oblige(s, "postcondition", fmt.Sprintf("ensures #%d: %s", i, c.text), pos, g)
				}
			}
			e.constsKept(s, pos)
			e.frame(s, ctr, args, rs, pos)
		})
	}
	if e.ctr != nil && e.ctr.dynParam != "" {
		for _, n := range e.ctr.dynTypes {
			pass(e.P.typeNamed(n))
		}
	} else {
		pass(nil)
	}
	return res
}

// frame: memory allocated before the call changes only as the modifies clause says.
func (e *Exec) frame(s *State, ctr *Contract, args, rs []Val, pos token.Pos) {
	ev := e.env(ctr, e.fn, args, e.entry, e.entry)
	ev.bindResults(ctr, rs)
	ev.post = s
	nx := e.entry.get("next", SInt)
	type fieldMod struct {
		ref  *T
		root string
		path string
	}
	type memMod struct {
		base *T
		elem string
		upto *T
		m    ModItem
	}
	var fm []fieldMod
	var mm []memMod
	var globs = map[string]bool{}
	for _, m := range ctr.modifies {
		if !tagOK(m.tags, e.tags) {
			continue
		}
		switch m.kind {
		case "field":
			ref, root, _, pfx := e.refOf(ev.eval(m.expr))
			p := m.path
			if pfx != "" {
				if p == "*" {
					p = pfx
				} else {
					p = pfx + "." + p
				}
			}
			fm = append(fm, fieldMod{ref, root, p})
		case "mem":
			sl := ev.eval(m.expr).(SliceV)
			mm = append(mm, memMod{sl.base, typeName(sl.elem), nil, m})
		case "spare":
			sl := ev.eval(m.expr).(SliceV)
			mm = append(mm, memMod{sl.base, typeName(sl.elem), Add(sl.off, sl.ln), m})
		case "global":
			globs[m.path] = true
		case "all":
			return
		}
	}
	keys := sortedKeys(s.heap)
	for _, k := range keys {
		now := s.heap[k]
		was := e.entry.get(k, now.sort)
		if k == "next" || now == was || strings.HasPrefix(k, "ValueCache.") && !ctr.caches || strings.HasPrefix(k, "ErrorParse") {
			continue
		}
		if strings.HasPrefix(k, "G:") {
			g := k[2:strings.IndexByte(k, '.')]
			if !globs[g] {
				e.oblige(s, "frame", "variable "+g+" unchanged", pos, Eq(now, was))
			}
			continue
		}
		u := e.fresh("fr", SInt)
		var ex []*T
		if strings.HasPrefix(k, "M:") {
			elem := k[2:strings.IndexByte(k, '.')]
			part := k[3+len(elem):]
			var mm2 []memMod
			for _, m := range mm {
				if m.m.covers(part) {
					mm2 = append(mm2, m)
				}
			}
			for _, m := range mm2 {
				if m.elem == elem {
					ex = append(ex, Eq(u, m.base))
					if m.upto != nil {
						i := e.fresh("fi", SInt)
						e.oblige(s, "frame", "elements in use of "+elem+" slice unchanged", pos, Imp(And(Lt(i, m.upto), Lt(K(0), m.base), Lt(m.base, nx)), Eq(Sel(Sel(now, m.base), i), Sel(Sel(was, m.base), i))))
					}
				}
			}
			for _, m := range ctr.modifies {
				if m.kind == "rows" && tagOK(m.tags, e.tags) && m.covers(part) {
					q := strings.Split(m.path, "|")
					if typeName(e.P.specType(q[0])) == elem {
						p := ev.with(q[1], Sc{u, tInt})
						ex = append(ex, p.Bool(m.expr))
					}
				}
			}
			if e.onlyFresh(s, now, was, nx, mmBases(mm2, elem, func(m memMod) (*T, string) { return m.base, m.elem })) {
				e.obls = append(e.obls, &Obl{Fn: e.name, Kind: "frame", Desc: k + " unchanged outside the modifies clause", Pos: e.P.pos(pos), goal: True, res: qres{status: "unsat", by: "simplifier"}})
				continue
			}
			i := e.fresh("fi", SInt)
			e.oblige(s, "frame", k+" unchanged outside the modifies clause", pos, Imp(And(Lt(K(0), u), Lt(u, nx), Not(Or(ex...))), Eq(Sel(Sel(now, u), i), Sel(Sel(was, u), i))))
			continue
		}
		d := strings.IndexByte(k, '.')
		root, path := k[:d], k[d+1:]
		var refs []*T
		for _, f := range fm {
			if f.root == root && (f.path == "*" || f.path == path || strings.HasPrefix(path, f.path+".")) {
				ex = append(ex, Eq(u, f.ref))
				refs = append(refs, f.ref)
			}
		}
		if root == "DxValue" {
			for _, m := range ctr.modifies {
				if m.kind == "nodes" && tagOK(m.tags, e.tags) && m.covers(path) {
					p := ev.with(m.path, Sc{u, types.NewPointer(e.P.byName["DxValue"])})
					ex = append(ex, p.Bool(m.expr))
				}
			}
		}
		if !(ctr.caches && root == "DxValue") && e.onlyFresh(s, now, was, nx, refs) {
			e.obls = append(e.obls, &Obl{Fn: e.name, Kind: "frame", Desc: k + " unchanged outside the modifies clause", Pos: e.P.pos(pos), goal: True, res: qres{status: "unsat", by: "simplifier"}})
			continue
		}
		there := Lt(K(0), u)
		if ctr.caches && root == "DxValue" {
			there = Or(there, And(Lt(u, K(0)), Lt(App("slotbase", SInt, u), nx)))
		}
		e.oblige(s, "frame", k+" unchanged outside the modifies clause", pos, Imp(And(there, Lt(u, nx), Not(Or(ex...))), Eq(Sel(now, u), Sel(was, u))))
	}
}

// frameExcept: the rows of an array the modifies clause lets change (and those changed only from an offset on).
func (e *Exec) frameExcept(k string, u *T) (ex []*T, upto [][2]*T) {
	ctr := e.ctr
	if ctr == nil {
		return
	}
	ev := e.entryEv
	elem, root, path := "", "", ""
	if strings.HasPrefix(k, "M:") {
		elem = k[2:strings.IndexByte(k, '.')]
		path = k[3+len(elem):]
	} else {
		d := strings.IndexByte(k, '.')
		root, path = k[:d], k[d+1:]
	}
	for _, m := range ctr.modifies {
		if !tagOK(m.tags, e.tags) {
			continue
		}
		if m.sub != "" && !m.covers(path) {
			continue
		}
		if m.mentions(ctr.results) {
			// not known inside a loop
			if m.kind == "rows" && elem == typeName(e.P.specType(strings.Split(m.path, "|")[0])) || m.kind == "nodes" && root == "DxValue" {
				ex = append(ex, True)
			}
			continue
		}
		switch m.kind {
		case "field":
			if elem != "" {
				continue
			}
			ref, rt, _, pfx := e.refOf(ev.eval(m.expr))
			p := m.path
			if pfx != "" {
				if p == "*" {
					p = pfx
				} else {
					p = pfx + "." + p
				}
			}
			if rt == root && (p == "*" || p == path || strings.HasPrefix(path, p+".")) {
				ex = append(ex, Eq(u, ref))
			}
		case "mem", "spare":
			sl := ev.eval(m.expr).(SliceV)
			if elem == typeName(sl.elem) {
				ex = append(ex, Eq(u, sl.base))
				if m.kind == "spare" {
					upto = append(upto, [2]*T{sl.base, Add(sl.off, sl.ln)})
				}
			}
		case "rows":
			q := strings.Split(m.path, "|")
			if elem != "" && typeName(e.P.specType(q[0])) == elem {
				p := ev.with(q[1], Sc{u, tInt})
				p.inq++
				ex = append(ex, p.Bool(m.expr))
			}
		case "nodes":
			if root == "DxValue" {
				p := ev.with(m.path, Sc{u, types.NewPointer(e.P.byName["DxValue"])})
				p.inq++
				ex = append(ex, p.Bool(m.expr))
			}
		case "all":
			ex = append(ex, True)
		}
	}
	return
}

func mmBases[M any](ms []M, elem string, f func(M) (*T, string)) []*T {
	var out []*T
	for _, m := range ms {
		b, el := f(m)
		if el == elem {
			out = append(out, b)
		}
	}
	return out
}

// onlyFresh: every store of the chain goes to an allowed or newly allocated row (syntactically).
func (e *Exec) onlyFresh(s *State, now, was, nx *T, allowed []*T) bool {
	for now != was {
		if now.op != "store" {
			return false
		}
		idx := now.args[1]
		ok := false
		for _, a := range allowed {
			if a == idx {
				ok = true
			}
		}
		if !ok {
			if g := Le(nx, idx); g == True || s.known[g] {
				ok = true
			}
		}
		if !ok {
			return false
		}
		now = now.args[0]
	}
	return true
}

// bodyName: "f#body" names a second contract of f, which is verified and not used by callers.
func bodyName(n string) string { return strings.TrimSuffix(n, "#body") }

func (p *Prog) newFn(name string, tags map[string]bool) *Exec {
	fn := p.fns[bodyName(name)]
	if fn == nil {
		return nil
	}
	e := newExec(p, fn, name, p.ctrs.byFn[name], tags)
	return e
}

// discharge proves what the executor left open.
func discharge(rs []*FnResult, deadline time.Time) {
	type grp struct{ o []*Obl }
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	pend := func() []*Obl {
		var out []*Obl
		for _, r := range rs {
			for _, o := range r.Obls {
				if o.res.status == "" {
					out = append(out, o)
				}
			}
		}
		return out
	}
	for _, o := range pend() {
		o := o
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			if time.Now().After(deadline) {
				o.res = qres{status: "unknown", out: "deadline"}
				return
			}
			o.res = proveHeavy(o.pc, o.goal, 4)
		}()
	}
	wg.Wait()
	// escalate the undecided ones, a few per function
	cnt := map[string]int{}
	for _, r := range rs {
		for _, o := range r.Obls {
			if o.res.status == "unsat" || o.res.status == "sat" || o.pc == nil {
				continue
			}
			cnt[o.Fn]++
			if cnt[o.Fn] > 6 {
				continue
			}
			o := o
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer func() { <-sem; wg.Done() }()
				if time.Now().After(deadline) {
					return
				}
				o.res = proveHeavy(o.pc, o.goal, 7)
			}()
		}
	}
	wg.Wait()
}

func failed(rs []*FnResult) []*Obl {
	var out []*Obl
	for _, r := range rs {
		for _, o := range r.Obls {
			if o.res.status != "unsat" {
				out = append(out, o)
			}
		}
	}
	return out
}

func sortedSet(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = ssa.NewProgram

// mentions: the item refers to one of the names.
func (m ModItem) mentions(names []string) bool {
	if m.expr == nil {
		return false
	}
	r := false
	ast.Inspect(m.expr, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			for _, x := range names {
				if x == id.Name {
					r = true
				}
			}
		}
		return !r
	})
	return r
}

// covers: the item includes the leaf with this path.
func (m ModItem) covers(path string) bool {
	return m.sub == "" || path == m.sub || strings.HasPrefix(path, m.sub+".")
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// typeNamed: a predeclared type, time.Time, a slice of or a pointer to one.
func (p *Prog) typeNamed(n string) types.Type {
	switch {
	case strings.HasPrefix(n, "*"):
		return types.NewPointer(p.typeNamed(n[1:]))
	case strings.HasPrefix(n, "[]"):
		return types.NewSlice(p.typeNamed(n[2:]))
	}
	if i := strings.IndexByte(n, '.'); i > 0 {
		for _, q := range p.pkg.Pkg.Imports() {
			if q.Name() == n[:i] {
				if o := q.Scope().Lookup(n[i+1:]); o != nil {
					return o.Type()
				}
			}
		}
	} else if o := types.Universe.Lookup(n); o != nil {
		return o.Type()
	}
	unsup("no type %s", n)
	return nil
}
