package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type envKey struct {
	fr int
	v  ssa.Value
}

type State struct {
	heap    map[string]*T
	env     map[envKey]Val
	cells   map[int]Val
	pc      []*T
	known   map[*T]bool
	written map[string]bool
	trace   []string
	wits    []*T // integers named by postconditions of callees (exists)
	allocs  []*T // memory rows allocated on this path and not yet owned by a node
}

func (s *State) fork() *State {
	n := &State{heap: make(map[string]*T, len(s.heap)), env: make(map[envKey]Val, len(s.env)+8), cells: make(map[int]Val, len(s.cells)), known: make(map[*T]bool, len(s.known)), written: make(map[string]bool, len(s.written))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k := range s.known {
		n.known[k] = true
	}
	for k := range s.written {
		n.written[k] = true
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.wits = s.wits[:len(s.wits):len(s.wits)]
	n.allocs = s.allocs[:len(s.allocs):len(s.allocs)]
	return n
}

// snap: heap-only copy used as an "old" state in specifications.
func (s *State) snap() *State {
	n := &State{heap: map[string]*T{}, cells: map[int]Val{}, known: map[*T]bool{}, env: map[envKey]Val{}, written: map[string]bool{}}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	return n
}

var sortMu sync.Mutex
var keySort = map[string]Sort{}

func (s *State) get(key string, so Sort) *T {
	if t, ok := s.heap[key]; ok {
		return t
	}
	sortMu.Lock()
	if o, ok := keySort[key]; ok && o != so {
		sortMu.Unlock()
		panic("heap key " + key + " used at two sorts")
	}
	keySort[key] = so
	sortMu.Unlock()
	return Var("H0!"+key, so)
}
func (s *State) set(key string, t *T) {
	s.heap[key] = t
	s.written[key] = true
}

func (s *State) assume(ts ...*T) {
	for _, t := range ts {
		if t.op == "and" {
			s.assume(t.args...)
			continue
		}
		if t == True || s.known[t] {
			continue
		}
		s.known[t] = true
		s.pc = append(s.pc, t)
	}
}

type Kont func(st *State, res []Val)

type Frame struct {
	id    int
	fn    *ssa.Function
	k     Kont
	depth int
	binds []Val
	up    *Frame
}

type loopRun struct {
	l      *loop
	parent *loopRun
	dry    bool
	onBack func(st *State, prev *ssa.BasicBlock)
}

type Obl struct {
	Fn, Kind, Desc, Pos string
	Clause              string
	goal                *T
	pc                  []*T
	trace               []string
	res                 qres
	vac                 bool
}

func (o *Obl) name() string { return o.Fn + " :: " + o.Kind + " :: " + o.Desc }

type Exec struct {
	P       *Prog
	fn      *ssa.Function
	name    string
	ctr     *Contract
	args    []Val
	light   *Light
	dry     int
	nfresh  int
	nframe  int
	ncell   int
	paths   int
	obls    []*Obl
	entry   *State
	entryEv *specEnv
	ghosts  map[string]*T
	wild    map[*T]bool // arrays a callee may have changed everywhere
	tags    map[string]bool
	assumed map[string]bool
	inlined map[string]bool
	called  map[string]bool
	loopCan map[*ssa.BasicBlock]map[string]bool
	maxPath int
	retSeen int
	prefix  string
	rootFr  *Frame
	nloops  int

	freshNo    map[*T]int
	loopCache  map[loopKey]map[string]bool
	modCache   map[*ssa.BasicBlock]*loopMods
	pointHints []*T
	slowInv    bool
}

func newExec(p *Prog, fn *ssa.Function, name string, ctr *Contract, tags map[string]bool) *Exec {
	return &Exec{P: p, fn: fn, name: name, ctr: ctr, light: newLight(), tags: tags, assumed: map[string]bool{}, inlined: map[string]bool{}, called: map[string]bool{}, wild: map[*T]bool{}, maxPath: 6000, prefix: fmt.Sprintf("x%08x", uint32(fnv(2166136261, name)))}
}

func (e *Exec) fresh(h string, s Sort) *T {
	e.nfresh++
	v := Var(fmt.Sprintf("%s!%s!%d", e.prefix, sanitize(h), e.nfresh), s)
	if e.freshNo == nil {
		e.freshNo = map[*T]int{}
	}
	e.freshNo[v] = e.nfresh
	return v
}

func (e *Exec) freshVal(st *State, t types.Type, h string) Val {
	v := e.freshRaw(t, h)
	e.facts(st, t, v)
	return v
}

func (e *Exec) freshRaw(t types.Type, h string) Val {
	if tp, ok := t.(*types.Tuple); ok {
		var r TupleV
		for i := 0; i < tp.Len(); i++ {
			r = append(r, e.freshRaw(tp.At(i).Type(), h))
		}
		return r
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok && n.Obj().Name() == "VObject" {
			return FieldPtr{ref: e.fresh(h, SInt), root: "DxValue", path: "fobject", typ: n}
		}
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		if _, b := isByteArr(t); !b {
			r := ArrV{elem: a.Elem()}
			for i := int64(0); i < a.Len(); i++ {
				r.e = append(r.e, e.freshRaw(a.Elem(), h))
			}
			return r
		}
	}
	return build(t, "", func(p string, s Sort) *T { return e.fresh(join(h, p), s) })
}

func (e *Exec) facts(st *State, t types.Type, v Val) {
	if tp, ok := t.(*types.Tuple); ok {
		for i := 0; i < tp.Len(); i++ {
			e.facts(st, tp.At(i).Type(), v.(TupleV)[i])
		}
		return
	}
	var fs []*T
	typeFacts(t, v, st.get("next", SInt), &fs)
	st.assume(fs...)
}

// ---------- obligations ----------

// prove decides synchronously whether the path implies goal.
func (e *Exec) prove(st *State, goal *T, level int) qres {
	if goal == True {
		return qres{status: "unsat", by: "simplifier"}
	}
	g := e.skolem(goal)
	if !g.quant {
		if r := e.light.query(st.pc, Not(g)); r == "unsat" {
			return qres{status: "unsat", by: "z3-5.3 incremental"}
		} else if level <= 0 {
			return qres{status: r}
		}
		if !hasQuant(st.pc) {
			// the quantifier-free query was exact
			if level <= 1 {
				return qres{status: "sat"}
			}
		}
	} else if level <= 0 {
		return qres{status: "unknown"}
	}
	return proveHeavy(st.pc, g, level)
}

func hasQuant(ts []*T) bool {
	for _, t := range ts {
		if t.quant {
			return true
		}
	}
	return false
}

// skolem replaces universally quantified variables of a goal by constants.
func (e *Exec) skolem(g *T) *T {
	switch g.op {
	case "forall":
		m := map[*T]*T{}
		hyp := True
		for _, v := range g.bvars {
			k := e.fresh("sk_"+v.name, v.sort)
			m[v] = k
			if strings.HasPrefix(v.name, "qn_") && e.entry != nil {
				// the data invariant of the node at entry (nothing reads a node before it exists)
				for _, f := range []string{"fobject.strkvs", "farr"} {
					at := func(l string) *T { return Sel(e.entry.get(fieldKey("DxValue", f+"."+l), SArr(SInt)), k) }
					hyp = And(hyp, Le(K(0), at("base")), Le(K(0), at("off")), Le(K(0), at("len")), ownedBy(ownerFn("DxValue", f), at("base"), k), Imp(Eq(at("base"), K(0)), Eq(at("len"), K(0))), Imp(And(Lt(K(0), k), Lt(k, e.entry.get("next", SInt))), Lt(at("base"), e.entry.get("next", SInt))))
				}
			}
		}
		return Imp(hyp, e.skolem(Subst(g.args[0], m)))
	case "=>":
		return Imp(g.args[0], e.skolem(g.args[1]))
	case "and":
		var out []*T
		for _, a := range g.args {
			out = append(out, e.skolem(a))
		}
		return And(out...)
	case "or":
		var out []*T
		for _, a := range g.args {
			out = append(out, e.skolem(a))
		}
		return Or(out...)
	}
	return g
}

// witness replaces an existential of the goal by its instances at the integers the path computed (a stronger goal).
func (e *Exec) witness(st *State, g *T) *T {
	if !g.quant {
		return g
	}
	switch g.op {
	case "exists":
		if len(g.bvars) != 1 || g.bvars[0].sort != SInt {
			return g
		}
		var cs []*T
		seen := map[*T]bool{}
		var ks []envKey
		for k := range st.env {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool {
			if ks[i].fr != ks[j].fr {
				return ks[i].fr < ks[j].fr
			}
			return ks[i].v.Name() < ks[j].v.Name()
		})
		for _, k := range ks {
			x, ok := st.env[k].(Sc)
			if !ok || x.t.sort != SInt || x.typ == nil || !isInt(x.typ) || seen[x.t] {
				continue
			}
			seen[x.t] = true
			cs = append(cs, x.t)
		}
		for _, w := range st.wits {
			if !seen[w] {
				seen[w] = true
				cs = append(cs, w)
			}
		}
		var all, good []*T
		for _, c := range cs {
			b := Subst(g.args[0], map[*T]*T{g.bvars[0]: c})
			if b == False {
				continue
			}
			all = append(all, b)
			var plain []*T
			for _, p := range conj(b) {
				if !p.quant {
					plain = append(plain, p)
				}
			}
			if e.light.query(st.pc, Not(And(plain...))) == "unsat" {
				good = append(good, b)
			}
		}
		if len(good) == 0 {
			good = append(all, g)
		}
		return Or(good...)
	case "=>":
		return Imp(g.args[0], e.witness(st, g.args[1]))
	case "and", "or":
		var out []*T
		for _, a := range g.args {
			out = append(out, e.witness(st, a))
		}
		if g.op == "and" {
			return And(out...)
		}
		return Or(out...)
	}
	return g
}

// named gives the existentials of an assumed fact a name.
func (e *Exec) named(st *State, g *T) *T {
	if !g.quant {
		return g
	}
	switch g.op {
	case "exists":
		m := map[*T]*T{}
		for _, v := range g.bvars {
			w := e.fresh("w_"+v.name, v.sort)
			m[v] = w
			if v.sort == SInt {
				st.wits = append(st.wits, w)
			}
		}
		return e.named(st, Subst(g.args[0], m))
	case "=>":
		return Imp(g.args[0], e.named(st, g.args[1]))
	case "and", "or":
		var out []*T
		for _, a := range g.args {
			out = append(out, e.named(st, a))
		}
		if g.op == "and" {
			return And(out...)
		}
		return Or(out...)
	}
	return g
}

func conj(t *T) []*T {
	if t.op == "and" {
		return t.args
	}
	return []*T{t}
}

func (e *Exec) oblige(st *State, kind, desc string, pos token.Pos, goal *T) {
	if e.dry > 0 {
		st.assume(goal)
		return
	}
	o := &Obl{Fn: e.name, Kind: kind, Desc: desc, Pos: e.P.pos(pos), goal: goal}
	if goal == True {
		o.res = qres{status: "unsat", by: "simplifier"}
		e.obls = append(e.obls, o)
		return
	}
	g := e.skolem(e.witness(st, goal))
	o.goal = g
	if !g.quant {
		if r := e.light.query(st.pc, Not(g)); r == "unsat" {
			o.res = qres{status: "unsat", by: "z3-5.3 incremental"}
			e.obls = append(e.obls, o)
			st.assume(goal)
			return
		}
	}
	o.pc = append([]*T{}, st.pc...)
	o.trace = append([]string{}, st.trace...)
	e.obls = append(e.obls, o)
	st.assume(goal)
}

// feasible: false when the path is certainly impossible.
func (e *Exec) feasible(st *State, c *T) bool {
	if c == False {
		return false
	}
	return e.light.query(st.pc, c) != "unsat"
}

// ---------- control flow ----------

func (e *Exec) callBody(st *State, fn *ssa.Function, args, binds []Val, depth int, up *Frame, k Kont) {
	if len(fn.Blocks) == 0 {
		unsup("call of %s without body", fn)
	}
	e.nframe++
	fr := &Frame{id: e.nframe, fn: fn, k: k, depth: depth, binds: binds, up: up}
	if e.rootFr == nil {
		e.rootFr = fr
	}
	for i, p := range fn.Params {
		st.env[envKey{fr.id, p}] = args[i]
	}
	for i, p := range fn.FreeVars {
		st.env[envKey{fr.id, p}] = binds[i]
	}
	e.block(st, fr, fn.Blocks[0], nil, nil)
}

func (e *Exec) block(st *State, fr *Frame, b, prev *ssa.BasicBlock, lr *loopRun) {
	if prev != nil {
		for lr != nil && !lr.l.blocks[b] {
			if lr.dry {
				return
			}
			lr = lr.parent
		}
		if lr != nil && lr.l.header == b {
			lr.onBack(st, prev)
			return
		}
	}
	if l := e.P.loopsOf(fr.fn)[b]; l != nil {
		e.enterLoop(st, fr, l, prev, lr)
		return
	}
	e.phis(st, fr, b, prev)
	e.body(st, fr, b, lr)
}

func (e *Exec) phiVals(st *State, fr *Frame, b, prev *ssa.BasicBlock) map[*ssa.Phi]Val {
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	out := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out[p] = e.val(st, fr, p.Edges[idx])
	}
	return out
}

func (e *Exec) phis(st *State, fr *Frame, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	for p, v := range e.phiVals(st, fr, b, prev) {
		st.env[envKey{fr.id, p}] = v
	}
}

func (e *Exec) body(st *State, fr *Frame, b *ssa.BasicBlock, lr *loopRun) {
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	e.from(st, fr, b, i, lr)
}

func (e *Exec) from(st *State, fr *Frame, b *ssa.BasicBlock, i int, lr *loopRun) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.If:
			c := e.val(st, fr, x.Cond).(Sc).t
			e.branch(st, c, x.Cond.Pos(), func(s *State, taken bool) {
				t := b.Succs[1]
				if taken {
					t = b.Succs[0]
				}
				e.block(s, fr, t, b, lr)
			})
			return
		case *ssa.Jump:
			e.block(st, fr, b.Succs[0], b, lr)
			return
		case *ssa.Return:
			for l := lr; l != nil; l = l.parent {
				if l.dry {
					return
				}
			}
			var rs []Val
			for _, r := range x.Results {
				rs = append(rs, e.val(st, fr, r))
			}
			e.paths++
			if e.paths > e.maxPath {
				unsup("more than %d paths", e.maxPath)
			}
			fr.k(st, rs)
			return
		case *ssa.Panic:
			e.oblige(st, "no-panic", "explicit panic is unreachable", x.Pos(), False)
			return
		case *ssa.Call:
			ii := i
			e.call(st, fr, x, &x.Call, x.Pos(), func(s *State, r Val) {
				if x.Name() != "" && r != nil {
					s.env[envKey{fr.id, x}] = r
				}
				e.from(s, fr, b, ii+1, lr)
			})
			return
		case *ssa.TypeAssert:
			ii := i
			e.typeAssert(st, fr, x, func(s *State, r Val) {
				s.env[envKey{fr.id, x}] = r
				e.from(s, fr, b, ii+1, lr)
			})
			return
		case *ssa.RunDefers, *ssa.DebugRef:
		case *ssa.Defer:
			unsup("defer in %s", fr.fn)
		case *ssa.Store:
			e.store(st, e.val(st, fr, x.Addr), e.val(st, fr, x.Val), x.Pos())
		case *ssa.UnOp:
			if x.Op == token.MUL {
				p := e.val(st, fr, x.X)
				// a load through a pointer that may be one of two locations was forked before
				st.env[envKey{fr.id, x}] = e.load(st, p, x.Type(), x.Pos())
				continue
			}
			st.env[envKey{fr.id, x}] = e.unop(st, fr, x)
		case ssa.Value:
			st.env[envKey{fr.id, x}] = e.instr(st, fr, in)
		default:
			unsup("instruction %T in %s", in, fr.fn)
		}
	}
}

// branch explores both sides of a condition that are feasible.
func (e *Exec) branch(st *State, c *T, pos token.Pos, k func(*State, bool)) {
	if c == True || st.known[c] {
		k(st, true)
		return
	}
	if c == False || st.known[Not(c)] {
		k(st, false)
		return
	}
	ft := e.feasible(st, c)
	if !ft {
		st.assume(Not(c))
		k(st, false)
		return
	}
	ff := e.feasible(st, Not(c))
	if !ff {
		st.assume(c)
		k(st, true)
		return
	}
	s2 := st.fork()
	st.assume(c)
	st.trace = append(st.trace, e.P.pos(pos)+":T")
	k(st, true)
	s2.assume(Not(c))
	s2.trace = append(s2.trace, e.P.pos(pos)+":F")
	k(s2, false)
}

// ---------- values of SSA operands ----------

func (e *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(st, x)
	case *ssa.Global:
		return GlobPtr{x, x.Type().(*types.Pointer).Elem()}
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return x
	}
	if r, ok := st.env[envKey{fr.id, v}]; ok {
		return r
	}
	unsup("value %s (%T) undefined in %s", v.Name(), v, fr.fn)
	return nil
}

func (e *Exec) constVal(st *State, c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zeroVal(t)
	}
	switch {
	case isString(t):
		s := strConst(constant.StringVal(c.Value))
		st.assume(strLitFacts(s)...)
		return StrV{s, K(0)}
	case isBool(t):
		return Sc{BoolT(constant.BoolVal(c.Value)), t}
	case isFloat(t):
		f, _ := constant.Float64Val(c.Value)
		if b := t.Underlying().(*types.Basic); b.Kind() == types.Float32 {
			return Sc{K(int64(math.Float32bits(float32(f)))), t}
		}
		return Sc{KB(new(big.Int).SetUint64(math.Float64bits(f))), t}
	case isInt(t):
		v := constant.ToInt(c.Value)
		b, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			unsup("constant %s", c)
		}
		return Sc{KB(b), t}
	}
	unsup("constant %s of type %s", c, t)
	return nil
}

func (e *Exec) zeroVal(t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		var r TupleV
		for i := 0; i < tp.Len(); i++ {
			r = append(r, e.zeroVal(tp.At(i).Type()))
		}
		return r
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		if _, b := isByteArr(t); !b {
			r := ArrV{elem: a.Elem()}
			for i := int64(0); i < a.Len(); i++ {
				r.e = append(r.e, e.zeroVal(a.Elem()))
			}
			return r
		}
	}
	return zero(t)
}

// ---------- memory ----------

func fieldKey(root, path string) string { return root + "." + path }
func memKey(elem types.Type, path string) string {
	return "M:" + typeName(elem) + "." + path
}

func sortOfLeaf(t types.Type, path string) Sort {
	for _, l := range leaves(t) {
		if l.path == path {
			return l.sort
		}
	}
	return SInt
}

func (e *Exec) load(st *State, p Val, t types.Type, pos token.Pos) Val {
	switch x := p.(type) {
	case FieldPtr:
		v := build(t, x.path, func(path string, s Sort) *T { return Sel(st.get(fieldKey(x.root, path), SArr(s)), x.ref) })
		e.facts(st, t, v)
		if x.root == "DxValue" && x.path == "ownercache" {
			r := v.(Sc).t
			st.assume(Or(Eq(r, K(0)), Le(K(1), e.cacheCap(st, r))))
		}
		if o := ownerFn(x.root, x.path); o != "" {
			st.assume(ownedBy(o, v.(SliceV).base, x.ref))
		}
		return v
	case ElemPtr:
		v := build(t, x.path, func(path string, s Sort) *T {
			return Sel(Sel(st.get(memKey(x.elem, path), SArr(SArr(s))), x.base), x.idx)
		})
		e.facts(st, t, v)
		return v
	case Sc:
		e.nonNil(st, x, pos)
		root := typeName(derefT(x.typ))
		v := build(t, "", func(path string, s Sort) *T { return Sel(st.get(fieldKey(root, path), SArr(s)), x.t) })
		e.facts(st, t, v)
		return v
	case CellPtr:
		return e.cellGet(st, x)
	case GlobPtr:
		return e.loadGlobal(st, x, t)
	case BytePtr:
		b := e.bitsOf(st, x.p)
		if !x.idx.isConst() {
			unsup("byte load at symbolic index of a scalar")
		}
		return Sc{ModK(DivK(b, pow2(uint(8*x.idx.val.Int64()))), big.NewInt(256)), types.Typ[types.Uint8]}
	case CastPtr:
		b := e.bitsOf(st, x.p)
		bt := t.Underlying().(*types.Basic)
		switch bt.Kind() {
		case types.Int64, types.Int:
			return Sc{e.toSigned(st, b, 64), t}
		case types.Float64, types.Uint64:
			return Sc{b, t}
		case types.Float32, types.Uint32:
			return Sc{e.modT(st, b, pow2(32)), t}
		}
		unsup("reinterpret as %s", t)
	}
	unsup("load through %T", p)
	return nil
}

// cacheCap is the number of slots of a cache. Data invariant, assumed where an owner is read and proved where
// an owner or a cache's slots are written: the cache a node owns has at least one slot.
func (e *Exec) cacheCap(st *State, r *T) *T {
	return Sel(st.get("ValueCache.Value.cap", SArr(SInt)), r)
}

// Data invariant: the backing array of a node's elements (farr) or entries (strkvs) belongs to that node alone.
// The owner of a memory row is a fixed function of the row, chosen when a new row is first stored in a node;
// the invariant is assumed where such a field is read and proved where one is written.
func ownerFn(root, path string) string {
	if root == "DxValue" {
		switch path {
		case "farr":
			return "ownA"
		case "fobject.strkvs":
			return "ownO"
		}
	}
	return ""
}

func ownedBy(o string, base, ref *T) *T {
	return Or(Eq(base, K(0)), Eq(App(o, SInt, base), ref))
}

func (e *Exec) takeOwner(st *State, o string, ref, base *T, pos token.Pos) {
	own := ownedBy(o, base, ref)
	if own == True || st.known[own] {
		return
	}
	alts := []*T{own}
	var rest []*T
	for _, a := range st.allocs {
		eq := Eq(base, a)
		if eq == False || e.light.query(st.pc, eq) == "unsat" {
			rest = append(rest, a)
			continue
		}
		alts = append(alts, eq)
	}
	st.allocs = rest
	e.oblige(st, "data-invariant", "the backing array stored in a node belongs to no other node", pos, Or(alts...))
	st.assume(own)
}

// toSigned converts an unsigned w-bit value to its two's complement reading.
func (e *Exec) toSigned(st *State, b *T, w uint) *T {
	// (x mod 2^w) for a term already in the signed range
	if b.op == "mod" && b.args[1].val.Cmp(pow2(w)) == 0 {
		in := b.args[0]
		half := pow2(w - 1)
		if lo, hi, ok := bounds(in); ok && lo.Cmp(new(big.Int).Neg(half)) >= 0 && hi.Cmp(half) < 0 {
			return in
		}
	}
	half := KB(pow2(w - 1))
	if lo, hi, ok := bounds(b); ok && lo.Sign() >= 0 && hi.Cmp(pow2(w-1)) < 0 {
		return b
	}
	return Ite(Lt(b, half), b, Sub(b, KB(pow2(w))))
}

func (e *Exec) modT(st *State, b *T, m *big.Int) *T {
	r := ModK(b, m)
	if r.op == "mod" {
		if q := e.light.query(st.pc, Not(And(Le(K(0), b), Lt(b, KB(m))))); q == "unsat" {
			return b
		}
	}
	return r
}

// bitsOf reads the raw bits of the scalar a pointer designates.
func (e *Exec) bitsOf(st *State, p Val) *T {
	switch x := p.(type) {
	case BytePtr:
		if x.idx.isConst() && x.idx.val.Sign() == 0 {
			return e.bitsOf(st, x.p)
		}
	case FieldPtr:
		t := Sel(st.get(fieldKey(x.root, x.path), SArr(SInt)), x.ref)
		e.facts(st, x.typ, Sc{t, x.typ})
		return t
	case CellPtr:
		v, ok := e.cellGet(st, x).(Sc)
		if !ok {
			break
		}
		if lo, _, ok := intRange(v.typ); ok && lo.Sign() < 0 {
			return ModK(v.t, pow2(64))
		}
		return v.t
	}
	unsup("raw bits through %T", p)
	return nil
}

func (e *Exec) setBits(st *State, p Val, bits *T) {
	switch x := p.(type) {
	case BytePtr:
		if x.idx.isConst() && x.idx.val.Sign() == 0 {
			e.setBits(st, x.p, bits)
			return
		}
	case FieldPtr:
		k := fieldKey(x.root, x.path)
		st.set(k, Sto(st.get(k, SArr(SInt)), x.ref, bits))
		return
	case CellPtr:
		if v, ok := e.cellGet(st, x).(Sc); ok {
			e.cellSet(st, x, Sc{bits, v.typ})
			return
		}
	}
	unsup("raw store through %T", p)
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	unsup("deref of %s", t)
	return nil
}

func (e *Exec) nonNil(st *State, p Sc, pos token.Pos) {
	g := Ne(p.t, K(0))
	if g != True && !st.known[g] {
		e.oblige(st, "no-nil-deref", "pointer is not nil", pos, g)
	}
}

func (e *Exec) store(st *State, p, v Val, pos token.Pos) {
	switch x := p.(type) {
	case FieldPtr:
		if _, ok := isByteArr(x.typ); ok {
			if a, ok := v.(ArrV); ok {
				v = Sc{packBytes(a), x.typ}
			}
		}
		if x.root == "DxValue" && x.path == "ownercache" {
			r := v.(Sc).t
			e.oblige(st, "data-invariant", "an owning cache has at least one slot", pos, Or(Eq(r, K(0)), Le(K(1), e.cacheCap(st, r))))
		}
		if o := ownerFn(x.root, x.path); o != "" {
			e.takeOwner(st, o, x.ref, v.(SliceV).base, pos)
		}
		if x.root == "ValueCache" && x.path == "Value" {
			e.oblige(st, "data-invariant", "a cache never loses capacity", pos, Le(e.cacheCap(st, x.ref), v.(SliceV).cp))
		}
		flatten(x.typ, x.path, v, func(path string, t *T) {
			k := fieldKey(x.root, path)
			st.set(k, Sto(st.get(k, SArr(t.sort)), x.ref, t))
		})
	case ElemPtr:
		flatten(x.typ, x.path, v, func(path string, t *T) {
			k := memKey(x.elem, path)
			m := st.get(k, SArr(SArr(t.sort)))
			st.set(k, Sto(m, x.base, Sto(Sel(m, x.base), x.idx, t)))
		})
	case Sc:
		e.nonNil(st, x, pos)
		dt := derefT(x.typ)
		root := typeName(dt)
		if root == "DxValue" {
			flatten(dt, "", v, func(path string, t *T) {
				switch path {
				case "farr.base":
					e.takeOwner(st, "ownA", x.t, t, pos)
				case "fobject.strkvs.base":
					e.takeOwner(st, "ownO", x.t, t, pos)
				case "ownercache":
					e.oblige(st, "data-invariant", "an owning cache has at least one slot", pos, Or(Eq(t, K(0)), Le(K(1), e.cacheCap(st, t))))
				}
			})
		}
		flatten(dt, "", v, func(path string, t *T) {
			k := fieldKey(root, path)
			st.set(k, Sto(st.get(k, SArr(t.sort)), x.t, t))
		})
	case CellPtr:
		e.cellSet(st, x, v)
	case GlobPtr:
		flatten(x.typ, "", v, func(path string, t *T) { st.set("G:"+x.g.Name()+"."+path, t) })
	case CastPtr:
		b := v.(Sc).t
		bt := x.typ.Underlying().(*types.Basic)
		switch bt.Kind() {
		case types.Int64, types.Int:
			e.setBits(st, x.p, ModK(b, pow2(64)))
		case types.Float64, types.Uint64:
			e.setBits(st, x.p, b)
		case types.Float32, types.Uint32:
			o := e.bitsOf(st, x.p)
			e.setBits(st, x.p, Add(Sub(o, ModK(o, pow2(32))), b))
		default:
			unsup("raw store of %s", x.typ)
		}
	case BytePtr:
		if !x.idx.isConst() {
			unsup("byte store at symbolic index of a scalar")
		}
		w := pow2(uint(8 * x.idx.val.Int64()))
		o := e.bitsOf(st, x.p)
		cur := ModK(DivK(o, w), big.NewInt(256))
		e.setBits(st, x.p, Add(Sub(o, MulK(w, cur)), MulK(w, v.(Sc).t)))
	default:
		unsup("store through %T", p)
	}
}

func packBytes(a ArrV) *T {
	var ts []*T
	for i, x := range a.e {
		ts = append(ts, MulK(pow2(uint(8*i)), x.(Sc).t))
	}
	return Add(ts...)
}

func (e *Exec) cellGet(st *State, p CellPtr) Val {
	v := st.cells[p.id]
	for _, i := range p.path {
		switch x := v.(type) {
		case StructV:
			v = x.f[i]
		case ArrV:
			v = x.e[i]
		default:
			unsup("cell path into %T", v)
		}
	}
	return v
}

func (e *Exec) cellSet(st *State, p CellPtr, v Val) {
	st.cells[p.id] = setPath(st.cells[p.id], p.path, v)
	st.written[fmt.Sprintf("cell:%d", p.id)] = true
}

func setPath(c Val, path []int, v Val) Val {
	if len(path) == 0 {
		return v
	}
	switch x := c.(type) {
	case StructV:
		f := append([]Val{}, x.f...)
		f[path[0]] = setPath(f[path[0]], path[1:], v)
		return StructV{x.typ, f}
	case ArrV:
		f := append([]Val{}, x.e...)
		f[path[0]] = setPath(f[path[0]], path[1:], v)
		return ArrV{x.elem, f}
	}
	unsup("cell path into %T", c)
	return nil
}

func (e *Exec) loadGlobal(st *State, p GlobPtr, t types.Type) Val {
	gi := e.P.glob[p.g]
	if gi != nil {
		switch gi.kind {
		case "node":
			return Sc{K(gi.ref), t}
		case "err":
			v := IfaceV{t: K(1000000 + gi.ref)}
			st.assume(Eq(itag(v.t), K(1)))
			return v
		case "bytes":
			base := K(gi.ref)
			m := st.get("M:byte.", SArr(SArr(SInt)))
			a := Sel(m, base)
			for i, b := range gi.bytes {
				st.assume(Eq(Sel(a, K(int64(i))), K(int64(b))))
			}
			st.assume(Lt(base, st.get("next", SInt)))
			e.assumed["package variable "+p.g.Name()+" keeps its initial bytes"] = true
			n := K(int64(len(gi.bytes)))
			return SliceV{base: base, off: K(0), ln: n, cp: n, elem: types.Typ[types.Uint8]}
		}
	}
	v := build(t, "", func(path string, s Sort) *T { return st.get("G:"+p.g.Name()+"."+path, s) })
	e.facts(st, t, v)
	return v
}

func itag(t *T) *T  { return App("itag", SInt, t) }
func idata(t *T) *T { return App("idata", SInt, t) }

// ---------- allocation ----------

func (e *Exec) newBase(st *State) *T {
	n := st.get("next", SInt)
	st.set("next", Add(n, K(1)))
	st.allocs = append(st.allocs, n)
	return n
}

func (e *Exec) allocStruct(st *State, t types.Type) Sc {
	r := e.newBase(st)
	p := Sc{r, types.NewPointer(t)}
	st.assume(Ne(r, K(0)))
	e.store(st, p, e.zeroVal(t), token.NoPos)
	return p
}

var debugOn = os.Getenv("GOCV_DEBUG") != ""

func dbg(f string, a ...interface{}) {
	if debugOn {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func shortDesc(v ssa.Value) string {
	s := v.String()
	if len(s) > 60 {
		s = s[:60]
	}
	return strings.ReplaceAll(s, "github.com/suiyunonghen/", "")
}
