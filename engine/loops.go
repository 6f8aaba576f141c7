package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// headCtx is one moment at a loop header: the header's variables and the state.
type headCtx struct {
	st   *State
	vals map[*ssa.Phi]Val
}

type cand struct {
	name string
	f    func(h *headCtx) *T
}

type loopMods struct {
	full   map[string]bool
	points map[string][]*T
	cells  map[int]bool
}

func (m *loopMods) sig() string {
	var ks []string
	for k := range m.full {
		ks = append(ks, "F"+k)
	}
	for k, p := range m.points {
		for _, t := range p {
			ks = append(ks, fmt.Sprintf("P%s@%x", k, t.h))
		}
	}
	for c := range m.cells {
		ks = append(ks, fmt.Sprintf("C%d", c))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

type loopKey struct {
	h *ssa.BasicBlock
	s string
}

func (e *Exec) invariantTerm(t *T, mark int) bool {
	ok := true
	walk(t, func(x *T) {
		if x.op == "var" {
			if n, is := e.freshNo[x]; is && n > mark {
				ok = false
			}
		}
		if x.op == "bvar" {
			ok = false
		}
	})
	return ok
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func (e *Exec) havocVal(st *State, v Val, t types.Type, h string) Val {
	switch x := v.(type) {
	case Sc:
		tt := x.typ
		if tt == nil {
			tt = t
		}
		return e.freshVal(st, tt, h)
	case StrV:
		return e.freshVal(st, types.Typ[types.String], h)
	case SliceV:
		return e.freshVal(st, types.NewSlice(x.elem), h)
	case IfaceV:
		r := IfaceV{t: e.fresh(h, SInt)}
		st.assume(Le(K(0), r.t))
		return r
	case StructV:
		r := StructV{typ: x.typ}
		for _, f := range x.f {
			r.f = append(r.f, e.havocVal(st, f, nil, h))
		}
		return r
	case ArrV:
		r := ArrV{elem: x.elem}
		for _, f := range x.e {
			r.e = append(r.e, e.havocVal(st, f, x.elem, h))
		}
		return r
	case FieldPtr:
		if x.root == "DxValue" && x.path == "fobject" {
			r := e.fresh(h, SInt)
			st.assume(Lt(K(0), r), Lt(r, st.get("next", SInt)))
			return FieldPtr{r, x.root, x.path, x.typ}
		}
	case FuncV:
		if x.t == nil {
			return x
		}
		return FuncV{t: e.fresh(h, SInt)}
	}
	unsup("loop variable of kind %T", v)
	return nil
}

type backRec struct {
	st   *State
	vals map[*ssa.Phi]Val
}

func (e *Exec) enterLoop(st *State, fr *Frame, l *loop, prev *ssa.BasicBlock, lr *loopRun) {
	phis := headerPhis(l.header)
	preVals := e.phiVals(st, fr, l.header, prev)
	pre := st.snap()
	pre.pc = st.pc
	preNext := st.get("next", SInt)
	cands := e.candidates(st, fr, l, phis, preVals, pre)
	// initial
	init := &headCtx{st, preVals}
	var live []cand
	var initJobs []initJob
	for _, c := range cands {
		t := e.candTerm(c, init)
		if t == nil {
			continue
		}
		ok, g := e.lightProve(st, t)
		if ok {
			live = append(live, c)
			continue
		}
		if g == nil {
			dropDump("init "+c.name, st.pc, t)
			continue
		}
		live = append(live, c)
		initJobs = append(initJobs, initJob{len(live) - 1, g})
	}
	live = e.initProve(st, live, initJobs)
	names := func(cs []cand) string {
		var s []string
		for _, c := range cs {
			s = append(s, c.name)
		}
		return strings.Join(s, "\n")
	}
	initSig := names(live)
	if e.loopCache == nil {
		e.loopCache = map[loopKey]map[string]bool{}
		e.modCache = map[*ssa.BasicBlock]*loopMods{}
	}
	if keep, ok := e.loopCache[loopKey{l.header, initSig}]; ok {
		var n []cand
		for _, c := range live {
			if keep[c.name] {
				n = append(n, c)
			}
		}
		live = n
	}
	mods := &loopMods{full: map[string]bool{}, points: map[string][]*T{}, cells: map[int]bool{}}
	var head *headCtx
	var backs []backRec
	mkHead := func(s *State) *headCtx {
		s.allocs = nil
		// modified memory
		for _, k := range sortedKeys(mods.full) {
			so := s.get(k, keySortOf(k)).sort
			f := e.fresh("L_"+k, so)
			if k == "next" {
				s.assume(Le(preNext, f))
			}
			s.heap[k] = f
		}
		nx := s.get("next", SInt)
		_ = nx
		for _, k := range sortedKeys(mods.points) {
			a := s.get(k, keySortOf(k))
			ps := append([]*T{}, mods.points[k]...)
			sort.Slice(ps, func(i, j int) bool { return ps[i].h < ps[j].h })
			for _, p := range ps {
				f := e.fresh("L_"+k, a.sort.elem())
				a = Sto(a, p, f)
				e.pointFacts(s, k, f)
			}
			s.heap[k] = a
		}
		for c := range mods.cells {
			s.cells[c] = e.havocVal(s, s.cells[c], nil, "Lcell")
		}
		h := &headCtx{st: s, vals: map[*ssa.Phi]Val{}}
		for _, p := range phis {
			v := e.havocPhi(s, p, preVals[p])
			h.vals[p] = v
			s.env[envKey{fr.id, p}] = v
		}
		return h
	}
	round := 0
	for {
		round++
		if round > 60 {
			unsup("loop analysis does not settle in %s", fr.fn)
		}
		s := st.fork()
		s.written = map[string]bool{}
		mark := e.nfresh
		head = mkHead(s)
		headHeap := map[string]*T{}
		for k, v := range s.heap {
			headHeap[k] = v
		}
		var hts []*T
		for _, c := range live {
			t := e.candTerm(c, head)
			if t == nil {
				t = True
			}
			hts = append(hts, t)
			s.assume(t)
		}
		ncellHead := e.ncell
		hs := s.fork() // header snapshot for later evaluation
		head = &headCtx{hs, head.vals}
		backs = nil
		e.dry++
		lrun := &loopRun{l: l, parent: lr, dry: true, onBack: func(b *State, pv *ssa.BasicBlock) {
			backs = append(backs, backRec{b, e.phiVals(b, fr, l.header, pv)})
		}}
		e.body(s, fr, l.header, lrun)
		e.dry--
		// memory written by the body
		grew := false
		for _, b := range backs {
			for k := range b.st.written {
				if strings.HasPrefix(k, "cell:") {
					var id int
					fmt.Sscanf(k, "cell:%d", &id)
					if id <= ncellHead {
						if _, ok := st.cells[id]; ok && !mods.cells[id] {
							mods.cells[id] = true
							grew = true
						}
					}
					continue
				}
				if mods.full[k] {
					continue
				}
				so := keySortOf(k)
				if !strings.HasPrefix(string(so), "(Array") {
					mods.full[k] = true
					grew = true
					continue
				}
				hv, ok := headHeap[k]
				if !ok {
					hv = Var("H0!"+k, so)
				}
				g := e.classify(b.st, k, b.st.heap[k], hv, mark, preNext, preVals, mods)
				grew = grew || g
			}
		}
		if grew {
			continue
		}
		// candidates preserved?
		ok := e.checkCands(live, backs)
		var n []cand
		for i, c := range live {
			if ok[i] {
				n = append(n, c)
			} else if debugOn {
				dbg("%s loop@%s drop %s", e.name, e.P.pos(blockPos(l.header)), c.name)
			}
		}
		if len(n) == len(live) {
			break
		}
		live = n
	}
	keep := map[string]bool{}
	for _, c := range live {
		keep[c.name] = true
	}
	e.loopCache[loopKey{l.header, initSig}] = keep
	pos := blockPos(l.header)
	if e.dry == 0 {
		dbg("%s loop@%s: %d backs, mods %s", e.name, e.P.pos(pos), len(backs), mods.sig())
		for _, c := range live {
			dbg("   inv %s", c.name)
			e.obls = append(e.obls, &Obl{Fn: e.name, Kind: "loop-invariant", Desc: c.name, Pos: e.P.pos(pos), goal: True, res: qres{status: "unsat", by: "invariant inference (z3)"}})
		}
		e.rank(st, fr, l, head, backs, pos, preVals)
	}
	// the rest: one arbitrary iteration with obligations, and the exits
	s := st.fork()
	h := mkHead(s)
	for _, c := range live {
		if t := e.candTerm(c, h); t != nil {
			s.assume(t)
		}
	}
	for k := range mods.full {
		s.written[k] = true
	}
	for k := range mods.points {
		s.written[k] = true
	}
	for c := range mods.cells {
		s.written[fmt.Sprintf("cell:%d", c)] = true
	}
	if !e.feasible(s, True) {
		return
	}
	lrun := &loopRun{l: l, parent: lr, dry: false, onBack: func(b *State, pv *ssa.BasicBlock) {}}
	e.body(s, fr, l.header, lrun)
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

func keySortOf(k string) Sort {
	sortMu.Lock()
	defer sortMu.Unlock()
	return keySort[k]
}

// pointFacts: type range of a havocked field value.
func (e *Exec) pointFacts(s *State, key string, f *T) {
	i := strings.IndexByte(key, '.')
	if i < 0 || strings.HasPrefix(key, "M:") {
		return
	}
	t := e.P.byName[key[:i]]
	if t == nil {
		return
	}
	for _, l := range leaves(t) {
		if l.path == key[i+1:] && l.typ != nil && (l.sort == SInt || l.sort == SStr) {
			e.facts(s, l.typ, leafVal(l, f))
		}
	}
}

func (e *Exec) havocPhi(s *State, p *ssa.Phi, v Val) Val {
	switch x := v.(type) {
	case FieldPtr, FuncV, StructV:
		return e.havocVal(s, v, p.Type(), "phi_"+p.Comment)
	case CellPtr, ElemPtr, CastPtr, BytePtr, GlobPtr:
		unsup("loop variable of kind %T", x)
	}
	return e.freshVal(s, p.Type(), "phi_"+p.Comment)
}

// classify decides which rows of a written array may change over the iterations.
func (e *Exec) classify(b *State, key string, t, hv *T, mark int, preNext *T, preVals map[*ssa.Phi]Val, m *loopMods) bool {
	grew := false
	// the header's own array, with or without its stores to the known points (stores to one index collapse)
	stop := map[*T]bool{hv: true}
	for x := hv; x.op == "store"; {
		known := false
		for _, p := range m.points[key] {
			known = known || p == x.args[1]
		}
		if !known {
			break
		}
		x = x.args[0]
		stop[x] = true
	}
	for !stop[t] {
		if t.op != "store" {
			m.full[key] = true
			delete(m.points, key)
			return true
		}
		idx := t.args[1]
		t = t.args[0]
		have := false
		for _, p := range m.points[key] {
			if p == idx {
				have = true
			}
		}
		if have {
			continue
		}
		if e.invariantTerm(idx, mark) {
			m.points[key] = append(m.points[key], idx)
			grew = true
			continue
		}
		fresh := Le(preNext, idx)
		if e.light.query(b.pc, Not(fresh)) == "unsat" {
			continue
		}
		// one of the known rows?
		opts := append([]*T{}, m.points[key]...)
		for _, v := range preVals {
			switch x := v.(type) {
			case SliceV:
				opts = append(opts, x.base)
			case Sc:
				if x.t.sort == SInt {
					if _, ok := x.typ.Underlying().(*types.Pointer); ok {
						opts = append(opts, x.t)
					}
				}
			}
		}
		for _, o := range e.pointHints {
			opts = append(opts, o)
		}
		sort.Slice(opts, func(i, j int) bool { return opts[i].h < opts[j].h })
		done := false
		for _, o := range opts {
			if e.light.query(b.pc, Not(Or(fresh, Eq(idx, o)))) == "unsat" {
				has := false
				for _, p := range m.points[key] {
					if p == o {
						has = true
					}
				}
				if !has {
					m.points[key] = append(m.points[key], o)
					grew = true
				}
				done = true
				break
			}
		}
		if done {
			continue
		}
		m.full[key] = true
		delete(m.points, key)
		return true
	}
	return grew
}

func (e *Exec) candTerm(c cand, h *headCtx) (t *T) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				t = nil
				return
			}
			if s, ok := r.(string); ok && strings.HasPrefix(s, "spec:") {
				t = nil
				return
			}
			panic(r)
		}
	}()
	e.dry++
	defer func() { e.dry-- }()
	return c.f(h)
}

type initJob struct {
	i int
	g *T
}

// lightProve answers without the quantified context when it can; otherwise it returns the goal to be
// tried with it (nil: there is nothing left to try).
func (e *Exec) lightProve(st *State, t *T) (bool, *T) {
	if t == True {
		return true, nil
	}
	g := e.skolem(t)
	if !g.quant && e.light.query(st.pc, Not(g)) == "unsat" {
		return true, nil
	}
	if !g.quant && !hasQuant(st.pc) {
		return false, nil
	}
	return false, g
}

func (e *Exec) initProve(st *State, live []cand, jobs []initJob) []cand {
	if len(jobs) == 0 {
		return live
	}
	bad := make([]bool, len(live))
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j initJob) {
			defer wg.Done()
			lv := 1
			if strings.HasPrefix(live[j.i].name, "hint#") {
				lv = -1
			}
			if proveHeavy(st.pc, j.g, lv).status != "unsat" {
				dropDump("init "+live[j.i].name, st.pc, j.g)
				bad[j.i] = true
			}
		}(j)
	}
	wg.Wait()
	var out []cand
	for i, c := range live {
		if !bad[i] {
			out = append(out, c)
		}
	}
	return out
}

func dropDump(name string, pc []*T, g *T) {
	if d := os.Getenv("GOCV_DROP"); d != "" && strings.Contains(name, d) {
		os.WriteFile(fmt.Sprintf("/tmp/drop_%d.smt2", time.Now().UnixNano()%1000000), []byte("; "+name+"\n"+buildScript(pc, g)), 0644)
	}
}

func (e *Exec) checkCands(live []cand, backs []backRec) []bool {
	ok := make([]bool, len(live))
	type job struct {
		i  int
		pc []*T
		g  *T
	}
	var jobs []job
	for i, c := range live {
		ok[i] = true
		for _, b := range backs {
			t := e.candTerm(c, &headCtx{b.st, b.vals})
			if t == nil {
				ok[i] = false
				break
			}
			if t == True {
				continue
			}
			g := e.skolem(t)
			if !g.quant {
				r := e.light.query(b.st.pc, Not(g))
				if r == "unsat" {
					continue
				}
				if !hasQuant(b.st.pc) && r == "sat" {
					dropDump(c.name, b.st.pc, g)
					ok[i] = false
					break
				}
			}
			jobs = append(jobs, job{i, b.st.pc, g})
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	if debugOn {
		dbg("%d candidates, %d paths, %d solver jobs", len(live), len(backs), len(jobs))
	}
	for _, j := range jobs {
		if !ok[j.i] {
			continue
		}
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			mu.Lock()
			skip := !ok[j.i]
			mu.Unlock()
			if skip {
				return
			}
			lv := 1
			if strings.HasPrefix(live[j.i].name, "hint#") {
				lv = -1
			}
			t0 := time.Now()
			r := proveHeavy(j.pc, j.g, lv)
			if debugOn && time.Since(t0) > 3*time.Second {
				dbg("  %.1fs %s %s", time.Since(t0).Seconds(), r.status, live[j.i].name)
			}
			if r.status != "unsat" {
				dropDump(live[j.i].name, j.pc, j.g)
				mu.Lock()
				ok[j.i] = false
				mu.Unlock()
			}
		}(j)
	}
	wg.Wait()
	return ok
}

// ---------- candidate invariants ----------

type sliceAt func(h *headCtx) SliceV
type intAt func(h *headCtx) *T

// evalAt evaluates a side-effect-free SSA value at a loop header moment.
func (e *Exec) evalAt(h *headCtx, fr *Frame, l *loop, v ssa.Value, depth int) (r Val) {
	if depth > 8 {
		return nil
	}
	if p, ok := v.(*ssa.Phi); ok && p.Block() == l.header {
		return h.vals[p]
	}
	switch x := v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return e.val(h.st, fr, v)
	case ssa.Instruction:
		if !l.blocks[x.Block()] {
			r, ok := h.st.env[envKey{fr.id, v}]
			if !ok {
				return nil
			}
			return r
		}
	default:
		r, ok := h.st.env[envKey{fr.id, v}]
		if !ok {
			return nil
		}
		return r
	}
	at := func(o ssa.Value) Val { return e.evalAt(h, fr, l, o, depth+1) }
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			p := at(x.X)
			if p == nil {
				return nil
			}
			return e.load(h.st, p, x.Type(), token.NoPos)
		}
	case *ssa.FieldAddr:
		p := at(x.X)
		if p == nil {
			return nil
		}
		return e.fieldAddr(h.st, p, x.Field, x.Type().(*types.Pointer).Elem(), token.NoPos)
	case *ssa.Field:
		if s, ok := at(x.X).(StructV); ok {
			return s.f[x.Field]
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			switch s := at(x.Call.Args[0]).(type) {
			case SliceV:
				return Sc{s.ln, tInt}
			case StrV:
				return Sc{slen(s.s), tInt}
			}
		}
	case *ssa.BinOp:
		a, ok1 := at(x.X).(Sc)
		b, ok2 := at(x.Y).(Sc)
		if ok1 && ok2 && a.t.sort == SInt && !isFloat(x.X.Type()) {
			switch x.Op {
			case token.ADD:
				return Sc{Add(a.t, b.t), a.typ}
			case token.SUB:
				return Sc{Sub(a.t, b.t), a.typ}
			}
		}
	case *ssa.Convert:
		if a, ok := at(x.X).(Sc); ok && isInt(x.Type()) && isInt(x.X.Type()) {
			return Sc{a.t, x.Type()}
		}
	case *ssa.ChangeType:
		return at(x.X)
	}
	return nil
}

// bounds2 finds the values compared with an integer header variable inside the loop.
func cmpOperands(l *loop) [][2]ssa.Value {
	var out [][2]ssa.Value
	var bs []*ssa.BasicBlock
	for b := range l.blocks {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.BinOp); ok && isInt(x.X.Type()) {
				switch x.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					out = append(out, [2]ssa.Value{x.X, x.Y})
				}
			}
		}
	}
	return out
}

func (e *Exec) intPhiBounds(fr *Frame, l *loop, p *ssa.Phi) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	rel := func(v ssa.Value) bool { // v is p or p±const or a conversion of it
		for i := 0; i < 4; i++ {
			if v == p {
				return true
			}
			switch x := v.(type) {
			case *ssa.BinOp:
				if _, ok := x.Y.(*ssa.Const); ok && (x.Op == token.ADD || x.Op == token.SUB) {
					v = x.X
					continue
				}
			case *ssa.Convert:
				v = x.X
				continue
			case *ssa.Phi:
				for _, ed := range x.Edges {
					if ed == p {
						return true
					}
				}
			}
			return false
		}
		return false
	}
	for _, c := range cmpOperands(l) {
		if rel(c[0]) && !seen[c[1]] {
			seen[c[1]] = true
			out = append(out, c[1])
		}
		if rel(c[1]) && !seen[c[0]] {
			seen[c[0]] = true
			out = append(out, c[0])
		}
	}
	return out
}

func (e *Exec) candidates(st *State, fr *Frame, l *loop, phis []*ssa.Phi, preVals map[*ssa.Phi]Val, pre *State) []cand {
	var out []cand
	preNext := st.get("next", SInt)
	add := func(n string, f func(h *headCtx) *T) { out = append(out, cand{n, f}) }
	add("next>=pre", func(h *headCtx) *T { return Le(preNext, h.st.get("next", SInt)) })
	iv := func(p *ssa.Phi) intAt { return func(h *headCtx) *T { return h.vals[p].(Sc).t } }
	var ints []*ssa.Phi
	for _, p := range phis {
		p := p
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		pv := preVals[p]
		switch x := pv.(type) {
		case Sc:
			if x.t.sort == SBool {
				add(nm+"==true", func(h *headCtx) *T { return h.vals[p].(Sc).t })
				add(nm+"==false", func(h *headCtx) *T { return Not(h.vals[p].(Sc).t) })
				continue
			}
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				add(nm+"!=nil", func(h *headCtx) *T { return Ne(h.vals[p].(Sc).t, K(0)) })
				add(nm+"==nil", func(h *headCtx) *T { return Eq(h.vals[p].(Sc).t, K(0)) })
				add(nm+" unchanged", func(h *headCtx) *T { return Eq(h.vals[p].(Sc).t, x.t) })
				add(nm+" unchanged or fresh", func(h *headCtx) *T {
					return Or(Eq(h.vals[p].(Sc).t, x.t), Le(preNext, h.vals[p].(Sc).t))
				})
				continue
			}
			if isInt(p.Type()) {
				ints = append(ints, p)
				f := iv(p)
				add(nm+">=init", func(h *headCtx) *T { return Le(x.t, f(h)) })
				add(nm+"<=init", func(h *headCtx) *T { return Le(f(h), x.t) })
				add(nm+">=0", func(h *headCtx) *T { return Le(K(0), f(h)) })
				add(nm+">=-1", func(h *headCtx) *T { return Le(K(-1), f(h)) })
				for bi, bv := range e.intPhiBounds(fr, l, p) {
					bv := bv
					g := func(h *headCtx) *T {
						v, ok := e.evalAt(h, fr, l, bv, 0).(Sc)
						if !ok || v.t.sort != SInt {
							unsup("bound")
						}
						return v.t
					}
					add(fmt.Sprintf("%s<=bound%d", nm, bi), func(h *headCtx) *T { return Le(f(h), g(h)) })
					add(fmt.Sprintf("%s<bound%d", nm, bi), func(h *headCtx) *T { return Lt(f(h), g(h)) })
					add(fmt.Sprintf("%s>=bound%d", nm, bi), func(h *headCtx) *T { return Le(g(h), f(h)) })
				}
			}
		case SliceV:
			sl := func(h *headCtx) SliceV { return h.vals[p].(SliceV) }
			add(nm+" suffix: same object", func(h *headCtx) *T { return Eq(sl(h).base, x.base) })
			add(nm+" suffix: same end", func(h *headCtx) *T {
				s := sl(h)
				return Eq(Add(s.off, s.ln), Add(x.off, x.ln))
			})
			add(nm+" same capacity end", func(h *headCtx) *T {
				s := sl(h)
				return Eq(Add(s.off, s.cp), Add(x.off, x.cp))
			})
			add(nm+" not longer", func(h *headCtx) *T { return Le(sl(h).ln, x.ln) })
			add(nm+" not shorter", func(h *headCtx) *T { return Le(x.ln, sl(h).ln) })
			add(nm+" same length", func(h *headCtx) *T { return Eq(x.ln, sl(h).ln) })
			add(nm+" same offset", func(h *headCtx) *T { return Eq(x.off, sl(h).off) })
			add(nm+" object unchanged or fresh", func(h *headCtx) *T {
				s := sl(h)
				return Or(Eq(s.base, x.base), Eq(s.base, K(0)), Le(preNext, s.base))
			})
			add(nm+" not nil", func(h *headCtx) *T { return Ne(sl(h).base, K(0)) })
			if !isNode(x.elem) {
				add(nm+" keeps its elements", func(h *headCtx) *T { return e.prefixSame(h.st, sl(h), pre, x, x.ln) })
			}
		case IfaceV:
			add(nm+"==nil", func(h *headCtx) *T { return Eq(h.vals[p].(IfaceV).t, K(0)) })
			add(nm+" unchanged", func(h *headCtx) *T { return Eq(h.vals[p].(IfaceV).t, x.t) })
		case StrV:
			add(nm+" unchanged", func(h *headCtx) *T { return Eq(h.vals[p].(StrV).s, x.s) })
		case FieldPtr:
			add(nm+" unchanged", func(h *headCtx) *T { return Eq(h.vals[p].(FieldPtr).ref, x.ref) })
		}
	}
	for i, p := range ints {
		for j, q := range ints {
			if i == j {
				continue
			}
			p, q := p, q
			add(fmt.Sprintf("%s<=%s", p.Comment, q.Comment), func(h *headCtx) *T { return Le(iv(p)(h), iv(q)(h)) })
			if i < j {
				d0 := Sub(preVals[p].(Sc).t, preVals[q].(Sc).t)
				add(fmt.Sprintf("%s-%s const", p.Comment, q.Comment), func(h *headCtx) *T { return Eq(Sub(iv(p)(h), iv(q)(h)), d0) })
			}
		}
	}
	// memory frames
	add("memory frame", nil)
	out = out[:len(out)-1]
	for _, key := range e.frameKeys() {
		key := key
		so := keySortOf(key)
		if !strings.HasPrefix(string(so), "(Array") {
			continue
		}
		add("frame "+key, func(h *headCtx) *T {
			a, b := h.st.get(key, so), pre.get(key, so)
			if a == b {
				return True
			}
			x := a
			for x.op == "store" {
				x = x.args[0]
			}
			if e.wild[x] && x != b {
				return nil
			}
			u := BVar("fu", SInt)
			return Forall([]*T{u}, Imp(And(Lt(K(0), u), Lt(u, preNext)), Eq(Sel(a, u), Sel(b, u))), []*T{Sel(a, u)})
		})
	}
	// the frame of the whole function, as far as the loop goes
	if e.entry != nil {
		for _, key := range e.frameKeys() {
			key := key
			so := keySortOf(key)
			if !strings.HasPrefix(string(so), "(Array") || strings.HasPrefix(key, "ValueCache.") {
				continue
			}
			add("function frame "+key, func(h *headCtx) *T {
				a, b := h.st.get(key, so), e.entry.get(key, so)
				if a == b {
					return True
				}
				u := BVar("fu", SInt)
				ex, upto := e.frameExcept(key, u)
				r := []*T{Forall([]*T{u}, Imp(And(Lt(K(0), u), Lt(u, e.entry.get("next", SInt)), Not(Or(ex...))), Eq(Sel(a, u), Sel(b, u))), []*T{Sel(a, u)})}
				for _, up := range upto {
					i := BVar("fi", SInt)
					now := Sel(Sel(a, up[0]), i)
					r = append(r, Forall([]*T{i}, Imp(Lt(i, up[1]), Eq(now, Sel(Sel(b, up[0]), i))), []*T{now}))
				}
				return And(r...)
			})
		}
		add("shared constants", func(h *headCtx) *T { return And(e.constFacts(h.st)...) })
	}
	// rows of the nodes used in the loop
	outer := e.outerNodes(st, fr, l)
	for vi, v := range outer {
		v := v
		for _, f := range []string{"farr", "fobject.strkvs", "fbinary"} {
			key := "DxValue." + f + ".base"
			was := Sel(st.get(key, SArr(SInt)), v)
			add(fmt.Sprintf("row %s of node %d unchanged or fresh", f, vi), func(h *headCtx) *T {
				now := Sel(h.st.get(key, SArr(SInt)), v)
				if now == was {
					return True
				}
				return Or(Eq(now, was), Eq(now, K(0)), Le(preNext, now))
			})
		}
	}
	if e.ctr != nil {
		for hi, c := range e.ctr.hints {
			if !tagOK(c.tags, e.tags) {
				continue
			}
			out = append(out, e.hintCands(c, hi, fr, phis, preVals, pre, outer)...)
		}
	}
	return out
}

// outerNodes: nodes named outside the loop and used inside it.
func (e *Exec) outerNodes(st *State, fr *Frame, l *loop) []*T {
	seen := map[*T]bool{}
	var out []*T
	for _, b := range fr.fn.Blocks {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			var ops []*ssa.Value
			for _, o := range in.Operands(ops) {
				if o == nil || *o == nil {
					continue
				}
				if _, ok := (*o).(*ssa.Const); ok {
					continue
				}
				v, ok := st.env[envKey{fr.id, *o}]
				if !ok {
					continue
				}
				var t *T
				switch x := v.(type) {
				case Sc:
					if pt, ok := x.typ.Underlying().(*types.Pointer); ok && isNode(pt.Elem()) {
						t = x.t
					}
				case FieldPtr:
					if x.root == "DxValue" {
						t = x.ref
					}
				}
				if t != nil && !seen[t] && t.op != "const" {
					seen[t] = true
					out = append(out, t)
				}
			}
		}
	}
	return out
}

// frameKeys: arrays touched so far in this run (candidates for whole-array frames).
func (e *Exec) frameKeys() []string {
	sortMu.Lock()
	defer sortMu.Unlock()
	var ks []string
	for k := range keySort {
		if strings.HasPrefix(k, "DxValue.") || strings.HasPrefix(k, "M:") || strings.HasPrefix(k, "ValueCache.") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

func (e *Exec) prefixSame(st *State, a SliceV, pre *State, b SliceV, n *T) *T {
	var cs []*T
	for _, lf := range leaves(a.elem) {
		key := memKey(a.elem, lf.path)
		i := BVar("pi", SInt)
		x := Sel(Sel(st.get(key, SArr(SArr(lf.sort))), a.base), Add(a.off, i))
		y := Sel(Sel(pre.get(key, SArr(SArr(lf.sort))), b.base), Add(b.off, i))
		if x == y {
			continue
		}
		cs = append(cs, Forall([]*T{i}, Imp(And(Le(K(0), i), Lt(i, n)), Eq(x, y)), []*T{x}))
	}
	return And(cs...)
}

// metavariables of a hint
func metaVars(x ast.Expr) []string {
	m := map[string]bool{}
	ast.Inspect(x, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && strings.HasPrefix(id.Name, "MV_") {
			m[id.Name] = true
		}
		return true
	})
	return sortedKeys(m)
}

func (e *Exec) hintCands(c Clause, hi int, fr *Frame, phis []*ssa.Phi, preVals map[*ssa.Phi]Val, pre *State, outer []*T) []cand {
	type binding struct {
		name string
		f    func(h *headCtx) Val
	}
	mv := metaVars(c.expr)
	opts := make([][]binding, len(mv))
	for i, m := range mv {
		for _, p := range phis {
			p := p
			pv := preVals[p]
			k := m[3]
			switch x := pv.(type) {
			case Sc:
				if x.t.sort == SBool && k == 'f' {
					opts[i] = append(opts[i], binding{p.Comment, func(h *headCtx) Val { return h.vals[p] }})
				}
				if x.t.sort == SInt && isInt(p.Type()) && (k == 'i' || k == 'j' || k == 'k' || k == 'n') {
					opts[i] = append(opts[i], binding{p.Comment, func(h *headCtx) Val { return h.vals[p] }})
					opts[i] = append(opts[i], binding{p.Comment + "+1", func(h *headCtx) Val { return Sc{Add(h.vals[p].(Sc).t, K(1)), tInt} }})
				}
				if _, ok := p.Type().Underlying().(*types.Pointer); ok && (k == 'p' || k == 'q') {
					opts[i] = append(opts[i], binding{p.Comment, func(h *headCtx) Val { return h.vals[p] }})
				}
			case SliceV:
				if k == 'b' || k == 'c' || k == 'd' {
					opts[i] = append(opts[i], binding{p.Comment, func(h *headCtx) Val { return h.vals[p] }})
				}
			case StrV:
				if k == 's' || k == 't' {
					opts[i] = append(opts[i], binding{p.Comment, func(h *headCtx) Val { return h.vals[p] }})
				}
			case IfaceV:
				if k == 'e' {
					opts[i] = append(opts[i], binding{p.Comment, func(h *headCtx) Val { return h.vals[p] }})
				}
			}
		}
		if m[3] == 'b' || m[3] == 'c' || m[3] == 'd' { // locals captured by a closure
			var ids []int
			for id, v := range pre.cells {
				if _, ok := v.(SliceV); ok {
					ids = append(ids, id)
				}
			}
			sort.Ints(ids)
			for _, id := range ids {
				id := id
				opts[i] = append(opts[i], binding{fmt.Sprintf("cell %d", id), func(h *headCtx) Val { return h.st.cells[id] }})
			}
		}
		if m[3] == 'p' || m[3] == 'q' {
			for oi, o := range outer {
				v := Sc{o, types.NewPointer(e.P.byName["DxValue"])}
				opts[i] = append(opts[i], binding{fmt.Sprintf("node %d", oi), func(h *headCtx) Val { return v }})
			}
		}
		if len(opts[i]) == 0 {
			return nil
		}
	}
	var out []cand
	idx := make([]int, len(mv))
	for n := 0; n < 200; n++ {
		bs := make([]binding, len(mv))
		nm := fmt.Sprintf("hint#%d %s", hi, c.text)
		for i := range mv {
			bs[i] = opts[i][idx[i]]
			nm += fmt.Sprintf(" [%s=%s]", strings.Replace(mv[i], "MV_", "$", 1), bs[i].name)
		}
		out = append(out, cand{nm, func(h *headCtx) *T {
			s := *e.entryEv
			s.st = h.st
			s.old = e.entry
			s.vars = map[string]Val{}
			for k, v := range e.entryEv.vars {
				s.vars[k] = v
			}
			for i, b := range bs {
				s.vars[mv[i]] = b.f(h)
			}
			s.pre = pre
			s.side = nil
			return s.Bool(c.expr)
		}})
		i := len(idx) - 1
		for i >= 0 {
			idx[i]++
			if idx[i] < len(opts[i]) {
				break
			}
			idx[i] = 0
			i--
		}
		if i < 0 {
			break
		}
	}
	return out
}

// ---------- termination ----------

func (e *Exec) rank(st *State, fr *Frame, l *loop, head *headCtx, backs []backRec, pos token.Pos, preVals map[*ssa.Phi]Val) {
	if len(backs) == 0 {
		return
	}
	var rs []cand
	add := func(n string, f func(h *headCtx) *T) { rs = append(rs, cand{n, f}) }
	for _, p := range headerPhis(l.header) {
		p := p
		nm := p.Comment
		switch preVals[p].(type) {
		case SliceV:
			add("len("+nm+")", func(h *headCtx) *T { return h.vals[p].(SliceV).ln })
		case StrV:
			add("len("+nm+")", func(h *headCtx) *T { return slen(h.vals[p].(StrV).s) })
		case Sc:
			if isInt(p.Type()) {
				for bi, bv := range e.intPhiBounds(fr, l, p) {
					bv := bv
					add(fmt.Sprintf("bound%d-%s", bi, nm), func(h *headCtx) *T {
						v, ok := e.evalAt(h, fr, l, bv, 0).(Sc)
						if !ok {
							unsup("bound")
						}
						return Sub(v.t, h.vals[p].(Sc).t)
					})
				}
				add(nm, func(h *headCtx) *T { return h.vals[p].(Sc).t })
			}
		}
	}
	if e.ctr != nil {
		for ri, rx := range e.ctr.ranks {
			rx := rx
			mv := metaVars(rx)
			if len(mv) == 0 {
				add(fmt.Sprintf("rank#%d", ri), func(h *headCtx) *T {
					s := *e.entryEv
					s.st = h.st
					s.old = e.entry
					s.side = nil
					return s.Int(rx)
				})
				continue
			}
			c := Clause{expr: rx, text: exprStr(rx)}
			for _, hc := range e.rankHint(c, fr, headerPhis(l.header), preVals) {
				rs = append(rs, hc)
			}
		}
	}
	// at the header the rank is non-negative or the loop exits: each back edge lowers it and found it >= 0
	type rv struct {
		c cand
		h *T
		b []*T
	}
	var rvs []rv
	for _, c := range rs {
		h := e.candTerm(c, head)
		if h == nil {
			continue
		}
		r := rv{c: c, h: h}
		ok := true
		for _, b := range backs {
			t := e.candTerm(c, &headCtx{b.st, b.vals})
			if t == nil {
				ok = false
				break
			}
			r.b = append(r.b, t)
		}
		if ok {
			rvs = append(rvs, r)
		}
	}
	tryAll := func(g func(i int) *T, lvl int) bool {
		for i, b := range backs {
			gg := g(i)
			if gg == True {
				continue
			}
			if e.light.query(b.st.pc, Not(gg)) == "unsat" {
				continue
			}
			if lvl == 0 || !hasQuant(b.st.pc) {
				return false
			}
			if proveHeavy(b.st.pc, gg, 1).status != "unsat" {
				return false
			}
		}
		return true
	}
	rec := func(n string) {
		e.obls = append(e.obls, &Obl{Fn: e.name, Kind: "termination", Desc: "loop rank " + n, Pos: e.P.pos(pos), goal: True, res: qres{status: "unsat", by: "rank search (z3)"}})
	}
	for lvl := 0; lvl < 2; lvl++ {
		for _, r := range rvs {
			r := r
			if tryAll(func(i int) *T { return And(Le(K(0), r.h), Lt(r.b[i], r.h)) }, lvl) {
				rec(r.c.name)
				return
			}
		}
		for _, r := range rvs {
			for _, q := range rvs {
				r, q := r, q
				if r.c.name == q.c.name {
					continue
				}
				if tryAll(func(i int) *T {
					return Or(And(Le(K(0), r.h), Lt(r.b[i], r.h)), And(Eq(r.b[i], r.h), Le(K(0), q.h), Lt(q.b[i], q.h)))
				}, lvl) {
					rec(r.c.name + " then " + q.c.name)
					return
				}
			}
		}
	}
	var tr []string
	if len(backs) > 0 {
		tr = backs[0].st.trace
	}
	e.obls = append(e.obls, &Obl{Fn: e.name, Kind: "termination", Desc: "loop terminates", Pos: e.P.pos(pos), goal: False, trace: tr, res: qres{status: "unknown", by: "rank search", out: "no ranking function found"}})
}

func (e *Exec) rankHint(c Clause, fr *Frame, phis []*ssa.Phi, preVals map[*ssa.Phi]Val) []cand {
	// reuse the hint machinery by evaluating an integer expression
	var out []cand
	mv := metaVars(c.expr)
	if len(mv) != 1 {
		return nil
	}
	for _, p := range phis {
		p := p
		switch preVals[p].(type) {
		case Sc, SliceV:
			out = append(out, cand{"rank " + c.text + " " + p.Comment, func(h *headCtx) *T {
				s := *e.entryEv
				s.st = h.st
				s.old = e.entry
				s.vars = map[string]Val{}
				for k, v := range e.entryEv.vars {
					s.vars[k] = v
				}
				s.vars[mv[0]] = h.vals[p]
				s.side = nil
				return s.Int(c.expr)
			}})
		}
	}
	return out
}

var _ = big.NewInt
