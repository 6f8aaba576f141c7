package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------- script printing with sharing ----------

type printer struct {
	sb    strings.Builder
	names map[*T]string
	decl  map[string]bool
	n     int
}

func newPrinter() *printer { return &printer{names: map[*T]string{}, decl: map[string]bool{}} }

func (p *printer) declare(ts ...*T) {
	for _, t := range ts {
		p.declareOne(t)
	}
}

func (p *printer) declareOne(t *T) {
	walk(t, func(x *T) {
		switch x.op {
		case "var":
			if !p.decl[x.name] {
				p.decl[x.name] = true
				fmt.Fprintf(&p.sb, "(declare-const %s %s)\n", x.name, x.sort)
			}
		case "app":
			if !p.decl[x.name] {
				p.decl[x.name] = true
				funMu.Lock()
				d := funDecl[x.name]
				funMu.Unlock()
				p.sb.WriteString(d + "\n")
			}
		}
	})
}

// aliasPatterns names the logical subterms of patterns: solvers do not match on them.
func (p *printer) aliasPatterns(ts []*T) {
	seen := map[*T]bool{}
	alias := func(x *T) {
		if _, ok := p.names[x]; ok {
			return
		}
		p.n++
		nm := fmt.Sprintf("pa!%d", p.n)
		fmt.Fprintf(&p.sb, "(declare-const %s %s)\n(assert (= %s ", nm, x.sort, nm)
		writeTermNoName(&p.sb, x, p.names)
		p.sb.WriteString("))\n")
		p.names[x] = nm
	}
	var pat func(x *T)
	pat = func(x *T) {
		switch x.op {
		case "ite", "and", "or", "not", "=", "<=", "<", "=>":
			if !x.bound && !x.quant {
				alias(x)
				return
			}
		}
		for _, a := range x.args {
			pat(a)
		}
	}
	var w func(t *T)
	w = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, ps := range t.pats {
			for _, x := range ps {
				pat(x)
			}
		}
		for _, a := range t.args {
			w(a)
		}
	}
	for _, t := range ts {
		w(t)
	}
}

// share emits define-fun for subterms used more than once.
func (p *printer) share(ts []*T) {
	cnt := map[*T]int{}
	var order []*T
	var w func(*T)
	w = func(t *T) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.args {
			w(a)
		}
		order = append(order, t)
	}
	for _, t := range ts {
		w(t)
	}
	for _, t := range order {
		if cnt[t] < 2 || t.bound || len(t.args) == 0 || t.quant {
			continue
		}
		if _, ok := p.names[t]; ok {
			continue
		}
		if t.op == "select" && len(t.args[0].args) == 0 && len(t.args[1].args) == 0 {
			continue
		}
		p.n++
		nm := fmt.Sprintf("s!%d", p.n)
		fmt.Fprintf(&p.sb, "(define-fun %s () %s ", nm, t.sort)
		writeTermNoName(&p.sb, t, p.names)
		p.sb.WriteString(")\n")
		p.names[t] = nm
	}
}

func (p *printer) assert(t *T) {
	p.sb.WriteString("(assert ")
	writeTerm(&p.sb, t, p.names)
	p.sb.WriteString(")\n")
}

const preamble = "(declare-sort Str 0)\n"

// axiom: background fact included when its trigger symbols occur in the query.
type axiom struct {
	syms []string // all must occur
	t    *T
	name string
}

var axioms []axiom

func symbolsOf(ts []*T) map[string]bool {
	m := map[string]bool{}
	seen := map[*T]bool{}
	var w func(*T)
	w = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" {
			m[t.name] = true
		}
		for _, a := range t.args {
			w(a)
		}
	}
	for _, t := range ts {
		w(t)
	}
	return m
}

// byteLinks: x div 2^k == 256 * (x div 2^(k+8)) + (x div 2^k) mod 256 for the bytes of x the query mentions
func byteLinks(ts []*T) []*T {
	var out []*T
	seen := map[*T]bool{}
	divs := map[*T]bool{}
	var mods []*T
	var w func(*T)
	w = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !t.bound {
			if t.op == "div" {
				divs[t.args[0]] = true
			}
			if t.op == "mod" && t.args[1].isConst() && t.args[1].val.Cmp(big.NewInt(256)) == 0 {
				mods = append(mods, t)
			}
		}
		for _, a := range t.args {
			w(a)
		}
	}
	for _, t := range ts {
		w(t)
	}
	for _, m := range mods {
		d := m.args[0]
		x, k := d, big.NewInt(1)
		if d.op == "div" && d.args[1].isConst() {
			x, k = d.args[0], d.args[1].val
		}
		if !divs[x] {
			continue
		}
		up := intern(&T{op: "div", sort: SInt, args: []*T{x, KB(new(big.Int).Mul(k, big.NewInt(256)))}})
		out = append(out, Eq(d, Add(MulK(big.NewInt(256), up), m)))
	}
	return out
}

func buildScript(asserts []*T, goal *T) string {
	all := append([]*T{}, asserts...)
	ng := Not(goal)
	all = append(all, ng)
	all = append(all, byteLinks(all)...)
	syms := symbolsOf(all)
	used := map[int]bool{}
	for ch := true; ch; {
		ch = false
		for i, a := range axioms {
			if used[i] {
				continue
			}
			ok := true
			for _, s := range a.syms {
				if !syms[s] {
					ok = false
					break
				}
			}
			if ok {
				used[i] = true
				ch = true
				all = append(all, a.t)
				for s := range symbolsOf([]*T{a.t}) {
					syms[s] = true
				}
			}
		}
	}
	p := newPrinter()
	p.sb.WriteString(preamble)
	p.declare(all...)
	p.aliasPatterns(all)
	p.share(all)
	for _, t := range all {
		p.assert(t)
	}
	p.sb.WriteString("(check-sat)\n")
	return p.sb.String()
}

// ---------- standalone (heavy) queries ----------

type strategy struct {
	name string
	cmd  []string
	ms   int
}

// candProbe: for candidate invariants, most of which do not hold
var candProbe = []strategy{
	{"z3-5.3", []string{"z3-new", "-in", "smt.random_seed=0"}, 500},
	{"z3-4.8", []string{"z3", "-in"}, 600},
}

// hintProbe: for the invariants the contract gives
var hintProbe = []strategy{
	{"z3-5.3", []string{"z3-new", "-in", "smt.random_seed=0"}, 500},
	{"z3-4.8", []string{"z3", "-in"}, 4000},
	{"z3-5.3", []string{"z3-new", "-in", "smt.random_seed=0"}, 6000},
}

var strategies = []strategy{
	{"z3-5.3", []string{"z3-new", "-in", "smt.random_seed=0"}, 600},
	{"z3-4.8", []string{"z3", "-in"}, 600},
	{"z3-5.3", []string{"z3-new", "-in", "smt.random_seed=0"}, 4000},
	{"z3-4.8", []string{"z3", "-in"}, 4000},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--full-saturate-quant"}, 8000},
	{"z3-5.3-seed", []string{"z3-new", "-in", "smt.random_seed=7", "smt.arith.solver=2"}, 15000},
	{"z3-5.3-long", []string{"z3-new", "-in"}, 45000},
}

type qres struct {
	status string // unsat | sat | unknown
	by     string
	ms     int64
	out    string
}

var solverSlots = make(chan struct{}, 8)
var solverMs int64
var heavyCount int64
var qcacheMu sync.Mutex
var qcache = map[[32]byte]qres{}

func runSolver(st strategy, script string) qres {
	solverSlots <- struct{}{}
	defer func() { <-solverSlots }()
	start := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(st.ms)*time.Millisecond+2*time.Second)
	defer cancel()
	args := append([]string{}, st.cmd[1:]...)
	if strings.HasPrefix(st.cmd[0], "z3") {
		args = append(args, fmt.Sprintf("-t:%d", st.ms))
	} else {
		args = append(args, fmt.Sprintf("--tlimit=%d", st.ms))
		script = "(set-logic ALL)\n" + script
	}
	c := exec.CommandContext(ctx, st.cmd[0], args...)
	c.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	c.Run()
	ms := time.Since(start).Milliseconds()
	atomic.AddInt64(&solverMs, ms)
	atomic.AddInt64(&heavyCount, 1)
	o := strings.TrimSpace(out.String())
	st1 := "unknown"
	first := o
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		first = o[:i]
	}
	switch first {
	case "unsat":
		st1 = "unsat"
	case "sat":
		st1 = "sat"
	}
	if len(o) > 2000 {
		o = o[:2000]
	}
	return qres{st1, st.name, ms, o}
}

// proveHeavy decides asserts => goal. level: how many strategies to try.
func proveHeavy(asserts []*T, goal *T, level int) qres {
	if goal == True {
		return qres{status: "unsat", by: "simplifier"}
	}
	script := buildScript(asserts, goal)
	key := sha256.Sum256([]byte(fmt.Sprintf("%d\n%s", level, script)))
	qcacheMu.Lock()
	if r, ok := qcache[key]; ok {
		qcacheMu.Unlock()
		return r
	}
	qcacheMu.Unlock()
	var r qres
	var total int64
	var outs []string
	strats := strategies
	if level == -1 {
		strats = hintProbe
		level = len(strats)
	}
	if level == 1 {
		strats = candProbe
		level = len(strats)
	}
	for i := 0; i < level && i < len(strats); i++ {
		r = runSolver(strats[i], script)
		total += r.ms
		outs = append(outs, fmt.Sprintf("%s: %s (%d ms) %s", r.by, r.status, r.ms, firstLine(r.out)))
		if r.status == "unsat" {
			break
		}
		if r.status == "sat" {
			break
		}
	}
	r.ms = total
	r.out = strings.Join(outs, "\n")
	qcacheMu.Lock()
	qcache[key] = r
	qcacheMu.Unlock()
	return r
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// ---------- light incremental solver (quantifier-free facts only) ----------

type Light struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	cur   []*T
	lv    []int
	decls []map[string]bool
	cnt   int
	n     int
	ms    int

	deadline time.Time
}

func newLight() *Light {
	l := &Light{ms: 400}
	l.start()
	return l
}

func (l *Light) start() {
	l.cmd = exec.Command("z3-new", "-in")
	l.in, _ = l.cmd.StdinPipe()
	o, _ := l.cmd.StdoutPipe()
	l.cmd.Stderr = nil
	l.out = bufio.NewReader(o)
	if err := l.cmd.Start(); err != nil {
		panic(err)
	}
	fmt.Fprintf(l.in, "(set-option :timeout %d)\n%s", l.ms, preamble)
}

func (l *Light) close() {
	if l.cmd != nil {
		l.in.Close()
		l.cmd.Process.Kill()
		l.cmd.Wait()
	}
}

// query decides whether asserts ∧ extra is satisfiable. asserts is the whole path: the common prefix with
// the previously sent one is kept in the process.
func (l *Light) query(asserts []*T, extra ...*T) string {
	if !l.deadline.IsZero() && time.Now().After(l.deadline) {
		panic(unsupported{"deadline"})
	}
	for _, e := range extra {
		if e == False {
			return "unsat"
		}
	}
	// find common prefix in chunks: we keep one level per assertion chunk
	p := 0
	for p < len(l.cur) && p < len(asserts) && l.cur[p] == asserts[p] {
		p++
	}
	// pop levels beyond p
	for len(l.lv) > 0 && l.lv[len(l.lv)-1] > p {
		io.WriteString(l.in, "(pop 1)\n")
		l.lv = l.lv[:len(l.lv)-1]
		l.decls = l.decls[:len(l.decls)-1]
	}
	base := 0
	if len(l.lv) > 0 {
		base = l.lv[len(l.lv)-1]
	}
	l.cur = append([]*T{}, asserts[:base]...)
	if base < len(asserts) {
		l.push(asserts[base:])
		l.cur = append(l.cur, asserts[base:]...)
		l.lv = append(l.lv, len(asserts))
	}
	if len(extra) > 0 {
		l.push(extra)
	}
	io.WriteString(l.in, "(check-sat)\n")
	r, err := l.out.ReadString('\n')
	for err == nil && strings.HasPrefix(r, "(error") {
		panic("light solver: " + r)
	}
	if err != nil {
		l.close()
		l.start()
		l.lv, l.decls, l.cur = nil, nil, nil
		return "unknown"
	}
	l.n++
	if len(extra) > 0 {
		io.WriteString(l.in, "(pop 1)\n")
		l.decls = l.decls[:len(l.decls)-1]
	}
	return strings.TrimSpace(r)
}

func (l *Light) push(ts []*T) {
	p := newPrinter()
	known := map[string]bool{}
	for _, d := range l.decls {
		for k := range d {
			known[k] = true
		}
	}
	p.decl = known
	before := map[string]bool{}
	for k := range known {
		before[k] = true
	}
	l.cnt++
	p.n = l.cnt * 100000
	io.WriteString(l.in, "(push 1)\n")
	var qf []*T
	for _, t := range ts {
		if !t.quant && !t.bound {
			qf = append(qf, t)
		}
	}
	p.declare(qf...)
	p.share(qf)
	for _, t := range qf {
		p.assert(t)
	}
	nd := map[string]bool{}
	for k := range p.decl {
		if !before[k] {
			nd[k] = true
		}
	}
	l.decls = append(l.decls, nd)
	io.WriteString(l.in, p.sb.String())
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
