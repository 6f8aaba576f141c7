package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

// Sort of an SMT term: "Int", "Bool", "Str", or "(Array Int X)".
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
)

func SArr(s Sort) Sort { return Sort("(Array Int " + string(s) + ")") }
func (s Sort) elem() Sort {
	if strings.HasPrefix(string(s), "(Array Int ") {
		return Sort(strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array Int "), ")"))
	}
	panic("elem of " + string(s))
}

// T is a hash-consed SMT term.
type T struct {
	op    string // "const" (Int literal), "var", "app", or an SMT operator
	name  string // var / app symbol / quantifier text
	args  []*T
	sort  Sort
	val   *big.Int
	bvars []*T   // quantifier bound variables
	pats  [][]*T // quantifier patterns
	id    int
	quant bool // contains a quantifier
	bound bool // contains a bound variable
	depth int
	h     uint64
}

type termTab struct {
	mu sync.Mutex
	m  map[string]*T
	n  int
}

var tab = &termTab{m: map[string]*T{}}

func intern(t *T) *T {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	sb.WriteString(string(t.sort))
	if t.val != nil {
		sb.WriteByte('|')
		sb.WriteString(t.val.String())
	}
	for _, a := range t.args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	for _, a := range t.bvars {
		fmt.Fprintf(&sb, ";%d", a.id)
	}
	for _, p := range t.pats {
		sb.WriteByte('!')
		for _, a := range p {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
	}
	k := sb.String()
	tab.mu.Lock()
	defer tab.mu.Unlock()
	if r, ok := tab.m[k]; ok {
		return r
	}
	tab.n++
	t.id = tab.n
	if t.op == "forall" || t.op == "exists" {
		t.quant = true
	}
	if t.op == "bvar" {
		t.bound = true
	}
	for _, a := range t.args {
		if a.quant {
			t.quant = true
		}
		if a.bound {
			t.bound = true
		}
		if a.depth >= t.depth {
			t.depth = a.depth + 1
		}
	}
	h := fnv(14695981039346656037, t.op+"|"+t.name+"|"+string(t.sort))
	if t.val != nil {
		h = fnv(h, t.val.String())
	}
	for _, a := range t.args {
		h = (h ^ a.h) * 1099511628211
		h ^= h >> 29
	}
	for _, p := range t.pats {
		for _, a := range p {
			h = (h ^ a.h) * 1099511628211
		}
	}
	t.h = h
	tab.m[k] = t
	return t
}

func fnv(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func K(n int64) *T     { return KB(big.NewInt(n)) }
func KB(n *big.Int) *T { return intern(&T{op: "const", sort: SInt, val: new(big.Int).Set(n)}) }
func Var(n string, s Sort) *T {
	return intern(&T{op: "var", name: strings.ReplaceAll(n, ":", "~"), sort: s})
}
func BVar(n string, s Sort) *T { return intern(&T{op: "bvar", name: n, sort: s}) }

var True = intern(&T{op: "true", sort: SBool})
var False = intern(&T{op: "false", sort: SBool})

func BoolT(b bool) *T {
	if b {
		return True
	}
	return False
}

func pow2(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }

func (t *T) isConst() bool { return t.op == "const" }

// linear combination helper
type lin struct {
	c  *big.Int
	ts map[*T]*big.Int
}

func toLin(t *T) *lin {
	l := &lin{c: new(big.Int), ts: map[*T]*big.Int{}}
	addLin(l, t, big.NewInt(1))
	return l
}

func addLin(l *lin, t *T, k *big.Int) {
	switch {
	case t.op == "const":
		l.c.Add(l.c, new(big.Int).Mul(t.val, k))
	case t.op == "+":
		for _, a := range t.args {
			addLin(l, a, k)
		}
	case t.op == "*" && t.args[0].op == "const":
		addLin(l, t.args[1], new(big.Int).Mul(k, t.args[0].val))
	default:
		c, ok := l.ts[t]
		if !ok {
			c = new(big.Int)
			l.ts[t] = c
		}
		c.Add(c, k)
		if c.Sign() == 0 {
			delete(l.ts, t)
		}
	}
}

func fromLin(l *lin) *T {
	var ks []*T
	for t := range l.ts {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].h < ks[j].h })
	var args []*T
	for _, t := range ks {
		c := l.ts[t]
		if c.Cmp(big.NewInt(1)) == 0 {
			args = append(args, t)
		} else {
			args = append(args, intern(&T{op: "*", sort: SInt, args: []*T{KB(c), t}}))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, KB(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return intern(&T{op: "+", sort: SInt, args: args})
}

func Add(ts ...*T) *T {
	l := &lin{c: new(big.Int), ts: map[*T]*big.Int{}}
	for _, t := range ts {
		addLin(l, t, big.NewInt(1))
	}
	return fromLin(l)
}
func Sub(a, b *T) *T {
	l := toLin(a)
	addLin(l, b, big.NewInt(-1))
	return fromLin(l)
}
func Neg(a *T) *T { return Sub(K(0), a) }
func MulK(k *big.Int, a *T) *T {
	l := &lin{c: new(big.Int), ts: map[*T]*big.Int{}}
	addLin(l, a, k)
	return fromLin(l)
}
func Mul(a, b *T) *T {
	if a.isConst() {
		return MulK(a.val, b)
	}
	if b.isConst() {
		return MulK(b.val, a)
	}
	if a.h > b.h {
		a, b = b, a
	}
	return intern(&T{op: "*nl", sort: SInt, args: []*T{a, b}})
}

// Div and Mod are SMT-LIB (floor for positive divisor) by a positive constant.
func DivK(a *T, k *big.Int) *T {
	if k.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if a.isConst() {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.val, k, m)
		return KB(q)
	}
	if lo, hi, ok := bounds(a); ok && lo.Sign() >= 0 && hi.Cmp(k) < 0 {
		return K(0)
	}
	// (k*q + r) div k = q + r div k
	if a.op == "+" || a.op == "*" {
		l := toLin(a)
		q := &lin{c: new(big.Int), ts: map[*T]*big.Int{}}
		for t, c := range l.ts {
			d, m := new(big.Int).QuoRem(c, k, new(big.Int))
			if m.Sign() == 0 {
				q.ts[t] = d
				delete(l.ts, t)
			}
		}
		if len(q.ts) > 0 {
			return Add(fromLin(q), DivK(fromLin(l), k))
		}
	}
	// (a div j) div k = a div (j*k)
	if a.op == "div" && a.args[1].isConst() {
		return DivK(a.args[0], new(big.Int).Mul(k, a.args[1].val))
	}
	return intern(&T{op: "div", sort: SInt, args: []*T{a, KB(k)}})
}
func ModK(a *T, k *big.Int) *T {
	if a.isConst() {
		return KB(new(big.Int).Mod(a.val, k))
	}
	// drop summands that are multiples of k
	l := toLin(a)
	ch := false
	for t, c := range l.ts {
		if new(big.Int).Mod(c, k).Sign() == 0 {
			delete(l.ts, t)
			ch = true
		}
	}
	if len(l.ts) == 0 {
		return KB(new(big.Int).Mod(l.c, k))
	}
	if l.c.Sign() < 0 || l.c.Cmp(k) >= 0 {
		l.c.Mod(l.c, k)
		ch = true
	}
	if ch {
		a = fromLin(l)
	}
	if lo, hi, ok := bounds(a); ok && lo.Sign() >= 0 && hi.Cmp(k) < 0 {
		return a
	}
	if a.op == "mod" {
		m := a.args[1].val
		if new(big.Int).Mod(m, k).Sign() == 0 {
			return ModK(a.args[0], k)
		}
	}
	return intern(&T{op: "mod", sort: SInt, args: []*T{a, KB(k)}})
}

// bounds gives syntactic interval information (from structure alone).
func bounds(t *T) (lo, hi *big.Int, ok bool) {
	switch t.op {
	case "const":
		return t.val, t.val, true
	case "mod":
		if t.args[1].isConst() {
			m := new(big.Int).Sub(t.args[1].val, big.NewInt(1))
			return big.NewInt(0), m, true
		}
	case "div":
		if l, h, k := bounds(t.args[0]); k && t.args[1].isConst() {
			d := t.args[1].val
			a, b := new(big.Int), new(big.Int)
			a.Div(l, d)
			b.Div(h, d)
			return a, b, true
		}
	case "+":
		lo, hi = new(big.Int), new(big.Int)
		for _, a := range t.args {
			l, h, k := bounds(a)
			if !k {
				return nil, nil, false
			}
			lo.Add(lo, l)
			hi.Add(hi, h)
		}
		return lo, hi, true
	case "*":
		l, h, k := bounds(t.args[1])
		if k {
			c := t.args[0].val
			a, b := new(big.Int).Mul(c, l), new(big.Int).Mul(c, h)
			if a.Cmp(b) > 0 {
				a, b = b, a
			}
			return a, b, true
		}
	case "ite":
		l1, h1, k1 := bounds(t.args[1])
		l2, h2, k2 := bounds(t.args[2])
		if k1 && k2 {
			if l2.Cmp(l1) < 0 {
				l1 = l2
			}
			if h2.Cmp(h1) > 0 {
				h1 = h2
			}
			return l1, h1, true
		}
	}
	if r, k := rangeOf(t); k {
		return r[0], r[1], true
	}
	return nil, nil, false
}

// rangeTab records intervals known for atoms by construction (byte loads, lengths): these are facts
// asserted whenever the term is introduced.
var rangeMu sync.Mutex
var rangeTab = map[*T][2]*big.Int{}

func rangeOf(t *T) ([2]*big.Int, bool) {
	rangeMu.Lock()
	defer rangeMu.Unlock()
	r, ok := rangeTab[t]
	return r, ok
}

func Not(a *T) *T {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	case "<=": // not (a<=b) = b+1<=a
		return Le(Add(a.args[1], K(1)), a.args[0])
	}
	return intern(&T{op: "not", sort: SBool, args: []*T{a}})
}
func And(ts ...*T) *T {
	var out []*T
	seen := map[*T]bool{}
	var add func(t *T) bool
	add = func(t *T) bool {
		switch t.op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	for _, t := range out {
		if seen[Not(t)] {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return intern(&T{op: "and", sort: SBool, args: out})
}
func Or(ts ...*T) *T {
	var out []*T
	seen := map[*T]bool{}
	var add func(t *T) bool
	add = func(t *T) bool {
		switch t.op {
		case "false":
			return true
		case "true":
			return false
		case "or":
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return True
		}
	}
	for _, t := range out {
		if seen[Not(t)] {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return intern(&T{op: "or", sort: SBool, args: out})
}
func Imp(a, b *T) *T {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	if b.op == "=>" {
		return Imp(And(a, b.args[0]), b.args[1])
	}
	return intern(&T{op: "=>", sort: SBool, args: []*T{a, b}})
}
func Le(a, b *T) *T {
	d := Sub(a, b)
	if d.isConst() {
		return BoolT(d.val.Sign() <= 0)
	}
	if lo, hi, ok := bounds(d); ok {
		if hi.Sign() <= 0 {
			return True
		}
		if lo.Sign() > 0 {
			return False
		}
	}
	// normalise: positive terms left, negative right
	l := toLin(d)
	p := &lin{c: new(big.Int), ts: map[*T]*big.Int{}}
	n := &lin{c: new(big.Int), ts: map[*T]*big.Int{}}
	for t, c := range l.ts {
		if c.Sign() > 0 {
			p.ts[t] = c
		} else {
			n.ts[t] = new(big.Int).Neg(c)
		}
	}
	n.c.Neg(l.c)
	return intern(&T{op: "<=", sort: SBool, args: []*T{fromLin(p), fromLin(n)}})
}
func Lt(a, b *T) *T { return Le(Add(a, K(1)), b) }
func Eq(a, b *T) *T {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	if a.sort == SInt {
		d := Sub(a, b)
		if d.isConst() {
			return BoolT(d.val.Sign() == 0)
		}
		if lo, hi, ok := bounds(d); ok && (lo.Sign() > 0 || hi.Sign() < 0) {
			return False
		}
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.op == "ite" && (b.isConst() || b.op == "true" || b.op == "false") {
		x, y := Eq(a.args[1], b), Eq(a.args[2], b)
		if x.op == "true" || x.op == "false" || y.op == "true" || y.op == "false" {
			return Ite(a.args[0], x, y)
		}
	}
	if b.op == "ite" && a.isConst() {
		return Eq(b, a)
	}
	if a.h > b.h {
		a, b = b, a
	}
	return intern(&T{op: "=", sort: SBool, args: []*T{a, b}})
}
func Ne(a, b *T) *T { return Not(Eq(a, b)) }
func Ite(c, a, b *T) *T {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic("ite sorts")
	}
	if a.sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	return intern(&T{op: "ite", sort: a.sort, args: []*T{c, a, b}})
}
func Sel(a, i *T) *T {
	for a.op == "store" {
		d := Sub(a.args[1], i)
		if d.isConst() {
			if d.val.Sign() == 0 {
				return a.args[2]
			}
			a = a.args[0]
			continue
		}
		if lo, hi, ok := bounds(d); ok && (lo.Sign() > 0 || hi.Sign() < 0) {
			a = a.args[0]
			continue
		}
		if distinctRefs(a.args[1], i) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	return intern(&T{op: "select", sort: a.sort.elem(), args: []*T{a, i}})
}

// distinctRefs: two reference terms that can never be equal (hook filled by the executor's
// allocation facts: an allocation result differs from every term that existed before it).
var distinctRefs = func(a, b *T) bool { return false }

func Sto(a, i, v *T) *T {
	if a.op == "store" && a.args[1] == i {
		return Sto(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return intern(&T{op: "store", sort: a.sort, args: []*T{a, i, v}})
}
func ConstArr(s Sort, v *T) *T { return intern(&T{op: "constarr", sort: SArr(s), args: []*T{v}}) }

func App(f string, s Sort, args ...*T) *T {
	declFun(f, s, args)
	return intern(&T{op: "app", name: f, sort: s, args: args})
}

var funMu sync.Mutex
var funDecl = map[string]string{}

func declFun(f string, s Sort, args []*T) {
	funMu.Lock()
	defer funMu.Unlock()
	var sb strings.Builder
	sb.WriteString("(declare-fun " + f + " (")
	for i, a := range args {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(string(a.sort))
	}
	sb.WriteString(") " + string(s) + ")")
	d := sb.String()
	if o, ok := funDecl[f]; ok && o != d {
		panic("function " + f + " redeclared: " + o + " vs " + d)
	}
	funDecl[f] = d
}

func Quant(q string, vs []*T, body *T, pats ...[]*T) *T {
	if body == True || body == False {
		return body
	}
	// drop unused
	used := map[*T]bool{}
	walk(body, func(x *T) { used[x] = true })
	var keep []*T
	for _, v := range vs {
		if used[v] {
			keep = append(keep, v)
		}
	}
	if len(keep) == 0 {
		return body
	}
	if q == "forall" && body.op == "and" {
		var out []*T
		for _, a := range body.args {
			out = append(out, Quant(q, keep, a, okPats(keep, pats)...))
		}
		return And(out...)
	}
	t := &T{op: q, sort: SBool, args: []*T{body}, bvars: keep, pats: okPats(keep, pats)}
	r := intern(t)
	return r
}

func okPats(vs []*T, pats [][]*T) [][]*T {
	var out [][]*T
	for _, p := range pats {
		u := map[*T]bool{}
		for _, x := range p {
			walk(x, func(y *T) { u[y] = true })
		}
		ok := true
		for _, v := range vs {
			if !u[v] {
				ok = false
			}
		}
		if ok {
			out = append(out, p)
		}
	}
	return out
}

func Forall(vs []*T, body *T, pats ...[]*T) *T { return Quant("forall", vs, body, pats...) }
func Exists(vs []*T, body *T) *T               { return Quant("exists", vs, body) }

// ForallAt shifts the bound variable so that the first trigger reads an array at the variable itself: solvers
// match triggers syntactically, not modulo arithmetic.
func ForallAt(bv *T, body *T, pats ...[]*T) *T {
	var d *T
	for _, p := range pats {
		for _, t := range p {
			walk(t, func(x *T) {
				if d != nil || (x.op != "select" && !(x.op == "app" && x.name == "sbyte")) || len(x.args) < 2 || x.args[1].sort != SInt {
					return
				}
				r := Sub(x.args[1], bv)
				has := false
				walk(r, func(y *T) { has = has || y == bv })
				if !has {
					d = r
				}
			})
		}
		if d != nil {
			break
		}
	}
	if d == nil || d == K(0) {
		return Forall([]*T{bv}, body, pats...)
	}
	m := map[*T]*T{bv: Sub(bv, d)}
	var np [][]*T
	for _, p := range pats {
		var q []*T
		for _, t := range p {
			q = append(q, Subst(t, m))
		}
		np = append(np, q)
	}
	return Forall([]*T{bv}, Subst(body, m), np...)
}

func walk(t *T, f func(*T)) {
	seen := map[*T]bool{}
	var w func(*T)
	w = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			w(a)
		}
		for _, p := range t.pats {
			for _, a := range p {
				w(a)
			}
		}
	}
	w(t)
}

// Subst replaces variables (var or bvar terms, or any term) by others.
func Subst(t *T, m map[*T]*T) *T {
	memo := map[*T]*T{}
	var s func(*T) *T
	s = func(t *T) *T {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*T, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = s(a)
			if args[i] != a {
				same = false
			}
		}
		var r *T
		if same && len(t.pats) == 0 {
			r = t
		} else {
			r = rebuild(t, args, s)
		}
		memo[t] = r
		return r
	}
	return s(t)
}

func rebuild(t *T, a []*T, s func(*T) *T) *T {
	switch t.op {
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "*nl":
		return Mul(a[0], a[1])
	case "div":
		return DivK(a[0], a[1].val)
	case "mod":
		return ModK(a[0], a[1].val)
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Imp(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "select":
		return Sel(a[0], a[1])
	case "store":
		return Sto(a[0], a[1], a[2])
	case "constarr":
		return ConstArr(t.sort.elem(), a[0])
	case "app":
		return App(t.name, t.sort, a...)
	case "forall", "exists":
		var pats [][]*T
		for _, p := range t.pats {
			var q []*T
			for _, x := range p {
				q = append(q, s(x))
			}
			pats = append(pats, q)
		}
		return Quant(t.op, t.bvars, a[0], pats...)
	}
	panic("rebuild " + t.op)
}

func (t *T) String() string {
	var sb strings.Builder
	writeTerm(&sb, t, nil)
	return sb.String()
}

func intLit(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func writeTerm(sb *strings.Builder, t *T, names map[*T]string) {
	if n, ok := names[t]; ok {
		sb.WriteString(n)
		return
	}
	writeTermNoName(sb, t, names)
}

func writeTermNoName(sb *strings.Builder, t *T, names map[*T]string) {
	switch t.op {
	case "const":
		sb.WriteString(intLit(t.val))
	case "var", "bvar":
		sb.WriteString(t.name)
	case "true", "false":
		sb.WriteString(t.op)
	case "app":
		if len(t.args) == 0 {
			sb.WriteString(t.name)
			return
		}
		sb.WriteString("(" + t.name)
		for _, a := range t.args {
			sb.WriteByte(' ')
			writeTerm(sb, a, names)
		}
		sb.WriteByte(')')
	case "constarr":
		sb.WriteString("((as const " + string(t.sort) + ") ")
		writeTerm(sb, t.args[0], names)
		sb.WriteByte(')')
	case "forall", "exists":
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.bvars {
			sb.WriteString("(" + v.name + " " + string(v.sort) + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		writeTerm(sb, t.args[0], names)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					writeTerm(sb, x, names)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteByte(')')
	default:
		op := t.op
		if op == "*nl" {
			op = "*"
		}
		sb.WriteString("(" + op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			writeTerm(sb, a, names)
		}
		sb.WriteByte(')')
	}
}
