package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- contract files ----------

type Clause struct {
	expr    ast.Expr
	tags    []string
	text    string
	trusted bool // assumed by callers, not proved of the body (reported as an assumption)
	name    string
}

type ModItem struct {
	sub  string // only this part of the nodes or elements
	kind string // "field" (x.path or x.*), "mem", "spare", "all", "global"
	expr ast.Expr
	path string
	tags []string
}

type Contract struct {
	name      string
	file      string
	params    []string
	results   []string
	requires  []Clause
	ensures   []Clause
	modifies  []ModItem
	ghosts    []string
	dynParam  string // an interface parameter, and the dynamic types the contract is about
	dynTypes  []string
	inlines   []string // callees executed by body although they have contracts
	caches    bool     // the frame covers caches and their slots as well
	cbNames   []string // parameters and result of a caller-supplied function, as named in cbRequires and cbAssumes
	cbReq     []Clause // holds of the arguments at each call of it
	cbAss     []Clause // what its result is called
	decreases []ast.Expr
	hints     []Clause
	ranks     []ast.Expr
	trusted   string // reason: the body is not verified
	inline    bool   // callers still use the body (contract is verified only)
	tags      []string
	wide      bool // panics/overflow ignored (never set for property functions)
	opaque    bool
	lemmas    []Clause
}

type macro struct {
	params []string
	body   ast.Expr
}

type ufDecl struct {
	args []string
	res  string
}

type specAxiom struct {
	text string
	expr ast.Expr
	name string
	vars [][2]string
	pats []ast.Expr
}

type Contracts struct {
	pools map[string]*macro
	byFn   map[string]*Contract
	macros map[string]macro
	ufs    map[string]ufDecl
	axs    []specAxiom
}

func splitTop(s, sep string) []string {
	var out []string
	d := 0
	last := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				j++
			}
			i = j
		case '\'':
			j := i + 1
			for j < len(s) && s[j] != '\'' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			i = j
		}
		if d == 0 && strings.HasPrefix(s[i:], sep) {
			out = append(out, s[last:i])
			i += len(sep) - 1
			last = i + 1
		}
	}
	return append(out, s[last:])
}

// desugar turns a ==> b into implies(a, b) and a <==> b into iff(a,b) at every nesting level.
func desugar(s string) string {
	if p := splitTop(s, "<==>"); len(p) == 2 {
		return "iff(" + desugar(p[0]) + "," + desugar(p[1]) + ")"
	}
	if p := splitTop(s, "==>"); len(p) > 1 {
		return "implies(" + desugar(p[0]) + "," + desugar(strings.Join(p[1:], "==>")) + ")"
	}
	// descend into parentheses
	if !strings.Contains(s, "==>") {
		return s
	}
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '"' {
			j := i + 1
			for j < len(s) && s[j] != '"' {
				j++
			}
			sb.WriteString(s[i : j+1])
			i = j
			continue
		}
		if s[i] == '\'' {
			j := i + 1
			for j < len(s) && s[j] != '\'' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			sb.WriteString(s[i : j+1])
			i = j
			continue
		}
		if s[i] == '(' || s[i] == '[' {
			d := 0
			j := i
			for ; j < len(s); j++ {
				if s[j] == '(' || s[j] == '[' {
					d++
				} else if s[j] == ')' || s[j] == ']' {
					d--
					if d == 0 {
						break
					}
				}
			}
			if j >= len(s) {
				panic("unbalanced: " + s)
			}
			parts := splitTop(s[i+1:j], ",")
			for k := range parts {
				parts[k] = desugar(parts[k])
			}
			sb.WriteByte(s[i])
			sb.WriteString(strings.Join(parts, ","))
			sb.WriteByte(s[j])
			i = j
			continue
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

func parseSpec(s string) ast.Expr {
	d := strings.ReplaceAll(desugar(s), "$", "MV_")
	x, err := parser.ParseExpr(d)
	if err != nil {
		panic(fmt.Sprintf("spec expression %q: %v", s, err))
	}
	return x
}

func parseTags(word string) (string, []string) {
	if i := strings.IndexByte(word, '['); i >= 0 {
		j := strings.IndexByte(word, ']')
		return word[:i], strings.Split(word[i+1:j], ",")
	}
	return word, nil
}

func loadContracts(dir string) *Contracts {
	c := &Contracts{byFn: map[string]*Contract{}, macros: map[string]macro{}, ufs: map[string]ufDecl{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		c.parse(filepath.Base(f), string(b))
	}
	return c
}

func (c *Contracts) parse(file, text string) {
	var lines []string
	for _, l := range strings.Split(text, "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		l = strings.TrimRight(l, " \t\r")
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		if strings.HasPrefix(t, "| ") && len(lines) > 0 { // continuation
			lines[len(lines)-1] += " " + t[2:]
			continue
		}
		lines = append(lines, t)
	}
	var cur *Contract
	for _, l := range lines {
		word := l
		rest := ""
		if i := strings.IndexByte(l, ' '); i >= 0 {
			word, rest = l[:i], strings.TrimSpace(l[i+1:])
		}
		w, tags := parseTags(word)
		switch w {
		case "define":
			// define name(a,b) = expr
			i := strings.IndexByte(rest, '=')
			head, body := strings.TrimSpace(rest[:i]), rest[i+1:]
			j := strings.IndexByte(head, '(')
			var ps []string
			for _, p := range strings.Split(strings.TrimSuffix(head[j+1:], ")"), ",") {
				if p = strings.TrimSpace(p); p != "" {
					ps = append(ps, p)
				}
			}
			if _, dup := c.macros[head[:j]]; dup {
				panic("spec: " + head[:j] + " defined twice")
			}
			c.macros[head[:j]] = macro{ps, parseSpec(body)}
		case "uf":
			// uf name(int,str) int
			j := strings.IndexByte(rest, '(')
			k := strings.IndexByte(rest, ')')
			var as []string
			for _, p := range strings.Split(rest[j+1:k], ",") {
				if p = strings.TrimSpace(p); p != "" {
					as = append(as, p)
				}
			}
			if _, dup := c.ufs[rest[:j]]; dup {
				panic("spec: uf " + rest[:j] + " declared twice")
			}
			c.ufs[rest[:j]] = ufDecl{as, strings.TrimSpace(rest[k+1:])}
		case "axiom":
			// axiom name (x int, s str) {pat; pat} expr
			j := strings.IndexByte(rest, '(')
			k := strings.IndexByte(rest, ')')
			ax := specAxiom{name: strings.TrimSpace(rest[:j])}
			for _, p := range strings.Split(rest[j+1:k], ",") {
				f := strings.Fields(p)
				if len(f) == 2 {
					ax.vars = append(ax.vars, [2]string{f[0], f[1]})
				}
			}
			body := strings.TrimSpace(rest[k+1:])
			if strings.HasPrefix(body, "{") {
				m := strings.IndexByte(body, '}')
				for _, p := range strings.Split(body[1:m], ";") {
					ax.pats = append(ax.pats, parseSpec(p))
				}
				body = body[m+1:]
			}
			ax.text = strings.TrimSpace(body)
			ax.expr = parseSpec(body)
			c.axs = append(c.axs, ax)
		case "func":
			cur = &Contract{file: file}
			// func NAME(params) (results)
			h := rest
			j := strings.LastIndexByte(h, '(')
			var res []string
			// results present when there are two groups after the name
			if strings.HasSuffix(h, ")") {
				pre := strings.TrimSpace(h[:j])
				if strings.HasSuffix(pre, ")") && strings.Contains(strings.TrimPrefix(pre, "("), "(") {
					for _, p := range strings.Split(strings.TrimSuffix(h[j+1:], ")"), ",") {
						if p = strings.TrimSpace(p); p != "" {
							res = append(res, p)
						}
					}
					h = pre
					j = strings.LastIndexByte(h, '(')
				}
			}
			cur.results = res
			cur.name = strings.TrimSpace(h[:j])
			for _, p := range strings.Split(strings.TrimSuffix(h[j+1:], ")"), ",") {
				if p = strings.TrimSpace(p); p != "" {
					cur.params = append(cur.params, p)
				}
			}
			if o := c.byFn[cur.name]; o != nil {
				cur = o // extended in another file
				break
			}
			cur.tags = tags
			c.byFn[cur.name] = cur
		case "requires":
			cur.requires = append(cur.requires, Clause{expr: parseSpec(rest), tags: tags, text: rest})
		case "ensures":
			cur.ensures = append(cur.ensures, Clause{expr: parseSpec(rest), tags: tags, text: rest})
		case "assumes": // trusted postcondition
			cur.ensures = append(cur.ensures, Clause{expr: parseSpec(rest), tags: tags, text: rest, trusted: true})
		case "inv":
			cur.hints = append(cur.hints, Clause{expr: parseSpec(rest), tags: tags, text: rest})
		case "rank":
			cur.ranks = append(cur.ranks, parseSpec(rest))
		case "decreases":
			for _, p := range splitTop(rest, ",") {
				cur.decreases = append(cur.decreases, parseSpec(p))
			}
		case "trusted":
			cur.trusted = rest
			if rest == "" {
				cur.trusted = "body outside the verified subset"
			}
		case "inline":
			cur.inline = true
		case "dyn": // dyn PARAM T1, T2, ...: the dynamic type of the parameter is one of these
			q := strings.SplitN(rest, " ", 2)
			cur.dynParam = q[0]
			for _, x := range splitTop(q[1], ",") {
				cur.dynTypes = append(cur.dynTypes, strings.TrimSpace(x))
			}
		case "inlines":
			for _, x := range strings.Split(rest, ",") {
				cur.inlines = append(cur.inlines, strings.TrimSpace(x))
			}
		case "callback": // callback (params) (result): names for the calls of a caller-supplied function
			cur.cbNames = strings.FieldsFunc(rest, func(r rune) bool { return strings.ContainsRune("() ,", r) })
		case "cbrequires":
			cur.cbReq = append(cur.cbReq, Clause{expr: parseSpec(rest), tags: tags, text: rest})
		case "cbassumes":
			cur.cbAss = append(cur.cbAss, Clause{expr: parseSpec(rest), tags: tags, text: rest, trusted: true})
		case "caches":
			cur.caches = true
		case "poolinv": // poolinv POOL x = what holds of every object in the pool
			k := strings.IndexByte(rest, '=')
			f := strings.Fields(rest[:k])
			if c.pools == nil {
				c.pools = map[string]*macro{}
			}
			c.pools[f[0]] = &macro{params: f[1:], body: parseSpec(rest[k+1:])}
		case "ghost":
			cur.ghosts = append(cur.ghosts, strings.Fields(rest)...)
		case "modifies":
			for _, p := range splitTop(rest, ",") {
				p = strings.TrimSpace(p)
				m := ModItem{tags: tags}
				if i := strings.LastIndex(p, ")."); i > 0 && (strings.HasPrefix(p, "mem(") || strings.HasPrefix(p, "nodes(") || strings.HasPrefix(p, "rows(")) {
					m.sub = p[i+2:]
					p = p[:i+1]
				}
				switch {
				case p == "nothing":
					continue
				case p == "everything":
					m.kind = "all"
				case strings.HasPrefix(p, "mem("):
					m.kind = "mem"
					m.expr = parseSpec(strings.TrimSuffix(p[4:], ")"))
				case strings.HasPrefix(p, "spare("):
					m.kind = "spare"
					m.expr = parseSpec(strings.TrimSuffix(p[6:], ")"))
				case strings.HasPrefix(p, "nodes("):
					// nodes(u, pred): every field of every node u with pred
					q := splitTop(strings.TrimSuffix(p[6:], ")"), ",")
					m.kind = "nodes"
					m.path = strings.TrimSpace(q[0])
					m.expr = parseSpec(strings.Join(q[1:], ","))
				case strings.HasPrefix(p, "rows("):
					// rows(Elem, b, pred): every memory row of that element type whose base b satisfies pred
					q := splitTop(strings.TrimSuffix(p[5:], ")"), ",")
					m.kind = "rows"
					m.path = strings.TrimSpace(q[0]) + "|" + strings.TrimSpace(q[1])
					m.expr = parseSpec(strings.Join(q[2:], ","))
				case strings.HasPrefix(p, "global("):
					m.kind = "global"
					m.path = strings.TrimSuffix(p[7:], ")")
				default:
					m.kind = "field"
					i := strings.IndexByte(p, '.')
					if j := strings.LastIndex(p, ")."); j > 0 {
						i = j + 1
					}
					m.expr = parseSpec(p[:i])
					m.path = p[i+1:]
				}
				cur.modifies = append(cur.modifies, m)
			}
		default:
			panic("contract line: " + l)
		}
	}
}

func tagOK(tags []string, on map[string]bool) bool {
	if len(tags) == 0 {
		return true
	}
	for _, t := range tags {
		if on[t] {
			return true
		}
	}
	return false
}

// ---------- evaluation ----------

type specEnv struct {
	e    *Exec
	st   *State
	old  *State
	vars map[string]Val
	side *[]*T // well-formedness facts of the values read
	inq  int   // inside a quantifier
	pre  *State
	post *State // the state at return, in a modifies clause
}

func (s *specEnv) with(name string, v Val) *specEnv {
	n := *s
	n.vars = make(map[string]Val, len(s.vars)+1)
	for k, x := range s.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

func (s *specEnv) in(st *State) *specEnv {
	n := *s
	n.st = st
	return &n
}

func (s *specEnv) Bool(x ast.Expr) *T {
	v := s.eval(x)
	sc, ok := v.(Sc)
	if !ok || sc.t.sort != SBool {
		panic(fmt.Sprintf("spec: not a boolean: %s (%T)", exprStr(x), v))
	}
	return sc.t
}

func (s *specEnv) Int(x ast.Expr) *T {
	v := s.eval(x)
	switch y := v.(type) {
	case Sc:
		return y.t
	case IfaceV:
		return y.t
	case FieldPtr:
		return y.ref
	}
	panic(fmt.Sprintf("spec: not a scalar: %s (%T)", exprStr(x), v))
}

func exprStr(x ast.Expr) string { return strings.ReplaceAll(types.ExprString(x), "MV_", "$") }

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]

func (s *specEnv) fact(t types.Type, v Val) {
	if s.side == nil || s.inq > 0 {
		return
	}
	typeFacts(t, v, s.st.get("next", SInt), s.side)
}

func (s *specEnv) loadField(ref *T, root, path string, t types.Type) Val {
	v := build(t, path, func(p string, so Sort) *T { return Sel(s.st.get(fieldKey(root, p), SArr(so)), ref) })
	s.fact(t, v)
	if o := ownerFn(root, path); o != "" && s.side != nil && s.inq == 0 {
		*s.side = append(*s.side, ownedBy(o, v.(SliceV).base, ref))
	}
	return v
}

func fieldOf(t types.Type, name string) *types.Var {
	u, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return u.Field(i)
		}
	}
	return nil
}

func (s *specEnv) sel(v Val, name string, x ast.Expr) Val {
	switch y := v.(type) {
	case Sc:
		if p, ok := y.typ.Underlying().(*types.Pointer); ok {
			f := fieldOf(p.Elem(), name)
			if f == nil {
				break
			}
			if heapStruct(f.Type()) {
				return FieldPtr{y.t, typeName(p.Elem()), name, f.Type()}
			}
			return s.loadField(y.t, typeName(p.Elem()), name, f.Type())
		}
	case FieldPtr:
		f := fieldOf(y.typ, name)
		if f == nil {
			break
		}
		if heapStruct(f.Type()) {
			return FieldPtr{y.ref, y.root, join(y.path, name), f.Type()}
		}
		return s.loadField(y.ref, y.root, join(y.path, name), f.Type())
	case StructV:
		u := y.typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return y.f[i]
			}
		}
	}
	panic(fmt.Sprintf("spec: no field %s in %s (%T)", name, exprStr(x), v))
}

func (s *specEnv) elemAt(sl SliceV, i *T) Val {
	if isNode(sl.elem) {
		r := slotOf(sl.base, Add(sl.off, i))
		if s.side != nil && s.inq == 0 {
			*s.side = append(*s.side, Eq(App("slotbase", SInt, r), sl.base), Eq(App("slotidx", SInt, r), Add(sl.off, i)), Lt(r, K(0)))
		}
		return Sc{r, types.NewPointer(sl.elem)}
	}
	v := build(sl.elem, "", func(p string, so Sort) *T {
		return Sel(Sel(s.st.get(memKey(sl.elem, p), SArr(SArr(so))), sl.base), Add(sl.off, i))
	})
	s.fact(sl.elem, v)
	return v
}

func (s *specEnv) eval(x ast.Expr) Val {
	switch y := x.(type) {
	case *ast.ParenExpr:
		return s.eval(y.X)
	case *ast.BasicLit:
		c := constant.MakeFromLiteral(y.Value, y.Kind, 0)
		if y.Kind == token.STRING {
			t := strConst(constant.StringVal(c))
			if s.side != nil {
				*s.side = append(*s.side, strLitFacts(t)...)
			}
			return StrV{t, K(0)}
		}
		b, _ := new(big.Int).SetString(constant.ToInt(c).ExactString(), 10)
		return Sc{KB(b), tInt}
	case *ast.Ident:
		if v, ok := s.vars[y.Name]; ok {
			return v
		}
		switch y.Name {
		case "true":
			return Sc{True, tBool}
		case "false":
			return Sc{False, tBool}
		case "nil":
			return Sc{K(0), tInt}
		case "next":
			return Sc{s.st.get("next", SInt), tInt}
		case "tsort":
			return Sc{K(0), tInt}
		}
		if o := s.e.P.pkg.Pkg.Scope().Lookup(y.Name); o != nil {
			if c, ok := o.(*types.Const); ok {
				b, ok := new(big.Int).SetString(constant.ToInt(c.Val()).ExactString(), 10)
				if ok {
					return Sc{KB(b), c.Type()}
				}
			}
			if _, ok := o.(*types.Var); ok {
				g := s.e.P.pkg.Members[y.Name].(*ssa.Global)
				return s.e.loadGlobal(s.st, GlobPtr{g, o.Type()}, o.Type())
			}
		}
		if m, ok := s.e.P.ctrs.macros[y.Name]; ok && len(m.params) == 0 {
			return s.eval(m.body)
		}
		panic("spec: unknown name " + y.Name)
	case *ast.SelectorExpr:
		return s.sel(s.eval(y.X), y.Sel.Name, x)
	case *ast.IndexExpr:
		v := s.eval(y.X)
		i := s.Int(y.Index)
		switch z := v.(type) {
		case SliceV:
			return s.elemAt(z, i)
		case StrV:
			return Sc{sbyte(z.s, i), types.Typ[types.Uint8]}
		}
		panic(fmt.Sprintf("spec: index of %T in %s", v, exprStr(x)))
	case *ast.SliceExpr:
		v := s.eval(y.X)
		z, ok := v.(SliceV)
		if !ok {
			panic("spec: slice of " + exprStr(y.X))
		}
		lo, hi := K(0), z.ln
		if y.Low != nil {
			lo = s.Int(y.Low)
		}
		if y.High != nil {
			hi = s.Int(y.High)
		}
		return SliceV{base: z.base, off: Add(z.off, lo), ln: Sub(hi, lo), cp: Sub(z.cp, lo), elem: z.elem}
	case *ast.UnaryExpr:
		switch y.Op {
		case token.NOT:
			return Sc{Not(s.Bool(y.X)), tBool}
		case token.SUB:
			return Sc{Neg(s.Int(y.X)), tInt}
		}
	case *ast.StarExpr:
		p := s.eval(y.X)
		if sc, ok := p.(Sc); ok {
			t := derefT(sc.typ)
			return s.loadField(sc.t, typeName(t), "", t)
		}
	case *ast.BinaryExpr:
		return s.bin(y)
	case *ast.CallExpr:
		return s.call(y)
	}
	panic(fmt.Sprintf("spec: cannot evaluate %s", exprStr(x)))
}

func (s *specEnv) eq(a, b Val) *T {
	switch x := a.(type) {
	case Sc:
		switch y := b.(type) {
		case Sc:
			return Eq(x.t, y.t)
		case SliceV:
			return Eq(y.base, x.t)
		case IfaceV:
			return Eq(y.t, x.t)
		case FieldPtr:
			return Eq(y.ref, x.t)
		case FuncV:
			if y.t != nil {
				return Eq(y.t, x.t)
			}
			return False
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			if s.side != nil && s.inq == 0 {
				if x.s != y.s {
					*s.side = append(*s.side, strExtT(x.s, y.s))
					*s.side = append(*s.side, strLitFacts(x.s)...)
					*s.side = append(*s.side, strLitFacts(y.s)...)
				}
			}
			return Eq(x.s, y.s)
		}
	case SliceV:
		switch y := b.(type) {
		case SliceV:
			return And(Eq(x.base, y.base), Eq(x.off, y.off), Eq(x.ln, y.ln))
		case Sc:
			return Eq(x.base, y.t)
		}
	case IfaceV:
		switch y := b.(type) {
		case IfaceV:
			return Eq(x.t, y.t)
		case Sc:
			return Eq(x.t, y.t)
		}
	case FieldPtr:
		switch y := b.(type) {
		case FieldPtr:
			return Eq(x.ref, y.ref)
		case Sc:
			return Eq(x.ref, y.t)
		}
	case FuncV:
		if x.t != nil {
			if y, ok := b.(Sc); ok {
				return Eq(x.t, y.t)
			}
		}
		return False
	case StructV:
		if y, ok := b.(StructV); ok {
			var c []*T
			for i := range x.f {
				c = append(c, s.eq(x.f[i], y.f[i]))
			}
			return And(c...)
		}
	}
	panic(fmt.Sprintf("spec: equality of %T and %T", a, b))
}

func (s *specEnv) bin(y *ast.BinaryExpr) Val {
	switch y.Op {
	case token.LAND:
		return Sc{And(s.Bool(y.X), s.Bool(y.Y)), tBool}
	case token.LOR:
		return Sc{Or(s.Bool(y.X), s.Bool(y.Y)), tBool}
	case token.EQL:
		return Sc{s.eq(s.eval(y.X), s.eval(y.Y)), tBool}
	case token.NEQ:
		return Sc{Not(s.eq(s.eval(y.X), s.eval(y.Y))), tBool}
	}
	a, b := s.Int(y.X), s.Int(y.Y)
	switch y.Op {
	case token.LSS:
		return Sc{Lt(a, b), tBool}
	case token.LEQ:
		return Sc{Le(a, b), tBool}
	case token.GTR:
		return Sc{Lt(b, a), tBool}
	case token.GEQ:
		return Sc{Le(b, a), tBool}
	case token.ADD:
		return Sc{Add(a, b), tInt}
	case token.SUB:
		return Sc{Sub(a, b), tInt}
	case token.MUL:
		return Sc{Mul(a, b), tInt}
	case token.QUO:
		if b.isConst() {
			return Sc{DivK(a, b.val), tInt}
		}
	case token.REM:
		if b.isConst() {
			return Sc{ModK(a, b.val), tInt}
		}
	}
	panic("spec: operator in " + exprStr(y))
}

var bvCount int

func (s *specEnv) quant(y *ast.CallExpr, ex bool) Val {
	// forall(i, lo, hi, body [, trigger]) ; forall(u, "type", body [, trigger])
	name := y.Args[0].(*ast.Ident).Name
	n := *s
	n.inq++
	var guard *T = True
	var rest []ast.Expr
	var bv *T
	if lit, ok := y.Args[1].(*ast.BasicLit); ok && lit.Kind == token.STRING {
		tn := strings.Trim(lit.Value, `"`)
		var v Val
		switch tn {
		case "node":
			bv = BVar(fmt.Sprintf("qn_%s%d", name, s.inq), SInt)
			v = Sc{bv, types.NewPointer(s.e.P.byName["DxValue"])}
			guard = And(Lt(K(0), bv), Lt(bv, s.st.get("next", SInt)))
		case "ref":
			bv = BVar(fmt.Sprintf("qn_%s%d", name, s.inq), SInt)
			v = Sc{bv, types.NewPointer(s.e.P.byName["DxValue"])}
		case "int":
			bv = BVar(fmt.Sprintf("q_%s%d", name, s.inq), SInt)
			v = Sc{bv, tInt}
		case "str":
			bv = BVar(fmt.Sprintf("q_%s%d", name, s.inq), SStr)
			v = StrV{bv, K(0)}
		default:
			panic("spec: quantifier type " + tn)
		}
		n2 := n.with(name, v)
		n = *n2
		rest = y.Args[2:]
	} else {
		bv = BVar(fmt.Sprintf("q_%s%d", name, s.inq), SInt)
		lo, hi := s.Int(y.Args[1]), s.Int(y.Args[2])
		guard = And(Le(lo, bv), Lt(bv, hi))
		n2 := n.with(name, Sc{bv, tInt})
		n = *n2
		rest = y.Args[3:]
	}
	body := n.Bool(rest[0])
	var pats [][]*T
	for _, t := range rest[1:] {
		var p []*T
		if c, ok := t.(*ast.CallExpr); ok && exprStr(c.Fun) == "trig" {
			for _, a := range c.Args {
				p = append(p, n.trigTerm(a)...)
			}
		} else {
			p = n.trigTerm(t)
		}
		if len(p) > 0 {
			pats = append(pats, p)
		}
	}
	if ex {
		return Sc{Exists([]*T{bv}, And(guard, body)), tBool}
	}
	if body.op == "forall" && len(pats) == 0 && len(body.pats) > 0 {
		return Sc{Forall(append([]*T{bv}, body.bvars...), Imp(guard, body.args[0]), body.pats...), tBool}
	}
	return Sc{ForallAt(bv, Imp(guard, body), pats...), tBool}
}

func (s *specEnv) trigTerm(x ast.Expr) []*T {
	switch v := s.eval(x).(type) {
	case Sc:
		return []*T{v.t}
	case StrV:
		return []*T{v.s}
	case SliceV:
		return []*T{v.ln}
	}
	return nil
}

func (s *specEnv) call(y *ast.CallExpr) Val {
	fn := exprStr(y.Fun)
	arg := func(i int) Val { return s.eval(y.Args[i]) }
	switch fn {
	case "implies":
		a := s.Bool(y.Args[0])
		if a == False {
			return Sc{True, tBool}
		}
		return Sc{Imp(a, s.Bool(y.Args[1])), tBool}
	case "iff":
		return Sc{Eq(s.Bool(y.Args[0]), s.Bool(y.Args[1])), tBool}
	case "forall":
		return s.quant(y, false)
	case "exists":
		return s.quant(y, true)
	case "ite":
		c := s.Bool(y.Args[0])
		a, b := arg(1), arg(2)
		if x, ok := a.(StrV); ok {
			return StrV{Ite(c, x.s, b.(StrV).s), K(0)}
		}
		return Sc{Ite(c, a.(Sc).t, b.(Sc).t), a.(Sc).typ}
	case "old":
		if s.old == nil {
			panic("spec: old() without an old state")
		}
		return s.in(s.old).eval(y.Args[0])
	case "now":
		if s.post == nil {
			panic("spec: now() outside a frame")
		}
		return s.in(s.post).eval(y.Args[0])
	case "pre":
		if s.pre == nil {
			panic("spec: pre() outside a loop")
		}
		return s.in(s.pre).eval(y.Args[0])
	case "len":
		switch v := arg(0).(type) {
		case SliceV:
			return Sc{v.ln, tInt}
		case StrV:
			if s.side != nil && s.inq == 0 {
				*s.side = append(*s.side, Le(K(0), slen(v.s)), Le(slen(v.s), KB(maxLen)))
			}
			return Sc{slen(v.s), tInt}
		}
	case "cap":
		return Sc{arg(0).(SliceV).cp, tInt}
	case "base":
		return Sc{arg(0).(SliceV).base, tInt}
	case "off":
		return Sc{arg(0).(SliceV).off, tInt}
	case "prov":
		return Sc{arg(0).(StrV).prov, tInt}
	case "ref":
		return Sc{s.Int(y.Args[0]), tInt}
	case "node":
		return Sc{s.Int(y.Args[0]), types.NewPointer(s.e.P.byName["DxValue"])}
	case "str": // bytes of a slice as a string
		v := arg(0).(SliceV)
		row := Sel(s.st.get("M:byte.", SArr(SArr(SInt))), v.base)
		r := mkstr(row, v.off, v.ln)
		if s.side != nil && s.inq == 0 {
			i := BVar("i", SInt)
			*s.side = append(*s.side, Imp(Le(K(0), v.ln), Eq(slen(r), v.ln)),
				Forall([]*T{i}, Imp(And(Le(K(0), i), Lt(i, v.ln)), Eq(sbyte(r, i), Sel(row, Add(v.off, i)))), []*T{sbyte(r, i)}))
		}
		return StrV{r, K(0)}
	case "fresh": // allocated during the call
		switch v := arg(0).(type) {
		case SliceV:
			return Sc{Or(Eq(v.base, K(0)), Le(s.old.get("next", SInt), v.base)), tBool}
		case Sc:
			return Sc{Le(s.old.get("next", SInt), v.t), tBool}
		case FieldPtr:
			return Sc{Le(s.old.get("next", SInt), v.ref), tBool}
		}
	case "owner": // the node a row of elements (or entries) belongs to
		o := "ownA"
		if len(y.Args) > 1 {
			o = "ownO"
		}
		return Sc{App(o, SInt, s.Int(y.Args[0])), types.NewPointer(s.e.P.byName["DxValue"])}
	case "alive":
		n := s.Int(y.Args[0])
		return Sc{And(Lt(K(0), n), Lt(n, s.st.get("next", SInt))), tBool}
	case "singleton":
		n := s.Int(y.Args[0])
		return Sc{s.e.singleton(n), tBool}
	case "byteat": // byte i of a packed 8-byte value
		b := s.Int(y.Args[0])
		i := s.Int(y.Args[1])
		return Sc{ModK(DivK(b, pow2(uint(8*i.val.Int64()))), big.NewInt(256)), tInt}
	case "mod":
		return Sc{ModK(s.Int(y.Args[0]), s.Int(y.Args[1]).val), tInt}
	case "div":
		return Sc{DivK(s.Int(y.Args[0]), s.Int(y.Args[1]).val), tInt}
	case "pow2":
		return Sc{KB(pow2(uint(s.Int(y.Args[0]).val.Int64()))), tInt}
	case "signed": // two's complement reading of a w-bit value
		b := s.Int(y.Args[0])
		w := uint(s.Int(y.Args[1]).val.Int64())
		return Sc{s.e.toSigned(s.st, b, w), tInt}
	case "be": // big-endian integer of n bytes of slice b at i
		v := arg(0).(SliceV)
		i := s.Int(y.Args[1])
		n := s.Int(y.Args[2]).val.Int64()
		var ts []*T
		for k := int64(0); k < n; k++ {
			e := s.elemAt(v, Add(i, K(k))).(Sc).t
			s.byteFact(e)
			ts = append(ts, MulK(pow2(uint(8*(n-1-k))), e))
		}
		return Sc{Add(ts...), tInt}
	case "le":
		v := arg(0).(SliceV)
		i := s.Int(y.Args[1])
		n := s.Int(y.Args[2]).val.Int64()
		var ts []*T
		for k := int64(0); k < n; k++ {
			e := s.elemAt(v, Add(i, K(k))).(Sc).t
			s.byteFact(e)
			ts = append(ts, MulK(pow2(uint(8*k)), e))
		}
		return Sc{Add(ts...), tInt}
	case "unchanged": // unchanged(x.f...)
		var c []*T
		for _, a := range y.Args {
			c = append(c, s.eq(s.eval(a), s.in(s.old).eval(a)))
		}
		return Sc{And(c...), tBool}
	case "sameelems": // sameelems(now, then, n): first n elements of slice `now` equal those of `then` in the old state
		a, b := arg(0).(SliceV), s.in(s.old).eval(y.Args[1]).(SliceV)
		n := s.Int(y.Args[2])
		bv := BVar("se", SInt)
		ns := *s
		ns.inq++
		os := ns.in(s.old)
		x, z := ns.elemAt(a, bv), os.elemAt(b, bv)
		var pats [][]*T
		flatten(a.elem, "", x, func(_ string, t *T) {
			if t.op == "select" {
				pats = append(pats, []*T{t})
			}
		})
		return Sc{ForallAt(bv, Imp(And(Le(K(0), bv), Lt(bv, n)), ns.eq(x, z)), pats...), tBool}
	case "isErr":
		return Sc{Ne(s.Int(y.Args[0]), K(0)), tBool}
	case "int":
		return Sc{s.Int(y.Args[0]), tInt}
	case "dynis": // dynis(x, "T", ...): the dynamic type of x is T or a pointer to T
		v := arg(0).(IfaceV)
		if v.typ == nil {
			unsup("dynamic type of an interface value")
		}
		d := v.typ
		if p, ok := d.Underlying().(*types.Pointer); ok {
			d = p.Elem()
		}
		for _, a := range y.Args[1:] {
			n, _ := strconv.Unquote(exprStr(a))
			if types.Identical(d, s.e.P.typeNamed(n)) {
				return Sc{True, tBool}
			}
		}
		return Sc{False, tBool}
	case "dynval": // the value in x, or the value it points to; integers as Go converts them to int64
		v := arg(0).(IfaceV)
		if v.typ == nil {
			unsup("dynamic type of an interface value")
		}
		r, d := v.v, v.typ
		if p, ok := d.Underlying().(*types.Pointer); ok {
			d = p.Elem()
			r = s.loadField(v.v.(Sc).t, typeName(d), "", d)
		}
		if b, ok := d.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return Sc{s.e.wrap(nil, r.(Sc).t, types.Typ[types.Int64]), types.Typ[types.Int64]}
		}
		return r
	case "dynfit": // dynfit(x, n): n as Go converts it to the type x points to
		v := arg(0).(IfaceV)
		if v.typ == nil {
			unsup("dynamic type of an interface value")
		}
		d := v.typ
		if p, ok := d.Underlying().(*types.Pointer); ok {
			d = p.Elem()
		}
		return Sc{s.e.wrap(nil, s.Int(y.Args[1]), d), d}
	case "dynraw": // the value in x, or the value it points to, in its own type
		v := arg(0).(IfaceV)
		if v.typ == nil {
			unsup("dynamic type of an interface value")
		}
		if p, ok := v.typ.Underlying().(*types.Pointer); ok {
			return s.loadField(v.v.(Sc).t, typeName(p.Elem()), "", p.Elem())
		}
		return v.v
	case "istype":
		v := arg(0).(IfaceV)
		return Sc{Eq(itag(v.t), K(1)), tBool}
	case "memsame": // every pre-existing row of this element type unchanged except the listed bases
		return Sc{True, tBool}
	}
	if m, ok := s.e.P.ctrs.macros[fn]; ok {
		if len(m.params) != len(y.Args) {
			panic("spec: macro " + fn + " arity")
		}
		// parameters are evaluated in the current state, the body sees only them (plus old)
		n := *s
		n.vars = map[string]Val{}
		for k, v := range s.vars {
			if strings.HasPrefix(k, "q_") {
				n.vars[k] = v
			}
		}
		for i, p := range m.params {
			n.vars[p] = s.eval(y.Args[i])
		}
		return n.eval(m.body)
	}
	if u, ok := s.e.P.ctrs.ufs[fn]; ok {
		if len(u.args) != len(y.Args) {
			panic("spec: function " + fn + " arity")
		}
		var as []*T
		for i := range y.Args {
			as = append(as, s.ufArg(u.args[i], s.eval(y.Args[i])))
		}
		switch u.res {
		case "bool":
			return Sc{App(fn, SBool, as...), tBool}
		case "str":
			return StrV{App(fn, SStr, as...), K(0)}
		case "node":
			return Sc{App(fn, SInt, as...), types.NewPointer(s.e.P.byName["DxValue"])}
		}
		return Sc{App(fn, SInt, as...), tInt}
	}
	panic("spec: unknown function " + fn)
}

// byteFact: a byte cut out of a number, as a difference of quotients (they telescope when bytes are put together).
func (s *specEnv) byteFact(e *T) {
	if s.side == nil || s.inq > 0 || e.op != "mod" || len(e.args) != 2 || !e.args[1].isConst() {
		return
	}
	x, k := e.args[0], e.args[1].val
	q := DivK(x, k)
	if x.op == "div" && x.args[1].isConst() {
		q = DivK(x.args[0], new(big.Int).Mul(x.args[1].val, k))
	}
	*s.side = append(*s.side, Eq(e, Sub(x, MulK(k, q))))
}

func (s *specEnv) ufArg(sort string, v Val) *T {
	switch x := v.(type) {
	case Sc:
		return x.t
	case StrV:
		return x.s
	case IfaceV:
		return x.t
	case FieldPtr:
		return x.ref
	}
	panic(fmt.Sprintf("spec: argument %T", v))
}

func (e *Exec) singleton(n *T) *T {
	var c []*T
	for _, g := range e.P.nodeGlobals() {
		c = append(c, Eq(n, K(e.P.glob[g].ref)))
	}
	return Or(c...)
}

func (p *Prog) nodeGlobals() []*ssa.Global {
	var gs []*ssa.Global
	for g, gi := range p.glob {
		if gi.kind == "node" {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
	return gs
}

// buildAxioms turns the axioms of the contract files into background facts.
func (c *Contracts) buildAxioms(p *Prog) {
	e := &Exec{P: p, prefix: "ax"}
	st := &State{heap: map[string]*T{}, env: map[envKey]Val{}, cells: map[int]Val{}, known: map[*T]bool{}, written: map[string]bool{}}
	for _, a := range c.axs {
		s := &specEnv{e: e, st: st, vars: map[string]Val{}, inq: 1}
		var bvs []*T
		for _, v := range a.vars {
			switch v[1] {
			case "str":
				b := BVar("q_"+v[0], SStr)
				bvs = append(bvs, b)
				s.vars[v[0]] = StrV{b, K(0)}
			case "node":
				b := BVar("q_"+v[0], SInt)
				bvs = append(bvs, b)
				s.vars[v[0]] = Sc{b, types.NewPointer(p.byName["DxValue"])}
			case "arr":
				b := BVar("q_"+v[0], SArr(SInt))
				bvs = append(bvs, b)
				s.vars[v[0]] = Sc{b, tInt}
			default:
				b := BVar("q_"+v[0], SInt)
				bvs = append(bvs, b)
				s.vars[v[0]] = Sc{b, tInt}
			}
		}
		body := s.Bool(a.expr)
		var pats [][]*T
		var pat []*T
		for _, x := range a.pats {
			pat = append(pat, s.trigTerm(x)...)
		}
		if len(pat) > 0 {
			pats = append(pats, pat)
		}
		t := body
		if len(bvs) > 0 {
			t = Forall(bvs, body, pats...)
		}
		syms := map[string]bool{}
		src := pat
		if len(src) == 0 {
			src = []*T{t}
		}
		for x := range symbolsOf(src) {
			syms[x] = true
		}
		axioms = append(axioms, axiom{sortedKeys(syms), t, a.name})
	}
}
