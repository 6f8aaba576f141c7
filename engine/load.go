package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPkg = "github.com/suiyunonghen/dxsvalue"

type Prog struct {
	fset   *token.FileSet
	prog   *ssa.Program
	pkg    *ssa.Package
	fns    map[string]*ssa.Function // short name -> function
	loops  map[*ssa.Function]map[*ssa.BasicBlock]*loop
	glob   map[*ssa.Global]*globInfo
	byName map[string]types.Type
	ctrs   *Contracts

	reachMu  sync.Mutex
	reachTab map[*ssa.Function]map[*ssa.Function]bool
	loopMu   sync.Mutex
}

type globInfo struct {
	kind  string // "node" (singleton), "bytes", "const", "err", "var"
	bytes []byte
	ref   int64
	nodeK int64 // DataType of a singleton node
	c     constant.Value
}

func copyFile(dst, src string) error {
	in, err := os.Open(src)
	if err != nil {
		return err
	}
	defer in.Close()
	out, err := os.Create(dst)
	if err != nil {
		return err
	}
	defer out.Close()
	_, err = io.Copy(out, in)
	return err
}

// modEnv prepares a go.mod copy without the broken replace directive and returns the environment.
func modEnv(scratch, repo, verif string) ([]string, error) {
	mod := filepath.Join(scratch, "go.mod")
	if err := copyFile(mod, filepath.Join(repo, "go.mod")); err != nil {
		return nil, err
	}
	if err := copyFile(filepath.Join(scratch, "go.sum"), filepath.Join(verif, "gomod", "go.sum")); err != nil {
		return nil, err
	}
	c := exec.Command("go", "mod", "edit", "-dropreplace=github.com/suiyunonghen/DxCommonLib", mod)
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
	if b, err := c.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("go mod edit: %v %s", err, b)
	}
	return append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+mod, "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local"), nil
}

func loadProg(repo string, env []string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile,
		Dir:  repo,
		Env:  env,
	}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 || len(ps[0].Errors) > 0 {
		return nil, fmt.Errorf("load: %v", ps[0].Errors)
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{fset: prog.Fset, prog: prog, pkg: pkgs[0], fns: map[string]*ssa.Function{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loop{}, glob: map[*ssa.Global]*globInfo{}, byName: map[string]types.Type{}, reachTab: map[*ssa.Function]map[*ssa.Function]bool{}}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Package() == p.pkg && fn.Synthetic == "" && fn.Parent() == nil {
			p.fns[shortName(fn)] = fn
		}
	}
	for _, m := range p.pkg.Members {
		if t, ok := m.(*ssa.Type); ok {
			p.byName[t.Name()] = t.Type()
		}
	}
	p.globals()
	return p, nil
}

func shortName(fn *ssa.Function) string {
	s := fn.RelString(fn.Package().Pkg)
	return s
}

// globals classifies package variables from the package initialiser: constant byte slices, the shared
// node constants, and error values. A variable that is stored to outside init is an ordinary variable.
func (p *Prog) globals() {
	stored := map[*ssa.Global]int{}
	for fn := range ssautil.AllFunctions(p.prog) {
		if fn.Package() != p.pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if x.Addr == g && fn.Name() == "init" {
							continue
						}
						stored[g]++
					case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Call:
						// method call on a variable (sync.Pool, sync.Map)
					default:
						stored[g]++
					}
				}
			}
		}
	}
	init := p.pkg.Func("init")
	ref := int64(1)
	var names []string
	mem := map[string]*ssa.Global{}
	for n, m := range p.pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			names = append(names, n)
			mem[n] = g
		}
	}
	sort.Strings(names)
	allocKind := map[ssa.Value]int64{}
	storeOf := map[*ssa.Global]ssa.Value{}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if g, ok := st.Addr.(*ssa.Global); ok {
				storeOf[g] = st.Val
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				if c, ok := st.Val.(*ssa.Const); ok && fa.Field == 0 && isNodePtr(fa.X.Type()) {
					n, _ := constant.Int64Val(c.Value)
					allocKind[fa.X] = n
				}
			}
		}
	}
	for _, n := range names {
		g := mem[n]
		gi := &globInfo{kind: "var"}
		p.glob[g] = gi
		v := storeOf[g]
		et := g.Type().(*types.Pointer).Elem()
		if isNodePtr(et) {
			if a, ok := v.(*ssa.Alloc); ok {
				gi.kind = "node"
				gi.nodeK = allocKind[a]
				ref++
				gi.ref = ref
			}
			if stored[g] > 0 {
				gi.kind = "var"
			}
			continue
		}
		if stored[g] > 0 || v == nil {
			continue
		}
		if types.Identical(et, types.Universe.Lookup("error").Type()) {
			gi.kind = "err"
			ref++
			gi.ref = ref
			continue
		}
		if cv, ok := v.(*ssa.Convert); ok {
			if c, ok := cv.X.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
				gi.kind = "bytes"
				gi.bytes = []byte(constant.StringVal(c.Value))
				ref++
				gi.ref = ref
				continue
			}
		}
		if sl, ok := v.(*ssa.Slice); ok {
			// []byte{...}
			if bs, ok := litBytes(sl); ok {
				gi.kind = "bytes"
				gi.bytes = bs
				ref++
				gi.ref = ref
				continue
			}
		}
	}
}

func litBytes(sl *ssa.Slice) ([]byte, bool) {
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := a.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	bs := make([]byte, at.Len())
	for _, r := range *a.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		i, _ := constant.Int64Val(c.Value)
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok {
				cv, ok := st.Val.(*ssa.Const)
				if !ok {
					return nil, false
				}
				x, _ := constant.Int64Val(cv.Value)
				bs[i] = byte(x)
			}
		}
	}
	return bs, true
}

// ---------- loops ----------

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

func (p *Prog) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loop {
	p.loopMu.Lock()
	defer p.loopMu.Unlock()
	if l, ok := p.loops[fn]; ok {
		return l
	}
	m := map[*ssa.BasicBlock]*loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := m[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					m[s] = l
				}
				var st []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, pr := range x.Preds {
						if !l.blocks[pr] {
							l.blocks[pr] = true
							st = append(st, pr)
						}
					}
				}
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range m {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
	for i, h := range hs {
		m[h].ord = i
	}
	p.loops[fn] = m
	return m
}

func (p *Prog) pos(ps token.Pos) string {
	x := p.fset.Position(ps)
	return fmt.Sprintf("%s:%d", filepath.Base(x.Filename), x.Line)
}

func pkgPathOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// fullName: "bytes.IndexByte", "(time.Time).Unix"
func fullName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, "github.com/suiyunonghen/", "")
	return s
}
