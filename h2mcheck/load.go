package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/JohannesKaufmann/html-to-markdown/v2"
const domPath = "github.com/JohannesKaufmann/dom"
const htmlPath = "golang.org/x/net/html"

// Prog is the resolved program: type-checked packages, SSA form and call graph.
type Prog struct {
	ef    *errFlow
	Repo  string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package
	SSA   *ssa.Program
	SPkgs map[string]*ssa.Package
	All   map[*ssa.Function]bool
	CG    *callgraph.Graph
	Funcs []*ssa.Function // functions of the repository (with bodies), sorted
}

func repoDir() string {
	if d := os.Getenv("H2M_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func load() (*Prog, error) {
	dir := repoDir()
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0", "GOOS=linux", "GOARCH=amd64")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Env: env, Tests: false}
	patterns := []string{"./..."}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 5 {
			errs = errs[:5]
		}
		return nil, fmt.Errorf("source does not type-check: %s", strings.Join(errs, "; "))
	}
	// The examples are separate programs: what they register is not part of the library.
	var keep []*packages.Package
	for _, p := range pk {
		if strings.HasPrefix(p.PkgPath, modPath+"/examples") {
			continue
		}
		keep = append(keep, p)
	}
	prog, _ := ssautil.AllPackages(keep, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{Repo: dir, Fset: prog.Fset, SSA: prog, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}}
	packages.Visit(keep, nil, func(p *packages.Package) { P.Pkgs[p.PkgPath] = p })
	for _, sp := range prog.AllPackages() {
		P.SPkgs[sp.Pkg.Path()] = sp
	}
	P.All = ssautil.AllFunctions(prog)
	P.CG = vta.CallGraph(P.All, cha.CallGraph(prog))
	for f := range P.All {
		if P.InRepo(f) && f.Blocks != nil {
			P.Funcs = append(P.Funcs, f)
		}
	}
	sort.Slice(P.Funcs, func(i, j int) bool { return fkey(P.Funcs[i]) < fkey(P.Funcs[j]) })
	return P, nil
}

// fnPkgPath is the package a function belongs to (also for instantiations, wrappers and closures).
func fnPkgPath(f *ssa.Function) string {
	for f != nil && f.Parent() != nil {
		f = f.Parent()
	}
	if f == nil {
		return ""
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func inModule(path string) bool { return path == modPath || strings.HasPrefix(path, modPath+"/") }

func (P *Prog) InRepo(f *ssa.Function) bool { return inModule(fnPkgPath(f)) }

// InLib: library code of the repository (no CLI, no test helpers).
func (P *Prog) InLib(f *ssa.Function) bool {
	p := fnPkgPath(f)
	return inModule(p) && !strings.HasPrefix(p, modPath+"/cli") && !strings.HasPrefix(p, modPath+"/internal/tester") && !strings.HasPrefix(p, modPath+"/examples")
}

func (P *Prog) InCLI(f *ssa.Function) bool {
	return strings.HasPrefix(fnPkgPath(f), modPath+"/cli")
}

// InConv: code that is analysed as part of a conversion (repository library plus the dom helper package).
func (P *Prog) InConv(f *ssa.Function) bool {
	return P.InLib(f) || fnPkgPath(f) == domPath
}

func fkey(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "html2md")
	return s
}

func (P *Prog) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := P.Fset.Position(p)
	fn := ps.Filename
	if r, err := filepath.Rel(P.Repo, fn); err == nil && !strings.HasPrefix(r, "..") {
		fn = r
	} else if i := strings.Index(fn, "/pkg/mod/"); i >= 0 {
		fn = fn[i+len("/pkg/mod/"):]
	}
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}

// ipos finds a position for an instruction, falling back to its neighbours.
func (P *Prog) ipos(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return P.pos(in.Pos())
	}
	if v, ok := in.(ssa.Value); ok {
		if refs := v.Referrers(); refs != nil {
			for _, r := range *refs {
				if r.Pos().IsValid() {
					return P.pos(r.Pos())
				}
			}
		}
	}
	if b := in.Block(); b != nil {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return P.pos(i.Pos())
			}
		}
		return P.pos(b.Parent().Pos())
	}
	return "-"
}

// Pkg returns a package of the module by its path below the module root.
func (P *Prog) Pkg(rel string) *ssa.Package {
	if rel == "" {
		return P.SPkgs[modPath]
	}
	if p, ok := P.SPkgs[modPath+"/"+rel]; ok {
		return p
	}
	return P.SPkgs[rel]
}

// Func finds a package-level function.
func (P *Prog) Func(rel, name string) *ssa.Function {
	p := P.Pkg(rel)
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// Method finds a declared method of a named type (pointer or value receiver).
func (P *Prog) Method(rel, typ, name string) *ssa.Function {
	p := P.Pkg(rel)
	if p == nil {
		return nil
	}
	o, ok := p.Pkg.Scope().Lookup(typ).(*types.TypeName)
	if !ok {
		return nil
	}
	named, ok := o.Type().(*types.Named)
	if !ok {
		return nil
	}
	for i := 0; i < named.NumMethods(); i++ {
		if m := named.Method(i); m.Name() == name {
			return P.SSA.FuncValue(m)
		}
	}
	return nil
}

func (P *Prog) NamedType(rel, typ string) *types.Named {
	p := P.Pkg(rel)
	if p == nil {
		return nil
	}
	o, ok := p.Pkg.Scope().Lookup(typ).(*types.TypeName)
	if !ok {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// Callees resolves a call site with the call graph.
func (P *Prog) Callees(site ssa.CallInstruction) []*ssa.Function {
	if c := site.Common().StaticCallee(); c != nil {
		return []*ssa.Function{c}
	}
	n := P.CG.Nodes[site.Parent()]
	if n == nil {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, e := range n.Out {
		if e.Site == site && !seen[e.Callee.Func] {
			seen[e.Callee.Func] = true
			out = append(out, e.Callee.Func)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fkey(out[i]) < fkey(out[j]) })
	return out
}

// Callers lists the call sites of a function.
func (P *Prog) Callers(f *ssa.Function) []ssa.CallInstruction {
	n := P.CG.Nodes[f]
	if n == nil {
		return nil
	}
	var out []ssa.CallInstruction
	for _, e := range n.In {
		if e.Site != nil {
			out = append(out, e.Site)
		}
	}
	return out
}

// Reach computes the functions reachable from roots; follow decides whether the callees of f are entered.
func (P *Prog) Reach(roots []*ssa.Function, follow func(f *ssa.Function) bool) map[*ssa.Function]*ssa.Function {
	par := map[*ssa.Function]*ssa.Function{}
	var work []*ssa.Function
	for _, r := range roots {
		if r != nil {
			if _, ok := par[r]; !ok {
				par[r] = nil
				work = append(work, r)
			}
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if follow != nil && !follow(f) {
			continue
		}
		n := P.CG.Nodes[f]
		if n == nil {
			continue
		}
		var outs []*ssa.Function
		for _, e := range n.Out {
			outs = append(outs, e.Callee.Func)
		}
		sort.Slice(outs, func(i, j int) bool { return fkey(outs[i]) < fkey(outs[j]) })
		for _, c := range outs {
			if _, ok := par[c]; !ok {
				par[c] = f
				work = append(work, c)
			}
		}
	}
	return par
}

func chain(par map[*ssa.Function]*ssa.Function, f *ssa.Function) string {
	var s []string
	for i := 0; f != nil && i < 12; i++ {
		s = append([]string{fkey(f)}, s...)
		f = par[f]
	}
	return strings.Join(s, " -> ")
}

// ConvertRoots are the functions with which a caller starts a conversion.
func (P *Prog) ConvertRoots() []*ssa.Function {
	var r []*ssa.Function
	for _, n := range []string{"ConvertString", "ConvertReader", "ConvertNode"} {
		if f := P.Func("", n); f != nil {
			r = append(r, f)
		}
		if f := P.Method("converter", "Converter", n); f != nil {
			r = append(r, f)
		}
	}
	return r
}

// instrs calls fn for each instruction of f.
func instrs(f *ssa.Function, fn func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			fn(in)
		}
	}
}

// isNamed tells whether t (or its pointee) is the named type pkg.name.
func isNamed(t types.Type, pkg, name string) bool {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Origin().Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

// calleeName gives "pkgpath.Func" or "(pkgpath.Type).Method" of a resolved static callee or interface method.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return fullObj(c.Method)
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return ""
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if ob, ok := f.Object().(*types.Func); ok {
		return fullObj(ob)
	}
	return f.String()
}

func fullObj(m *types.Func) string {
	sig := m.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := types.Unalias(r.Type())
		if p, ok := t.(*types.Pointer); ok {
			t = types.Unalias(p.Elem())
		}
		if n, ok := t.(*types.Named); ok {
			pk := ""
			if n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Path() + "."
			}
			return "(" + pk + n.Obj().Name() + ")." + m.Name()
		}
		if m.Pkg() != nil {
			return "(" + m.Pkg().Path() + ".?)." + m.Name()
		}
	}
	if m.Pkg() == nil {
		return m.Name()
	}
	return m.Pkg().Path() + "." + m.Name()
}
