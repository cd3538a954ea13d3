package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/blocktree/go-owcrypt"

// Prog is the type-checked, SSA-converted program under analysis: every
// package of /repo (non-test files, real build configuration) plus the source
// of everything it imports.
type Prog struct {
	Repo   string
	Fset   *token.FileSet
	Pkgs   []*packages.Package // repository packages
	SSA    *ssa.Program
	RepoSP []*ssa.Package
	ByPath map[string]*ssa.Package
	funcs  []*ssa.Function // every function with a body in a repository package
	Units  int
	Lines  int
	Asm    []string
}

func LoadProg(repo, verif string, tags string) (*Prog, error) {
	tmp, err := os.MkdirTemp("", "owchk")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	sum, err := os.ReadFile(filepath.Join(verif, "checker/data/owcrypt.sum"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "x.mod"), mod, 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "x.sum"), sum, 0o644); err != nil {
		return nil, err
	}
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "x.mod"), "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
	cfg := &packages.Config{
		Mode:  packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   repo,
		Env:   env,
		Tests: false,
	}
	if tags != "" {
		cfg.BuildFlags = []string{"-tags=" + tags}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Prog{Repo: repo, Fset: prog.Fset, Pkgs: pkgs, SSA: prog, ByPath: map[string]*ssa.Package{}}
	for _, sp := range prog.AllPackages() {
		P.ByPath[sp.Pkg.Path()] = sp
	}
	for _, p := range pkgs {
		sp := prog.Package(p.Types)
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		P.RepoSP = append(P.RepoSP, sp)
		P.Units += len(p.CompiledGoFiles)
		for _, f := range p.OtherFiles {
			if strings.HasSuffix(f, ".s") {
				P.Asm = append(P.Asm, f)
			}
		}
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if P.InRepo(f) && f.Blocks != nil {
			P.funcs = append(P.funcs, f)
		}
	}
	sort.Slice(P.funcs, func(i, j int) bool { return P.funcs[i].String() < P.funcs[j].String() })
	return P, nil
}

func pkgPathOf(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if f.Parent() != nil {
		return pkgPathOf(f.Parent())
	}
	if f.Origin() != nil && f.Origin() != f {
		return pkgPathOf(f.Origin())
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func (p *Prog) InRepo(f *ssa.Function) bool {
	pp := pkgPathOf(f)
	return pp == modPath || strings.HasPrefix(pp, modPath+"/")
}

// short names functions as pkg.Func / pkg.(*T).M with the module prefix cut.
func short(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	return shortS(f.String())
}

func shortS(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "owcrypt.")
	return s
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Repo, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// Func resolves "pkgrel.Name" or "pkgrel.(*T).M" ("" pkgrel = root).
func (p *Prog) Func(pkgrel, recv, name string) *ssa.Function {
	path := modPath
	if pkgrel != "" {
		path += "/" + pkgrel
	}
	sp := p.ByPath[path]
	if sp == nil {
		return nil
	}
	if recv == "" {
		return sp.Func(name)
	}
	ptr := strings.HasPrefix(recv, "*")
	tn := sp.Type(strings.TrimPrefix(recv, "*"))
	if tn == nil {
		return nil
	}
	var t types.Type = tn.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	sel := p.SSA.MethodSets.MethodSet(t).Lookup(sp.Pkg, name)
	if sel == nil {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

// ExportedFuncs lists exported functions and exported methods of exported or
// unexported named types declared in pkg.
func (p *Prog) ExportedFuncs(sp *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for _, m := range sp.Members {
		switch m := m.(type) {
		case *ssa.Function:
			if token.IsExported(m.Name()) && m.Blocks != nil {
				out = append(out, m)
			}
		case *ssa.Type:
			n, ok := m.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				fn := p.SSA.FuncValue(n.Method(i))
				if fn != nil && token.IsExported(fn.Name()) && fn.Blocks != nil {
					out = append(out, fn)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
