package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/jchv/cleansheets"

// Prog is the type-checked program of /repo in SSA form.
type Prog struct {
	Fset *token.FileSet
	SSA  *ssa.Program
	Pkgs map[string]*ssa.Package // by import path, repository packages only
	Src  []*packages.Package
	Root string
	JS   bool
}

// load type-checks every package of the repository from source and builds SSA
// for the packages of the repository.
func load(root string, js bool, overlay map[string][]byte, patterns ...string) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	if js {
		env = append(env, "GOOS=js", "GOARCH=wasm")
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     root,
		Env:     env,
		Tests:   false,
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, fmt.Errorf("loading %s: %v", root, err)
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	p := &Prog{Pkgs: map[string]*ssa.Package{}, Root: root, JS: js}
	prog := ssa.NewProgram(pkgs[0].Fset, ssa.InstantiateGenerics)
	p.Fset = pkgs[0].Fset
	p.SSA = prog
	seen := map[*packages.Package]bool{}
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		if seen[q] || q.Types == nil {
			return
		}
		seen[q] = true
		if strings.HasPrefix(q.PkgPath, modPath) {
			sp := prog.CreatePackage(q.Types, q.Syntax, q.TypesInfo, true)
			p.Pkgs[q.PkgPath] = sp
			p.Src = append(p.Src, q)
		} else {
			prog.CreatePackage(q.Types, nil, nil, true)
		}
	})
	for _, sp := range p.Pkgs {
		sp.Build()
	}
	sort.Slice(p.Src, func(i, j int) bool { return p.Src[i].PkgPath < p.Src[j].PkgPath })
	return p, nil
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	q := p.Fset.Position(ps)
	return strings.TrimPrefix(q.Filename, p.Root+"/") + fmt.Sprintf(":%d", q.Line)
}

func (p *Prog) pkg(short string) *ssa.Package {
	return p.Pkgs[modPath+"/"+short]
}

// allFuncs returns every function of the repository with a body.
func (p *Prog) allFuncs() []*ssa.Function {
	var out []*ssa.Function
	all := ssautil.AllFunctions(p.SSA)
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f != nil && !all[f] {
			all[f] = true
			for _, g := range f.AnonFuncs {
				add(g)
			}
		}
	}
	for _, sp := range p.Pkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok || types.IsInterface(n) {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					add(p.SSA.FuncValue(n.Method(i)))
				}
			}
		}
	}
	for f := range all {
		if f.Pkg != nil && f.Blocks != nil {
			if _, ok := p.Pkgs[f.Pkg.Pkg.Path()]; ok {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		return "*" + typeName(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}
