package main

// Loading of /repo's current source: types, syntax and SSA of every package.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/grepsuzette/joeson"

type Prog struct {
	fset  *token.FileSet
	pkgs  []*packages.Package
	prog  *ssa.Program
	root  *ssa.Package // the joeson package
	help  *ssa.Package // helpers
	rootP *packages.Package
	helpP *packages.Package
	funcs []*ssa.Function // every function of the repository, sorted
	dir   string
	eff   *Effects
}

func load(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   dir,
		Env:   append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on"),
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{fset: pkgs[0].Fset, pkgs: pkgs, prog: prog, dir: dir}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		sp.Build()
		switch pkgs[i].PkgPath {
		case modPath:
			p.root, p.rootP = sp, pkgs[i]
		case modPath + "/helpers":
			p.help, p.helpP = sp, pkgs[i]
		}
	}
	if p.root == nil || p.help == nil {
		return nil, fmt.Errorf("packages joeson and joeson/helpers not found")
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) || fn.Pkg == nil && inRepo(fn) {
			p.funcs = append(p.funcs, fn)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		a, b := p.funcs[i], p.funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

func inRepo(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil && o != fn {
		return inRepo(o)
	}
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	}
	if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
		return strings.HasPrefix(obj.Pkg().Path(), modPath)
	}
	if fn.Parent() != nil {
		return inRepo(fn.Parent())
	}
	return false
}

// short names a function without the module path.
func short(fn *ssa.Function) string {
	return strings.ReplaceAll(strings.ReplaceAll(fn.String(), modPath+"/helpers", "helpers"), modPath, "joeson")
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	q := p.fset.Position(pos)
	return strings.TrimPrefix(q.Filename, p.dir+"/") + ":" + fmt.Sprint(q.Line)
}

// fnAt names the declaration a position lies in.
func (p *Prog) fnAt(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	for _, pk := range p.pkgs {
		for _, f := range pk.Syntax {
			if f.FileStart <= pos && pos < f.FileEnd {
				for _, d := range f.Decls {
					if d.Pos() <= pos && pos < d.End() {
						switch x := d.(type) {
						case *ast.FuncDecl:
							if x.Recv != nil && len(x.Recv.List) == 1 {
								t := x.Recv.List[0].Type
								if s, ok := t.(*ast.StarExpr); ok {
									t = s.X
								}
								if ix, ok := t.(*ast.IndexExpr); ok {
									t = ix.X
								}
								if id, ok := t.(*ast.Ident); ok {
									return id.Name + "." + x.Name.Name
								}
							}
							return x.Name.Name
						case *ast.GenDecl:
							for _, s := range x.Specs {
								if s.Pos() <= pos && pos < s.End() {
									switch y := s.(type) {
									case *ast.ValueSpec:
										return y.Names[0].Name
									case *ast.TypeSpec:
										return y.Name.Name
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return "-"
}

// method returns the SSA function of a method of a named type of the root package.
func (p *Prog) method(typ, name string) *ssa.Function {
	t := p.typ(typ)
	if t == nil {
		return nil
	}
	for _, rt := range []types.Type{types.NewPointer(t), t} {
		if sel := p.prog.MethodSets.MethodSet(rt).Lookup(p.root.Pkg, name); sel != nil {
			return p.prog.MethodValue(sel)
		}
	}
	return nil
}

// ownMethod is method, but declared on the type itself (not promoted, not a wrapper).
func (p *Prog) ownMethod(typ, name string) *ssa.Function {
	t := p.typ(typ)
	if t == nil {
		return nil
	}
	n := t.(*types.Named)
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (p *Prog) typ(name string) types.Type {
	pk := p.root
	if strings.HasPrefix(name, "helpers.") {
		pk, name = p.help, strings.TrimPrefix(name, "helpers.")
	}
	if o := pk.Pkg.Scope().Lookup(name); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	return nil
}

func (p *Prog) fn(name string) *ssa.Function {
	pk := p.root
	if strings.HasPrefix(name, "helpers.") {
		pk, name = p.help, strings.TrimPrefix(name, "helpers.")
	}
	return pk.Func(name)
}

// namedTypes lists the named, non-generic types of the root package.
func (p *Prog) namedTypes() []*types.Named {
	var r []*types.Named
	sc := p.root.Pkg.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
			if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() == 0 {
				r = append(r, nt)
			}
		}
	}
	return r
}

func fileOf(p *Prog, f *ast.File) string { return p.fset.Position(f.Pos()).Filename }

// helperFn finds a function of the helpers package.
func (p *Prog) helperFn(name string) *ssa.Function { return p.help.Func(name) }
