package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/forsyth/jsonpath"

// the reference semantics is type-checked as one more package of the module
const specPath = modPath + "/zzverifspec"

//go:embed spec/spec.go
var specSrc []byte

// functions laid beside those of package paths, to be interpreted only
//
//go:embed harness/paths.go
var harnessSrc []byte

//go:embed harness/regexp.go
var harnessSrc2 []byte

// Prog is the loaded, type-checked repository.
type Prog struct {
	dir   string
	fset  *token.FileSet
	pkgs  []*packages.Package
	ssa   *ssa.Program
	spkgs map[string]*ssa.Package
	files map[string]*ast.File
	fns   []*ssa.Function // all functions with bodies, sorted by name

	noHarness string // why the harness is missing
}

func load(dir string) (*Prog, error) {
	P, err := load1(dir, 2)
	if err != nil {
		// without the harness, which only some checks need
		for n := 1; n >= 0; n-- {
			if Q, err2 := load1(dir, n); err2 == nil {
				Q.noHarness = err.Error()
				return Q, nil
			}
		}
	}
	return P, err
}

func load1(dir string, harness int) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedModule | packages.NeedExportFile,
		Dir:   dir,
		Fset:  token.NewFileSet(),
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off"),
	}
	cfg.Mode &^= packages.NeedDeps // dependencies come from export data
	cfg.Overlay = map[string][]byte{dir + "/zzverifspec/spec.go": specSrc}
	if harness > 0 {
		cfg.Overlay[dir+"/paths/zz_verif_harness.go"] = harnessSrc
	}
	if harness > 1 {
		cfg.Overlay[dir+"/paths/zz_verif_harness2.go"] = harnessSrc2
	}
	pkgs, err := packages.Load(cfg, "./...", "./zzverifspec")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	P := &Prog{dir: dir, fset: cfg.Fset, pkgs: pkgs, spkgs: map[string]*ssa.Package{}}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	P.ssa = prog
	for i, p := range sp {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.Build()
		P.spkgs[p.Pkg.Path()] = p
	}
	prog.Build()
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if len(f.Blocks) > 0 && P.inRepo(f) && pkgOf(f).Path() != specPath && !strings.HasPrefix(f.Name(), "zz") {
			P.fns = append(P.fns, f)
		}
	}
	sort.Slice(P.fns, func(i, j int) bool { return fnName(P.fns[i]) < fnName(P.fns[j]) })
	return P, nil
}

func pkgOf(f *ssa.Function) *types.Package {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg
		}
		if o := g.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg()
		}
		if o := g.Origin(); o != nil && o != g {
			return pkgOf(o)
		}
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg()
		}
	}
	return nil
}

func (P *Prog) inRepo(f *ssa.Function) bool {
	p := pkgOf(f)
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func (P *Prog) pkg(rel string) *ssa.Package {
	if rel == "" {
		return P.spkgs[modPath]
	}
	return P.spkgs[modPath+"/"+rel]
}

// fn finds a package-level function or method ("T.m" or "*T.m") of a package.
func (P *Prog) fn(rel, name string) *ssa.Function {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	if i := strings.LastIndex(name, "."); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		o := p.Pkg.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		t := o.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		return P.ssa.LookupMethod(t, p.Pkg, mn)
	}
	return p.Func(name)
}

func (P *Prog) typ(rel, name string) types.Type {
	p := P.pkg(rel)
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (P *Prog) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.fset.Position(p)
	f := q.Filename
	if strings.HasPrefix(f, P.dir+"/") {
		f = f[len(P.dir)+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// instrPos finds the position of an instruction, or of a neighbour.
func (P *Prog) instrPos(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return P.pos(in.Pos())
	}
	b := in.Block()
	if b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return P.pos(x.Pos())
			}
		}
	}
	if in.Parent() != nil {
		return P.pos(in.Parent().Pos())
	}
	return "?"
}
