package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/childe/healer"

// Prog is the resolved program under analysis.
type Prog struct {
	respTyped  bool // responses have the type their callers expect (decided by C19)
	tinyMemo   map[*ssa.Function]int
	apis       map[string]map[string]bool
	repo       string
	callerMemo map[*ssa.Function][]*ssa.Function
	implMemo   map[string][]*ssa.Function
	ioMemo     map[*ssa.Function]bool
	fset       *token.FileSet
	pkgs       []*packages.Package
	ssa        *ssa.Program
	core       *ssa.Package // root package
	corep      *packages.Package
	all        map[*ssa.Function]bool
	funcs      []*ssa.Function // module functions with bodies, sorted
	byKey      map[string]*ssa.Function

	sums   map[*ssa.Function]*Summary
	inSum  map[*ssa.Function]bool
	stores map[string][]storeSite // "Type.field" -> stores
}

type storeSite struct {
	fn *ssa.Function
	in *ssa.Store
}

func clean(pkgs []*packages.Package) bool {
	ok := true
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) && len(p.Errors) > 0 {
			ok = false
		}
	})
	return ok
}

func loadProg(repo string) (*Prog, error) {
	env := append(os.Environ(),
		"GOROOT=/opt/veriftools/go1.23.12",
		"PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "CGO_ENABLED=0")
	// the go command itself is looked up through this process's PATH
	os.Setenv("PATH", "/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
	os.Setenv("GOROOT", "/opt/veriftools/go1.23.12")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	if os.Getenv("GOCACHE") == "" {
		env = append(env, "GOCACHE=/root/.cache/go-build")
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile,
		Dir: repo,
		Env: env,
	}
	docs := filepath.Join(repo, "docs", "docs.go")
	if _, err := os.Stat(docs); err != nil {
		// generated by swag and ignored by git: only blank-imported
		cfg.Overlay = map[string][]byte{docs: []byte("package docs\n")}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if ov := rangeInt(pkgs); len(ov) > 0 {
		for k, v := range cfg.Overlay {
			ov[k] = v
		}
		cfg.Overlay = ov
		if again, err := packages.Load(cfg, "./..."); err == nil && clean(again) {
			pkgs = again
		}
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if os.Getenv("VDEBUG") != "" {
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				fmt.Println(p.PkgPath, e)
			}
		})
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("package errors: %s", strings.Join(errs, "; "))
	}
	sp, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	for i, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s: ill=%v types=%v errs=%v terrs=%v", pkgs[i].PkgPath, pkgs[i].IllTyped, pkgs[i].Types, pkgs[i].Errors, pkgs[i].TypeErrors)
		}
	}
	sp.Build()
	pr := &Prog{repo: repo, fset: sp.Fset, pkgs: pkgs, ssa: sp, byKey: map[string]*ssa.Function{},
		sums: map[*ssa.Function]*Summary{}, inSum: map[*ssa.Function]bool{}}
	for i, p := range pkgs {
		if p.PkgPath == modPath {
			pr.core = spkgs[i]
			pr.corep = p
		}
	}
	if pr.core == nil {
		return nil, fmt.Errorf("package %s not found", modPath)
	}
	pr.all = ssautil.AllFunctions(sp)
	for f := range pr.all {
		if f.Blocks == nil || !pr.inModule(f) {
			continue
		}
		pr.funcs = append(pr.funcs, f)
	}
	sort.Slice(pr.funcs, func(i, j int) bool {
		a, b := pr.funcs[i], pr.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	for _, f := range pr.funcs {
		pr.byKey[fname(f)] = f
	}
	pr.stores = map[string][]storeSite{}
	for _, f := range pr.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						k := fieldKey(fa)
						pr.stores[k] = append(pr.stores[k], storeSite{f, s})
					}
				}
			}
		}
	}
	return pr, nil
}

func (p *Prog) inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg == nil {
		// wrappers/thunks and instantiated generics
		if f.Object() != nil && f.Object().Pkg() != nil {
			return strings.HasPrefix(f.Object().Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
}

// fname gives a short stable name: "Broker.RequestAndGet", "newConn", "apicontrollers.GetTopic", closures "X$1".
func fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if par := f.Parent(); par != nil {
		s := f.Name()
		if i := strings.LastIndex(s, "$"); i >= 0 {
			return fname(par) + s[i:]
		}
		return fname(par) + "$" + s
	}
	pre := ""
	if f.Pkg != nil && f.Pkg.Pkg.Path() != modPath {
		pre = f.Pkg.Pkg.Name() + "."
	} else if f.Pkg == nil && f.Object() != nil && f.Object().Pkg() != nil && f.Object().Pkg().Path() != modPath {
		pre = f.Object().Pkg().Name() + "."
	}
	if r := f.Signature.Recv(); r != nil {
		return pre + typeShort(r.Type()) + "." + f.Name()
	}
	return pre + f.Name()
}

func typeShort(t types.Type) string {
	for {
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
			continue
		}
		break
	}
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func fieldKey(fa *ssa.FieldAddr) string {
	st := fa.X.Type().Underlying().(*types.Pointer).Elem()
	return typeShort(st) + "." + fieldName(st, fa.Field)
}

func fieldName(t types.Type, i int) string {
	for {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
			continue
		}
		break
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func (p *Prog) fn(name string) *ssa.Function { return p.byKey[name] }

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	q := p.fset.Position(ps)
	r, err := filepath.Rel(p.repo, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

// typ looks a named type of the core package up.
func (p *Prog) typ(name string) *types.Named {
	o := p.core.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// method finds the SSA function of a method of a (pointer to a) core type.
func (p *Prog) method(tn, m string) *ssa.Function {
	return p.fn(tn + "." + m)
}

func instrPos(in ssa.Instruction) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	// fall back to a neighbour with a position
	b := in.Block()
	if b == nil {
		return token.NoPos
	}
	for i, x := range b.Instrs {
		if x == in {
			for j := i; j >= 0; j-- {
				if b.Instrs[j].Pos().IsValid() {
					return b.Instrs[j].Pos()
				}
			}
			for j := i; j < len(b.Instrs); j++ {
				if b.Instrs[j].Pos().IsValid() {
					return b.Instrs[j].Pos()
				}
			}
		}
	}
	if in.Parent() != nil {
		return in.Parent().Pos()
	}
	return token.NoPos
}
