package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ibm-cloud-security/app-identity-and-access-adapter"

// Prog is the type-checked, SSA-form program of /repo's current working tree.
type Prog struct {
	Repo  string
	Pkgs  map[string]*packages.Package
	SSA   *ssa.Program
	SPkgs map[string]*ssa.Package
	Fns   []*ssa.Function // every handwritten module function, incl. anonymous ones
	inits map[string]bool

	implCache map[string][]types.Type
	cg        *callGraph
	la        *lockAnalysis
	ta        *taint
}

// goEnv is the repository's own build environment (see /opt/vp/env.sh).
func goEnv() []string {
	root := os.Getenv("VERIF_REPO_GOROOT")
	if root == "" {
		root = "/opt/veriftools/go1.23.12"
	}
	os.Setenv("PATH", root+"/bin:/usr/local/bin:/usr/bin:/bin")
	drop := map[string]bool{"GOROOT": true, "GOPATH": true, "GOMODCACHE": true, "GOTOOLCHAIN": true, "GOPROXY": true, "GOFLAGS": true, "GO111MODULE": true, "GOSUMDB": true}
	var env []string
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); !drop[k] {
			env = append(env, e)
		}
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
		env = append(env, "HOME=/root")
	}
	gp := "/root/go"
	if _, err := os.Stat(gp); err != nil {
		gp = home + "/go"
	}
	return append(env, "GOROOT="+root, "GOPATH="+gp, "GOMODCACHE="+gp+"/pkg/mod", "GOTOOLCHAIN=local",
		"GOPROXY=off", "GOFLAGS=-mod=mod", "GO111MODULE=on", "GOSUMDB=off")
}

func short(path string) string { return strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/") }

func load(repo string) (*Prog, error) {
	env := goEnv()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedModule | packages.NeedExportFile,
		Dir: repo, Env: env,
	}
	pkgs, err := packages.Load(cfg, "./cmd/...", "./adapter/...", "./config/...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Repo: repo, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}, inits: map[string]bool{}, implCache: map[string][]types.Type{}}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("package %s: %v", pk.PkgPath, e)
		}
		p.Pkgs[short(pk.PkgPath)] = pk
		if !generated(short(pk.PkgPath)) {
			for path := range pk.Imports {
				if path == "unsafe" || path == "C" {
					return nil, fmt.Errorf("package %s uses %s, which the analysis does not follow", pk.PkgPath, path)
				}
			}
		}
	}
	if len(p.Pkgs) < 25 {
		return nil, fmt.Errorf("only %d packages loaded", len(p.Pkgs))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.BareInits)
	prog.Build()
	p.SSA = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.SPkgs[short(pkgs[i].PkgPath)] = sp
	}
	seen := map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(prog) {
		if p.handwritten(fn) && fn.Synthetic == "" && len(fn.Blocks) > 0 && !seen[fn] {
			seen[fn] = true
			p.Fns = append(p.Fns, fn)
		}
	}
	// AllFunctions may miss methods of types never converted to interfaces
	for path, sp := range p.SPkgs {
		if generated(path) {
			continue
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				p.addFn(m, seen)
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						if f := prog.FuncValue(n.Method(i)); f != nil {
							p.addFn(f, seen)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.Fns, func(i, j int) bool { return p.Fns[i].String() < p.Fns[j].String() })
	return p, nil
}

func (p *Prog) addFn(f *ssa.Function, seen map[*ssa.Function]bool) {
	if seen[f] || len(f.Blocks) == 0 || f.Synthetic != "" || !p.handwritten(f) {
		return
	}
	seen[f] = true
	p.Fns = append(p.Fns, f)
	for _, a := range f.AnonFuncs {
		p.addFn(a, seen)
	}
}

// generated reports whether a module package holds generated code.
func generated(path string) bool {
	return strings.HasPrefix(path, "adapter/pkg/client") || strings.HasPrefix(path, "config/") || path == "tests" || strings.HasPrefix(path, "tests/")
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
		if f.Origin() != nil && f.Origin().Pkg != nil {
			return f.Origin().Pkg.Pkg.Path()
		}
	}
	return ""
}

func inModule(path string) bool { return path == modPath || strings.HasPrefix(path, modPath+"/") }

func (p *Prog) handwritten(fn *ssa.Function) bool {
	pp := fnPkgPath(fn)
	return inModule(pp) && !generated(short(pp)) && short(pp) != "config/adapter"
}

// Func finds a package-level function ("adapter/policy/engine", "New").
func (p *Prog) Func(pkg, name string) *ssa.Function {
	sp := p.SPkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Type finds a named type.
func (p *Prog) Type(pkg, name string) *types.Named {
	pk := p.Pkgs[pkg]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Method finds a concrete method on T or *T.
func (p *Prog) Method(pkg, typ, name string) *ssa.Function {
	n := p.Type(pkg, typ)
	if n == nil {
		return nil
	}
	return p.methodOf(types.NewPointer(n), name)
}

func (p *Prog) methodOf(t types.Type, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f := p.SSA.MethodValue(ms.At(i))
			if f != nil && f.Synthetic != "" { // pointer wrapper: use the declared method
				if d := p.SSA.FuncValue(ms.At(i).Obj().(*types.Func)); d != nil {
					return d
				}
			}
			return f
		}
	}
	return nil
}

// Impls lists the concrete module types (T or *T) implementing the interface, outside generated code.
func (p *Prog) Impls(pkg, iface string) []types.Type {
	key := pkg + "." + iface
	if r, ok := p.implCache[key]; ok {
		return r
	}
	in := p.Type(pkg, iface)
	if in == nil {
		return nil
	}
	it, ok := in.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	var paths []string
	for path := range p.Pkgs {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		if generated(path) {
			continue
		}
		sc := p.Pkgs[path].Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if types.IsInterface(tn.Type()) {
				continue
			}
			if types.Implements(tn.Type(), it) {
				out = append(out, tn.Type())
			} else if pt := types.NewPointer(tn.Type()); types.Implements(pt, it) {
				out = append(out, pt)
			}
		}
	}
	p.implCache[key] = out
	return out
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if inModule(p.Path()) {
			return "~/" + short(p.Path())
		}
		return p.Path()
	})
}

// funcName is the stable, type-resolved name of a callee, with the module prefix shortened to "~/".
func funcName(f *types.Func) string {
	return strings.ReplaceAll(strings.ReplaceAll(f.FullName(), modPath+"/", "~/"), modPath, "~")
}

func ssaName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return strings.ReplaceAll(strings.ReplaceAll(fn.String(), modPath+"/", "~/"), modPath, "~")
}

func (p *Prog) posOf(q token.Pos) string {
	if !q.IsValid() {
		return "-"
	}
	ps := p.SSA.Fset.Position(q)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, p.Repo+"/"), ps.Line)
}
