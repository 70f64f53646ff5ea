package main

// Loading: /repo's current tree plus the harness packages, which are laid over
// it virtually under github.com/kataras/neffos/verifh/..., as SSA.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	repo        string
	fset        *token.FileSet
	prog        *ssa.Program
	pkgs        []*packages.Package
	overlay     map[string][]byte
	runtimeErrT types.Type
	sizes       types.Sizes
	solverTO    int
	mu          sync.Mutex
	partial     map[string]string
	ptrs        map[types.Type]types.Type
}

func (e *Engine) ptrTo(t types.Type) types.Type {
	e.mu.Lock()
	defer e.mu.Unlock()
	if p, ok := e.ptrs[t]; ok {
		return p
	}
	p := types.NewPointer(t)
	e.ptrs[t] = p
	return p
}

func (e *Engine) notePartial(pkg, msg string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if _, ok := e.partial[pkg]; !ok {
		e.partial[pkg] = msg
	}
}

func (e *Engine) pkgFunc(pkg, name string) *ssa.Function {
	p := e.prog.ImportedPackage(pkg)
	p.Build()
	return p.Func(name)
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "CGO_ENABLED=") || strings.HasPrefix(kv, "GOWORK=") || strings.HasPrefix(kv, "GODEBUG=") {
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off", "GOTOOLCHAIN=local")
}

// overlayFiles maps harness sources into the repository's tree.
func overlayFiles(repo, harnessDir string, names []string) (map[string]string, error) {
	out := map[string]string{}
	for _, n := range names {
		fs, err := filepath.Glob(filepath.Join(harnessDir, n, "*.go"))
		if err != nil || len(fs) == 0 {
			return nil, fmt.Errorf("no harness package %s", n)
		}
		for _, f := range fs {
			out[filepath.Join(repo, "verifh", n, filepath.Base(f))] = f
		}
	}
	return out, nil
}

// modfile is the go.mod used instead of the repository's, if not empty.
var modfile string

// standinMod writes a copy of the repository's go.mod which replaces dependencies by directories of dir.
func standinMod(repo, dir, work string, mods []string) (string, error) {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return "", err
	}
	for _, m := range mods {
		k, d, _ := strings.Cut(m, "=")
		abs, err := filepath.Abs(filepath.Join(dir, d))
		if err != nil {
			return "", err
		}
		b = append(b, fmt.Sprintf("\nreplace %s => %s\n", k, abs)...)
	}
	name := filepath.Join(work, "standin.mod")
	if err := os.WriteFile(name, b, 0o644); err != nil {
		return "", err
	}
	return name, os.WriteFile(filepath.Join(work, "standin.sum"), sum, 0o644)
}

func load(repo string, files map[string]string, patterns []string) (*Engine, error) {
	ov := map[string][]byte{}
	for virt, real := range files {
		b, err := os.ReadFile(real)
		if err != nil {
			return nil, err
		}
		ov[virt] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repo,
		Env:  goEnv(),
		// dependencies without assembly and unsafe shortcuts; no file of the repository has these tags
		BuildFlags: []string{"-tags=purego,appengine"},
		Overlay:    ov,
		Fset:       token.NewFileSet(),
	}
	if modfile != "" {
		cfg.BuildFlags = append(cfg.BuildFlags, "-modfile="+modfile)
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e := &Engine{repo: repo, fset: cfg.Fset, prog: prog, pkgs: pkgs, overlay: ov, solverTO: 20000,
		partial: map[string]string{}, ptrs: map[types.Type]types.Type{}, sizes: types.SizesFor("gc", "amd64")}
	if rp := prog.ImportedPackage("runtime"); rp != nil {
		if o := rp.Pkg.Scope().Lookup("errorString"); o != nil {
			e.runtimeErrT = o.Type()
		}
	}
	return e, nil
}

// harnesses lists the check functions (exported, no parameters, prefix Check)
// of the harness package.
func (e *Engine) harnesses(pkgPath string) []harness {
	var out []harness
	for _, p := range e.pkgs {
		if p.PkgPath != pkgPath {
			continue
		}
		sp := e.prog.Package(p.Types)
		sp.Build()
		for name, mem := range sp.Members {
			fn, ok := mem.(*ssa.Function)
			if !ok || !strings.HasPrefix(name, "Check") || fn.Signature.Params().Len() != 0 {
				continue
			}
			out = append(out, harness{name: name, fn: fn})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}
