package main

// Loading: the type-checked SSA form of /repo's working tree and of the
// standard-library functions it calls.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	dir   string
	prog  *ssa.Program
	fset  *token.FileSet
	pkgs  map[string]*ssa.Package // packages of the module, by import path
	all   map[string]*ssa.Package
	built map[*ssa.Package]bool
	mod   string
}

func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) {
		for i, e := range env {
			if strings.HasPrefix(e, k+"=") {
				env[i] = k + "=" + v
				return
			}
		}
		env = append(env, k+"="+v)
	}
	set("PATH", "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
	set("HOME", "/root")
	set("GOTOOLCHAIN", "local")
	set("GOPROXY", "off")
	set("GOFLAGS", "-mod=mod")
	set("GOPATH", "/root/go")
	set("GOMODCACHE", "/root/go/pkg/mod")
	set("GOCACHE", "/root/.cache/go-build")
	return env
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: goEnv()}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	P := &Program{dir: dir, prog: prog, pkgs: map[string]*ssa.Package{}, all: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}}
	if len(ps) > 0 {
		P.fset = ps[0].Fset
		if ps[0].Module != nil {
			P.mod = ps[0].Module.Path
		}
	}
	for _, p := range spkgs {
		if p != nil {
			P.pkgs[p.Pkg.Path()] = p
			p.Build()
			P.built[p] = true
		}
	}
	for _, p := range prog.AllPackages() {
		P.all[p.Pkg.Path()] = p
	}
	return P, nil
}

func (P *Program) ensureBuilt(p *ssa.Package) {
	if p != nil && !P.built[p] {
		p.Build()
		P.built[p] = true
	}
}

func (P *Program) inModule(p *ssa.Package) bool {
	return p != nil && P.pkgs[p.Pkg.Path()] != nil
}

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() || P.fset == nil {
		return "?"
	}
	q := P.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(P.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else {
		f = filepath.Base(filepath.Dir(f)) + "/" + filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// findFunc finds a function by "pkgsuffix.Name" or "pkgsuffix.(T).Name".
func (P *Program) findFunc(pkg, recv, name string) *ssa.Function {
	var p *ssa.Package
	if p = P.all[pkg]; p == nil {
		for path, q := range P.pkgs {
			if filepath.Base(path) == pkg || q.Pkg.Name() == pkg {
				p = q
			}
		}
	}
	if p == nil {
		return nil
	}
	P.ensureBuilt(p)
	if recv == "" {
		return p.Func(name)
	}
	tn := p.Type(strings.TrimPrefix(recv, "*"))
	if tn == nil {
		return nil
	}
	var T types.Type = tn.Type()
	for _, t := range []types.Type{T, types.NewPointer(T)} {
		ms := P.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				if f := P.prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
					return f
				}
			}
		}
	}
	return nil
}

// moduleFuncs lists all functions with bodies of the module (closures included).
func (P *Program) moduleFuncs() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(P.prog) {
		if f.Pkg != nil && P.inModule(f.Pkg) && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
