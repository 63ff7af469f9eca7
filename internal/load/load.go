// Package load type-checks the repository and lowers it to SSA.
package load

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded repository.
type Program struct {
	Dir    string
	Module string
	Prog   *ssa.Program
	Pkgs   []*packages.Package
	SSA    map[string]*ssa.Package
}

// goBin returns a directory with a go command that can load the repository.
func goBin() string {
	m, _ := filepath.Glob("/opt/veriftools/go1.24*/bin/go")
	sort.Strings(m)
	if len(m) > 0 {
		return filepath.Dir(m[len(m)-1])
	}
	return ""
}

// Load loads dir. Any parse or type error is an error.
func Load(dir string) (*Program, error) {
	env := append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=1")
	if b := goBin(); b != "" {
		env = append(env, "PATH="+b+":"+os.Getenv("PATH"))
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedModule | packages.NeedEmbedFiles,
		Dir:        dir,
		BuildFlags: []string{"-tags=fts5", "-mod=readonly"},
		Env:        env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("cannot type-check %s: %s", dir, strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 || pkgs[0].Module == nil {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	p := &Program{Dir: dir, Pkgs: pkgs, SSA: map[string]*ssa.Package{}}
	p.Module = pkgs[0].Module.Path
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	for _, x := range sp {
		if x != nil {
			p.SSA[x.Pkg.Path()] = x
		}
	}
	return p, nil
}

// Pkg returns the package at a path relative to the module.
func (p *Program) Pkg(rel string) *ssa.Package {
	if rel == "" {
		return p.SSA[p.Module]
	}
	return p.SSA[p.Module+"/"+rel]
}

// Func returns a package-level function.
func (p *Program) Func(rel, name string) *ssa.Function {
	k := p.Pkg(rel)
	if k == nil {
		return nil
	}
	return k.Func(name)
}

// Type returns a package-level named type.
func (p *Program) Type(rel, name string) *types.Named {
	k := p.Pkg(rel)
	if k == nil {
		return nil
	}
	t := k.Type(name)
	if t == nil {
		return nil
	}
	n, _ := types.Unalias(t.Type()).(*types.Named)
	return n
}

// Method returns the method of *T (or T).
func (p *Program) Method(rel, typ, name string) *ssa.Function {
	n := p.Type(rel, typ)
	if n == nil {
		return nil
	}
	ms := p.Prog.MethodSets.MethodSet(types.NewPointer(n))
	sel := ms.Lookup(n.Obj().Pkg(), name)
	if sel == nil {
		return nil
	}
	return p.Prog.MethodValue(sel)
}

// Commands returns the names of the exported command types: structs with a
// method Run() error.
func (p *Program) Commands(rel string) []string {
	k := p.Pkg(rel)
	if k == nil {
		return nil
	}
	var out []string
	for name, m := range k.Members {
		t, ok := m.(*ssa.Type)
		if !ok || !t.Object().Exported() {
			continue
		}
		if f := p.Method(rel, name, "Run"); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
			out = append(out, name)
		}
	}
	sort.Strings(out)
	return out
}
