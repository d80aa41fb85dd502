package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/fivebinaries/go-cardano-serialization"
const virtPkg = modPath + "/zz_verif"

// Program is the SSA form of /repo's current working tree (plus the harness
// packages laid over it) and everything it imports.
type Program struct {
	ssa   *ssa.Program
	fset  *token.FileSet
	pkgs  map[string]*ssa.Package
	built map[*ssa.Package]bool
	rtErr types.Type
	mu    sync.Mutex
}

type LoadError struct{ msg string }

func (e *LoadError) Error() string { return e.msg }

// include names the directory whose files a harness directory also contains.
var include = map[string]string{"ge": "gp", "gv": "gp"}

// harnessOverlay maps virtual files below /repo/zz_verif to files of /verif/harness.
func harnessOverlay(repo, hdir string, only []string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.Walk(hdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(hdir, p)
		if only != nil {
			keep := strings.HasPrefix(rel, "v/") || strings.HasPrefix(rel, "ed/") || strings.HasPrefix(rel, "jm/") || strings.HasPrefix(rel, "world/")
			for _, o := range only {
				if strings.HasPrefix(rel, o+"/") {
					keep = true
				}
				if i := include[o]; i != "" && strings.HasPrefix(rel, i+"/") {
					m[filepath.Join(repo, "zz_verif", o, strings.TrimPrefix(rel, i+"/"))] = p
				}
			}
			if !keep {
				return nil
			}
		}
		if i := strings.Index(rel, "/_pkg/"); i >= 0 {
			// laid over a package of the repository itself
			m[filepath.Join(repo, rel[i+6:])] = p
			return nil
		}
		m[filepath.Join(repo, "zz_verif", rel)] = p
		return nil
	})
	return m, err
}

// Load type-checks and builds SSA for the given harness packages (directory
// names below /verif/harness).
func Load(repo, hdir string, dirs []string) (*Program, error) {
	ov, err := harnessOverlay(repo, hdir, dirs)
	if err != nil {
		return nil, err
	}
	content := map[string][]byte{}
	for k, f := range ov {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		content[k] = b
	}
	var pats []string
	for _, d := range dirs {
		pats = append(pats, virtPkg+"/"+d)
	}
	pats = append(pats, "runtime", "reflect")
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: content,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, &LoadError{strings.Join(errs, "\n")}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := &Program{ssa: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	prog.Build()
	if rp := P.pkgs["runtime"]; rp != nil {
		if o := rp.Pkg.Scope().Lookup("errorString"); o != nil {
			P.rtErr = o.Type()
		}
	}
	if P.rtErr == nil {
		return nil, fmt.Errorf("runtime.errorString not found")
	}
	return P, nil
}

func (p *Program) rtErrType() types.Type { return p.rtErr }

func (p *Program) ensure(fn *ssa.Function) {
	if fn.Pkg != nil && !p.built[fn.Pkg] {
		p.built[fn.Pkg] = true
		fn.Pkg.Build()
	}
}

// lookup finds "pkg/path.Func".
func (p *Program) lookup(name string) *ssa.Function {
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return nil
	}
	pk := p.pkgs[name[:i]]
	if pk == nil {
		return nil
	}
	return pk.Func(name[i+1:])
}

func (p *Program) typ(pkg, name string) types.Type {
	pk := p.pkgs[pkg]
	if pk == nil {
		unsup("package %s not loaded", pkg)
	}
	o := pk.Pkg.Scope().Lookup(name)
	if o == nil {
		unsup("type %s.%s not found", pkg, name)
	}
	return o.Type()
}

// harnesses lists the H_* functions of a harness package.
func (p *Program) harnesses(dir string) []string {
	pk := p.pkgs[virtPkg+"/"+dir]
	var out []string
	if pk == nil {
		return nil
	}
	for n, m := range pk.Members {
		if _, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "H_") {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}
