package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const repoImport = "github.com/splendidmoons/suriya-go"

// packages whose Go bodies are executed symbolically besides the repository's
// own (pure Go, no package-level initialisation needed)
var interpStd = map[string]bool{
	"sort": true, "slices": true, "maps": true, "cmp": true, "iter": true,
	"container/list": true, "container/heap": true, "container/ring": true,
	"math/bits": true,
}

type Loader struct {
	fset    *token.FileSet
	ctx     build.Context
	repo    string
	verif   string
	pkgs    map[string]*types.Package
	files   map[string][]*ast.File
	infos   map[string]*types.Info
	order   []string
	srcs    map[string]string // extra packages: import path -> dir
	ownErrs []string
	extra   map[string]string // further source directories of a package
	core    bool              // leave out the files that need absent third-party packages
}

func newLoader(repo, verif string) *Loader {
	ctx := build.Default
	ctx.CgoEnabled = false
	ctx.GOPATH = ""
	if r := goroot(); r != "" {
		ctx.GOROOT = r
	}
	l := &Loader{fset: token.NewFileSet(), ctx: ctx, repo: repo, verif: verif,
		pkgs: map[string]*types.Package{}, files: map[string][]*ast.File{}, infos: map[string]*types.Info{},
		srcs: map[string]string{}}
	l.srcs[repoImport] = repo
	l.srcs["vapi"] = filepath.Join(verif, "harness", "vapi")
	l.srcs["hcore"] = filepath.Join(verif, "harness", "core")
	l.srcs["hcal"] = filepath.Join(verif, "harness", "cal")
	l.srcs["hcli"] = filepath.Join(verif, "harness", "cli")
	l.srcs["hcsv"] = filepath.Join(verif, "harness", "csv")
	l.extra = map[string]string{"hcli": filepath.Join(repo, "suriya"), "hcsv": filepath.Join(repo, "utils")}
	for _, s := range []string{"github.com/soh335/ical", "github.com/satori/go.uuid", "github.com/codegangsta/cli", "github.com/davecgh/go-spew/spew"} {
		l.srcs[s] = filepath.Join(verif, "stubs", s)
	}
	return l
}

var gorootOnce sync.Once
var gorootVal string

func goroot() string {
	gorootOnce.Do(func() {
		if r := os.Getenv("GOROOT"); r != "" {
			gorootVal = r
			return
		}
		out, err := exec.Command("go", "env", "GOROOT").Output()
		if err == nil {
			gorootVal = strings.TrimSpace(string(out))
		}
	})
	return gorootVal
}

func (l *Loader) own(p string) bool { _, ok := l.srcs[p]; return ok }

func (l *Loader) Import(p string) (*types.Package, error) {
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	if q, ok := l.pkgs[p]; ok {
		if q == nil {
			return nil, fmt.Errorf("import cycle through %s", p)
		}
		return q, nil
	}
	return l.load(p)
}

func (l *Loader) load(p string) (*types.Package, error) {
	l.pkgs[p] = nil
	dir, own := l.srcs[p]
	if !own {
		dir = filepath.Join(l.ctx.GOROOT, "src", p)
		if _, e := os.Stat(dir); e != nil {
			dir = filepath.Join(l.ctx.GOROOT, "src/vendor", p)
		}
	}
	bp, err := l.ctx.ImportDir(dir, 0)
	if err != nil {
		return nil, fmt.Errorf("%s: %v", p, err)
	}
	var paths []string
	for _, f := range bp.GoFiles {
		if p == repoImport && l.core && isHidden(f) {
			continue
		}
		paths = append(paths, filepath.Join(dir, f))
	}
	if d2, ok := l.extra[p]; ok {
		b2, err := l.ctx.ImportDir(d2, 0)
		if err != nil {
			return nil, fmt.Errorf("%s: %v", p, err)
		}
		for _, f := range b2.GoFiles {
			paths = append(paths, filepath.Join(d2, f))
		}
	}
	fs := make([]*ast.File, len(paths))
	errs := make([]error, len(paths))
	var wg sync.WaitGroup
	for i, f := range paths {
		wg.Add(1)
		go func(i int, f string) {
			defer wg.Done()
			fs[i], errs[i] = parser.ParseFile(l.fset, f, nil, parser.SkipObjectResolution)
		}(i, f)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return nil, e
		}
	}
	bodies := own || interpStd[p]
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	cfg := types.Config{Importer: l, IgnoreFuncBodies: !bodies, Sizes: types.SizesFor("gc", "amd64"),
		Error: func(e error) {
			if own {
				if te, ok := e.(types.Error); ok && te.Soft {
					return
				}
				l.ownErrs = append(l.ownErrs, e.Error())
			}
		}}
	if !bodies {
		info = nil
	}
	t, err := cfg.Check(p, l.fset, fs, info)
	if own && len(l.ownErrs) > 0 {
		return nil, fmt.Errorf("type errors in %s: %s", p, strings.Join(l.ownErrs, "; "))
	}
	l.pkgs[p] = t
	if bodies {
		l.files[p] = fs
		l.infos[p] = info
	}
	l.order = append(l.order, p)
	return t, nil
}

// build type-checks the given roots and returns the SSA program.
func (l *Loader) build(roots ...string) (*ssa.Program, error) {
	for _, r := range roots {
		if _, err := l.Import(r); err != nil {
			return nil, err
		}
	}
	prog := ssa.NewProgram(l.fset, ssa.InstantiateGenerics)
	prog.CreatePackage(types.Unsafe, nil, nil, true)
	var own []*ssa.Package
	for _, p := range l.order {
		if fs, ok := l.files[p]; ok {
			own = append(own, prog.CreatePackage(l.pkgs[p], fs, l.infos[p], true))
		} else {
			prog.CreatePackage(l.pkgs[p], nil, nil, true)
		}
	}
	for _, p := range own {
		p.Build()
	}
	return prog, nil
}
