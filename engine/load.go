package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/williamflynt/topolith"

// Program is the loaded code: /repo plus the harness packages overlaid into it.
type Program struct {
	prog   *ssa.Program
	pkgs   map[string]*ssa.Package
	models map[string]*ssa.Function
	names  sync.Map
	files  map[string]string // overlay: path inside the repo -> real path
}

// overlayFiles maps every harness file to its place inside the module.
func overlayFiles(repo, harness string) (map[string]string, error) {
	files := map[string]string{}
	err := filepath.Walk(harness, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(harness, p)
		if strings.HasPrefix(rel, "inpkg/") {
			// inpkg/pkg/app/x.go goes next to the sources of pkg/app
			files[filepath.Join(repo, strings.TrimPrefix(rel, "inpkg/"))] = p
			return nil
		}
		files[filepath.Join(repo, "zz_verif", rel)] = p
		return nil
	})
	return files, err
}

func loadProgram(repo, harness string, patterns []string, env []string) (*Program, error) {
	files, err := overlayFiles(repo, harness)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	pf, err := programFiles(repo)
	if err != nil {
		return nil, err
	}
	for dst, s := range pf {
		ov[dst] = []byte(s)
	}
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:     repo,
		Overlay: ov,
		Env:     append(append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"), env...),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, models: map[string]*ssa.Function{}, files: files}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	if vf := P.pkgs[modPath+"/zz_verif/vf"]; vf != nil {
		for std, m := range modelNames {
			f := vf.Func(m)
			if f == nil {
				// method model: Type.Method
				if t, mm, ok := strings.Cut(m, "."); ok {
					if ty := vf.Type(t); ty != nil {
						f = prog.LookupMethod(types.NewPointer(ty.Type()), vf.Pkg, mm)
					}
				}
			}
			if f == nil {
				return nil, fmt.Errorf("model %s missing", m)
			}
			P.models[std] = f
		}
	}
	return P, nil
}

func (p *Program) name(fn *ssa.Function) string {
	if n, ok := p.names.Load(fn); ok {
		return n.(string)
	}
	n := fn.String()
	if o := fn.Origin(); o != nil && o != fn {
		n = o.String()
	}
	p.names.Store(fn, n)
	return n
}

var initAllow = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "sort": true, "slices": true,
	"path/filepath": true, "path": true, "bytes": true, "math/bits": true, "math": true, "internal/filepathlite": true,
	"io/fs": true, "internal/oserror": true, "cmp": true, "maps": true, "iter": true, "internal/stringslite": true, "io": true,
	"github.com/kballard/go-shellquote": true, "internal/strconv": true, "unicode/utf16": true,
}

func (p *Program) initOK(path string) bool {
	return initAllow[path] || strings.HasPrefix(path, modPath) || strings.HasPrefix(path, "github.com/deckarep/golang-set")
}
