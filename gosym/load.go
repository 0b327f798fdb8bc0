package main

// Loads the current source of the repository (plus harness overlay) and builds SSA.

import (
	_ "embed"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/leftmike/maho"

type Program struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package
	sizes types.Sizes
	repo  string
}

// harness overlay: every .go file below harnessDir/<pkg>/ appears as
// /repo/zzverif/<pkg>/<file>.
func overlayFiles(repo, harnessDir string, native bool) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(harnessDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(harnessDir, p)
		out[filepath.Join(repo, "zzverif", rel)] = p
		return nil
	})
	return out, err
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GO111MODULE=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOSUMDB=off")
}

//go:embed models/sync_map.go.txt
var syncMapModel []byte

func goroot(dir string) (string, error) {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Dir, cmd.Env = dir, goEnv()
	b, err := cmd.Output()
	return strings.TrimSpace(string(b)), err
}

func loadProgram(repo, harnessDir string, patterns []string) (*Program, error) {
	ov, err := overlayFiles(repo, harnessDir, false)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		overlay[dst] = b
	}
	if root, err := goroot(repo); err == nil {
		overlay[filepath.Join(root, "src/sync/map.go")] = syncMapModel
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Env:     goEnv(),
		Overlay: overlay,
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 20 {
			errs = errs[:20]
		}
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	pr := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, repo: repo, sizes: types.SizesFor("gc", "amd64")}
	for _, p := range prog.AllPackages() {
		pr.pkgs[p.Pkg.Path()] = p
	}
	return pr, nil
}
