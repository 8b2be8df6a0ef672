package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/Tom5521/gotext-tools/v2"

var (
	repoDir  = envOr("VERIF_REPO", "/repo")
	verifDir = envOr("VERIF_DIR", "/verif")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func goEnv() []string {
	env := os.Environ()
	var out []string
	drop := map[string]bool{"GOTOOLCHAIN": true, "GOSUMDB": true, "GOPROXY": true, "GOFLAGS": true, "GOWORK": true, "GOENV": true, "CGO_ENABLED": true, "GOOS": true, "GOARCH": true}
	for _, e := range env {
		if i := strings.IndexByte(e, '='); i > 0 && drop[e[:i]] {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOTOOLCHAIN=local", "GOSUMDB=off", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOENV=off", "CGO_ENABLED=0")
}

// overlayMap maps harness sources under /verif/harness to virtual packages
// inside the repository's modules: lib packages below internal/zzverif, CLI
// packages (directory names starting with "c_") below cli/internal/zzverif.
func overlayMap() (map[string]string, error) {
	out := map[string]string{}
	base := filepath.Join(verifDir, "harness")
	ents, err := os.ReadDir(base)
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		if !e.IsDir() {
			continue
		}
		dst := filepath.Join(repoDir, "internal", "zzverif", e.Name())
		if strings.HasPrefix(e.Name(), "c_") {
			dst = filepath.Join(repoDir, "cli", "internal", "zzverif", e.Name())
		}
		fs, _ := filepath.Glob(filepath.Join(base, e.Name(), "*.go"))
		for _, f := range fs {
			out[filepath.Join(dst, filepath.Base(f))] = f
		}
	}
	return out, nil
}

func pkgOf(dir string) string {
	if strings.HasPrefix(dir, "c_") {
		return modPath + "/cli/internal/zzverif/" + dir
	}
	return modPath + "/internal/zzverif/" + dir
}

func moduleDir(cli bool) string {
	if cli {
		return filepath.Join(repoDir, "cli")
	}
	return repoDir
}

// modFlag uses copies of go.mod/go.sum so that the repository's stay untouched.
func modFlag(cli bool, scratch string) (string, error) {
	src := moduleDir(cli)
	name := "lib"
	if cli {
		name = "cli"
	}
	dst := filepath.Join(scratch, name+".mod")
	b, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		return "", err
	}
	if cli {
		b = []byte(strings.ReplaceAll(string(b), "=> ../", "=> "+repoDir))
	}
	if err := os.WriteFile(dst, b, 0o644); err != nil {
		return "", err
	}
	b, err = os.ReadFile(filepath.Join(src, "go.sum"))
	if err != nil {
		return "", err
	}
	if err := os.WriteFile(filepath.Join(scratch, name+".sum"), b, 0o644); err != nil {
		return "", err
	}
	return "-modfile=" + dst, nil
}

type Loaded struct {
	prog *ssa.Program
	fset int
}

func loadProg(cli bool, dirs []string, scratch string) (*ssa.Program, error) {
	ov, err := overlayMap()
	if err != nil {
		return nil, err
	}
	over := map[string][]byte{}
	for d, s := range ov {
		b, err := os.ReadFile(s)
		if err != nil {
			return nil, err
		}
		over[d] = b
	}
	mf, err := modFlag(cli, scratch)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        moduleDir(cli),
		Env:        goEnv(),
		Overlay:    over,
		BuildFlags: []string{mf},
	}
	var pats []string
	for _, d := range dirs {
		pats = append(pats, pkgOf(d))
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			linkNames(prog, p)
		}
	})
	return prog, nil
}

// linked are the variables that //go:linkname makes those of another package.
var linked = map[*ssa.Global]*ssa.Global{}

func linkNames(prog *ssa.Program, p *packages.Package) {
	for _, f := range p.Syntax {
		for _, g := range f.Comments {
			for _, c := range g.List {
				w := strings.Fields(c.Text)
				if len(w) != 3 || w[0] != "//go:linkname" {
					continue
				}
				i := strings.LastIndex(w[2], ".")
				from, to := prog.ImportedPackage(p.PkgPath), prog.ImportedPackage(w[2][:i])
				if from == nil || to == nil {
					continue
				}
				if a, b := from.Var(w[1]), to.Var(w[2][i+1:]); a != nil && b != nil {
					linked[a] = b
				}
			}
		}
	}
}

// exported functions without parameters and results in the harness packages.
func harnessNames(prog *ssa.Program, dir string) []string {
	p := prog.ImportedPackage(pkgOf(dir))
	if p == nil {
		return nil
	}
	var out []string
	for _, m := range p.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(f.Name(), "H") {
			continue
		}
		s := f.Signature
		if s.Params().Len() == 0 && s.Results().Len() == 0 && types.Identical(s, s) {
			out = append(out, f.Name())
		}
	}
	sort.Strings(out)
	return out
}

func writeOverlayFile(path string, extra map[string]string) error {
	ov, err := overlayMap()
	if err != nil {
		return err
	}
	for k, v := range extra {
		ov[k] = v
	}
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	return os.WriteFile(path, b, 0o644)
}
