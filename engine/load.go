package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"hash/fnv"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the SSA form of the harness package and everything it depends on,
// rebuilt from the current working tree on every run.
type Program struct {
	prog    *ssa.Program
	models  map[string]*ssa.Function
	harness map[string]*ssa.Package
	pkgs    map[string]*ssa.Package
	bmu     sync.Mutex
	built   sync.Map

	rtErrorString types.Type // runtime.errorString
}

const zz = repoMod + "/internal/zzverif"

type overlayFile struct {
	Replace map[string]string
}

// writeOverlay maps /verif/harness/<dir>/*.go to /repo/internal/zzverif/<dir>/*.go.
func overlayMap(repo, verif string) map[string]string {
	out := map[string]string{}
	root := filepath.Join(verif, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		out[filepath.Join(repo, "internal", "zzverif", rel)] = p
		return nil
	})
	serverOverlay(repo, verif, out)
	return out
}

// serverOverlay makes the sources of the server command importable as zzverif/vsrv: the package renamed, embedding left out.
func serverOverlay(repo, verif string, out map[string]string) {
	srcs, _ := filepath.Glob(filepath.Join(repo, "cmd", "hypercache-server", "*.go"))
	h := fnv.New32a()
	h.Write([]byte(repo))
	dir := filepath.Join(verif, "build", "gen", fmt.Sprintf("%08x", h.Sum32()))
	os.RemoveAll(dir)
	if os.MkdirAll(dir, 0o755) != nil {
		return
	}
	for _, f := range srcs {
		b, err := os.ReadFile(f)
		if err != nil || strings.HasSuffix(f, "_test.go") {
			continue
		}
		lines := strings.Split(string(b), "\n")
		for i, l := range lines {
			if l == "package main" || strings.HasPrefix(l, "package main ") {
				lines[i] = "package vsrv"
			}
			if strings.HasPrefix(l, "//go:embed") {
				lines[i] = ""
			}
		}
		to := filepath.Join(dir, filepath.Base(f))
		if os.WriteFile(to, []byte(strings.Join(lines, "\n")), 0o644) == nil {
			out[filepath.Join(repo, "internal", "zzverif", "vsrv", filepath.Base(f))] = to
		}
	}
}

func writeOverlayJSON(file string, mp map[string]string) error {
	b, _ := json.MarshalIndent(overlayFile{Replace: mp}, "", " ")
	return os.WriteFile(file, b, 0o644)
}

// modfile builds go.mod/go.sum in dir with the sectools stand-in.
func writeModfile(repo, verif, dir string) (string, error) {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	s := string(b) + "\nreplace github.com/cespare/xxhash/v2 => " + filepath.Join(verif, "native", "xxhash") + "\nreplace github.com/hyp3rd/sectools => " + filepath.Join(verif, "stubs", "sectools") + "\n"
	f := filepath.Join(dir, "verif.mod")
	if err := os.WriteFile(f, []byte(s), 0o644); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return "", err
	}
	return f, os.WriteFile(filepath.Join(dir, "verif.sum"), sum, 0o644)
}

func load(repo, verif, scratch string, hpkgs []string) (*Program, error) {
	ov := overlayMap(repo, verif)
	ovf := filepath.Join(scratch, "overlay.json")
	if err := writeOverlayJSON(ovf, ov); err != nil {
		return nil, err
	}
	mod, err := writeModfile(repo, verif, scratch)
	if err != nil {
		return nil, err
	}
	contents := map[string][]byte{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		contents[dst] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repo,
		BuildFlags: []string{"-modfile=" + mod},
		Env:        append(os.Environ(), "CGO_ENABLED=0"),
		Overlay:    contents,
	}
	pats := []string{zz + "/vmodel"}
	for _, pkg := range hpkgs {
		pats = append(pats, zz+"/"+pkg)
	}
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, p.PkgPath+": "+e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs[:min(len(errs), 8)], "\n"))
	}
	prog, spkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	P := &Program{prog: prog, models: map[string]*ssa.Function{}, harness: map[string]*ssa.Package{}, pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	for i, ip := range initial {
		if strings.HasPrefix(ip.PkgPath, zz+"/") {
			P.harness[strings.TrimPrefix(ip.PkgPath, zz+"/")] = spkgs[i]
		}
	}
	for _, pkg := range hpkgs {
		if P.harness[pkg] == nil {
			return nil, fmt.Errorf("harness package %s not found", pkg)
		}
	}
	if rt := P.pkgs["runtime"]; rt != nil {
		if o := rt.Pkg.Scope().Lookup("errorString"); o != nil {
			P.rtErrorString = canon(o.Type())
		}
	}
	if vm := P.pkgs[zz+"/vmodel"]; vm != nil {
		P.buildPkg(vm)
		for target, name := range modelTable {
			if f := vm.Func(name); f != nil {
				P.models[target] = f
			} else {
				return nil, fmt.Errorf("vmodel.%s missing", name)
			}
		}
	}
	if vf := P.pkgs[zz+"/vfiber"]; vf != nil {
		P.buildPkg(vf)
		for target, name := range fiberTable {
			if f := vf.Func(name); f != nil {
				P.models[target] = f
			} else {
				return nil, fmt.Errorf("vfiber.%s missing", name)
			}
		}
	}
	for _, pkg := range hpkgs {
		P.buildPkg(P.harness[pkg])
	}
	return P, nil
}

func (P *Program) buildPkg(p *ssa.Package) {
	if _, ok := P.built.Load(p); ok {
		return
	}
	P.bmu.Lock()
	defer P.bmu.Unlock()
	p.Build()
	P.built.Store(p, true)
}
