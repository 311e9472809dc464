package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/c2FmZQ/tlsproxy"
const vsymPkg = modPath + "/proxy/internal/vsym"

// Unit is one symbolic run: an entry function with bounds.
type Unit struct {
	Name     string
	Entry    string
	Reach    []string
	Quick    map[string]int
	Thorough map[string]int
	Share    float64
	Synctest bool
	Race     bool
	Note     string
	Group    *Group
}

// Group is a harness file set compiled into one package of the repository.
type Group struct {
	Prop    string
	Pkg     string // directory relative to the repository
	Files   []string
	Units   []*Unit
	Assume  []string
	Hooks   []Hook
	Replace [][2]string
	Mods    map[string]string // third-party modules edited in a scratch copy
	ModFile string
	Embed   bool // fill in go:embed variables
}

// RunConfig is what the engine needs while running one unit.
type RunConfig struct {
	Params map[string]int
}

func parseHarness(verif, prop string) ([]*Group, error) {
	dir := filepath.Join(verif, "harness", prop)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var out []*Group
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		path := filepath.Join(dir, e.Name())
		b, err := os.ReadFile(path)
		if err != nil {
			return nil, err
		}
		g := &Group{Prop: prop, Files: []string{path}}
		lines := strings.Split(string(b), "\n")
		for i := 0; i < len(lines); i++ {
			line := lines[i]
			if !strings.HasPrefix(line, "//verif:") {
				continue
			}
			verb, rest, _ := strings.Cut(strings.TrimPrefix(line, "//verif:"), " ")
			rest = strings.TrimSpace(rest)
			switch verb {
			case "pkg":
				g.Pkg = rest
			case "use":
				f := filepath.Join(verif, "harness", "common", rest)
				if slices.Contains(g.Files, f) {
					continue
				}
				g.Files = append(g.Files, f)
				cb, err := os.ReadFile(f)
				if err != nil {
					return nil, err
				}
				lines = append(lines, strings.Split(string(cb), "\n")...)
			case "hook":
				p, fn, _ := strings.Cut(rest, " ")
				h := Hook{p, strings.TrimSpace(fn)}
				if !slices.Contains(g.Hooks, h) {
					g.Hooks = append(g.Hooks, h)
				}
			case "note":
			case "replace":
				k, v, _ := strings.Cut(rest, " ")
				g.Replace = append(g.Replace, [2]string{k, strings.TrimSpace(v)})
			case "embed":
				g.Embed = true
			case "assume":
				g.Assume = append(g.Assume, rest)
			case "unit":
				u := &Unit{Share: 1, Quick: map[string]int{}, Thorough: map[string]int{}, Group: g}
				for _, f := range strings.Fields(rest) {
					k, v, _ := strings.Cut(f, "=")
					switch {
					case k == "name":
						u.Name = v
					case k == "entry":
						u.Entry = v
					case k == "reach":
						u.Reach = strings.Split(v, ",")
					case k == "share":
						u.Share, _ = strconv.ParseFloat(v, 64)
					case k == "synctest":
						u.Synctest = true
					case k == "race":
						u.Race = true
					case strings.HasPrefix(k, "q."):
						u.Quick[k[2:]], _ = strconv.Atoi(v)
					case strings.HasPrefix(k, "t."):
						u.Thorough[k[2:]], _ = strconv.Atoi(v)
					default:
						return nil, fmt.Errorf("%s: bad unit field %q", path, f)
					}
				}
				for k, v := range u.Quick {
					if _, ok := u.Thorough[k]; !ok {
						u.Thorough[k] = v
					}
				}
				g.Units = append(g.Units, u)
			}
		}
		if g.Pkg == "" {
			return nil, fmt.Errorf("%s: no //verif:pkg", path)
		}
		out = append(out, g)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Files[0] < out[j].Files[0] })
	return out, nil
}

var pkgClause = regexp.MustCompile(`(?m)^package\s+\w+`)

// overlay maps virtual repository files to real ones.
func (g *Group) overlay(verif, repo, scratch string) (map[string]string, error) {
	ov := map[string]string{
		filepath.Join(repo, "proxy/internal/vsym/vsym.go"): filepath.Join(verif, "harness/vsym/vsym.go"),
	}
	name := filepath.Base(g.Pkg)
	for _, f := range g.Files {
		src := f
		if strings.Contains(f, "/harness/common/") {
			// common files take the target package's name
			b, _ := os.ReadFile(f)
			b = pkgClause.ReplaceAll(b, []byte("package "+name))
			src = filepath.Join(scratch, "common_"+name+"_"+filepath.Base(f))
			os.WriteFile(src, b, 0o644)
		}
		ov[filepath.Join(repo, g.Pkg, "zz_verif_"+strings.ToLower(g.Prop)+"_"+filepath.Base(f))] = src
	}
	for _, f := range []string{"pki.wasm.bz2", "wasm_exec.js"} {
		p := filepath.Join(repo, "proxy/internal/pki", f)
		if _, err := os.Stat(p); err != nil {
			d := filepath.Join(scratch, f)
			os.WriteFile(d, []byte("placeholder"), 0o644)
			ov[p] = d
		}
	}
	return ov, g.addHooks(repo, scratch, ov)
}

func repoEnv(cgo bool) []string {
	const root = "/opt/veriftools/go1.24.13"
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOROOT", "PATH", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "GOPATH", "GOMODCACHE", "GOCACHE", "GOWORK", "CGO_ENABLED", "GOOS", "GOARCH", "HOME", "GOEXPERIMENT":
			continue
		}
		env = append(env, e)
	}
	c := "0"
	if cgo {
		c = "1"
	}
	return append(env, "HOME=/root", "GOROOT="+root, "PATH="+root+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod",
		"GOCACHE=/root/.cache/go-build", "GOWORK=off", "CGO_ENABLED="+c)
}

func loadWorld(repo string, g *Group, ov map[string]string) (*World, []string, error) {
	overlay := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, nil, err
		}
		overlay[k] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Env:     repoEnv(false),
		Overlay: overlay,
	}
	// Without assembly, so that there is source to run.
	cfg.BuildFlags = []string{"-tags=purego,math_big_pure_go"}
	if g.ModFile != "" {
		cfg.BuildFlags = append(cfg.BuildFlags, "-modfile="+g.ModFile)
	}
	pats := []string{"./" + g.Pkg}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	if len(errs) > 0 {
		return nil, errs, fmt.Errorf("harness does not type-check against this tree")
	}
	prog.Build()
	w := &World{prog: prog, cfs: map[*ssa.Function]*cfunc{}, byPath: map[string]*ssa.Package{}, repo: repo,
		sizes: types.SizesFor("gc", "amd64"), cfg: &RunConfig{Params: map[string]int{}}}
	for _, p := range prog.AllPackages() {
		w.byPath[p.Pkg.Path()] = p
	}
	if g.Embed {
		w.embeds = embedded(pkgs)
	}
	w.replace = map[string]*ssa.Function{}
	for _, r := range g.Replace {
		f := w.byPath[modPath+"/"+g.Pkg].Func(r[1])
		if f == nil {
			return nil, nil, fmt.Errorf("replacement %s not found", r[1])
		}
		w.replace[r[0]] = f
	}
	return w, nil, nil
}

// embedded returns the content of the go:embed variables (strings and byte
// slices made of one file) of the given packages.
func embedded(pkgs []*packages.Package) map[string]string {
	out := map[string]string{}
	for _, p := range pkgs {
		for _, f := range p.Syntax {
			dir := filepath.Dir(p.Fset.Position(f.Pos()).Filename)
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, sp := range gd.Specs {
					vs := sp.(*ast.ValueSpec)
					doc := vs.Doc
					if doc == nil && len(gd.Specs) == 1 {
						doc = gd.Doc
					}
					if doc == nil || len(vs.Names) != 1 {
						continue
					}
					for _, c := range doc.List {
						fn, ok := strings.CutPrefix(c.Text, "//go:embed ")
						if !ok {
							continue
						}
						if b, err := os.ReadFile(filepath.Join(dir, strings.TrimSpace(fn))); err == nil {
							out[p.PkgPath+"."+vs.Names[0].Name] = string(b)
						}
					}
				}
			}
		}
	}
	return out
}
