package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Hook asks for a function outside the code under test to be interceptable: an
// overlay copy of its source file starts the function with
//
//	if VerifHook_F != nil { return VerifHook_F(args) }
//
// so the same stand-in runs symbolically and in the native replay.
type Hook struct{ Pkg, Fn string }

type edit struct {
	pos  int
	text string
}

var (
	hookPkgCache = map[string][]string{}
	hookPkgMod   = map[string][]string{}
)

const modCache = "/root/go/pkg/mod/"

// modReplace copies a third-party module to a scratch directory where it can
// be edited; the copy takes its place through -modfile.
func (g *Group) modReplace(repo, scratch, path, dir string) (string, error) {
	if d, ok := g.Mods[path]; ok {
		return d, nil
	}
	dst := filepath.Join(scratch, "mods", fmt.Sprintf("%s-%d", filepath.Base(g.Files[0]), len(g.Mods)))
	if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
		return "", err
	}
	if out, err := exec.Command("cp", "-r", dir, dst).CombinedOutput(); err != nil {
		return "", fmt.Errorf("cp: %s", out)
	}
	if out, err := exec.Command("chmod", "-R", "u+w", dst).CombinedOutput(); err != nil {
		return "", fmt.Errorf("chmod: %s", out)
	}
	if g.Mods == nil {
		g.Mods = map[string]string{}
	}
	g.Mods[path] = dst
	g.ModFile = filepath.Join(scratch, filepath.Base(g.Files[0])+".mod")
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	for _, k := range sortedKeys(g.Mods) {
		b = append(b, fmt.Sprintf("\nreplace %s => %s\n", k, g.Mods[k])...)
	}
	if err := os.WriteFile(g.ModFile, b, 0o644); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return "", err
	}
	return dst, os.WriteFile(strings.TrimSuffix(g.ModFile, ".mod")+".sum", sum, 0o644)
}

func pkgGoFiles(repo, pkg string) ([]string, error) {
	if f, ok := hookPkgCache[pkg]; ok {
		return f, nil
	}
	cmd := exec.Command("/opt/veriftools/go1.24.13/bin/go", "list", "-f", "{{.Dir}} {{with .Module}}{{.Path}},{{.Dir}}{{else}},{{end}}{{range .GoFiles}} {{.}}{{end}}", pkg)
	cmd.Dir = repo
	cmd.Env = repoEnv(true)
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list %s: %v", pkg, err)
	}
	f := strings.Fields(string(out))
	var files []string
	hookPkgMod[pkg] = strings.SplitN(f[1], ",", 2)
	for _, x := range f[2:] {
		files = append(files, filepath.Join(f[0], x))
	}
	hookPkgCache[pkg] = files
	return files, nil
}

func hookName(fn string) string {
	return "VerifHook_" + strings.NewReplacer("(", "", ")", "", "*", "", ".", "_").Replace(fn)
}

func (g *Group) addHooks(repo, scratch string, ov map[string]string) error {
	hooks := g.Hooks
	byPkg := map[string][]Hook{}
	for _, h := range hooks {
		byPkg[h.Pkg] = append(byPkg[h.Pkg], h)
	}
	for _, pkg := range sortedKeys(byPkg) {
		files, err := pkgGoFiles(repo, pkg)
		if err != nil {
			return err
		}
		want := map[string]bool{}
		for _, h := range byPkg[pkg] {
			want[h.Fn] = true
		}
		for _, f := range files {
			src, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			if mod := hookPkgMod[pkg]; strings.HasPrefix(f, modCache) && g.Mods[mod[0]] != "" {
				rel, _ := filepath.Rel(mod[1], f)
				if src, err = os.ReadFile(filepath.Join(g.Mods[mod[0]], rel)); err != nil {
					return err
				}
			}
			if p, ok := ov[f]; ok {
				if src, err = os.ReadFile(p); err != nil {
					return err
				}
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				return err
			}
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			var edits []edit
			tail := ""
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				key := fd.Name.Name
				recvT := ""
				if fd.Recv != nil {
					recvT = txt(fd.Recv.List[0].Type)
					key = "(" + recvT + ")." + key
				}
				if !want[key] {
					continue
				}
				delete(want, key)
				var ptypes, args []string
				n := 0
				field := func(fl *ast.Field) {
					t := txt(fl.Type)
					if len(fl.Names) == 0 {
						nm := fmt.Sprintf("verifP%d", n)
						n++
						edits = append(edits, edit{off(fl.Type.Pos()), nm + " "})
						ptypes = append(ptypes, t)
						args = append(args, nm)
						return
					}
					for _, id := range fl.Names {
						nm := id.Name
						if nm == "_" {
							nm = fmt.Sprintf("verifP%d", n)
							edits = append(edits, edit{off(id.Pos()), nm + "\x00"})
						}
						n++
						ptypes = append(ptypes, t)
						args = append(args, nm)
					}
				}
				if fd.Recv != nil {
					field(fd.Recv.List[0])
				}
				for _, fl := range fd.Type.Params.List {
					field(fl)
				}
				call := args
				if k := len(ptypes); k > 0 && strings.HasPrefix(ptypes[k-1], "...") {
					call = append(append([]string(nil), args[:k-1]...), args[k-1]+"...")
				}
				res := ""
				hasRes := false
				if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
					hasRes = true
					var rs []string
					for _, fl := range fd.Type.Results.List {
						k := len(fl.Names)
						if k == 0 {
							k = 1
						}
						for i := 0; i < k; i++ {
							rs = append(rs, txt(fl.Type))
						}
					}
					res = " (" + strings.Join(rs, ", ") + ")"
				}
				hn := hookName(key)
				tail += fmt.Sprintf("\nvar %s func(%s)%s\n", hn, strings.Join(ptypes, ", "), res)
				body := fmt.Sprintf(" if %s != nil { return %s(%s) }; ", hn, hn, strings.Join(call, ", "))
				if !hasRes {
					body = fmt.Sprintf(" if %s != nil { %s(%s); return }; ", hn, hn, strings.Join(call, ", "))
				}
				edits = append(edits, edit{off(fd.Body.Lbrace) + 1, body})
			}
			if tail == "" {
				continue
			}
			sort.SliceStable(edits, func(i, j int) bool { return edits[i].pos > edits[j].pos })
			out := string(src)
			for _, e := range edits {
				if t, ok := strings.CutSuffix(e.text, "\x00"); ok {
					out = out[:e.pos] + t + out[e.pos+1:]
				} else {
					out = out[:e.pos] + e.text + out[e.pos:]
				}
			}
			out += tail
			if mod := hookPkgMod[pkg]; strings.HasPrefix(f, modCache) {
				dir, err := g.modReplace(repo, scratch, mod[0], mod[1])
				if err != nil {
					return err
				}
				rel, _ := filepath.Rel(mod[1], f)
				if err := os.WriteFile(filepath.Join(dir, rel), []byte(out), 0o644); err != nil {
					return err
				}
				continue
			}
			dst := filepath.Join(scratch, "hook_"+strings.NewReplacer("/", "_", ".", "_").Replace(pkg)+"_"+filepath.Base(f))
			if err := os.WriteFile(dst, []byte(out), 0o644); err != nil {
				return err
			}
			ov[f] = dst
		}
		for k := range want {
			return fmt.Errorf("hook target %s %s not found", pkg, k)
		}
	}
	return nil
}
