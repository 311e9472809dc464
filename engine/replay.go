package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// replayer compiles the harness natively and runs concrete inputs through it.
type replayer struct {
	verif, repo, scratch string
	g                    *Group
	ov                   map[string]string
	mu                   sync.Mutex
	bins                 map[string]*binary
}

type binary struct {
	once sync.Once
	path string
	err  error
	out  string
}

func (r *replayer) prebuild() {
	for _, u := range r.g.Units {
		if !u.Race && (*flagUnit == "" || *flagUnit == u.Name) {
			go r.build(u.Synctest, false)
			return
		}
	}
}

func (r *replayer) build(synctest, race bool) *binary {
	key := fmt.Sprintf("s%v-r%v", synctest, race)
	r.mu.Lock()
	if r.bins == nil {
		r.bins = map[string]*binary{}
	}
	b := r.bins[key]
	if b == nil {
		b = &binary{}
		r.bins[key] = b
	}
	r.mu.Unlock()
	b.once.Do(func() {
		name := filepath.Base(r.g.Pkg)
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"os\"\n\t\"testing\"\n", name)
		if synctest {
			sb.WriteString("\t\"testing/synctest\"\n")
		}
		fmt.Fprintf(&sb, "\n\tvsym %q\n)\n\n", vsymPkg)
		sb.WriteString("var verifEntries = map[string]func(){\n")
		seen := map[string]bool{}
		for _, u := range r.g.Units {
			if seen[u.Entry] {
				continue
			}
			seen[u.Entry] = true
			fmt.Fprintf(&sb, "\t%q: %s,\n", u.Entry, u.Entry)
		}
		sb.WriteString("}\n\nfunc TestVerifReplay(t *testing.T) {\n\twrap := func(f func()) { f() }\n")
		if synctest {
			sb.WriteString("\twrap = synctest.Run\n")
		}
		sb.WriteString("\tvsym.RunReplay(os.Getenv(\"VSYM_REPLAY\"), wrap, verifEntries[os.Getenv(\"VSYM_ENTRY\")])\n}\n")
		stem := strings.TrimSuffix(filepath.Base(r.g.Files[0]), ".go")
		gen := filepath.Join(r.scratch, "replay_"+name+stem+key+"_test.go")
		os.WriteFile(gen, []byte(sb.String()), 0o644)
		rep := map[string]string{}
		for k, v := range r.ov {
			rep[k] = v
		}
		rep[filepath.Join(r.repo, r.g.Pkg, "zz_verif_replay_test.go")] = gen
		ob, _ := json.Marshal(map[string]any{"Replace": rep})
		ovf := filepath.Join(r.scratch, "overlay_"+name+stem+key+".json")
		os.WriteFile(ovf, ob, 0o644)
		b.path = filepath.Join(r.scratch, "replay_"+name+stem+key+".bin")
		args := []string{"test", "-c", "-vet=off", "-overlay", ovf, "-o", b.path}
		if race {
			args = append(args, "-race")
		}
		if r.g.ModFile != "" {
			args = append(args, "-modfile="+r.g.ModFile)
		}
		args = append(args, "./"+r.g.Pkg)
		cmd := exec.Command("/opt/veriftools/go1.24.13/bin/go", args...)
		cmd.Dir = r.repo
		cmd.Env = repoEnv(true)
		if synctest {
			cmd.Env = append(cmd.Env, "GOEXPERIMENT=synctest")
		}
		out, err := cmd.CombinedOutput()
		b.out, b.err = string(out), err
		if err != nil {
			fmt.Printf("NATIVE-BUILD-FAILED %s: %v\n%s\n", r.g.Pkg, err, indent(string(out)))
		}
	})
	return b
}

func (r *replayer) run(u *Unit, cases []map[string]any, params map[string]int, race bool) (string, error) {
	b := r.build(u.Synctest, race)
	if b.err != nil {
		return b.out, b.err
	}
	dir, err := os.MkdirTemp(r.scratch, "run-")
	if err != nil {
		return "", err
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "in.json")
	ib, _ := json.Marshal(cases)
	os.WriteFile(f, ib, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, b.path, "-test.run", "^TestVerifReplay$", "-test.timeout", "50s", "-test.v")
	cmd.Dir = dir
	env := []string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir, "VSYM_REPLAY=" + f, "VSYM_ENTRY=" + u.Entry}
	if *flagV {
		env = append(env, "VSYM_VERBOSE=1")
	}
	for k, v := range params {
		env = append(env, fmt.Sprintf("VSYM_PARAM_%s=%d", k, v))
	}
	cmd.Env = env
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	err = cmd.Run()
	return buf.String(), err
}

// reproduce replays one counterexample natively.
func (r *replayer) reproduce(u *Unit, v *Violation, params map[string]int, path string) (bool, string) {
	race := v.Kind == "race"
	tries := 1
	if race || u.Race {
		tries = 10
	}
	if len(v.Schedule) > 0 {
		tries = 5
	}
	var out string
	for i := 0; i < tries; i++ {
		out, _ = r.run(u, []map[string]any{{"Inputs": v.Inputs}}, params, race)
		switch v.Kind {
		case "assert":
			if strings.Contains(out, "VSYM-FAILED "+v.Label+"\n") {
				return true, out
			}
		case "panic":
			if strings.Contains(out, "VSYM-FAILED panic") || strings.Contains(out, "\npanic: ") || strings.HasPrefix(out, "panic: ") {
				return true, out
			}
		case "deadlock":
			if strings.Contains(out, "VSYM-FAILED "+v.Label+"\n") || strings.Contains(out, "test timed out") || strings.Contains(out, "all goroutines are asleep") || strings.Contains(out, "deadlock") || !strings.Contains(out, "VSYM-END") {
				return true, out
			}
		case "race":
			if strings.Contains(out, "DATA RACE") {
				return true, out
			}
		}
	}
	if len(out) > 6000 {
		out = out[:3000] + "\n...\n" + out[len(out)-3000:]
	}
	return false, out
}

// validate runs sampled paths natively and compares observations.
func (r *replayer) validate(u *Unit, samples []Sample, params map[string]int) (int, []string) {
	var cases []map[string]any
	for _, s := range samples {
		obs := s.Observe
		if obs == nil {
			obs = []string{}
		}
		cases = append(cases, map[string]any{"Inputs": s.Inputs, "Observe": obs})
	}
	out, err := r.run(u, cases, params, false)
	n := 0
	var bad []string
	ended := 0
	for _, l := range strings.Split(out, "\n") {
		switch {
		case strings.HasPrefix(l, "VSYM-END "):
			ended++
			f := strings.Fields(l)
			if len(f) > 3 && f[3] == "same" && (f[2] == "ok" || f[2] == "stop:assume") {
				n++
			} else {
				bad = append(bad, l)
			}
		case strings.HasPrefix(l, "VSYM-DIFF "), strings.HasPrefix(l, "VSYM-FAILED "):
			if len(l) > 800 {
				l = l[:800]
			}
			bad = append(bad, l)
		}
	}
	if ended < len(cases) {
		msg := fmt.Sprintf("native run ended early after %d of %d: %v", ended, len(cases), err)
		if *flagV {
			msg += "\n" + out
		}
		bad = append(bad, msg)
	}
	return n, bad
}
