package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Native replay: the harness packages are compiled with the real code by the Go compiler, and run with the
// solver's assignment. Only what fails there is reported.

type nativeRun struct {
	dir string
	bin string
	env []string // node for wasm
	err error
}

// buildNative compiles a runner for the given harness functions.
func buildNative(repo, harness string, funcs []string, fsModel bool) *nativeRun {
	n := &nativeRun{}
	dir, err := os.MkdirTemp("", "vfnative")
	if err != nil {
		n.err = err
		return n
	}
	n.dir = dir
	files, err := overlayFiles(repo, harness)
	if err != nil {
		n.err = err
		return n
	}
	pkgs := map[string]bool{}
	for _, f := range funcs {
		pk, _, _ := strings.Cut(f, ".")
		pkgs[pk] = true
	}
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n")
	var ps []string
	for p := range pkgs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		fmt.Fprintf(&b, "\th_%s %q\n", p, modPath+"/zz_verif/"+p)
	}
	b.WriteString(")\n\nfunc main() {\n\tswitch os.Getenv(\"VF_HARNESS\") {\n")
	for _, f := range funcs {
		pk, fn, _ := strings.Cut(f, ".")
		fmt.Fprintf(&b, "\tcase %q:\n\t\th_%s.%s()\n", f, pk, fn)
	}
	b.WriteString("\tdefault:\n\t\tos.Exit(9)\n\t}\n\tfmt.Println(\"VF-END\")\n}\n")
	main := filepath.Join(dir, "main.go")
	if n.err = os.WriteFile(main, []byte(b.String()), 0644); n.err != nil {
		return n
	}
	files[filepath.Join(repo, "zz_verif", "run", "main.go")] = main
	pf, err := programFiles(repo)
	if err != nil {
		n.err = err
		return n
	}
	for dst, s := range pf {
		f := filepath.Join(dir, filepath.Base(filepath.Dir(dst))+"_"+filepath.Base(dst))
		if n.err = os.WriteFile(f, []byte(s), 0644); n.err != nil {
			return n
		}
		files[dst] = f
	}
	if fsModel {
		// the persistence code runs against the recording file system instead of the real one
		if n.err = redirectOS(repo, dir, files); n.err != nil {
			return n
		}
	}
	ov, _ := json.Marshal(map[string]any{"Replace": files})
	ovf := filepath.Join(dir, "overlay.json")
	if n.err = os.WriteFile(ovf, ov, 0644); n.err != nil {
		return n
	}
	n.bin = filepath.Join(dir, "run")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", n.bin, "./zz_verif/run")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	if out, err := cmd.CombinedOutput(); err != nil {
		n.err = fmt.Errorf("building the replay: %v: %s", err, tail(string(out), 800))
	}
	return n
}

// redirectOS makes pkg/persistence use the model file system of package vf.
func redirectOS(repo, dir string, files map[string]string) error {
	ms, err := filepath.Glob(filepath.Join(repo, "pkg", "persistence", "*.go"))
	if err != nil {
		return err
	}
	for _, m := range ms {
		if strings.HasSuffix(m, "_test.go") {
			continue
		}
		b, err := os.ReadFile(m)
		if err != nil {
			return err
		}
		s := strings.ReplaceAll(string(b), "\"os\"", "os \""+modPath+"/zz_verif/vfos\"")
		s = strings.ReplaceAll(s, "\"path/filepath\"", "filepath \""+modPath+"/zz_verif/vfpath\"")
		f := filepath.Join(dir, "fs_"+filepath.Base(m))
		if err := os.WriteFile(f, []byte(s), 0644); err != nil {
			return err
		}
		files[m] = f
	}
	return nil
}

func (n *nativeRun) close() {
	if n != nil && strings.HasPrefix(filepath.Base(n.dir), "vfnative") {
		os.RemoveAll(n.dir)
	}
}

type nativeResult struct {
	Code    int // exit code, -1 for a timeout
	Label   string
	Out     string
	Reached []string
}

type assignment struct {
	Harness string
	Prop    string
	Vars    map[string]uint64
	Params  map[string]int
}

func (j *Job) assignment(vars map[string]uint64) assignment {
	p := map[string]int{}
	for k, v := range j.Params {
		p[k] = v
	}
	for k, v := range j.Pins {
		p["="+k] = v
	}
	return assignment{j.Harness, j.Prop, vars, p}
}

func (n *nativeRun) run(a assignment, timeout time.Duration) nativeResult {
	b, _ := json.Marshal(a)
	f, err := os.CreateTemp(n.dir, "model*.json")
	if err != nil {
		return nativeResult{Code: -2, Out: err.Error()}
	}
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin)
	cmd.Dir = n.dir
	cmd.Env = append(os.Environ(), "VF_MODEL="+f.Name(), "VF_HARNESS="+a.Harness, "GOMEMLIMIT=2GiB", "GOTRACEBACK=single")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	r := nativeResult{Out: tail(out.String(), 2000)}
	if ctx.Err() != nil {
		r.Code = -1
		return r
	}
	if cmd.ProcessState != nil {
		r.Code = cmd.ProcessState.ExitCode()
	} else if err != nil {
		r.Code = -2
	}
	for _, l := range strings.Split(out.String(), "\n") {
		if s, ok := strings.CutPrefix(l, "VF-FAIL "); ok {
			r.Label = s
		}
		if s, ok := strings.CutPrefix(l, "VF-REACH "); ok {
			r.Reached = append(r.Reached, s)
		}
	}
	return r
}

// violates says what a native run shows, or "".
func (r *nativeResult) violates() string {
	switch r.Code {
	case 3:
		return r.Label
	case 2:
		return "crash: " + firstLine(r.Out, "panic:", "fatal error:")
	case -1:
		return "does not terminate"
	}
	return ""
}

func firstLine(s string, pre ...string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, p := range pre {
			if strings.HasPrefix(l, p) {
				return l
			}
		}
	}
	return ""
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
