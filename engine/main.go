package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine run|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		devRun(os.Args[2:])
	case "check":
		checkMain(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func devRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	harness := fs.String("harness", "/verif/harness", "")
	params := fs.String("p", "", "a=1,b=2")
	pins := fs.String("pin", "", "a=1")
	order := fs.String("order", "ins", "")
	solver := fs.String("solver", "z3-new", "")
	to := fs.Duration("t", 5*time.Minute, "")
	nm := fs.Bool("nm", false, "no merging")
	prop := fs.String("prop", "", "property")
	prof := fs.String("prof", "", "")
	fs.Parse(args)
	kv := func(s string) map[string]int {
		m := map[string]int{}
		for _, f := range strings.Split(s, ",") {
			k, v, ok := strings.Cut(f, "=")
			if ok {
				n, _ := strconv.Atoi(v)
				m[k] = n
			}
		}
		return m
	}
	t0 := time.Now()
	pats := map[string]bool{}
	for _, h := range fs.Args() {
		pk, _, _ := strings.Cut(h, ".")
		pats["./zz_verif/"+pk] = true
	}
	var pl []string
	for p := range pats {
		pl = append(pl, p)
	}
	P, err := loadProgram(*repo, *harness, pl, nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %.2fs\n", time.Since(t0).Seconds())
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	for _, h := range fs.Args() {
		r := runJob(P, &Job{Harness: h, Params: kv(*params), Pins: kv(*pins), Order: *order, Solver: *solver, NoMerge: *nm, Prop: *prop, Timeout: *to})
		printResult(r)
	}
}

func printResult(r *Result) {
	fmt.Printf("%s complete=%v err=%q ends=%d steps=%d forks=%d merges=%d(-%d) queries=%d(sat %d unsat %d unk %d hit %d fd %d) solver=%.2fs max=%.2fs wall=%.2fs\n",
		r.Job.Harness, r.Complete, r.Err, r.Ends, r.Steps, r.Forks, r.Merges, r.Merged, r.Queries, r.Sat, r.Unsat, r.Unknown, r.Hits, r.FD, r.SolverTime.Seconds(), r.MaxQuery.Seconds(), r.Wall.Seconds())
	var ls []string
	for l, s := range r.Asserts {
		ls = append(ls, fmt.Sprintf("   assert %-40s proved %d refuted %d unknown %d", l, s.Proved, s.Refuted, s.Unknown))
	}
	for l, n := range r.Reach {
		ls = append(ls, fmt.Sprintf("   reach  %-40s %d", l, n))
	}
	for l, n := range r.Aborts {
		ls = append(ls, fmt.Sprintf("   abort  %-40s %d", l, n))
	}
	for l, n := range r.Incon {
		ls = append(ls, fmt.Sprintf("   incon  %-40s %d", l, n))
	}
	sort.Strings(ls)
	for _, l := range ls {
		fmt.Println(l)
	}
	for _, c := range r.Cands {
		fmt.Printf("   CAND %s %s %s %s\n", c.Kind, c.Label, c.Msg, showModel(c.Model))
	}
}

func showModel(m map[string]uint64) string {
	strs := map[string]map[int]byte{}
	var out []string
	for k, v := range m {
		if i := strings.IndexByte(k, '['); i > 0 {
			n, _ := strconv.Atoi(k[i+1 : len(k)-1])
			if strs[k[:i]] == nil {
				strs[k[:i]] = map[int]byte{}
			}
			strs[k[:i]][n] = byte(v)
			continue
		}
		out = append(out, fmt.Sprintf("%s=%d", k, v))
	}
	for k, bs := range strs {
		var idx []int
		for i := range bs {
			idx = append(idx, i)
		}
		sort.Ints(idx)
		var b []byte
		for _, i := range idx {
			b = append(b, bs[i])
		}
		out = append(out, fmt.Sprintf("%s=%q", k, b))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}
