package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// A plan is the list of jobs that decide one property at one tier.
type plan struct {
	prop  string
	quick []spec
	deep  []spec // in addition to the quick ones
	// js: the code only exists for the browser
	js bool
}

// spec describes jobs: one per combination of orders and pinned values.
type spec struct {
	h      string // harness
	p      string // parameters
	split  string // "op0:8,par0:3": one job per value of these inputs
	orders string // map iteration orders: ins, rev, all
	merge  bool
	soft   bool
	t      int // seconds
}

func kvs(s string) map[string]int {
	m := map[string]int{}
	for _, f := range strings.Split(s, ",") {
		if k, v, ok := strings.Cut(f, "="); ok {
			n, err := strconv.Atoi(v)
			if err != nil {
				panic("bad parameter " + f)
			}
			m[k] = n
		}
	}
	return m
}

func (s *spec) jobs(prop string) []*Job {
	pins := []map[string]int{{}}
	for _, f := range strings.Split(s.split, ",") {
		k, v, ok := strings.Cut(f, ":")
		if !ok {
			continue
		}
		n, _ := strconv.Atoi(v)
		lo := 0
		if a, b, ok := strings.Cut(v, "-"); ok {
			lo, _ = strconv.Atoi(a)
			n, _ = strconv.Atoi(b)
			n++
		}
		var next []map[string]int
		for _, p := range pins {
			for i := lo; i < n; i++ {
				q := map[string]int{k: i}
				for a, b := range p {
					q[a] = b
				}
				next = append(next, q)
			}
		}
		pins = next
	}
	orders := []string{"ins"}
	if s.orders != "" {
		orders = strings.Split(s.orders, ",")
	}
	t := s.t
	if t == 0 {
		t = 200
	}
	var out []*Job
	for _, o := range orders {
		for _, p := range pins {
			out = append(out, &Job{Harness: s.h, Params: kvs(s.p), Pins: p, Order: o, Soft: s.soft, NoMerge: !s.merge, Timeout: time.Duration(t) * time.Second, Prop: prop})
		}
	}
	return out
}

type known struct{ prop, label, harness string }

// knownFindings reads the committed list: "known: property=ID harness=H label=TEXT" lines suppress, others do not.
func knownFindings(file string) []known {
	b, _ := os.ReadFile(file)
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l, ok := strings.CutPrefix(l, "known: property=")
		if !ok {
			continue
		}
		p, l, _ := strings.Cut(l, " harness=")
		h, lab, _ := strings.Cut(l, " label=")
		out = append(out, known{p, lab, h})
	}
	return out
}

type violation struct {
	Property string
	Harness  string
	Order    string
	What     string
	Kind     string
	Model    assignment
	Inputs   string
	Output   string
	Runs     int // native runs until it showed
}

func checkMain(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	root := fs.String("root", "/verif", "")
	tier := fs.String("tier", "quick", "")
	solver := fs.String("solver", "z3-new", "")
	budget := fs.Duration("budget", 0, "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	prop := fs.Arg(0)
	var pl *plan
	for i := range plans {
		if plans[i].prop == prop {
			pl = &plans[i]
		}
	}
	if pl == nil {
		fmt.Println("no plan for", prop)
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(13 << 30)
	go guardWatch()
	t0 := time.Now()
	if *budget == 0 {
		*budget = 420 * time.Second
		if *tier == "thorough" {
			*budget = 780 * time.Second
		}
	}
	end := t0.Add(*budget)
	specs := pl.quick
	if *tier == "thorough" {
		specs = append(append([]spec{}, pl.quick...), pl.deep...)
	}
	harness := filepath.Join(*root, "harness")
	pats := map[string]bool{}
	hs := map[string]bool{}
	var jobs []*Job
	for i := range specs {
		pk, _, _ := strings.Cut(specs[i].h, ".")
		pats["./zz_verif/"+pk] = true
		hs[specs[i].h] = true
		jobs = append(jobs, specs[i].jobs(prop)...)
	}
	var pl2, funcs []string
	for p := range pats {
		pl2 = append(pl2, p)
	}
	for h := range hs {
		funcs = append(funcs, h)
	}
	sort.Strings(pl2)
	sort.Strings(funcs)
	var env []string
	if pl.js {
		env = []string{"GOOS=js", "GOARCH=wasm"}
	}
	// the native runner is built while the exploration runs
	fsModel := strings.HasPrefix(prop, "P")
	nativeCh := make(chan *nativeRun, 1)
	go func() { nativeCh <- buildNative(*repo, harness, funcs, fsModel) }()
	P, err := loadProgram(*repo, harness, pl2, env)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	loadTime := time.Since(t0)

	// run the jobs
	results := make([]*Result, len(jobs))
	var mu sync.Mutex
	next := 0
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(jobs) {
					return
				}
				j := jobs[i]
				stop := guardEnter()
				left := time.Until(end)
				if left < 2*time.Second {
					results[i] = &Result{Job: j, Err: "not started: the time budget of the check was used up"}
					guardLeave(stop)
					continue
				}
				j.Timeout = min(j.Timeout, left)
				j.Solver = *solver
				j.Samples = max(3, 60/len(jobs))
				j.Stop = stop
				results[i] = runJob(P, j)
				guardLeave(stop)
				if *verbose {
					mu.Lock()
					fmt.Println(j.Params, j.Pins, j.Order)
					printResult(results[i])
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	explored := time.Since(t0)
	native := <-nativeCh
	defer native.close()
	if native.err != nil {
		fmt.Println(native.err)
		native.close()
		os.Exit(2)
	}
	kn := knownFindings(filepath.Join(*root, "known_findings.txt"))

	// replay candidates
	var viols []violation
	knownHit := map[string]bool{}
	seen := map[string]int{}
	var unconfirmed []string
	nativeRuns, confirmed := 0, 0
	for _, r := range results {
		for _, c := range r.Cands {
			key := r.Job.Harness + "|" + c.Label + "|" + c.Kind
			if seen[key] >= 3 || nativeRuns > 4000 {
				continue
			}
			a := r.Job.assignment(c.Model)
			tries := 40
			if r.Job.Order != "ins" {
				tries = 300
			}
			to := 10 * time.Second
			if c.Kind == "hang" {
				tries = 1
			}
			ok := false
			var last nativeResult
			for t := 0; t < tries; t++ {
				last = native.run(a, to)
				nativeRuns++
				what := last.violates()
				if what == "" {
					continue
				}
				if last.Code == -1 {
					// slow is not endless: once more with more time
					last = native.run(a, 60*time.Second)
					if what = last.violates(); what == "" {
						break
					}
				}
				ok = true
				seen[key]++
				confirmed++
				if k := matchKnown(kn, prop, r.Job.Harness, what); k != "" {
					knownHit[k] = true
					break
				}
				viols = append(viols, violation{prop, r.Job.Harness, r.Job.Order, what, c.Kind, a, showModel(c.Model), last.Out, t + 1})
				break
			}
			if !ok {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s %s %s: %s (%s) [native exit %d]", r.Job.Harness, c.Kind, c.Label, c.Msg, showModel(c.Model), last.Code))
			}
		}
	}
	// follow sampled paths natively: the encoding must agree with the compiled code
	agreed, disagreed := 0, []string{}
	var samples []any
	for _, r := range results {
		for _, m := range r.Samples {
			if agreed >= 60 || time.Since(t0) > *budget+60*time.Second {
				break
			}
			a := r.Job.assignment(m)
			nr := native.run(a, 20*time.Second)
			nativeRuns++
			if what := nr.violates(); what != "" {
				if k := matchKnown(kn, prop, r.Job.Harness, what); k != "" {
					knownHit[k] = true
				} else {
					viols = append(viols, violation{prop, r.Job.Harness, r.Job.Order, what, "path", a, showModel(m), nr.Out, 1})
				}
			} else if nr.Code != 0 {
				disagreed = append(disagreed, fmt.Sprintf("%s: native exit %d for %s", r.Job.Harness, nr.Code, showModel(m)))
			} else {
				agreed++
			}
			if len(samples) < 8 {
				samples = append(samples, map[string]any{"harness": r.Job.Harness, "params": r.Job.Params, "inputs": showModel(m), "reached": nr.Reached})
			}
		}
	}

	// evidence
	ev := buildEvidence(prop, *tier, results, loadTime, explored)
	cov := ev["coverage"].(map[string]any)
	cov["traces_validated_against_impl"] = agreed
	cov["encoding_disagreements"] = disagreed
	cov["candidates_confirmed"] = confirmed
	cov["candidates_not_reproduced"] = unconfirmed
	cov["samples"] = samples
	cov["native_runs"] = nativeRuns
	ev["violations"] = len(viols)
	ev["wall_s"] = time.Since(t0).Seconds()
	os.MkdirAll(filepath.Join(*root, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*root, "evidence", prop+".json"), b, 0644); err != nil {
		fmt.Println(err)
	}
	for k := range knownHit {
		fmt.Println("KNOWN-FINDING: property=" + prop + " " + k)
	}
	status := 0
	for i, v := range viols {
		dir := filepath.Join(*root, "out", prop)
		os.MkdirAll(dir, 0755)
		f := filepath.Join(dir, fmt.Sprintf("violation-%d.json", i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, b, 0644)
		if i < 5 {
			fmt.Printf("  %s: %s with %s\n", v.Harness, v.What, v.Inputs)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		}
		status = 1
	}
	for _, u := range unconfirmed {
		fmt.Println("not reproduced:", u)
	}
	for _, u := range disagreed {
		fmt.Println("encoding and code disagree:", u)
	}
	asserts := 0
	for _, r := range results {
		for _, s := range r.Asserts {
			asserts += s.Proved + s.Refuted + s.Unknown
		}
		if r.Err != "" && *verbose {
			fmt.Println("job error:", r.Job.Harness, r.Err)
		}
	}
	fmt.Printf("%s %s: %d jobs, %d paths, %d assertions, %d queries, %.1fs; native runs %d, %.1fs in all\n", prop, *tier, len(jobs), cov["states"], asserts, cov["queries"], explored.Seconds(), nativeRuns, time.Since(t0).Seconds())
	if status == 0 && (asserts == 0 || len(cov["reach"].(map[string]int)) == 0) {
		for _, r := range results {
			if r.Err != "" {
				fmt.Println("job error:", r.Job.Harness, r.Err)
			}
			for a := range r.Aborts {
				fmt.Println("cut:", a)
			}
		}
		fmt.Println("nothing was decided")
		native.close()
		os.Exit(2)
	}
	native.close()
	os.Exit(status)
}

func matchKnown(kn []known, prop, harness, what string) string {
	for _, k := range kn {
		if k.prop == prop && k.harness == harness && strings.HasPrefix(what, k.label) {
			return k.harness + " " + k.label
		}
	}
	return ""
}

func buildEvidence(prop, tier string, rs []*Result, load, explored time.Duration) map[string]any {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{}
	funcs := map[string]bool{}
	reach := map[string]int{}
	asserts := map[string]*AssertStat{}
	notes := map[string]int{}
	var bounds []any
	var steps, states, forks, merges, q, sat, unsat, unk, hits, incomplete, complete int
	var st, mx time.Duration
	for _, r := range rs {
		for _, f := range r.Funcs {
			funcs[f] = true
		}
		for k, v := range r.Reach {
			reach[k] += v
		}
		for k, v := range r.Asserts {
			s := asserts[k]
			if s == nil {
				s = &AssertStat{}
				asserts[k] = s
			}
			s.Proved += v.Proved
			s.Refuted += v.Refuted
			s.Unknown += v.Unknown
		}
		for k, v := range r.Aborts {
			notes["path cut: "+k] += v
		}
		for k, v := range r.Incon {
			notes["inconclusive: "+k] += v
		}
		if r.Err != "" {
			notes["job not run: "+r.Err]++
		}
		b := map[string]any{"harness": r.Job.Harness, "params": r.Job.Params, "pinned": r.Job.Pins, "map_order": r.Job.Order, "complete": r.Complete, "paths": r.Ends, "wall_s": r.Wall.Seconds()}
		if r.Complete {
			complete++
		} else {
			incomplete++
		}
		if len(bounds) < 400 {
			bounds = append(bounds, b)
		}
		steps += r.Steps
		states += r.Ends + r.Merged
		forks += r.Forks
		merges += r.Merged
		q += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unknown
		hits += r.Hits
		st += r.SolverTime
		mx = max(mx, r.MaxQuery)
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov["states"] = states
	cov["transitions"] = steps
	cov["forks"] = forks
	cov["merged_states"] = merges
	cov["queries"] = q
	cov["queries_sat"] = sat
	cov["queries_unsat"] = unsat
	cov["queries_unknown"] = unk
	cov["queries_answered_from_cache"] = hits
	cov["solver_s"] = st.Seconds()
	cov["slowest_query_s"] = mx.Seconds()
	cov["functions_encoded"] = fl
	cov["assertions"] = asserts
	cov["reach"] = reach
	cov["bounds"] = bounds
	cov["jobs_complete"] = complete
	cov["jobs_incomplete"] = incomplete
	cov["notes"] = notes
	cov["load_s"] = load.Seconds()
	cov["explore_s"] = explored.Seconds()
	return map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"holds within the bounds listed per job only: sizes, lengths, number of operations",
			"the standard library functions listed in DESIGN.md are modelled, the rest is executed from source",
			"an incomplete job explored part of its bound only",
		}}
}
