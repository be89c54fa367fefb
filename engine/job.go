package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Job is one harness with one set of bounds.
type Job struct {
	Harness string // pkg.Func below zz_verif
	Params  map[string]int
	Pins    map[string]int
	Order   string
	Solver  string
	Soft    bool
	NoMerge bool
	Prop    string // only this property's assertions count; all when empty
	Samples int    // how many paths to keep a model of
	Timeout time.Duration
	Stop    *atomic.Bool // set by the memory guard
}

// Result is what a job established.
type Result struct {
	Job      *Job
	Cands    []*Candidate
	Asserts  map[string]*AssertStat
	Reach    map[string]int
	Aborts   map[string]int
	Incon    map[string]int
	Funcs    []string
	Complete bool
	Samples  []map[string]uint64 // assignments that follow one explored path each
	Err      string

	Steps, Forks, Merges, Merged, Ends     int
	Queries, Sat, Unsat, Unknown, Hits, FD int
	SolverTime, MaxQuery, Wall             time.Duration
}

func newExec(P *Program, j *Job) (*Exec, error) {
	c := newCtx()
	name := j.Solver
	if name == "" {
		name = "z3-new"
	}
	sol, err := newSolver(c, name, 20000)
	if err != nil {
		return nil, err
	}
	x := &Exec{c: c, sol: sol, P: P,
		szCache: map[types.Type]int{}, offCache: map[*types.Struct][]int{}, fns: map[*ssa.Function]*FnInfo{},
		globals: map[*ssa.Global]int{}, typeIDs: map[types.Type]int{}, fnIDs: map[*ssa.Function]int{},
		methods: map[methodKey]*ssa.Function{}, implC: map[implKey]bool{}, varsC: map[*Expr][]*Expr{}, qcache: map[string]qres{}, smtNo: map[string]qres{},
		order: j.Order, soft: j.Soft, prop: j.Prop, noMerge: j.NoMerge || noMerge, params: j.Params, pins: j.Pins, candN: map[string]int{}, asserts: map[string]*AssertStat{}, reach: map[string]int{},
		aborts: map[string]int{}, incon: map[string]int{}, used: map[*ssa.Function]bool{},
		maxPathSteps: 30_000_000, maxDepth: 900,
	}
	if os.Getenv("FORKS") != "" {
		x.forkAt = map[string]int{}
	}
	if x.order == "" {
		x.order = "ins"
	}
	return x, nil
}

func runJob(P *Program, j *Job) (res *Result) {
	t0 := time.Now()
	res = &Result{Job: j}
	x, err := newExec(P, j)
	if err != nil {
		res.Err = err.Error()
		return
	}
	defer x.sol.close()
	defer func() {
		var ks []string
		for k := range x.forkAt {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return x.forkAt[ks[i]] > x.forkAt[ks[j]] })
		for i := 0; i < 25 && i < len(ks); i++ {
			fmt.Println(x.forkAt[ks[i]], ks[i])
		}
	}()
	to := j.Timeout
	if to == 0 {
		to = 10 * time.Minute
	}
	x.deadline = t0.Add(to)
	x.stop = j.Stop
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(budgetErr); ok {
				x.incon["stopped: "+b.msg]++
			} else if u, ok := r.(unsupErr); ok {
				res.Err = u.msg
			} else if splitR, ok := r.(splitReq); ok {
				res.Err = "split outside a path: " + splitR.e.String()
			} else {
				panic(r)
			}
			res.Complete = false
		}
		res.Cands, res.Asserts, res.Reach, res.Aborts, res.Incon = x.cands, x.asserts, x.reach, x.aborts, x.incon
		for f := range x.used {
			n := P.name(f)
			if strings.Contains(n, modPath) && !strings.Contains(n, "zz_verif") {
				res.Funcs = append(res.Funcs, strings.ReplaceAll(n, modPath+"/", ""))
			}
		}
		sort.Strings(res.Funcs)
		res.Steps, res.Forks, res.Merges, res.Merged = x.Steps, x.Forks, x.Merges, x.MergedAway
		res.Queries, res.Sat, res.Unsat, res.Unknown, res.Hits, res.FD = x.sol.Queries, x.sol.Sat, x.sol.Unsat, x.sol.Unknown, x.CacheHits, x.FDQueries
		res.SolverTime, res.MaxQuery, res.Wall = x.sol.Time, x.sol.MaxQuery, time.Since(t0)
	}()
	pk, fnName, _ := strings.Cut(j.Harness, ".")
	pkg := P.pkgs[modPath+"/zz_verif/"+pk]
	if pkg == nil {
		res.Err = "no package " + pk
		return
	}
	fn := pkg.Func(fnName)
	if fn == nil {
		res.Err = "no harness " + j.Harness
		return
	}
	st := &State{next: 1, model: map[*Expr]uint64{}, doms: map[*Expr]bitset{}, rel: map[*Expr]bool{}}
	x.tokens = 1
	st.tok = 1
	st.chunks = []*chunk{{owner: 1}}
	x.newBase(st)
	// globals of initialised packages
	var pkgs []*ssa.Package
	for _, p := range P.prog.AllPackages() {
		pkgs = append(pkgs, p)
	}
	sort.Slice(pkgs, func(i, k int) bool { return pkgs[i].Pkg.Path() < pkgs[k].Pkg.Path() })
	for _, p := range pkgs {
		if !P.initOK(p.Pkg.Path()) {
			continue
		}
		var names []string
		for n, m := range p.Members {
			if _, ok := m.(*ssa.Global); ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			g := p.Members[n].(*ssa.Global)
			t := g.Type().Underlying().(*types.Pointer).Elem()
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupErr); !ok {
							panic(r)
						}
					}
				}()
				cells := x.zeroCells(t, make(Agg, 0, 1))
				x.globals[g] = st.alloc(&Obj{cells: cells})
			}()
		}
	}
	if p := P.pkgs["os"]; p != nil && !P.initOK("os") {
		for _, n := range []string{"Stdin", "Stdout", "Stderr"} {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				// streams are opaque; what is written to them is not looked at
				x.globals[g] = st.alloc(&Obj{cells: Agg{Ptr{st.alloc(&Obj{cells: Agg{}}), 0}}})
			}
		}
	}
	x.inInit = true
	outs := x.callFn(st, pkg.Func("init"), nil, nil, 0)
	x.inInit = false
	if len(outs) != 1 || outs[0].kind != kRet {
		res.Err = fmt.Sprintf("package initialisation failed: %v", x.aborts)
		if len(outs) == 1 && outs[0].pan != nil {
			res.Err += " " + outs[0].pan.msg
		}
		return
	}
	st = outs[0].st
	st.steps = 0
	x.newBase(st)
	x.used = map[*ssa.Function]bool{}
	res.Complete = true
	outs = x.callFn(st, fn, nil, nil, 1)
	every := 1
	if j.Samples > 0 && len(outs) > j.Samples {
		every = len(outs) / j.Samples
	}
	for i, o := range outs {
		if o.kind == kPanic {
			x.candidate(o.st, "no-crash", "panic", o.pan.msg, nil)
		} else if j.Samples > 0 && i%every == 0 && len(res.Samples) < j.Samples {
			m := o.st.model
			for v := range o.st.doms {
				if _, ok := m[v]; !ok {
					m = x.overlay(m, map[*Expr]uint64{v: uint64(o.st.dom(v).first())})
				}
			}
			if o.st.satisfies(m) {
				mod := map[string]uint64{}
				for v, val := range m {
					mod[v.name] = val
				}
				res.Samples = append(res.Samples, mod)
			}
		}
		res.Ends++
	}
	return
}

// concerns reports whether an assertion label ("W01,W03: text") belongs to the property.
func concerns(label, prop string) bool {
	owners, _, ok := strings.Cut(label, ": ")
	if prop == "" || !ok {
		return true
	}
	for _, o := range strings.Split(owners, ",") {
		if o == prop {
			return true
		}
	}
	return false
}

var noFD = os.Getenv("NOFD") != ""
