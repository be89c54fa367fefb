package main

import (
	"encoding/binary"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"slices"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Exec symbolically executes Go SSA for one job (one harness, one set of parameters).
type Exec struct {
	c   *Ctx
	sol *Solver
	P   *Program

	tokens   uint64
	szCache  map[types.Type]int
	offCache map[*types.Struct][]int
	fns      map[*ssa.Function]*FnInfo
	globals  map[*ssa.Global]int
	typeIDs  map[types.Type]int
	typeList []types.Type
	fnIDs    map[*ssa.Function]int
	methods  map[methodKey]*ssa.Function
	implC    map[implKey]bool
	varsC    map[*Expr][]*Expr
	qcache   map[string]qres
	smtNo    map[string]qres // questions the solver itself answered

	order    string // map iteration order: "ins", "rev", "all"
	params   map[string]int
	pins     map[string]int
	inInit   bool
	soft     bool
	noMerge  bool
	prop     string
	ordN     int
	deadline time.Time
	stop     *atomic.Bool

	Steps, Forks, Merges, MergedAway, CacheHits, FDQueries int
	Paths                                                  int
	maxPathSteps                                           int
	maxDepth                                               int

	cands   []*Candidate
	candN   map[string]int
	asserts map[string]*AssertStat
	reach   map[string]int
	aborts  map[string]int
	incon   map[string]int
	used    map[*ssa.Function]bool
	varOrd  []string
	forkAt  map[string]int
	swapped map[string]bool
}

type AssertStat struct{ Proved, Refuted, Unknown int }

// Candidate is a possible violation found by the solver, to be replayed natively.
type Candidate struct {
	Label string
	Kind  string // assert, panic, hang
	Msg   string
	Model map[string]uint64
}

type methodKey struct {
	t types.Type
	m *types.Func
}
type implKey struct {
	t types.Type
	i types.Type
}
type qres struct {
	r Sat
	m map[*Expr]uint64
}

type budgetErr struct{ msg string }
type splitReq struct {
	e  *Expr
	st *State
}

// ---- function info ----

type opnd struct {
	slot int
	val  Value
}
type PIns struct {
	in  ssa.Instruction
	dst int
	ops []opnd
}
type BlkInfo struct {
	ins   []PIns
	nphi  int
	rpo   int
	loops []int // enclosing loop headers, outermost first
	join  bool  // several predecessors
	live  []int
	preds []*ssa.BasicBlock
}
type FnInfo struct {
	fn     *ssa.Function
	slots  map[ssa.Value]int
	n      int
	blocks []*BlkInfo
}

type badGlobal struct{ name string }

func (x *Exec) info(fn *ssa.Function) *FnInfo {
	if fi, ok := x.fns[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, slots: map[ssa.Value]int{}}
	slot := func(v ssa.Value) int {
		fi.slots[v] = fi.n
		fi.n++
		return fi.n - 1
	}
	for _, p := range fn.Params {
		slot(p)
	}
	for _, p := range fn.FreeVars {
		slot(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				slot(v)
			}
		}
	}
	var rands []*ssa.Value
	for _, b := range fn.Blocks {
		bi := &BlkInfo{preds: b.Preds}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			pi := PIns{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				pi.dst = fi.slots[v]
			}
			rands = in.Operands(rands[:0])
			for _, r := range rands {
				pi.ops = append(pi.ops, x.operand(fi, *r))
			}
			if _, ok := in.(*ssa.Phi); ok {
				bi.nphi++
			}
			bi.ins = append(bi.ins, pi)
		}
		fi.blocks = append(fi.blocks, bi)
	}
	fi.order()
	fi.liveness()
	x.fns[fn] = fi
	return fi
}

func (x *Exec) operand(fi *FnInfo, v ssa.Value) opnd {
	if v == nil {
		return opnd{slot: -1}
	}
	if s, ok := fi.slots[v]; ok {
		return opnd{slot: s}
	}
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{slot: -1, val: x.constant(v)}
	case *ssa.Function:
		return opnd{slot: -1, val: &Func{fn: v}}
	case *ssa.Builtin:
		return opnd{slot: -1, val: &Func{bi: v}}
	case *ssa.Global:
		if id, ok := x.globals[v]; ok {
			return opnd{slot: -1, val: Ptr{id, 0}}
		}
		return opnd{slot: -1, val: badGlobal{v.String()}}
	}
	panic(fmt.Sprintf("operand %T", v))
}

func (x *Exec) constant(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return x.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return badGlobal{"constant " + k.String()}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return x.c.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsString != 0:
		return lit(constant.StringVal(k.Value))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(k.Value)
		return Float(f)
	case b.Info()&types.IsInteger != 0:
		w, signed := widthOf(b)
		if w == 255 {
			return badGlobal{"constant " + k.String()}
		}
		if signed {
			return x.c.Const(w, uint64(k.Int64()))
		}
		return x.c.Const(w, k.Uint64())
	}
	return badGlobal{"constant " + k.String()}
}

// order numbers the blocks in reverse post-order and finds the natural loops.
func (fi *FnInfo) order() {
	bs := fi.fn.Blocks
	n := len(bs)
	inLoop := make([]map[int]bool, n) // by header
	for _, b := range bs {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			m := inLoop[h.Index]
			if m == nil {
				m = map[int]bool{h.Index: true}
				inLoop[h.Index] = m
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				w := work[len(work)-1]
				work = work[:len(work)-1]
				if m[w.Index] {
					continue
				}
				m[w.Index] = true
				work = append(work, w.Preds...)
			}
		}
	}
	seen := make([]bool, n)
	k := n
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		k--
		fi.blocks[b.Index].rpo = k
	}
	if n > 0 {
		dfs(bs[0])
		if fi.fn.Recover != nil && !seen[fi.fn.Recover.Index] {
			dfs(fi.fn.Recover)
		}
	}
	for i := range bs {
		var hs []int
		for h := range inLoop {
			if inLoop[h] != nil && inLoop[h][i] {
				hs = append(hs, h)
			}
		}
		sort.Slice(hs, func(a, b int) bool { return len(inLoop[hs[a]]) > len(inLoop[hs[b]]) })
		fi.blocks[i].loops = hs
		fi.blocks[i].join = len(bs[i].Preds) > 1
	}
}

func (fi *FnInfo) liveness() {
	n := len(fi.blocks)
	live := make([]map[int]bool, n)
	for i := range live {
		live[i] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			cur := map[int]bool{}
			for _, s := range fi.fn.Blocks[i].Succs {
				sb := fi.blocks[s.Index]
				phis := map[int]bool{}
				for k := 0; k < sb.nphi; k++ {
					phis[sb.ins[k].dst] = true
				}
				for v := range live[s.Index] {
					if !phis[v] {
						cur[v] = true
					}
				}
				for pi, p := range s.Preds {
					if p.Index != i {
						continue
					}
					for k := 0; k < sb.nphi; k++ {
						if o := sb.ins[k].ops[pi]; o.slot >= 0 {
							cur[o.slot] = true
						}
					}
				}
			}
			b := fi.blocks[i]
			for k := len(b.ins) - 1; k >= b.nphi; k-- {
				if b.ins[k].dst >= 0 {
					delete(cur, b.ins[k].dst)
				}
				for _, o := range b.ins[k].ops {
					if o.slot >= 0 {
						cur[o.slot] = true
					}
				}
			}
			if len(cur) != len(live[i]) {
				live[i] = cur
				changed = true
			}
		}
	}
	for i, b := range fi.blocks {
		for v := range live[i] {
			b.live = append(b.live, v)
		}
		sort.Ints(b.live)
	}
}

// ---- frames, cursors, outcomes ----

type deferRec struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}
type Frame struct {
	fi     *FnInfo
	regs   []Value
	defers []deferRec
	depth  int
}
type cursor struct {
	fr  *Frame
	st  *State
	bi  int
	ii  int
	arr bool    // at the entry of the block
	its []int32 // iteration counts of the enclosing loops
}

const (
	kReach = iota
	kRet
	kPanic
)

type Out struct {
	kind int
	cur  cursor
	st   *State
	val  Value
	pan  *PanicVal
}

type mark struct {
	wlog *wnode
	next int
	pc   *pcnode
	doms map[*Expr]bitset
	rel  map[*Expr]bool
}

func (x *Exec) mark(st *State) mark {
	st.domsOwn = false
	st.relOwn = false
	return mark{st.wlog, st.next, st.pc, st.doms, st.rel}
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.regs = append(make([]Value, 0, len(fr.regs)), fr.regs...)
	n.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	return &n
}

const (
	evStop = iota
	evRet
	evPanic
	evAbort
	evMulti
)

type event struct {
	kind int
	val  Value
	pan  *PanicVal
	subs []cursor
	pre  []Out
	base mark
}

func (x *Exec) abort(st *State, msg string) {
	x.aborts[msg]++
}

// before orders cursors of one activation so that states which can still meet are advanced together.
func (fi *FnInfo) cmp(a, b *cursor) int {
	ba, bb := fi.blocks[a.bi], fi.blocks[b.bi]
	i := 0
	for i < len(ba.loops) && i < len(bb.loops) && ba.loops[i] == bb.loops[i] {
		if d := int(a.its[i]) - int(b.its[i]); d != 0 {
			return d
		}
		i++
	}
	ka, kb := ba.rpo, bb.rpo
	if i < len(ba.loops) {
		ka = fi.blocks[ba.loops[i]].rpo
	}
	if i < len(bb.loops) {
		kb = fi.blocks[bb.loops[i]].rpo
	}
	return ka - kb
}

// explore runs one activation to its ends. While several states are alive they stop at every join point,
// the one that is furthest behind goes first, and states at the same place are merged when they have the same shape.
func (x *Exec) explore(cur cursor) []Out {
	var acc []Out
	var pend []cursor
	var base mark
	fi := cur.fr.fi
	multi := false
	if cur.its == nil {
		cur.its = make([]int32, len(fi.blocks[cur.bi].loops))
	}
	run := func(c cursor) {
		c.arr = false
		ev := x.linear(&c, multi)
		switch ev.kind {
		case evStop:
			pend = append(pend, c)
		case evRet:
			acc = append(acc, Out{kind: kRet, st: c.st, val: ev.val, cur: c})
		case evPanic:
			acc = append(acc, Out{kind: kPanic, st: c.st, pan: ev.pan, cur: c})
		case evMulti:
			if !multi {
				multi = true
				base = ev.base
			}
			acc = append(acc, ev.pre...)
			pend = append(pend, ev.subs...)
		}
	}
	run(cur)
	for len(pend) > 0 {
		best := 0
		for i := 1; i < len(pend); i++ {
			d := fi.cmp(&pend[i], &pend[best])
			if d < 0 || d == 0 && pend[best].arr && !pend[i].arr {
				best = i
			}
		}
		b := pend[best]
		if !b.arr {
			pend = append(pend[:best:best], pend[best+1:]...)
			if len(pend) == 0 {
				multi = false
			}
			run(b)
			continue
		}
		var grp []Out
		var rest []cursor
		for _, c := range pend {
			if c.arr && c.bi == b.bi && fi.cmp(&c, &b) == 0 {
				grp = append(grp, Out{kind: kReach, cur: c, st: c.st})
			} else {
				rest = append(rest, c)
			}
		}
		pend = rest
		grp = x.merge(grp, base)
		if len(grp) == 1 && len(pend) == 0 {
			multi = false
		}
		for _, o := range grp {
			run(o.cur)
		}
	}
	return acc
}

// jump moves the cursor along a control-flow edge, evaluating phis.
func (x *Exec) jump(cur *cursor, from, to *ssa.BasicBlock) {
	fi := cur.fr.fi
	tb := fi.blocks[to.Index]
	if tb.nphi > 0 {
		pi := -1
		for i, p := range tb.preds {
			if p == from {
				pi = i
				break
			}
		}
		if tb.nphi == 1 {
			cur.fr.regs[tb.ins[0].dst] = cur.get(tb.ins[0].ops[pi])
		} else {
			var tmp [16]Value
			vals := tmp[:0]
			for k := 0; k < tb.nphi; k++ {
				vals = append(vals, cur.get(tb.ins[k].ops[pi]))
			}
			for k := 0; k < tb.nphi; k++ {
				cur.fr.regs[tb.ins[k].dst] = vals[k]
			}
		}
	}
	lf, lt := fi.blocks[from.Index].loops, tb.loops
	if len(lf) > 0 || len(lt) > 0 {
		its := make([]int32, len(lt))
		for i := range lt {
			if i >= len(lf) || lf[i] != lt[i] {
				break
			}
			its[i] = cur.its[i]
			if lt[i] == to.Index {
				its[i]++
			}
		}
		cur.its = its
	}
	cur.bi = to.Index
	cur.ii = tb.nphi
	cur.arr = true
}

func (cur *cursor) get(o opnd) Value {
	if o.slot >= 0 {
		return cur.fr.regs[o.slot]
	}
	if g, ok := o.val.(badGlobal); ok {
		unsupported("use of %s (package not initialised in the encoding)", g.name)
	}
	return o.val
}

// linear runs straight-line code until something needs more than one state.
func (x *Exec) linear(cur *cursor, multi bool) (ev event) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case goPanic:
				ev = event{kind: evPanic, pan: &PanicVal{msg: r.msg}}
			case unsupErr:
				x.abort(cur.st, r.msg+" in "+cur.fr.fi.fn.String())
				ev = event{kind: evAbort}
			case assumeFail:
				ev = event{kind: evAbort}
			case splitReq:
				ev = x.doSplit(cur, r.e)
			default:
				panic(r)
			}
		}
	}()
	for {
		b := cur.fr.fi.blocks[cur.bi]
		for cur.ii < len(b.ins) {
			pi := &b.ins[cur.ii]
			x.Steps++
			cur.st.steps++
			if x.Steps&0x3fff == 0 && time.Now().After(x.deadline) {
				panic(budgetErr{"time budget"})
			}
			if x.Steps&0x3fff == 0 && x.stop != nil && x.stop.Load() {
				panic(budgetErr{"memory"})
			}
			if cur.st.steps > x.maxPathSteps {
				x.candidate(cur.st, "hang", "hang", "no end within the step bound in "+cur.fr.fi.fn.String(), nil)
				return event{kind: evAbort}
			}
			switch in := pi.in.(type) {
			case *ssa.If:
				c := cur.get(pi.ops[0]).(*Expr)
				blk := cur.fr.fi.fn.Blocks[cur.bi]
				te, fe := edge{blk, blk.Succs[0]}, edge{blk, blk.Succs[1]}
				if !c.isConst() {
					c = x.fuse(cur, c, &te, &fe)
				}
				t, f := x.branch(cur.st, c)
				if t.ok && f.ok {
					if x.forkAt != nil {
						x.forkAt[x.P.prog.Fset.Position(in.Cond.Pos()).String()]++
					}
					base := x.mark(cur.st)
					x.newBase(cur.st)
					st2 := x.fork(cur.st)
					c2 := cursor{fr: cur.fr.clone(), st: st2, bi: cur.bi, ii: cur.ii, its: cur.its}
					c1 := *cur
					x.addPC(c1.st, c, t.model)
					x.addPC(c2.st, x.c.Not(c), f.model)
					x.jump(&c1, te.from, te.to)
					x.jump(&c2, fe.from, fe.to)
					return event{kind: evMulti, subs: []cursor{c1, c2}, base: base}
				}
				if t.ok {
					x.jump(cur, te.from, te.to)
				} else {
					x.jump(cur, fe.from, fe.to)
				}
				b = cur.fr.fi.blocks[cur.bi]
				if multi && b.join {
					return event{kind: evStop}
				}
				continue
			case *ssa.Jump:
				blk := cur.fr.fi.fn.Blocks[cur.bi]
				x.jump(cur, blk, blk.Succs[0])
				b = cur.fr.fi.blocks[cur.bi]
				if multi && b.join {
					return event{kind: evStop}
				}
				continue
			case *ssa.Return:
				var v Value
				switch len(pi.ops) {
				case 0:
				case 1:
					v = cur.get(pi.ops[0])
				default:
					tp := make(Tuple, len(pi.ops))
					for i, o := range pi.ops {
						tp[i] = cur.get(o)
					}
					v = tp
				}
				return event{kind: evRet, val: v}
			case *ssa.Panic:
				v := cur.get(pi.ops[0])
				return event{kind: evPanic, pan: &PanicVal{val: v, msg: "panic: " + x.describe(v)}}
			case *ssa.Call:
				base := x.mark(cur.st)
				outs := x.callCommon(cur, &in.Call, pi.ops)
				if done, e := x.afterCall(cur, pi, outs, base, cur.ii+1); done {
					return e
				}
				continue
			case *ssa.Defer:
				fv, args := x.prepCall(cur, &in.Call, pi.ops)
				cur.fr.defers = append(cur.fr.defers[:len(cur.fr.defers):len(cur.fr.defers)], deferRec{fv, args, &in.Call})
				cur.ii++
				continue
			case *ssa.RunDefers:
				n := len(cur.fr.defers)
				if n == 0 {
					cur.ii++
					continue
				}
				d := cur.fr.defers[n-1]
				cur.fr.defers = cur.fr.defers[: n-1 : n-1]
				base := x.mark(cur.st)
				outs := x.callValue(cur.st, d.fn, d.args, cur.fr.depth+1, d.call)
				if done, e := x.afterCall(cur, &PIns{dst: -1}, outs, base, cur.ii); done {
					return e
				}
				continue
			case *ssa.Next:
				if done, e := x.next(cur, pi, in); done {
					return e
				}
				cur.ii++
				continue
			}
			x.step(cur, pi)
			cur.ii++
		}
	}
}

type edge struct{ from, to *ssa.BasicBlock }

// fuse turns a chain of conditional blocks that share a successor (a switch case list, a short-circuit
// condition) into a single two-way branch, so that it needs one fork and not one per comparison.
func (x *Exec) fuse(cur *cursor, c *Expr, te, fe *edge) *Expr {
	for n := 0; n < 200; n++ {
		if nc, ok := x.fuse1(cur, fe, te); ok {
			// false side: if nc goes where the true side goes
			c = x.c.Or(c, nc)
		} else if nc, ok := x.fuse1(cur, te, fe); ok {
			c = x.c.And(c, x.c.Not(nc))
		} else {
			return c
		}
	}
	return c
}

// fuse1 tries to absorb the block e.to, which must consist of comparisons only and have o.to as one successor.
// It returns the condition under which the block goes to o.to.
func (x *Exec) fuse1(cur *cursor, e, o *edge) (*Expr, bool) {
	nb := e.to
	if len(nb.Preds) != 1 || nb == o.to {
		return nil, false
	}
	bi := cur.fr.fi.blocks[nb.Index]
	n := len(bi.ins)
	iff, ok := bi.ins[n-1].in.(*ssa.If)
	if !ok || bi.nphi > 0 {
		return nil, false
	}
	_ = iff
	k := -1
	if nb.Succs[0] == o.to {
		k = 0
	} else if nb.Succs[1] == o.to {
		k = 1
	}
	if k < 0 || nb.Succs[1-k] == o.to {
		return nil, false
	}
	for i := 0; i < n-1; i++ {
		in, ok := bi.ins[i].in.(*ssa.BinOp)
		if !ok {
			return nil, false
		}
		switch in.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			return nil, false
		}
		if b, ok := in.X.Type().Underlying().(*types.Basic); !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
			return nil, false
		}
	}
	// phis of the shared successor must get the same values over both edges
	ob := cur.fr.fi.blocks[o.to.Index]
	if ob.nphi > 0 {
		pi, pj := -1, -1
		for i, p := range ob.preds {
			if p == o.from {
				pi = i
			}
			if p == nb {
				pj = i
			}
		}
		for i := 0; i < ob.nphi; i++ {
			a, b := ob.ins[i].ops[pi], ob.ins[i].ops[pj]
			if a.slot < 0 && b.slot < 0 {
				ea, ok1 := a.val.(*Expr)
				eb, ok2 := b.val.(*Expr)
				if !ok1 || !ok2 || ea != eb {
					return nil, false
				}
			} else if a.slot != b.slot {
				return nil, false
			}
		}
	}
	for i := 0; i < n-1; i++ {
		x.Steps++
		x.step(cur, &bi.ins[i])
	}
	c := cur.get(bi.ins[n-1].ops[0]).(*Expr)
	if k == 1 {
		c = x.c.Not(c)
	}
	e.from, e.to = nb, nb.Succs[1-k]
	return c, true
}

// afterCall stores the result of a call; with several outcomes it makes an event.
func (x *Exec) afterCall(cur *cursor, pi *PIns, outs []Out, base mark, nextII int) (bool, event) {
	if len(outs) == 0 {
		return true, event{kind: evAbort}
	}
	if len(outs) == 1 {
		o := outs[0]
		cur.st = o.st
		if o.kind == kPanic {
			return true, event{kind: evPanic, pan: o.pan}
		}
		if pi.dst >= 0 {
			cur.fr.regs[pi.dst] = o.val
		}
		cur.ii = nextII
		return false, event{}
	}
	blk := cur.bi
	var subs []cursor
	var pre []Out
	for i, o := range outs {
		fr := cur.fr
		if i < len(outs)-1 {
			fr = cur.fr.clone()
		}
		if o.kind == kPanic {
			pre = append(pre, Out{kind: kPanic, st: o.st, pan: o.pan, cur: cursor{fr: fr, st: o.st}})
			continue
		}
		if pi.dst >= 0 {
			fr.regs[pi.dst] = o.val
		}
		subs = append(subs, cursor{fr: fr, st: o.st, bi: blk, ii: nextII, its: cur.its})
	}
	return true, event{kind: evMulti, subs: subs, pre: pre, base: base}
}

// doSplit makes the value of e concrete by splitting; the current instruction is executed again.
func (x *Exec) doSplit(cur *cursor, e *Expr) event {
	base := x.mark(cur.st)
	var subs []cursor
	if e.w == 0 {
		t, f := x.branch(cur.st, e)
		if !t.ok || !f.ok {
			// decided after all: record the fact and run again
			c := e
			if !t.ok {
				c = x.c.Not(e)
			}
			x.addPC(cur.st, c, nil)
			x.fix(cur.st, e, t.ok)
			return event{kind: evMulti, subs: []cursor{*cur}, base: base}
		}
		x.newBase(cur.st)
		st2 := x.fork(cur.st)
		c2 := cursor{fr: cur.fr.clone(), st: st2, bi: cur.bi, ii: cur.ii, its: cur.its}
		c1 := *cur
		x.addPC(c1.st, e, t.model)
		x.addPC(c2.st, x.c.Not(e), f.model)
		x.fix(c1.st, e, true)
		x.fix(c2.st, e, false)
		subs = []cursor{c1, c2}
	} else {
		vals := x.values(cur.st, e, 300)
		x.newBase(cur.st)
		for i, v := range vals {
			c := *cur
			if i < len(vals)-1 {
				c = cursor{fr: cur.fr.clone(), st: x.fork(cur.st), bi: cur.bi, ii: cur.ii, its: cur.its}
			}
			x.addPC(c.st, x.c.Eq(e, x.c.Const(e.w, v.v)), v.model)
			c.st.pc = &pcnode{c: x.c.True, prev: c.st.pc, n: pcLen(c.st.pc) + 1, fixE: e, fixV: v.v}
			subs = append(subs, c)
		}
	}
	return event{kind: evMulti, subs: subs, base: base}
}

// fix records that e is decided on this path.
func (x *Exec) fix(st *State, e *Expr, b bool) {
	v := uint64(0)
	if b {
		v = 1
	}
	t := e
	if t.op == ONot {
		t = t.args[0]
		v ^= 1
	}
	st.pc = &pcnode{c: x.c.True, prev: st.pc, n: pcLen(st.pc) + 1, fixE: t, fixV: v}
}

type valModel struct {
	v     uint64
	model map[*Expr]uint64
}

// values lists the feasible values of e.
func (x *Exec) values(st *State, e *Expr, limit int) []valModel {
	var out []valModel
	if e.solo != nil && e.solo.w <= 8 {
		dom := st.dom(e.solo)
		seen := map[uint64]bool{}
		m := map[*Expr]uint64{}
		n := 2
		if e.solo.w > 0 {
			n = 1 << e.solo.w
		}
		for i := 0; i < n; i++ {
			if !dom.has(i) {
				continue
			}
			m[e.solo] = uint64(i)
			v := e.eval(m, map[*Expr]uint64{})
			if seen[v] {
				continue
			}
			seen[v] = true
			r, model := x.feasible(st, x.c.Eq(e, x.c.Const(e.w, v)))
			if r != SatNo {
				out = append(out, valModel{v, model})
			}
		}
		return out
	}
	cond := x.c.True
	for len(out) <= limit {
		r, model := x.solve(st, cond, e)
		if r == SatNo {
			return out
		}
		if r == SatUnknown {
			unsupported("solver gave no value for a size or index")
		}
		v := e.eval(x.overlay(st.model, model), map[*Expr]uint64{})
		out = append(out, valModel{v, model})
		cond = x.c.And(cond, x.c.Not(x.c.Eq(e, x.c.Const(e.w, v))))
	}
	unsupported("more than %d values for a size or index", limit)
	return nil
}

// conc returns the concrete value of e, splitting if needed.
func (x *Exec) conc(st *State, e *Expr) uint64 {
	if e.isConst() {
		return e.val
	}
	for n := st.pc; n != nil; n = n.prev {
		if n.fixE == e {
			return n.fixV
		}
	}
	panic(splitReq{e: e})
}
func (x *Exec) concInt(st *State, v Value) int {
	e := v.(*Expr)
	return int(sx(x.conc(st, e), e.w))
}

// decide returns the truth of c on this path, splitting if needed.
func (x *Exec) decide(st *State, c *Expr) bool {
	if c.isConst() {
		return c.val == 1
	}
	if v, b, ok := c.soloBits(); ok {
		d := st.dom(v)
		if d.subset(b) {
			return true
		}
		if d.and(b).empty() {
			return false
		}
	} else if t := x.truth(st, c); t != 0 {
		return t > 0
	}
	nc := x.c.Not(c)
	t, neg := c, uint64(0)
	if t.op == ONot {
		t, neg = t.args[0], 1
	}
	for n := st.pc; n != nil; n = n.prev {
		if n.c == c {
			return true
		}
		if n.c == nc {
			return false
		}
		if n.fixE == t {
			return n.fixV^neg == 1
		}
	}
	panic(splitReq{e: c})
}

// ---- path conditions ----

func pcLen(n *pcnode) int {
	if n == nil {
		return 0
	}
	return n.n
}

func (x *Exec) addPC(st *State, c *Expr, model map[*Expr]uint64) {
	if c.isTrue() {
		return
	}
	if c.op == OAnd {
		for _, a := range c.args {
			x.addPC1(st, a)
		}
	} else if c.op == ONot && c.args[0].op == OOr {
		for _, a := range c.args[0].args {
			x.addPC1(st, x.c.Not(a))
		}
	} else {
		x.addPC1(st, c)
	}
	if model != nil {
		st.model = x.overlay(st.model, model)
	}
	if c.eval(st.model, map[*Expr]uint64{}) != 1 {
		if v, _, ok := c.soloBits(); ok && !st.rel[v] {
			if f := st.dom(v).first(); f >= 0 {
				st.model = x.overlay(st.model, map[*Expr]uint64{v: uint64(f)})
				return
			}
		}
		r, m := x.solve(st, x.c.True, c)
		if r == SatYes {
			st.model = x.overlay(st.model, m)
		}
	}
}
func (x *Exec) addPC1(st *State, c *Expr) {
	if c.op == OAnd {
		for _, a := range c.args {
			x.addPC1(st, a)
		}
		return
	}
	st.pc = &pcnode{c: c, prev: st.pc, n: pcLen(st.pc) + 1}
	if v, b, ok := c.soloBits(); ok {
		st.setDom(v, st.dom(v).and(b))
	} else {
		for _, v := range x.vars(c) {
			st.markRelVar(v)
		}
	}
}

func (st *State) markRelVar(v *Expr) {
	if st.rel[v] {
		return
	}
	if !st.relOwn {
		n := make(map[*Expr]bool, len(st.rel)+4)
		for k := range st.rel {
			n[k] = true
		}
		st.rel = n
		st.relOwn = true
	}
	st.rel[v] = true
}

func (x *Exec) overlay(a, b map[*Expr]uint64) map[*Expr]uint64 {
	n := make(map[*Expr]uint64, len(a)+len(b))
	for k, v := range a {
		n[k] = v
	}
	for k, v := range b {
		n[k] = v
	}
	return n
}

func (x *Exec) vars(e *Expr) []*Expr {
	if !e.hasVars {
		return nil
	}
	if e.solo != nil {
		return []*Expr{e.solo}
	}
	if v, ok := x.varsC[e]; ok {
		return v
	}
	v := collectVars([]*Expr{e})
	x.varsC[e] = v
	return v
}

// slice collects the conjuncts of the path condition connected to the variables of e.
func (x *Exec) slice(st *State, e *Expr) []*Expr {
	var pcs []*Expr
	seenE := map[*Expr]bool{}
	for n := st.pc; n != nil; n = n.prev {
		if n.c.hasVars && !seenE[n.c] {
			seenE[n.c] = true
			pcs = append(pcs, n.c)
		}
	}
	in := map[*Expr]bool{}
	for _, v := range x.vars(e) {
		in[v] = true
	}
	used := make([]bool, len(pcs))
	var out []*Expr
	for changed := true; changed; {
		changed = false
		for i, c := range pcs {
			if used[i] {
				continue
			}
			vs := x.vars(c)
			hit := false
			for _, v := range vs {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				changed = true
				for _, v := range vs {
					in[v] = true
				}
			}
		}
	}
	return out
}

// solve decides pc && c, where about names the expression whose variables matter.
func (x *Exec) solve(st *State, c, about *Expr) (Sat, map[*Expr]uint64) {
	q := c
	if about != c && about.w == 0 {
		q = x.c.And(c, about)
	}
	target := q
	if about.w != 0 {
		target = about
	}
	cs := x.slice(st, target)
	if !q.isTrue() {
		cs = append(cs, q)
	}
	key := queryKey(cs)
	if r, ok := x.qcache[key]; ok {
		x.CacheHits++
		return r.r, r.m
	}
	if !noFD {
		if r, m := x.fdSolve(st, cs); r != SatUnknown {
			x.FDQueries++
			x.qcache[key] = qres{r, m}
			return r, m
		}
	}
	r, m, err := x.sol.check(cs)
	if err != nil {
		x.restart(err)
		r, m = SatUnknown, nil
	}
	if r == SatNo {
		x.smtNo[key] = qres{r, nil}
	}
	x.qcache[key] = qres{r, m}
	return r, m
}

// feasible decides whether c can hold on this path. Branches are discarded on the solver's word only: what
// the cheaper procedures call impossible is put to the solver as well, once per distinct question.
func (x *Exec) feasible(st *State, c *Expr) (Sat, map[*Expr]uint64) {
	r, m := x.feasible1(st, c)
	if r == SatNo && !c.isConst() && !noAudit {
		return x.confirm(st, c)
	}
	return r, m
}

// confirm asks the solver whether c is impossible on this path.
func (x *Exec) confirm(st *State, c *Expr) (Sat, map[*Expr]uint64) {
	cs := append(x.slice(st, c), c)
	key := queryKey(cs)
	if r, ok := x.smtNo[key]; ok {
		x.CacheHits++
		return r.r, r.m
	}
	r, m, err := x.sol.check(cs)
	if err != nil {
		x.restart(err)
		r, m = SatUnknown, nil
	}
	if r == SatYes {
		x.incon["pruning not confirmed by the solver"]++
	}
	x.smtNo[key] = qres{r, m}
	return r, m
}

func (x *Exec) restart(err error) {
	x.incon["solver: "+err.Error()]++
	x.sol.close()
	if e := x.sol.start(); e != nil {
		panic(budgetErr{"solver restart failed: " + e.Error()})
	}
}

func queryKey(cs []*Expr) string {
	ids := make([]uint32, len(cs))
	for i, e := range cs {
		ids[i] = e.id
	}
	slices.Sort(ids)
	b := make([]byte, 0, 4*len(ids))
	for _, id := range ids {
		b = binary.LittleEndian.AppendUint32(b, id)
	}
	return string(b)
}

var noAudit = os.Getenv("NOAUDIT") != ""

func (x *Exec) feasible1(st *State, c *Expr) (Sat, map[*Expr]uint64) {
	if c.isConst() {
		if c.val == 1 {
			return SatYes, nil
		}
		return SatNo, nil
	}
	if v, b, ok := c.soloBits(); ok {
		d := st.dom(v)
		i := d.and(b)
		if i.empty() {
			return SatNo, nil
		}
		if !st.rel[v] {
			return SatYes, map[*Expr]uint64{v: uint64(i.first())}
		}
		if d.subset(b) {
			return SatYes, nil
		}
	} else if x.truth(st, c) == -1 {
		return SatNo, nil
	}
	if c.eval(st.model, map[*Expr]uint64{}) == 1 {
		return SatYes, nil
	}
	nc := x.c.Not(c)
	for n := st.pc; n != nil; n = n.prev {
		if n.c == nc {
			return SatNo, nil
		}
	}
	return x.solve(st, c, c)
}

type branchRes struct {
	ok    bool
	model map[*Expr]uint64
}

func (x *Exec) branch(st *State, c *Expr) (t, f branchRes) {
	rt, mt := x.feasible(st, c)
	if rt == SatNo {
		return branchRes{}, branchRes{ok: true}
	}
	rf, mf := x.feasible(st, x.c.Not(c))
	if rf == SatNo {
		return branchRes{ok: true}, branchRes{}
	}
	return branchRes{true, mt}, branchRes{true, mf}
}

// ---- candidates ----

func (x *Exec) candidate(st *State, label, kind, msg string, extra *Expr) {
	k := label + "|" + kind
	if kind == "panic" {
		k += msg
	}
	x.candN[k]++
	if x.candN[k] > 4 {
		return
	}
	var cs []*Expr
	seen := map[*Expr]bool{}
	for n := st.pc; n != nil; n = n.prev {
		if n.c.hasVars && !seen[n.c] {
			seen[n.c] = true
			cs = append(cs, n.c)
		}
	}
	if extra != nil {
		cs = append(cs, extra)
	}
	r, m, err := x.sol.check(cs)
	if err != nil || r != SatYes {
		if os.Getenv("PCDUMP") != "" {
			for _, c := range cs {
				fmt.Println("  pc", c)
			}
			fmt.Println(r, err)
		}
		x.incon["no model for candidate "+label]++
		return
	}
	mod := map[string]uint64{}
	for _, v := range x.c.vars {
		if val, ok := m[v]; ok {
			mod[v.name] = val
		} else if f := st.dom(v).first(); f >= 0 {
			mod[v.name] = uint64(f)
		}
	}
	x.cands = append(x.cands, &Candidate{Label: label, Kind: kind, Msg: msg, Model: mod})
}

func (x *Exec) describe(v Value) string {
	switch v := v.(type) {
	case Iface:
		if v.typ == nil {
			return "nil"
		}
		return v.typ.String() + " " + x.describe(v.val)
	case *Str:
		return v.String()
	case *Expr:
		return v.String()
	}
	return fmt.Sprintf("%T", v)
}

// ---- calls ----

func (x *Exec) prepCall(cur *cursor, call *ssa.CallCommon, ops []opnd) (Value, []Value) {
	if call.IsInvoke() {
		// operands: Value, Args...
		recv := cur.get(ops[0]).(Iface)
		if recv.typ == nil {
			panic(goPanic{"runtime error: invalid memory address or nil pointer dereference"})
		}
		fn := x.method(recv.typ, call.Method)
		args := make([]Value, 0, len(ops))
		args = append(args, recv.val)
		for _, o := range ops[1:] {
			args = append(args, cur.get(o))
		}
		return &Func{fn: fn}, args
	}
	fv := cur.get(ops[0])
	args := make([]Value, 0, len(ops))
	for _, o := range ops[1:] {
		args = append(args, cur.get(o))
	}
	return fv, args
}

func (x *Exec) method(t types.Type, m *types.Func) *ssa.Function {
	k := methodKey{t, m}
	if f, ok := x.methods[k]; ok {
		return f
	}
	f := x.P.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		unsupported("method %s of %s not found", m.Name(), t)
	}
	x.methods[k] = f
	return f
}

func (x *Exec) callCommon(cur *cursor, call *ssa.CallCommon, ops []opnd) []Out {
	fv, args := x.prepCall(cur, call, ops)
	return x.callValue(cur.st, fv, args, cur.fr.depth+1, call)
}

func (x *Exec) callValue(st *State, fv Value, args []Value, depth int, call *ssa.CallCommon) []Out {
	f, ok := fv.(*Func)
	if !ok || f == nil {
		panic(goPanic{"runtime error: invalid memory address or nil pointer dereference (nil function)"})
	}
	if f.bi != nil {
		return []Out{{kind: kRet, st: st, val: x.builtin(st, f.bi, args, call)}}
	}
	return x.callFn(st, f.fn, f.bind, args, depth)
}

func (x *Exec) callFn(st *State, fn *ssa.Function, bind, args []Value, depth int) []Out {
	name := x.P.name(fn)
	if intr, ok := intrinsics[name]; ok {
		return []Out{{kind: kRet, st: st, val: intr(x, st, args)}}
	}
	if m, ok := x.P.models[name]; ok {
		fn = m
	} else if strings.HasPrefix(name, "(*sync") || strings.HasPrefix(name, "sync") {
		if intr, ok := syncIntrinsic(name); ok {
			return []Out{{kind: kRet, st: st, val: intr(x, st, args)}}
		}
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" && !x.P.initOK(fn.Pkg.Pkg.Path()) {
		return []Out{{kind: kRet, st: st}}
	}
	if fn.Blocks == nil {
		unsupported("call of %s (no Go body)", name)
	}
	if depth > x.maxDepth {
		x.candidate(st, "hang", "hang", "recursion deeper than the bound in "+name, nil)
		return nil
	}
	x.used[fn] = true
	fi := x.info(fn)
	fr := &Frame{fi: fi, regs: make([]Value, fi.n), depth: depth}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], bind)
	base := x.mark(st)
	outs := x.explore(cursor{fr: fr, st: st})
	// deferred calls of panicking frames
	for i := 0; i < len(outs); i++ {
		o := outs[i]
		if o.kind == kPanic && len(o.cur.fr.defers) > 0 && o.cur.fr.fi == fi {
			outs = append(outs[:i:i], append(x.unwind(o), outs[i+1:]...)...)
			i--
		}
	}
	if len(outs) > 1 {
		outs = x.merge(outs, base)
	}
	return outs
}

// unwind runs one deferred call of a panicking frame.
func (x *Exec) unwind(o Out) []Out {
	fr := o.cur.fr
	n := len(fr.defers)
	d := fr.defers[n-1]
	fr.defers = fr.defers[: n-1 : n-1]
	st := o.st
	st.panicking = o.pan
	var res []Out
	var outs []Out
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupErr); ok {
					x.abort(st, u.msg+" in deferred call")
					return
				}
				panic(r)
			}
		}()
		outs = x.callValue(st, d.fn, d.args, fr.depth+1, d.call)
	}()
	for i, c := range outs {
		f := fr
		if i > 0 {
			f = fr.clone()
		}
		if c.kind == kPanic {
			res = append(res, Out{kind: kPanic, st: c.st, pan: c.pan, cur: cursor{fr: f, st: c.st}})
			continue
		}
		if c.st.panicking != nil {
			pv := c.st.panicking
			c.st.panicking = nil
			res = append(res, Out{kind: kPanic, st: c.st, pan: pv, cur: cursor{fr: f, st: c.st}})
			continue
		}
		// recovered
		if rb := f.fi.fn.Recover; rb != nil {
			res = append(res, x.explore(cursor{fr: f, st: c.st, bi: rb.Index})...)
		} else {
			var v Value
			sig := f.fi.fn.Signature.Results()
			if sig.Len() == 1 {
				v = x.zero(sig.At(0).Type())
			} else if sig.Len() > 1 {
				v = x.zero(sig)
			}
			res = append(res, Out{kind: kRet, st: c.st, val: v})
		}
	}
	return res
}

var _ = token.ADD
