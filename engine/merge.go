package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// merge joins outcomes whose states have the same shape: same control position, same live heap
// structure and same concrete scalars. Symbolic scalars become if-then-else terms.
func (x *Exec) merge(outs []Out, base mark) []Out {
	if len(outs) < 2 || x.noMerge {
		return outs
	}
	base = x.tighten(outs, base)
	// old objects modified by any of the states since the base
	modAny := map[int]bool{}
	for _, o := range outs {
		for n := o.st.wlog; n != base.wlog && n != nil; n = n.prev {
			if n.obj < base.next && n.obj != 0 {
				modAny[n.obj] = true
			}
		}
	}
	var mods []int
	for id := range modAny {
		p0 := outs[0].st.obj(id)
		for _, o := range outs[1:] {
			if o.st.obj(id) != p0 {
				mods = append(mods, id)
				break
			}
		}
	}
	sort.Ints(mods)
	if mergeCheck {
		x.checkMods(outs, base)
		for id := 1; id < base.next; id++ {
			for _, o := range outs[1:] {
				if o.st.obj(id) != outs[0].st.obj(id) && !modAny[id] {
					fmt.Println("MCHK unlogged modification of object", id, "base", base.next, outs[0].cur.fr != nil && outs[0].cur.fr.fi != nil, "epochs", o.st.obj(id).epoch, outs[0].st.obj(id).epoch)
				}
			}
		}
	}
	type grp struct {
		idx   []int
		leafs [][]*Expr
	}
	groups := map[string]*grp{}
	var order []string
	for i := range outs {
		if outs[i].kind == kPanic {
			k := string(binary.LittleEndian.AppendUint32([]byte("panic"), uint32(i)))
			groups[k] = &grp{idx: []int{i}}
			order = append(order, k)
			continue
		}
		f := &fper{x: x, st: outs[i].st, n0: base.next, num: map[int]int{}}
		f.out(&outs[i], mods)
		k := string(f.buf)
		g := groups[k]
		if g == nil {
			g = &grp{}
			groups[k] = g
			order = append(order, k)
		}
		g.idx = append(g.idx, i)
		g.leafs = append(g.leafs, f.leafs)
	}
	if len(order) == len(outs) {
		return outs
	}
	var res []Out
	for _, k := range order {
		g := groups[k]
		if len(g.idx) == 1 {
			res = append(res, outs[g.idx[0]])
			continue
		}
		var members []Out
		for _, i := range g.idx {
			members = append(members, outs[i])
		}
		res = append(res, x.mergeGroup(members, g.leafs, base, mods))
	}
	return res
}

// tighten moves the heap part of the base to the last point all outcomes have in common, so that
// everything an unchanged older object refers to is older as well.
func (x *Exec) tighten(outs []Out, base mark) mark {
	lca := outs[0].st.wlog
	for _, o := range outs[1:] {
		n := o.st.wlog
		for n != lca {
			if n == nil || lca == nil {
				return base
			}
			if n.depth >= lca.depth {
				n = n.prev
			} else {
				lca = lca.prev
			}
		}
	}
	if lca != nil && lca != base.wlog {
		base.wlog, base.next = lca, lca.next
	}
	return base
}

var noMerge = os.Getenv("NOMERGE") != ""

type fper struct {
	x     *Exec
	st    *State
	n0    int
	num   map[int]int
	queue []int
	buf   []byte
	leafs []*Expr
	// soft: constants in multi-cell objects (records, arrays) may be merged; a variable of its own keeps its constants
	soft bool
	// rewriting
	rw   bool
	vals []*Expr
	pos  int
}

func (f *fper) u(n int) {
	f.buf = binary.AppendUvarint(f.buf, uint64(n))
}
func (f *fper) ref(obj int) {
	if obj < f.n0 {
		f.buf = append(f.buf, 'o')
		f.u(obj)
		return
	}
	k, ok := f.num[obj]
	if !ok {
		k = len(f.num)
		f.num[obj] = k
		f.queue = append(f.queue, obj)
	}
	f.buf = append(f.buf, 'q')
	f.u(k)
}

func (f *fper) leaf(e *Expr) *Expr {
	if f.rw {
		v := f.vals[f.pos]
		f.pos++
		return v
	}
	f.leafs = append(f.leafs, e)
	return e
}

// val fingerprints v and, when rewriting, returns the merged value.
func (f *fper) val(v Value) Value {
	switch v := v.(type) {
	case nil:
		f.buf = append(f.buf, '0')
		return nil
	case *Expr:
		if v.w != 0 && v.isConst() && !f.soft {
			f.buf = append(f.buf, 'c', v.w)
			f.buf = binary.AppendUvarint(f.buf, v.val)
			return v
		}
		f.buf = append(f.buf, 's', v.w)
		return f.leaf(v)
	case *Str:
		if v.b == nil {
			f.buf = append(f.buf, 'L')
			f.u(len(v.lit))
			f.buf = append(f.buf, v.lit...)
			return v
		}
		f.buf = append(f.buf, 'S')
		f.u(len(v.b))
		if f.rw {
			nb := make([]*Expr, len(v.b))
			for i := range v.b {
				nb[i] = f.leaf(v.b[i])
			}
			return &Str{b: nb}
		}
		f.leafs = append(f.leafs, v.b...)
		return v
	case Ptr:
		if v.obj == 0 {
			f.buf = append(f.buf, 'n')
			return v
		}
		f.buf = append(f.buf, 'P')
		f.ref(v.obj)
		f.u(v.off)
		return v
	case SymPtr:
		f.buf = append(f.buf, 'Y')
		f.ref(v.obj)
		f.u(v.base)
		f.u(v.stride)
		f.u(v.n)
		v.idx = f.val(v.idx).(*Expr)
		return v
	case Slice:
		if v.obj == 0 {
			f.buf = append(f.buf, 'n')
			return v
		}
		f.buf = append(f.buf, 'V')
		f.ref(v.obj)
		f.u(v.off)
		f.u(v.len)
		f.u(v.cap)
		return v
	case MapRef:
		if v.obj == 0 {
			f.buf = append(f.buf, 'n')
			return v
		}
		f.buf = append(f.buf, 'M')
		f.ref(v.obj)
		return v
	case IterRef:
		f.buf = append(f.buf, 'R')
		f.ref(v.obj)
		return v
	case Iface:
		if v.typ == nil {
			f.buf = append(f.buf, 'i')
			return v
		}
		f.buf = append(f.buf, 'I')
		f.u(f.x.typeIDs[f.x.canon(v.typ)])
		v.val = f.val(v.val)
		return v
	case *Func:
		if v == nil {
			f.buf = append(f.buf, 'f')
			return v
		}
		f.buf = append(f.buf, 'F')
		f.u(f.x.fnID(v.fn))
		if v.bi != nil {
			f.buf = append(f.buf, v.bi.Name()...)
		}
		f.u(len(v.bind))
		if f.rw && len(v.bind) > 0 {
			n := &Func{fn: v.fn, bi: v.bi}
			for _, b := range v.bind {
				n.bind = append(n.bind, f.val(b))
			}
			return n
		}
		for _, b := range v.bind {
			f.val(b)
		}
		return v
	case Agg:
		f.buf = append(f.buf, 'A')
		f.u(len(v))
		if f.rw {
			n := make(Agg, len(v))
			for i := range v {
				n[i] = f.val(v[i])
			}
			return n
		}
		for i := range v {
			f.val(v[i])
		}
		return v
	case Tuple:
		f.buf = append(f.buf, 'T')
		f.u(len(v))
		if f.rw {
			n := make(Tuple, len(v))
			for i := range v {
				n[i] = f.val(v[i])
			}
			return n
		}
		for i := range v {
			f.val(v[i])
		}
		return v
	case Float:
		f.buf = append(f.buf, 'D')
		f.buf = binary.AppendVarint(f.buf, int64(float64(v)*1e6))
		return v
	}
	unsupported("merge of %T", v)
	return nil
}

func (x *Exec) fnID(fn *ssa.Function) int {
	if fn == nil {
		return 0
	}
	id, ok := x.fnIDs[fn]
	if !ok {
		id = len(x.fnIDs) + 1
		x.fnIDs[fn] = id
	}
	return id
}

func (f *fper) obj(id int) {
	o := f.st.obj(id)
	if f.rw {
		o = f.st.wobj(id)
	}
	switch {
	case o.m != nil:
		f.buf = append(f.buf, 'm')
		f.u(len(o.m.keys))
		for i := range o.m.keys {
			k := f.val(o.m.keys[i])
			v := f.val(o.m.vals[i])
			if f.rw {
				o.m.keys[i], o.m.vals[i] = k, v
			}
		}
	case o.iter != nil:
		f.buf = append(f.buf, 't')
		if o.iter.str != nil {
			s := f.val(o.iter.str)
			f.u(o.iter.pos)
			if f.rw {
				o.iter.str = s.(*Str)
			}
			return
		}
		if o.iter.m != 0 {
			f.ref(o.iter.m)
		}
		f.u(len(o.iter.left))
		for i := range o.iter.left {
			k := f.val(o.iter.left[i])
			if f.rw {
				o.iter.left[i] = k
			}
		}
	default:
		f.buf = append(f.buf, 'b')
		f.u(len(o.cells))
		f.soft = len(o.cells) > 3 && f.x.soft
		for i := range o.cells {
			v := f.val(o.cells[i])
			if f.rw {
				o.cells[i] = v
			}
		}
		f.soft = false
	}
}

func (f *fper) out(o *Out, mods []int) {
	f.buf = append(f.buf, byte(o.kind))
	switch o.kind {
	case kReach:
		fr := o.cur.fr
		f.u(o.cur.bi)
		f.u(len(fr.defers))
		for i := range fr.defers {
			d := &fr.defers[i]
			f.val(d.fn)
			for j, a := range d.args {
				v := f.val(a)
				if f.rw {
					d.args[j] = v
				}
			}
		}
		for _, s := range fr.fi.blocks[o.cur.bi].live {
			v := f.val(fr.regs[s])
			if f.rw {
				fr.regs[s] = v
			}
		}
	case kRet:
		v := f.val(o.val)
		if f.rw {
			o.val = v
		}
		if o.st.panicking != nil {
			f.buf = append(f.buf, "panicking"+o.st.panicking.msg...)
		}
	}
	for _, id := range mods {
		f.obj(id)
	}
	for len(f.queue) > 0 {
		id := f.queue[0]
		f.queue = f.queue[1:]
		f.obj(id)
	}
}

func (x *Exec) mergeGroup(ms []Out, leafs [][]*Expr, base mark, mods []int) Out {
	x.Merges++
	x.MergedAway += len(ms) - 1
	c := x.c
	var pcs []State
	var models []map[*Expr]uint64
	if mergeCheck {
		for _, m := range ms {
			pcs = append(pcs, *m.st)
			models = append(models, m.st.model)
		}
	}
	cubes := make([]*cube, len(ms))
	for i, m := range ms {
		cubes[i] = x.cubeOf(m.st, base)
	}
	// what all members share
	common := &cube{m: map[*Expr]bitset{}}
	for e, b := range cubes[0].m {
		same := true
		for _, q := range cubes[1:] {
			if o, ok := q.m[e]; !ok || o != b {
				same = false
				break
			}
		}
		if same {
			common.put(e, b)
		}
	}
	for e := range common.m {
		for _, q := range cubes {
			q.del(e)
		}
	}
	var guards []*Expr
	guard := func(i int) *Expr {
		if guards == nil {
			guards = make([]*Expr, len(ms))
			for i, q := range cubes {
				guards[i] = x.cubeExpr(q)
			}
		}
		return guards[i]
	}
	first := ms[0]
	nl := len(leafs[0])
	diff := false
	vals := make([]*Expr, nl)
	last := len(ms) - 1
	for j := 0; j < nl; j++ {
		same := true
		for i := 1; i < len(ms); i++ {
			if leafs[i][j] != leafs[0][j] {
				same = false
				break
			}
		}
		if same {
			vals[j] = leafs[0][j]
			continue
		}
		diff = true
		r := leafs[last][j]
		for i := last - 1; i >= 0; i-- {
			r = c.Ite(guard(i), leafs[i][j], r)
		}
		vals[j] = r
	}
	st := first.st
	st.domsOwn, st.relOwn = false, false
	if diff {
		f := &fper{x: x, st: st, n0: base.next, num: map[int]int{}, rw: true, vals: vals}
		f.out(&first, mods)
	}
	// path condition
	steps := 0
	for _, m := range ms {
		if m.st.steps > steps {
			steps = m.st.steps
		}
	}
	st.steps = steps
	logged := map[int]bool{}
	var ids []int
	for _, m := range ms {
		for n := m.st.wlog; n != base.wlog && n != nil; n = n.prev {
			if n.obj < base.next && n.obj != 0 && !logged[n.obj] {
				logged[n.obj] = true
				ids = append(ids, n.obj)
			}
		}
	}
	st.wlog = base.wlog
	for _, id := range ids {
		st.log(id)
	}
	st.log(0) // later bases see every object created so far
	cubes = x.compress(cubes, base)
	if len(cubes) == 1 {
		for e, b := range cubes[0].m {
			common.put(e, b)
		}
		cubes = nil
	}
	// domains: union over the members
	union := map[*Expr]bitset{}
	for v := range st.doms {
		union[v] = st.dom(v)
	}
	for _, m := range ms[1:] {
		for v := range m.st.doms {
			if _, ok := union[v]; !ok {
				union[v] = domFull(v)
			}
		}
	}
	for v := range union {
		b := bitset{}
		for _, m := range ms {
			b = b.or(m.st.dom(v))
		}
		union[v] = b
	}
	st.doms, st.domsOwn = union, true
	rel := map[*Expr]bool{}
	for v := range base.rel {
		rel[v] = true
	}
	st.rel, st.relOwn = rel, true
	st.pc = base.pc
	var facts []*Expr
	for e := range common.m {
		facts = append(facts, e)
	}
	sort.Slice(facts, func(i, j int) bool { return facts[i].id < facts[j].id })
	for _, e := range facts {
		x.addPC1(st, x.factExpr(e, common.m[e]))
	}
	if len(cubes) > 0 {
		ors := make([]*Expr, len(cubes))
		for i, q := range cubes {
			ors[i] = x.cubeExpr(q)
		}
		if or := c.Or(ors...); !or.isTrue() {
			x.addPC1(st, or)
		}
	}
	first.cur.st = st
	first.st = st
	if mergeCheck {
		fn := "?"
		if first.cur.fr != nil {
			fn = fmt.Sprintf("%s block %d", first.cur.fr.fi.fn, first.cur.bi)
		}
		fmt.Println("MCHK merge", len(ms), "kind", first.kind, fn, "mods", len(mods), "diff leaves", diff)
		for i := range pcs {
			fmt.Println("     ", x.cubeExpr(x.cubeOf(&pcs[i], base)))
		}
		x.checkMerge(pcs, models, leafs, vals, st, nil)
	}
	return first
}
