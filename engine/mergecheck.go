package main

import (
	"fmt"
	"os"
)

var mergeCheck = os.Getenv("MCHK") != ""

// satisfies reports whether the assignment meets everything the state knows.
func (st *State) satisfies(m map[*Expr]uint64) bool {
	memo := map[*Expr]uint64{}
	for n := st.pc; n != nil; n = n.prev {
		if n.c.eval(m, memo) != 1 {
			return false
		}
	}
	for v, d := range st.doms {
		if !d.has(int(m[v])) {
			return false
		}
	}
	return true
}

// checkMerge is a debugging aid: the merged state must agree with each member under that member's own model.
func (x *Exec) checkMerge(pcs []State, models []map[*Expr]uint64, leafs [][]*Expr, vals []*Expr, merged *State, cubes []string) {
	for i := range pcs {
		m := models[i]
		for v := range merged.doms {
			if _, ok := m[v]; !ok {
				m = x.overlay(m, map[*Expr]uint64{v: uint64(pcs[i].dom(v).first())})
			}
		}
		if !pcs[i].satisfies(m) {
			fmt.Println("MCHK model of member does not satisfy it", i)
			continue
		}
		if !merged.satisfies(m) {
			fmt.Println("MCHK merged state excludes member", i)
		}
		for k := range pcs {
			if k != i && pcs[k].satisfies(m) {
				fmt.Println("MCHK members overlap", i, k, cubes)
			}
		}
		memo := map[*Expr]uint64{}
		for j := range vals {
			if vals[j].eval(m, memo) != leafs[i][j].eval(m, memo) {
				fmt.Println("MCHK leaf differs", i, j, leafs[i][j], vals[j])
			}
		}
	}
}

// checkMods verifies that unchanged older objects refer to older objects only.
func (x *Exec) checkMods(outs []Out, base mark) {
	var bad func(v Value) bool
	bad = func(v Value) bool {
		switch v := v.(type) {
		case Ptr:
			return v.obj >= base.next
		case SymPtr:
			return v.obj >= base.next
		case Slice:
			return v.obj >= base.next
		case MapRef:
			return v.obj >= base.next
		case IterRef:
			return v.obj >= base.next
		case Iface:
			return bad(v.val)
		case *Func:
			if v != nil {
				for _, b := range v.bind {
					if bad(b) {
						return true
					}
				}
			}
		case Agg:
			for _, e := range v {
				if bad(e) {
					return true
				}
			}
		case Tuple:
			for _, e := range v {
				if bad(e) {
					return true
				}
			}
		}
		return false
	}
	for id := 1; id < base.next; id++ {
		o := outs[0].st.obj(id)
		same := true
		for _, q := range outs[1:] {
			if q.st.obj(id) != o {
				same = false
			}
		}
		if !same {
			continue
		}
		for _, v := range o.cells {
			if bad(v) {
				fmt.Println("MCHK unchanged object", id, "refers to a new one")
			}
		}
		if o.m != nil {
			for i := range o.m.keys {
				if bad(o.m.keys[i]) || bad(o.m.vals[i]) {
					fmt.Println("MCHK unchanged map", id, "refers to a new object")
				}
			}
		}
	}
}
