package main

import "sort"

// A cube is a conjunction of facts: "v in set" for byte variables, truth for other conditions.
type cube struct {
	m map[*Expr]bitset
	h uint64
}

func mix(id uint32, b bitset) uint64 {
	h := uint64(id)*0x9E3779B97F4A7C15 + 0x1234567
	for _, w := range b {
		h ^= w
		h *= 0xff51afd7ed558ccd
		h ^= h >> 33
	}
	return h
}
func (q *cube) put(e *Expr, b bitset) {
	if o, ok := q.m[e]; ok {
		q.h ^= mix(e.id, o)
	}
	q.m[e] = b
	q.h ^= mix(e.id, b)
}
func (q *cube) del(e *Expr) {
	if o, ok := q.m[e]; ok {
		q.h ^= mix(e.id, o)
		delete(q.m, e)
	}
}

// cubeOf describes what st knows beyond base.
func (x *Exec) cubeOf(st *State, base mark) *cube {
	q := &cube{m: map[*Expr]bitset{}}
	for n := st.pc; n != base.pc && n != nil; n = n.prev {
		if !n.c.hasVars {
			continue
		}
		if _, _, ok := n.c.soloBits(); ok {
			continue // in the domains
		}
		e, b := n.c, bitset{2}
		if e.op == ONot {
			e, b = e.args[0], bitset{1}
		}
		if o, ok := q.m[e]; ok {
			b = b.and(o)
		}
		q.put(e, b)
	}
	for v, d := range st.doms {
		bd, ok := base.doms[v]
		if !ok {
			bd = domFull(v)
		}
		if d != bd {
			q.put(v, d)
		}
	}
	return q
}

func sameBut(a, b *cube, e *Expr) bool {
	if len(a.m) != len(b.m) {
		return false
	}
	for k, v := range a.m {
		if k == e {
			continue
		}
		if w, ok := b.m[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// compress joins cubes that differ in one fact only and drops cubes implied by others.
func (x *Exec) compress(qs []*cube, base mark) []*cube {
	full := func(e *Expr, b bitset) bool {
		if e.op == OVar && e.w <= 8 {
			bd, ok := base.doms[e]
			if !ok {
				bd = domFull(e)
			}
			return bd.subset(b)
		}
		return b[0]&3 == 3
	}
	for changed := true; changed && len(qs) > 1; {
		changed = false
		seen := map[*Expr]bool{}
		var atoms []*Expr
		for _, q := range qs {
			for e := range q.m {
				if !seen[e] {
					seen[e] = true
					atoms = append(atoms, e)
				}
			}
		}
		sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
		for _, e := range atoms {
			by := map[uint64]*cube{}
			k := 0
			for _, q := range qs {
				b, ok := q.m[e]
				if !ok {
					qs[k] = q
					k++
					continue
				}
				h := q.h ^ mix(e.id, b)
				if p, ok := by[h]; ok && sameBut(p, q, e) {
					p.put(e, p.m[e].or(b))
					changed = true
					continue
				}
				by[h] = q
				qs[k] = q
				k++
			}
			qs = qs[:k]
			for _, q := range by {
				if full(e, q.m[e]) {
					q.del(e)
					changed = true
				}
			}
		}
		if len(qs) <= 100 {
			for i := 0; i < len(qs); i++ {
				for j := 0; j < len(qs); j++ {
					if i == j || len(qs[i].m) > len(qs[j].m) {
						continue
					}
					// j implies i: drop j
					imp := true
					for e, b := range qs[i].m {
						c, ok := qs[j].m[e]
						if !ok || !c.subset(b) {
							imp = false
							break
						}
					}
					if imp {
						qs = append(qs[:j:j], qs[j+1:]...)
						if j < i {
							i--
						}
						j--
						changed = true
					}
				}
			}
		}
	}
	return qs
}

func (x *Exec) factExpr(e *Expr, b bitset) *Expr {
	if e.op == OVar && e.w <= 8 && e.w > 0 {
		return x.c.domExpr(e, b)
	}
	switch b[0] & 3 {
	case 2:
		return e
	case 1:
		return x.c.Not(e)
	case 3:
		return x.c.True
	}
	return x.c.False
}

func (x *Exec) cubeExpr(q *cube) *Expr {
	var es []*Expr
	for e := range q.m {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].id < es[j].id })
	for i, e := range es {
		es[i] = x.factExpr(e, q.m[e])
	}
	return x.c.And(es...)
}
