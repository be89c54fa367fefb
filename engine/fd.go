package main

// A small decision procedure for the conditions that dominate path pruning: boolean combinations of
// constraints that each concern one byte. It answers only when it is certain; everything else, and every
// assertion, goes to the SMT solver.

type fdSearch struct {
	x     *Exec
	nodes int
	work  int // visits; a bound keeps the procedure cheap
}

type fdState struct {
	dom   map[*Expr]bitset
	ors   [][]*Expr
	resid []*Expr
}

const (
	fdLimit = 2000
	fdWork  = 3000
)

// fdSolve decides the conjunction of cs with the byte domains of st.
func (x *Exec) fdSolve(st *State, cs []*Expr) (Sat, map[*Expr]uint64) {
	f := &fdSearch{x: x}
	s := &fdState{dom: map[*Expr]bitset{}}
	for _, v := range func() []*Expr {
		var vs []*Expr
		seen := map[*Expr]bool{}
		for _, c := range cs {
			for _, v := range x.vars(c) {
				if !seen[v] {
					seen[v] = true
					vs = append(vs, v)
				}
			}
		}
		return vs
	}() {
		if v.w > 8 {
			return SatUnknown, nil
		}
		s.dom[v] = st.dom(v)
	}
	return f.search(s, cs)
}

func (f *fdSearch) add(s *fdState, c *Expr, neg bool) bool {
	f.work++
	for c.op == ONot {
		c, neg = c.args[0], !neg
	}
	if c.isConst() {
		return (c.val == 1) != neg
	}
	if v, b, ok := c.soloBits(); ok {
		if neg {
			b = b.not()
		}
		d := s.dom[v].and(b)
		s.dom[v] = d
		return !d.empty()
	}
	switch {
	case c.op == OAnd && !neg, c.op == OOr && neg:
		for _, a := range c.args {
			if !f.add(s, a, neg) {
				return false
			}
		}
		return true
	case c.op == OOr && !neg:
		s.ors = append(s.ors, c.args)
		return true
	case c.op == OAnd && neg:
		n := make([]*Expr, len(c.args))
		for i, a := range c.args {
			n[i] = f.x.c.Not(a)
		}
		s.ors = append(s.ors, n)
		return true
	case c.op == OIte && c.w == 0:
		cx := f.x.c
		a, b := c.args[1], c.args[2]
		if neg {
			a, b = cx.Not(a), cx.Not(b)
		}
		s.ors = append(s.ors, []*Expr{cx.And(c.args[0], a), cx.And(cx.Not(c.args[0]), b)})
		return true
	}
	if neg {
		c = f.x.c.Not(c)
	}
	if q := f.quick(s, c); q != 0 {
		return q > 0
	}
	s.resid = append(s.resid, c)
	return true
}

// quick reports whether c is already impossible (-1), already true (1) or open (0) under the domains.
func (f *fdSearch) quick(s *fdState, c *Expr) int {
	r := &ranger{dom: func(v *Expr) bitset { return s.dom[v] }, memo: map[*Expr][2]uint64{}}
	q := r.truth(c)
	f.work += 1 + len(r.memo)
	return q
}

func (s *fdState) clone() *fdState {
	n := &fdState{dom: make(map[*Expr]bitset, len(s.dom))}
	for k, v := range s.dom {
		n.dom[k] = v
	}
	n.ors = append([][]*Expr(nil), s.ors...)
	n.resid = append([]*Expr(nil), s.resid...)
	return n
}

func (f *fdSearch) search(s *fdState, add []*Expr) (Sat, map[*Expr]uint64) {
	f.nodes++
	if f.nodes > fdLimit || f.work > fdWork {
		return SatUnknown, nil
	}
	for _, c := range add {
		if !f.add(s, c, false) {
			return SatNo, nil
		}
	}
	// propagate
	for changed := true; changed; {
		changed = false
		var keep [][]*Expr
		ors := s.ors
		s.ors = nil
		for _, o := range ors {
			var live []*Expr
			done := false
			for _, a := range o {
				switch f.quick(s, a) {
				case 1:
					done = true
				case 0:
					live = append(live, a)
				}
				if done {
					break
				}
			}
			if done {
				continue
			}
			if len(live) == 0 {
				return SatNo, nil
			}
			if len(live) == 1 {
				if !f.add(s, live[0], false) {
					return SatNo, nil
				}
				changed = true
				continue
			}
			keep = append(keep, live)
		}
		s.ors = append(keep, s.ors...)
	}
	if len(s.ors) == 0 {
		return f.leaf(s)
	}
	best := 0
	for i, o := range s.ors {
		if len(o) < len(s.ors[best]) {
			best = i
		}
	}
	o := s.ors[best]
	s.ors = append(s.ors[:best:best], s.ors[best+1:]...)
	unknown := false
	for _, a := range o {
		r, m := f.search(s.clone(), []*Expr{a})
		if r == SatYes {
			return r, m
		}
		if r == SatUnknown {
			unknown = true
			if f.nodes > fdLimit || f.work > fdWork {
				return SatUnknown, nil
			}
		}
	}
	if unknown {
		return SatUnknown, nil
	}
	return SatNo, nil
}

func (f *fdSearch) leaf(s *fdState) (Sat, map[*Expr]uint64) {
	m := make(map[*Expr]uint64, len(s.dom))
	for v, d := range s.dom {
		m[v] = uint64(d.first())
	}
	k := 0
	for _, c := range s.resid {
		switch f.quick(s, c) {
		case -1:
			return SatNo, nil
		case 0:
			s.resid[k] = c
			k++
		}
	}
	s.resid = s.resid[:k]
	if k == 0 {
		return SatYes, m
	}
	ok := func() bool {
		for _, c := range s.resid {
			if c.eval(m, map[*Expr]uint64{}) != 1 {
				return false
			}
		}
		return true
	}
	if ok() {
		return SatYes, m
	}
	// a few other assignments; the SMT solver decides otherwise
	vars := collectVars(s.resid)
	for try := 1; try < 8; try++ {
		for i, v := range vars {
			d := s.dom[v]
			n := (try*(i+3) + i) % d.count()
			for b := 0; b < 256; b++ {
				if d.has(b) {
					if n == 0 {
						m[v] = uint64(b)
						break
					}
					n--
				}
			}
		}
		if ok() {
			return SatYes, m
		}
	}
	return SatUnknown, nil
}
