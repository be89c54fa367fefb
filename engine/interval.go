package main

// ranger computes unsigned bounds of expressions from the byte domains (an over-approximation).
type ranger struct {
	dom  func(v *Expr) bitset
	memo map[*Expr][2]uint64
}

// soloTab lists the values of e for each value of its only variable.
func (e *Expr) soloTab() []uint64 {
	if e.tab == nil {
		n := 2
		if e.solo.w > 0 {
			n = 1 << e.solo.w
		}
		t := make([]uint64, n)
		m := map[*Expr]uint64{}
		memo := map[*Expr]uint64{}
		for i := range t {
			m[e.solo] = uint64(i)
			clear(memo)
			t[i] = e.eval(m, memo)
		}
		e.tab = t
	}
	return e.tab
}

func (r *ranger) rng(e *Expr) (uint64, uint64) {
	if e.isConst() {
		return e.val, e.val
	}
	top := mask(e.w)
	if e.solo != nil && e.solo.w <= 8 {
		t := e.soloTab()
		d := r.dom(e.solo)
		lo, hi := top, uint64(0)
		for i, v := range t {
			if d.has(i) {
				lo, hi = min(lo, v), max(hi, v)
			}
		}
		if lo > hi {
			return 0, top
		}
		return lo, hi
	}
	if v, ok := r.memo[e]; ok {
		return v[0], v[1]
	}
	lo, hi := r.rng1(e, top)
	r.memo[e] = [2]uint64{lo, hi}
	return lo, hi
}

func (r *ranger) rng1(e *Expr, top uint64) (uint64, uint64) {
	switch e.op {
	case OIte:
		switch r.truth(e.args[0]) {
		case 1:
			return r.rng(e.args[1])
		case -1:
			return r.rng(e.args[2])
		}
		a, b := r.rng(e.args[1])
		c, d := r.rng(e.args[2])
		return min(a, c), max(b, d)
	case OZExt:
		return r.rng(e.args[0])
	case OSExt:
		a, b := r.rng(e.args[0])
		if b < 1<<(e.args[0].w-1) {
			return a, b
		}
	case OTrunc:
		a, b := r.rng(e.args[0])
		if b <= top {
			return a, b
		}
	case OAdd:
		a, b := r.rng(e.args[0])
		c, d := r.rng(e.args[1])
		if b <= top>>1 && d <= top>>1 {
			return a + c, b + d
		}
	case OSub:
		a, b := r.rng(e.args[0])
		c, d := r.rng(e.args[1])
		if a >= d {
			return a - d, b - c
		}
	case OBOr, OBXor:
		a, b := r.rng(e.args[0])
		c, d := r.rng(e.args[1])
		m := b | d
		for s := uint(1); s < 64; s <<= 1 {
			m |= m >> s
		}
		if e.op == OBXor {
			return 0, m
		}
		return max(a, c), m
	case OBAnd:
		_, b := r.rng(e.args[0])
		_, d := r.rng(e.args[1])
		return 0, min(b, d)
	case OShl:
		if k := e.args[1]; k.isConst() && k.val < 64 {
			a, b := r.rng(e.args[0])
			if b<<k.val>>k.val == b && b<<k.val <= top {
				return a << k.val, b << k.val
			}
		}
	case OLShr:
		if k := e.args[1]; k.isConst() && k.val < 64 {
			a, b := r.rng(e.args[0])
			return a >> k.val, b >> k.val
		}
	}
	return 0, top
}

// truth is 1 if e always holds under the domains, -1 if it never does, 0 if undetermined.
func (r *ranger) truth(e *Expr) int {
	if e.isConst() {
		if e.val == 1 {
			return 1
		}
		return -1
	}
	if v, b, ok := e.soloBits(); ok {
		d := r.dom(v)
		if d.subset(b) {
			return 1
		}
		if d.and(b).empty() {
			return -1
		}
		return 0
	}
	switch e.op {
	case ONot:
		return -r.truth(e.args[0])
	case OAnd, OOr, OIte:
		if v, ok := r.memo[e]; ok {
			return int(v[0]) - 1
		}
		t := 0
		if e.op == OIte {
			switch r.truth(e.args[0]) {
			case 1:
				t = r.truth(e.args[1])
			case -1:
				t = r.truth(e.args[2])
			default:
				if a := r.truth(e.args[1]); a == r.truth(e.args[2]) {
					t = a
				}
			}
		} else {
			dec := 1
			if e.op == OAnd {
				dec = -1
			}
			t = -dec
			for _, a := range e.args {
				q := r.truth(a)
				if q == dec {
					t = dec
					break
				}
				if q == 0 {
					t = 0
				}
			}
		}
		r.memo[e] = [2]uint64{uint64(t + 1), 0}
		return t
	case OEq, OUlt, OUle, OSlt, OSle:
		if e.args[0].w == 0 {
			return 0
		}
		a, b := r.rng(e.args[0])
		c, d := r.rng(e.args[1])
		switch e.op {
		case OEq:
			if b < c || d < a {
				return -1
			}
			return 0
		case OSlt, OSle:
			if s := uint64(1) << (e.args[0].w - 1); b >= s || d >= s {
				return 0
			}
		}
		if e.op == OUlt || e.op == OSlt {
			if b < c {
				return 1
			}
			if a >= d {
				return -1
			}
			return 0
		}
		if b <= c {
			return 1
		}
		if a > d {
			return -1
		}
	}
	return 0
}

func (x *Exec) truth(st *State, e *Expr) int {
	r := &ranger{dom: st.dom, memo: map[*Expr][2]uint64{}}
	return r.truth(e)
}
