package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Expressions: hash-consed terms over booleans and bit-vectors.
// Width 0 is Bool; 1..64 are bit-vectors.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OZExt
	OSExt
	OTrunc
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "ite", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvshl", "bvlshr", "bvashr", "bvult", "bvule", "bvslt", "bvsle", "zext", "sext", "trunc"}

type bitset [4]uint64

func (b bitset) has(i int) bool { return b[i>>6]&(1<<(uint(i)&63)) != 0 }
func (b *bitset) set(i int)     { b[i>>6] |= 1 << (uint(i) & 63) }
func (b bitset) and(c bitset) bitset {
	return bitset{b[0] & c[0], b[1] & c[1], b[2] & c[2], b[3] & c[3]}
}
func (b bitset) or(c bitset) bitset {
	return bitset{b[0] | c[0], b[1] | c[1], b[2] | c[2], b[3] | c[3]}
}
func (b bitset) not() bitset { return bitset{^b[0], ^b[1], ^b[2], ^b[3]} }
func (b bitset) empty() bool { return b[0]|b[1]|b[2]|b[3] == 0 }
func (b bitset) subset(c bitset) bool {
	return b[0]&^c[0] == 0 && b[1]&^c[1] == 0 && b[2]&^c[2] == 0 && b[3]&^c[3] == 0
}
func (b bitset) first() int {
	for i := 0; i < 4; i++ {
		if b[i] != 0 {
			return i*64 + bits.TrailingZeros64(b[i])
		}
	}
	return -1
}
func (b bitset) count() int {
	return bits.OnesCount64(b[0]) + bits.OnesCount64(b[1]) + bits.OnesCount64(b[2]) + bits.OnesCount64(b[3])
}

var fullBits = bitset{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

type Expr struct {
	op      Op
	w       uint8
	id      uint32
	val     uint64
	name    string
	args    []*Expr
	solo    *Expr // the only variable this depends on (nil if none or several)
	multi   bool  // depends on several variables
	hasVars bool
	bs      *bitset // cached set of values of solo (8-bit) that make this Bool true
	emitted bool
	tab     []uint64 // values by the value of solo
}

type ekey struct {
	op         Op
	w          uint8
	val        uint64
	a, b, c    uint32
	n          int
	rest, name string
}

// Ctx owns one expression store (single-threaded).
type Ctx struct {
	tab   map[ekey]*Expr
	next  uint32
	True  *Expr
	False *Expr
	vars  []*Expr
	byNm  map[string]*Expr
	small [65][]*Expr
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[ekey]*Expr{}, byNm: map[string]*Expr{}}
	c.True = c.mk(OConst, 0, 1, "", nil)
	c.False = c.mk(OConst, 0, 0, "", nil)
	return c
}

func (c *Ctx) mk(op Op, w uint8, val uint64, name string, args []*Expr) *Expr {
	k := ekey{op: op, w: w, val: val, name: name, n: len(args)}
	if len(args) > 0 {
		k.a = args[0].id
	}
	if len(args) > 1 {
		k.b = args[1].id
	}
	if len(args) > 2 {
		k.c = args[2].id
	}
	if len(args) > 3 {
		var sb strings.Builder
		for _, a := range args[3:] {
			fmt.Fprintf(&sb, "%d,", a.id)
		}
		k.rest = sb.String()
	}
	if e, ok := c.tab[k]; ok {
		return e
	}
	e := &Expr{op: op, w: w, val: val, name: name, args: args, id: c.next}
	c.next++
	if op == OVar {
		e.hasVars = true
		e.solo = e
	} else {
		for _, a := range args {
			if !a.hasVars {
				continue
			}
			e.hasVars = true
			if a.multi {
				e.multi = true
			} else if e.solo == nil {
				e.solo = a.solo
			} else if e.solo != a.solo {
				e.multi = true
			}
		}
		if e.multi {
			e.solo = nil
		}
	}
	c.tab[k] = e
	return e
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (1 << w) - 1
}
func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (e *Expr) isConst() bool { return e.op == OConst }
func (e *Expr) isTrue() bool  { return e.op == OConst && e.w == 0 && e.val == 1 }
func (e *Expr) isFalse() bool { return e.op == OConst && e.w == 0 && e.val == 0 }

func (c *Ctx) Const(w uint8, v uint64) *Expr {
	v &= mask(w)
	if w == 0 {
		panic("Const w=0")
	}
	if v < 256 {
		s := c.small[w]
		if s == nil {
			s = make([]*Expr, 256)
			c.small[w] = s
		}
		if s[v] == nil {
			s[v] = c.mk(OConst, w, v, "", nil)
		}
		return s[v]
	}
	return c.mk(OConst, w, v, "", nil)
}
func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Var(name string, w uint8) *Expr {
	if e, ok := c.byNm[name]; ok {
		if e.w != w {
			panic("variable redeclared with another width: " + name)
		}
		return e
	}
	e := c.mk(OVar, w, 0, name, nil)
	c.byNm[name] = e
	c.vars = append(c.vars, e)
	return e
}

func (c *Ctx) Not(a *Expr) *Expr {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.mk(ONot, 0, 0, "", []*Expr{a})
}

func (c *Ctx) nary(op Op, xs []*Expr) *Expr {
	unit, zero := c.True, c.False
	if op == OOr {
		unit, zero = c.False, c.True
	}
	seen := map[uint32]bool{}
	var out []*Expr
	var add func(x *Expr) bool
	add = func(x *Expr) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x.id] {
			return true
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if x.op == ONot && seen[x.args[0].id] {
			return false
		}
		if n, ok := c.tab[ekey{op: ONot, n: 1, a: x.id}]; ok && seen[n.id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(op, 0, 0, "", out)
}
func (c *Ctx) And(xs ...*Expr) *Expr { return c.nary(OAnd, xs) }
func (c *Ctx) Or(xs ...*Expr) *Expr  { return c.nary(OOr, xs) }

func (c *Ctx) Ite(p, a, b *Expr) *Expr {
	if p.isConst() {
		if p.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.Or(p, b)
		}
		if a.isFalse() {
			return c.And(c.Not(p), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(p), a)
		}
		if b.isFalse() {
			return c.And(p, a)
		}
	}
	if p.op == ONot {
		return c.Ite(p.args[0], b, a)
	}
	return c.mk(OIte, a.w, 0, "", []*Expr{p, a, b})
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if a.op == ONot && a.args[0] == b || b.op == ONot && b.args[0] == a {
			return c.False
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			in := a.args[0]
			if b.val > mask(in.w) {
				return c.False
			}
			return c.Eq(in, c.Const(in.w, b.val))
		case OSExt:
			in := a.args[0]
			if uint64(sx(b.val&mask(in.w), in.w))&mask(a.w) != b.val {
				return c.False
			}
			return c.Eq(in, c.Const(in.w, b.val))
		case OIte:
			if a.args[1].isConst() || a.args[2].isConst() {
				return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
			}
		case OAdd:
			if a.args[1].isConst() {
				return c.Eq(a.args[0], c.Const(a.w, b.val-a.args[1].val))
			}
		case OSub:
			if a.args[1].isConst() {
				return c.Eq(a.args[0], c.Const(a.w, b.val+a.args[1].val))
			}
		}
	} else {
		if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
			return c.Eq(a.args[0], b.args[0])
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(OEq, 0, 0, "", []*Expr{a, b})
}

func evalBin(op Op, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	}
	panic("evalBin")
}
func evalCmp(op Op, w uint8, a, b uint64) bool {
	switch op {
	case OUlt:
		return a < b
	case OUle:
		return a <= b
	case OSlt:
		return sx(a, w) < sx(b, w)
	case OSle:
		return sx(a, w) <= sx(b, w)
	}
	panic("evalCmp")
}

func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %s width mismatch %d %d", opNames[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Const(w, evalBin(op, w, a.val, b.val))
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch op {
		case OAdd, OSub, OBOr, OBXor, OShl, OLShr, OAShr:
			if b.val == 0 {
				return a
			}
		case OMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		case OUDiv, OSDiv:
			if b.val == 1 {
				return a
			}
		case OBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.op == OZExt && a.args[0].w < w && b.val&mask(a.args[0].w) == mask(a.args[0].w) {
				return a
			}
		}
		if op == OAdd && a.op == OAdd && a.args[1].isConst() {
			return c.Bin(OAdd, a.args[0], c.Const(w, a.args[1].val+b.val))
		}
		if op == OSub {
			return c.Bin(OAdd, a, c.Const(w, -b.val))
		}
	}
	if op == OSub && a == b {
		return c.Const(w, 0)
	}
	return c.mk(op, w, 0, "", []*Expr{a, b})
}

func (c *Ctx) Cmp(op Op, a, b *Expr) *Expr {
	if a.w != b.w {
		panic("Cmp width mismatch")
	}
	if a.isConst() && b.isConst() {
		return c.Bool(evalCmp(op, a.w, a.val, b.val))
	}
	if a == b {
		return c.Bool(op == OUle || op == OSle)
	}
	w := a.w
	// zero-extended operands: compare unsigned at the narrow width
	if (a.op == OZExt && a.args[0].w < w) || (b.op == OZExt && b.args[0].w < w) {
		uop := op
		if op == OSlt {
			uop = OUlt
		} else if op == OSle {
			uop = OUle
		}
		signed := op == OSlt || op == OSle
		if a.op == OZExt && b.isConst() {
			in := a.args[0]
			if signed && sx(b.val, w) < 0 {
				return c.False
			}
			if b.val > mask(in.w) {
				return c.True
			}
			return c.Cmp(uop, in, c.Const(in.w, b.val))
		}
		if b.op == OZExt && a.isConst() {
			in := b.args[0]
			if signed && sx(a.val, w) < 0 {
				return c.True
			}
			if a.val > mask(in.w) {
				return c.False
			}
			return c.Cmp(uop, c.Const(in.w, a.val), in)
		}
		if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
			return c.Cmp(uop, a.args[0], b.args[0])
		}
	}
	if a.op == OIte && b.isConst() && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.Cmp(op, a.args[1], b), c.Cmp(op, a.args[2], b))
	}
	if b.op == OIte && a.isConst() && (b.args[1].isConst() || b.args[2].isConst()) {
		return c.Ite(b.args[0], c.Cmp(op, a, b.args[1]), c.Cmp(op, a, b.args[2]))
	}
	switch op {
	case OUlt:
		if b.isConst() && b.val == 0 || a.isConst() && a.val == mask(w) {
			return c.False
		}
		return c.Not(c.Cmp(OUle, b, a))
	case OUle:
		if a.isConst() && a.val == 0 || b.isConst() && b.val == mask(w) {
			return c.True
		}
	case OSlt:
		return c.Not(c.Cmp(OSle, b, a))
	}
	return c.mk(op, 0, 0, "", []*Expr{a, b})
}

func (c *Ctx) BNot(a *Expr) *Expr {
	if a.isConst() {
		return c.Const(a.w, ^a.val)
	}
	return c.mk(OBNot, a.w, 0, "", []*Expr{a})
}
func (c *Ctx) Neg(a *Expr) *Expr {
	if a.isConst() {
		return c.Const(a.w, -a.val)
	}
	return c.mk(ONeg, a.w, 0, "", []*Expr{a})
}

// Resize converts a bit-vector to width w, extending by sign if signed.
func (c *Ctx) Resize(a *Expr, w uint8, signed bool) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if a.w < w && signed {
			return c.Const(w, uint64(sx(a.val, a.w)))
		}
		return c.Const(w, a.val)
	}
	if w < a.w {
		if (a.op == OZExt || a.op == OSExt) && a.args[0].w <= w {
			return c.Resize(a.args[0], w, a.op == OSExt)
		}
		if a.op == OIte {
			return c.Ite(a.args[0], c.Resize(a.args[1], w, signed), c.Resize(a.args[2], w, signed))
		}
		return c.mk(OTrunc, w, 0, "", []*Expr{a})
	}
	if a.op == OZExt {
		return c.Resize(a.args[0], w, false)
	}
	if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
		return c.Ite(a.args[0], c.Resize(a.args[1], w, signed), c.Resize(a.args[2], w, signed))
	}
	if signed {
		return c.mk(OSExt, w, 0, "", []*Expr{a})
	}
	return c.mk(OZExt, w, 0, "", []*Expr{a})
}

// eval evaluates e under an assignment of variables (missing ones are 0).
func (e *Expr) eval(m map[*Expr]uint64, memo map[*Expr]uint64) uint64 {
	switch e.op {
	case OConst:
		return e.val
	case OVar:
		return m[e]
	}
	if v, ok := memo[e]; ok {
		return v
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch e.op {
	case ONot:
		r = 1 - e.args[0].eval(m, memo)
	case OAnd:
		r = 1
		for _, a := range e.args {
			if a.eval(m, memo) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for _, a := range e.args {
			if a.eval(m, memo) == 1 {
				r = 1
				break
			}
		}
	case OEq:
		r = b2u(e.args[0].eval(m, memo) == e.args[1].eval(m, memo))
	case OIte:
		if e.args[0].eval(m, memo) == 1 {
			r = e.args[1].eval(m, memo)
		} else {
			r = e.args[2].eval(m, memo)
		}
	case OUlt, OUle, OSlt, OSle:
		r = b2u(evalCmp(e.op, e.args[0].w, e.args[0].eval(m, memo), e.args[1].eval(m, memo)))
	case OBNot:
		r = ^e.args[0].eval(m, memo) & mask(e.w)
	case ONeg:
		r = -e.args[0].eval(m, memo) & mask(e.w)
	case OZExt:
		r = e.args[0].eval(m, memo)
	case OSExt:
		r = uint64(sx(e.args[0].eval(m, memo), e.args[0].w)) & mask(e.w)
	case OTrunc:
		r = e.args[0].eval(m, memo) & mask(e.w)
	default:
		r = evalBin(e.op, e.w, e.args[0].eval(m, memo), e.args[1].eval(m, memo))
	}
	memo[e] = r
	return r
}

// soloBits returns the set of values of the single variable (width <= 8) for which Bool e is true.
func (e *Expr) soloBits() (v *Expr, b bitset, ok bool) {
	if e.w != 0 || e.solo == nil || e.solo.w > 8 {
		return nil, bitset{}, false
	}
	if e.bs == nil {
		n := 2
		if e.solo.w > 0 {
			n = 1 << e.solo.w
		}
		var bs bitset
		m := map[*Expr]uint64{}
		memo := map[*Expr]uint64{}
		for i := 0; i < n; i++ {
			m[e.solo] = uint64(i)
			clear(memo)
			if e.eval(m, memo) == 1 {
				bs.set(i)
			}
		}
		e.bs = &bs
	}
	return e.solo, *e.bs, true
}

func domFull(v *Expr) bitset {
	if v.w == 0 {
		return bitset{3}
	}
	if v.w == 8 {
		return fullBits
	}
	var b bitset
	for i := 0; i < 1<<v.w; i++ {
		b.set(i)
	}
	return b
}

// domExpr builds the expression "v in b".
func (c *Ctx) domExpr(v *Expr, b bitset) *Expr {
	if b == domFull(v) {
		return c.True
	}
	if v.w == 0 {
		switch b[0] {
		case 1:
			return c.Not(v)
		case 2:
			return v
		case 0:
			return c.False
		}
		return c.True
	}
	n := 1 << v.w
	var ors []*Expr
	for i := 0; i < n; {
		if !b.has(i) {
			i++
			continue
		}
		j := i
		for j+1 < n && b.has(j+1) {
			j++
		}
		if i == j {
			ors = append(ors, c.Eq(v, c.Const(v.w, uint64(i))))
		} else {
			ors = append(ors, c.And(c.Cmp(OUle, c.Const(v.w, uint64(i)), v), c.Cmp(OUle, v, c.Const(v.w, uint64(j)))))
		}
		i = j + 1
	}
	return c.Or(ors...)
}

func (e *Expr) String() string {
	switch e.op {
	case OConst:
		if e.w == 0 {
			return fmt.Sprint(e.val == 1)
		}
		return fmt.Sprintf("%d", e.val)
	case OVar:
		return e.name
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(%s", opNames[e.op])
	for _, a := range e.args {
		s := a.String()
		sb.WriteString(" " + s)
		if sb.Len() > 600 {
			sb.WriteString("...")
			break
		}
	}
	sb.WriteString(")")
	return sb.String()
}
