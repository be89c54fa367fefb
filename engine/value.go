package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Expr (bool, integers), *Str, Ptr, SymPtr, Slice, MapRef, Iface, *Func, Agg, Tuple, Float.
type Value interface{}

// Str is a string of concrete length; its bytes may be symbolic.
type Str struct {
	lit string
	b   []*Expr // nil if literal
}

type Ptr struct {
	obj, off int // obj 0 is nil
}

// SymPtr points at cell base+idx*stride for a symbolic idx known to be in 0..n-1.
type SymPtr struct {
	obj, base, stride, n int
	idx                  *Expr
}
type Slice struct {
	obj, off, len, cap int // obj 0 and cap 0: nil slice; off in cells
}
type MapRef struct{ obj int }
type Iface struct {
	typ types.Type // nil: nil interface
	val Value
}
type Func struct {
	fn   *ssa.Function
	bind []Value
	bi   *ssa.Builtin
}
type Agg []Value
type Tuple []Value
type Float float64

// IterRef is a map or string iterator (heap object).
type IterRef struct{ obj int }

type Obj struct {
	owner uint64
	epoch uint64
	cells []Value
	m     *MapData
	iter  *Iter
}
type MapData struct {
	keys, vals []Value
	ksz, vsz   int
}
type Iter struct {
	m       int   // map object
	rest    []int // unused
	left    []Value
	started bool
	str     *Str
	pos     int
	rev     bool
}

const chunkBits = 6
const chunkSize = 1 << chunkBits

type chunk struct {
	owner uint64
	o     [chunkSize]*Obj
}

type wnode struct {
	obj   int
	prev  *wnode
	depth int32
	next  int
}
type pcnode struct {
	c    *Expr
	prev *pcnode
	fixE *Expr
	fixV uint64
	n    int
}

type State struct {
	tok       uint64
	epoch     uint64
	chunks    []*chunk
	chunksOwn bool
	next      int
	wlog      *wnode
	pc        *pcnode
	doms      map[*Expr]bitset
	domsOwn   bool
	rel       map[*Expr]bool // variables occurring in relational conjuncts
	relOwn    bool
	model     map[*Expr]uint64
	steps     int
	panicking *PanicVal
	note      *notes // trail of choices for reporting
}

type notes struct {
	s    string
	prev *notes
}

type PanicVal struct {
	val Value  // value given to panic (Iface), if any
	msg string // description
}

func lit(s string) *Str { return &Str{lit: s} }

func (s *Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.lit)
}
func (s *Str) isLit() bool { return s.b == nil }
func (s *Str) at(c *Ctx, i int) *Expr {
	if s.b != nil {
		return s.b[i]
	}
	return c.Const(8, uint64(s.lit[i]))
}
func mkStr(b []*Expr) *Str {
	all := true
	for _, e := range b {
		if !e.isConst() {
			all = false
			break
		}
	}
	if all {
		buf := make([]byte, len(b))
		for i, e := range b {
			buf[i] = byte(e.val)
		}
		return &Str{lit: string(buf)}
	}
	return &Str{b: b}
}
func (s *Str) sub(i, j int) *Str {
	if s.b == nil {
		return &Str{lit: s.lit[i:j]}
	}
	return mkStr(s.b[i:j:j])
}
func (s *Str) bytes(c *Ctx) []*Expr {
	if s.b != nil {
		return s.b
	}
	out := make([]*Expr, len(s.lit))
	for i := range out {
		out[i] = c.Const(8, uint64(s.lit[i]))
	}
	return out
}
func concat(c *Ctx, a, b *Str) *Str {
	if a.b == nil && b.b == nil {
		return &Str{lit: a.lit + b.lit}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	out := make([]*Expr, 0, a.Len()+b.Len())
	out = append(out, a.bytes(c)...)
	out = append(out, b.bytes(c)...)
	return &Str{b: out}
}
func (c *Ctx) strEq(a, b *Str) *Expr {
	if a.Len() != b.Len() {
		return c.False
	}
	if a.b == nil && b.b == nil {
		return c.Bool(a.lit == b.lit)
	}
	xs := make([]*Expr, 0, a.Len())
	for i := 0; i < a.Len(); i++ {
		e := c.Eq(a.at(c, i), b.at(c, i))
		if e.isFalse() {
			return e
		}
		xs = append(xs, e)
	}
	return c.And(xs...)
}

// strLess builds a < b (bytewise).
func (c *Ctx) strLess(a, b *Str, orEq bool) *Expr {
	if a.b == nil && b.b == nil {
		if orEq {
			return c.Bool(a.lit <= b.lit)
		}
		return c.Bool(a.lit < b.lit)
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	var res *Expr
	if orEq {
		res = c.Bool(a.Len() <= b.Len())
	} else {
		res = c.Bool(a.Len() < b.Len())
	}
	for i := n - 1; i >= 0; i-- {
		x, y := a.at(c, i), b.at(c, i)
		res = c.Or(c.Cmp(OUlt, x, y), c.And(c.Eq(x, y), res))
	}
	return res
}

func (s *Str) String() string {
	if s.b == nil {
		return fmt.Sprintf("%q", s.lit)
	}
	var sb strings.Builder
	sb.WriteByte('<')
	for _, e := range s.b {
		if e.isConst() {
			sb.WriteByte(byte(e.val))
		} else {
			sb.WriteByte('?')
		}
	}
	sb.WriteByte('>')
	return sb.String()
}

// ---- heap ----

// log records that this state modifies (or creates) an object.
func (st *State) log(id int) {
	d := int32(1)
	if st.wlog != nil {
		d = st.wlog.depth + 1
	}
	st.wlog = &wnode{obj: id, prev: st.wlog, depth: d, next: st.next}
}

func (st *State) obj(id int) *Obj { return st.chunks[id>>chunkBits].o[id&(chunkSize-1)] }

func (st *State) ownChunk(ci int) *chunk {
	if !st.chunksOwn {
		st.chunks = append(make([]*chunk, 0, len(st.chunks)+8), st.chunks...)
		st.chunksOwn = true
	}
	ch := st.chunks[ci]
	if ch.owner != st.tok {
		n := *ch
		n.owner = st.tok
		ch = &n
		st.chunks[ci] = ch
	}
	return ch
}

// wobj returns the object ready to be modified by this state.
func (st *State) wobj(id int) *Obj {
	o := st.obj(id)
	if o.owner != st.tok {
		ch := st.ownChunk(id >> chunkBits)
		n := &Obj{owner: st.tok, epoch: o.epoch}
		if o.cells != nil {
			n.cells = append(make([]Value, 0, len(o.cells)), o.cells...)
		}
		if o.m != nil {
			n.m = &MapData{keys: append([]Value(nil), o.m.keys...), vals: append([]Value(nil), o.m.vals...), ksz: o.m.ksz, vsz: o.m.vsz}
		}
		if o.iter != nil {
			it := *o.iter
			n.iter = &it
		}
		ch.o[id&(chunkSize-1)] = n
		o = n
	}
	if o.epoch != st.epoch {
		o.epoch = st.epoch
		st.log(id)
	}
	return o
}

func (st *State) alloc(o *Obj) int {
	id := st.next
	st.next++
	ci := id >> chunkBits
	for ci >= len(st.chunks) {
		if !st.chunksOwn {
			st.chunks = append(make([]*chunk, 0, len(st.chunks)+8), st.chunks...)
			st.chunksOwn = true
		}
		st.chunks = append(st.chunks, &chunk{owner: st.tok})
	}
	o.owner = st.tok
	o.epoch = st.epoch
	st.log(id)
	st.ownChunk(ci).o[id&(chunkSize-1)] = o
	return id
}

func (x *Exec) fork(st *State) *State {
	n := *st
	x.tokens++
	n.tok = x.tokens
	x.tokens++
	st.tok = x.tokens
	n.chunksOwn, st.chunksOwn = false, false
	n.domsOwn, st.domsOwn = false, false
	n.relOwn, st.relOwn = false, false
	x.Forks++
	return &n
}

// newBase starts a new merge region for the state.
func (x *Exec) newBase(st *State) {
	x.tokens++
	st.epoch = x.tokens
}

func (st *State) dom(v *Expr) bitset {
	if b, ok := st.doms[v]; ok {
		return b
	}
	return domFull(v)
}
func (st *State) setDom(v *Expr, b bitset) {
	if !st.domsOwn {
		n := make(map[*Expr]bitset, len(st.doms)+4)
		for k, x := range st.doms {
			n[k] = x
		}
		st.doms = n
		st.domsOwn = true
	}
	st.doms[v] = b
}
func (st *State) markRel(e *Expr) {
	vs := collectVars([]*Expr{e})
	for _, v := range vs {
		if !st.rel[v] {
			if !st.relOwn {
				n := make(map[*Expr]bool, len(st.rel)+4)
				for k := range st.rel {
					n[k] = true
				}
				st.rel = n
				st.relOwn = true
			}
			st.rel[v] = true
		}
	}
}

// ---- types ----

// cellsOf is the number of cells a value of type t occupies.
func (x *Exec) cellsOf(t types.Type) int {
	if n, ok := x.szCache[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += x.cellsOf(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * x.cellsOf(u.Elem())
	case *types.Tuple:
		n = u.Len()
	}
	x.szCache[t] = n
	return n
}
func (x *Exec) fieldOff(st *types.Struct, i int) int {
	offs, ok := x.offCache[st]
	if !ok {
		o := 0
		for j := 0; j < st.NumFields(); j++ {
			offs = append(offs, o)
			o += x.cellsOf(st.Field(j).Type())
		}
		x.offCache[st] = offs
	}
	return offs[i]
}
func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func widthOf(b *types.Basic) (uint8, bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 255, false
}

func (x *Exec) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return emptyStr
		}
		if u.Info()&types.IsFloat != 0 {
			return Float(0)
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return Ptr{}
		}
		w, _ := widthOf(u)
		if w == 255 {
			unsupported("zero value of %s", t)
		}
		if w == 0 {
			return x.c.False
		}
		return x.c.Const(w, 0)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapRef{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Func)(nil)
	case *types.Chan:
		return Ptr{}
	case *types.Struct, *types.Array:
		a := make(Agg, 0, x.cellsOf(t))
		return x.zeroCells(t, a)
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = x.zero(u.At(i).Type())
		}
		return tp
	}
	unsupported("zero value of %s", t)
	return nil
}

var emptyStr = lit("")

func (x *Exec) zeroCells(t types.Type, a Agg) Agg {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			a = x.zeroCells(u.Field(i).Type(), a)
		}
		return a
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			a = x.zeroCells(u.Elem(), a)
		}
		return a
	}
	return append(a, x.zero(t))
}

// loadCells reads a value of type t at (obj, off).
func (x *Exec) loadAt(st *State, obj, off int, t types.Type) Value {
	o := st.obj(obj)
	if isAgg(t) {
		n := x.cellsOf(t)
		return append(make(Agg, 0, n), o.cells[off:off+n]...)
	}
	return o.cells[off]
}
func (x *Exec) storeAt(st *State, obj, off int, v Value) {
	o := st.wobj(obj)
	if a, ok := v.(Agg); ok {
		copy(o.cells[off:off+len(a)], a)
		return
	}
	o.cells[off] = v
}

// flat appends the cells of v.
func flat(out []Value, v Value) []Value {
	if a, ok := v.(Agg); ok {
		return append(out, a...)
	}
	return append(out, v)
}
func (x *Exec) unflat(cells []Value, t types.Type) Value {
	if isAgg(t) {
		return append(make(Agg, 0, len(cells)), cells...)
	}
	return cells[0]
}

type unsupErr struct{ msg string }

func unsupported(f string, args ...interface{}) {
	panic(unsupErr{fmt.Sprintf(f, args...)})
}

// valEq builds the equality of two values of static type t.
func (x *Exec) valEq(a, b Value, t types.Type) *Expr {
	c := x.c
	switch av := a.(type) {
	case *Expr:
		return c.Eq(av, b.(*Expr))
	case *Str:
		return c.strEq(av, b.(*Str))
	case Ptr:
		return c.Bool(av == b.(Ptr))
	case MapRef:
		return c.Bool(av == b.(MapRef))
	case Slice: // only against nil
		bv := b.(Slice)
		return c.Bool(av.obj == bv.obj && (av.obj == 0 || av == bv))
	case *Func:
		bv := b.(*Func)
		return c.Bool(av == bv)
	case Float:
		return c.Bool(av == b.(Float))
	case Iface:
		bv, ok := b.(Iface)
		if !ok {
			unsupported("comparing interface with %T", b)
		}
		if av.typ == nil || bv.typ == nil {
			return c.Bool(av.typ == nil && bv.typ == nil)
		}
		if !types.Identical(av.typ, bv.typ) {
			return c.False
		}
		if !types.Comparable(av.typ) {
			panic(goPanic{"runtime error: comparing uncomparable type " + av.typ.String()})
		}
		return x.valEq(av.val, bv.val, av.typ)
	case Agg:
		bv := b.(Agg)
		xs := make([]*Expr, 0, len(av))
		// cells of a struct compare one by one; blank fields are rare enough to ignore
		for i := range av {
			e := x.valEq(av[i], bv[i], nil)
			if e.isFalse() {
				return e
			}
			xs = append(xs, e)
		}
		return c.And(xs...)
	}
	unsupported("comparing %T", a)
	return nil
}

// goPanic is raised inside instruction evaluation for a Go run-time panic on the current path.
type goPanic struct{ msg string }
