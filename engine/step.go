package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// step executes one single-outcome instruction.
func (x *Exec) step(cur *cursor, pi *PIns) {
	st := cur.st
	regs := cur.fr.regs
	switch in := pi.in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		cells := x.zeroCells(t, make(Agg, 0, x.cellsOf(t)))
		regs[pi.dst] = Ptr{st.alloc(&Obj{cells: cells}), 0}
	case *ssa.Store:
		x.store(st, cur.get(pi.ops[0]), cur.get(pi.ops[1]))
	case *ssa.UnOp:
		regs[pi.dst] = x.unop(st, in, cur.get(pi.ops[0]))
	case *ssa.BinOp:
		regs[pi.dst] = x.binop(st, in.Op, cur.get(pi.ops[0]), cur.get(pi.ops[1]), in.X.Type(), in.Y.Type())
	case *ssa.FieldAddr:
		stt := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		off := x.fieldOff(stt, in.Field)
		switch p := cur.get(pi.ops[0]).(type) {
		case Ptr:
			if p.obj == 0 {
				panic(goPanic{"runtime error: invalid memory address or nil pointer dereference"})
			}
			regs[pi.dst] = Ptr{p.obj, p.off + off}
		default:
			unsupported("field of %T", p)
		}
	case *ssa.Field:
		stt := in.X.Type().Underlying().(*types.Struct)
		off := x.fieldOff(stt, in.Field)
		a := cur.get(pi.ops[0]).(Agg)
		ft := stt.Field(in.Field).Type()
		regs[pi.dst] = x.unflat(a[off:off+x.cellsOf(ft)], ft)
	case *ssa.IndexAddr:
		regs[pi.dst] = x.indexAddr(st, in, cur.get(pi.ops[0]), cur.get(pi.ops[1]).(*Expr))
	case *ssa.Index:
		regs[pi.dst] = x.index(st, in, cur.get(pi.ops[0]), cur.get(pi.ops[1]).(*Expr))
	case *ssa.Extract:
		regs[pi.dst] = cur.get(pi.ops[0]).(Tuple)[in.Index]
	case *ssa.MakeInterface:
		regs[pi.dst] = Iface{typ: x.canon(in.X.Type()), val: cur.get(pi.ops[0])}
	case *ssa.ChangeInterface:
		regs[pi.dst] = cur.get(pi.ops[0])
	case *ssa.ChangeType:
		regs[pi.dst] = cur.get(pi.ops[0])
	case *ssa.Convert:
		regs[pi.dst] = x.convert(st, cur.get(pi.ops[0]), in.X.Type(), in.Type())
	case *ssa.TypeAssert:
		regs[pi.dst] = x.typeAssert(st, in, cur.get(pi.ops[0]).(Iface))
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		bind := make([]Value, len(pi.ops)-1)
		for i, o := range pi.ops[1:] {
			bind[i] = cur.get(o)
		}
		regs[pi.dst] = &Func{fn: fn, bind: bind}
	case *ssa.MakeSlice:
		n := x.concInt(st, cur.get(pi.ops[0]))
		c := x.concInt(st, cur.get(pi.ops[1]))
		if n < 0 || c < n {
			panic(goPanic{"runtime error: makeslice: len out of range"})
		}
		if sz := x.c64size(in.Type().Underlying().(*types.Slice).Elem()); sz > 0 && int64(c) > (1<<47)/sz {
			if int64(n) > (1<<47)/sz {
				panic(goPanic{"runtime error: makeslice: len out of range"})
			}
			panic(goPanic{"runtime error: makeslice: cap out of range"})
		}
		if c > 1<<20 {
			unsupported("make of %d elements", c)
		}
		regs[pi.dst] = x.makeSlice(st, in.Type().Underlying().(*types.Slice).Elem(), n, c)
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		regs[pi.dst] = MapRef{st.alloc(&Obj{m: &MapData{}})}
		_ = mt
	case *ssa.Lookup:
		regs[pi.dst] = x.lookup(st, in, cur.get(pi.ops[0]), cur.get(pi.ops[1]))
	case *ssa.MapUpdate:
		x.mapUpdate(st, cur.get(pi.ops[0]).(MapRef), cur.get(pi.ops[1]), cur.get(pi.ops[2]))
	case *ssa.Range:
		regs[pi.dst] = x.rangeStart(st, cur.get(pi.ops[0]))
	case *ssa.Slice:
		regs[pi.dst] = x.sliceOp(cur, in, pi)
	case *ssa.SliceToArrayPointer:
		s := cur.get(pi.ops[0]).(Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(s.len) < n {
			panic(goPanic{"runtime error: cannot convert slice to array: length"})
		}
		regs[pi.dst] = Ptr{s.obj, s.off}
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		unsupported("concurrency (%T)", in)
	default:
		unsupported("instruction %T", in)
	}
}

func (x *Exec) canon(t types.Type) types.Type {
	if _, ok := x.typeIDs[t]; ok {
		return x.typeList[x.typeIDs[t]]
	}
	for i, u := range x.typeList {
		if types.Identical(t, u) {
			x.typeIDs[t] = i
			return u
		}
	}
	x.typeIDs[t] = len(x.typeList)
	x.typeList = append(x.typeList, t)
	return t
}

func (x *Exec) makeSlice(st *State, elem types.Type, n, c int) Slice {
	sz := x.cellsOf(elem)
	cells := make([]Value, 0, c*sz)
	z := x.zero(elem)
	for i := 0; i < c; i++ {
		cells = flat(cells, z)
	}
	return Slice{obj: st.alloc(&Obj{cells: cells}), off: 0, len: n, cap: c}
}

func (x *Exec) store(st *State, addr, v Value) {
	switch p := addr.(type) {
	case Ptr:
		if p.obj == 0 {
			panic(goPanic{"runtime error: invalid memory address or nil pointer dereference"})
		}
		x.storeAt(st, p.obj, p.off, v)
	case SymPtr:
		i := int(x.conc(st, p.idx))
		x.storeAt(st, p.obj, p.base+i*p.stride, v)
	default:
		unsupported("store to %T", addr)
	}
}

func (x *Exec) load(st *State, addr Value, t types.Type) Value {
	switch p := addr.(type) {
	case Ptr:
		if p.obj == 0 {
			panic(goPanic{"runtime error: invalid memory address or nil pointer dereference"})
		}
		return x.loadAt(st, p.obj, p.off, t)
	case SymPtr:
		o := st.obj(p.obj)
		vals := make([]*Expr, p.n)
		for i := range vals {
			e, ok := o.cells[p.base+i*p.stride].(*Expr)
			if !ok {
				i := int(x.conc(st, p.idx))
				return x.loadAt(st, p.obj, p.base+i*p.stride, t)
			}
			vals[i] = e
		}
		return x.tableLoad(vals, p.idx)
	}
	unsupported("load from %T", addr)
	return nil
}

// tableLoad reads vals[idx] for a symbolic idx within range.
func (x *Exec) tableLoad(vals []*Expr, idx *Expr) *Expr {
	c := x.c
	if idx.solo != nil && idx.solo.w == 8 {
		// group the values of the variable by result
		var order []*Expr
		sets := map[*Expr]*bitset{}
		m := map[*Expr]uint64{}
		for i := 0; i < 256; i++ {
			m[idx.solo] = uint64(i)
			k := idx.eval(m, map[*Expr]uint64{})
			if k >= uint64(len(vals)) {
				continue
			}
			v := vals[k]
			s := sets[v]
			if s == nil {
				s = &bitset{}
				sets[v] = s
				order = append(order, v)
			}
			s.set(i)
		}
		if len(order) == 0 {
			return vals[0]
		}
		res := order[len(order)-1]
		for i := len(order) - 2; i >= 0; i-- {
			res = c.Ite(c.domExpr(idx.solo, *sets[order[i]]), order[i], res)
		}
		return res
	}
	res := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		res = c.Ite(c.Eq(idx, c.Const(idx.w, uint64(i))), vals[i], res)
	}
	return res
}

func (x *Exec) unop(st *State, in *ssa.UnOp, v Value) Value {
	switch in.Op {
	case token.MUL:
		return x.load(st, v, in.Type())
	case token.NOT:
		return x.c.Not(v.(*Expr))
	case token.SUB:
		if f, ok := v.(Float); ok {
			return -f
		}
		return x.c.Neg(v.(*Expr))
	case token.XOR:
		return x.c.BNot(v.(*Expr))
	}
	unsupported("operator %s", in.Op)
	return nil
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	_, s := widthOf(b)
	return s
}

func (x *Exec) binop(st *State, op token.Token, a, b Value, ta, tb types.Type) Value {
	c := x.c
	switch op {
	case token.EQL:
		return x.eqVals(a, b, ta, tb)
	case token.NEQ:
		return c.Not(x.eqVals(a, b, ta, tb))
	}
	switch av := a.(type) {
	case *Str:
		bv := b.(*Str)
		switch op {
		case token.ADD:
			return concat(c, av, bv)
		case token.LSS:
			return c.strLess(av, bv, false)
		case token.LEQ:
			return c.strLess(av, bv, true)
		case token.GTR:
			return c.strLess(bv, av, false)
		case token.GEQ:
			return c.strLess(bv, av, true)
		}
	case Float:
		bv := b.(Float)
		switch op {
		case token.ADD:
			return av + bv
		case token.SUB:
			return av - bv
		case token.MUL:
			return av * bv
		case token.QUO:
			return av / bv
		case token.LSS:
			return c.Bool(av < bv)
		case token.LEQ:
			return c.Bool(av <= bv)
		case token.GTR:
			return c.Bool(av > bv)
		case token.GEQ:
			return c.Bool(av >= bv)
		}
	case *Expr:
		bv := b.(*Expr)
		signed := isSigned(ta)
		if av.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return c.And(av, bv)
			case token.OR, token.LOR:
				return c.Or(av, bv)
			}
			unsupported("bool operator %s", op)
		}
		switch op {
		case token.ADD:
			return c.Bin(OAdd, av, bv)
		case token.SUB:
			return c.Bin(OSub, av, bv)
		case token.MUL:
			return c.Bin(OMul, av, bv)
		case token.QUO, token.REM:
			if bv.isConst() && bv.val == 0 || !bv.isConst() && x.decide(st, c.Eq(bv, c.Const(bv.w, 0))) {
				panic(goPanic{"runtime error: integer divide by zero"})
			}
			o := OUDiv
			if op == token.REM {
				o = OURem
			}
			if signed {
				o = OSDiv
				if op == token.REM {
					o = OSRem
				}
			}
			return c.Bin(o, av, bv)
		case token.AND:
			return c.Bin(OBAnd, av, bv)
		case token.OR:
			return c.Bin(OBOr, av, bv)
		case token.XOR:
			return c.Bin(OBXor, av, bv)
		case token.AND_NOT:
			return c.Bin(OBAnd, av, c.BNot(bv))
		case token.SHL, token.SHR:
			if isSigned(tb) {
				if !bv.isConst() {
					bv = c.Const(bv.w, x.conc(st, bv))
				}
				if sx(bv.val, bv.w) < 0 {
					panic(goPanic{"runtime error: negative shift amount"})
				}
			}
			if bv.w > av.w {
				if bv.isConst() {
					v := bv.val
					if v > uint64(av.w) {
						v = uint64(av.w)
					}
					bv = c.Const(av.w, v)
				} else {
					bv = c.Const(av.w, min(x.conc(st, bv), uint64(av.w)))
				}
			} else {
				bv = c.Resize(bv, av.w, false)
			}
			if op == token.SHL {
				return c.Bin(OShl, av, bv)
			}
			if signed {
				return c.Bin(OAShr, av, bv)
			}
			return c.Bin(OLShr, av, bv)
		case token.LSS:
			if signed {
				return c.Cmp(OSlt, av, bv)
			}
			return c.Cmp(OUlt, av, bv)
		case token.LEQ:
			if signed {
				return c.Cmp(OSle, av, bv)
			}
			return c.Cmp(OUle, av, bv)
		case token.GTR:
			if signed {
				return c.Cmp(OSlt, bv, av)
			}
			return c.Cmp(OUlt, bv, av)
		case token.GEQ:
			if signed {
				return c.Cmp(OSle, bv, av)
			}
			return c.Cmp(OUle, bv, av)
		}
	}
	unsupported("operator %s on %T", op, a)
	return nil
}

func (x *Exec) eqVals(a, b Value, ta, tb types.Type) *Expr {
	_, ai := a.(Iface)
	_, bi := b.(Iface)
	if ai && !bi {
		b = Iface{typ: x.canon(tb), val: b}
	} else if bi && !ai {
		a = Iface{typ: x.canon(ta), val: a}
	}
	return x.valEq(a, b, ta)
}

// inBounds checks an index against a length and returns it, concrete when it must be.
func (x *Exec) inBounds(st *State, idx *Expr, n int, signed bool) {
	c := x.c
	if idx.isConst() {
		if idx.val >= uint64(n) {
			panic(goPanic{"runtime error: index out of range"})
		}
		return
	}
	if idx.w < 64 && uint64(n) > mask(idx.w) && !signed {
		return
	}
	var ok *Expr
	if signed && idx.w < 64 {
		i := c.Resize(idx, 64, true)
		ok = c.Cmp(OUlt, i, c.Const(64, uint64(n)))
	} else if uint64(n) <= mask(idx.w) {
		ok = c.Cmp(OUlt, idx, c.Const(idx.w, uint64(n)))
	} else {
		return
	}
	if !x.decide(st, ok) {
		panic(goPanic{"runtime error: index out of range"})
	}
}

func isScalarCell(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsBoolean|types.IsInteger) != 0
}

func (x *Exec) indexAddr(st *State, in *ssa.IndexAddr, v Value, idx *Expr) Value {
	var obj, off, n int
	var elem types.Type
	switch t := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := v.(Slice)
		obj, off, n, elem = s.obj, s.off, s.len, t.Elem()
	case *types.Pointer:
		a := t.Elem().Underlying().(*types.Array)
		p, ok := v.(Ptr)
		if !ok {
			unsupported("index of %T", v)
		}
		if p.obj == 0 {
			panic(goPanic{"runtime error: invalid memory address or nil pointer dereference"})
		}
		obj, off, n, elem = p.obj, p.off, int(a.Len()), a.Elem()
	}
	sz := x.cellsOf(elem)
	x.inBounds(st, idx, n, isSigned(in.Index.Type()))
	if idx.isConst() {
		return Ptr{obj, off + int(idx.val)*sz}
	}
	if n == 1 {
		return Ptr{obj, off}
	}
	if isScalarCell(elem) {
		return SymPtr{obj: obj, base: off, stride: sz, n: n, idx: idx}
	}
	return Ptr{obj, off + int(x.conc(st, idx))*sz}
}

func (x *Exec) index(st *State, in *ssa.Index, v Value, idx *Expr) Value {
	switch a := v.(type) {
	case *Str:
		return x.strIndex(st, a, idx, isSigned(in.Index.Type()))
	case Agg:
		at := in.X.Type().Underlying().(*types.Array)
		x.inBounds(st, idx, int(at.Len()), isSigned(in.Index.Type()))
		sz := x.cellsOf(at.Elem())
		i := int(x.conc(st, idx))
		return x.unflat(a[i*sz:(i+1)*sz], at.Elem())
	}
	unsupported("index of %T", v)
	return nil
}

func (x *Exec) strIndex(st *State, s *Str, idx *Expr, signed bool) Value {
	x.inBounds(st, idx, s.Len(), signed)
	if idx.isConst() {
		return s.at(x.c, int(idx.val))
	}
	vals := make([]*Expr, s.Len())
	for i := range vals {
		vals[i] = s.at(x.c, i)
	}
	return x.tableLoad(vals, idx)
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	c := x.c
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		switch {
		case tb.Info()&types.IsInteger != 0:
			w, _ := widthOf(tb)
			switch a := v.(type) {
			case *Expr:
				return c.Resize(a, w, isSigned(from))
			case Float:
				return c.Const(w, uint64(int64(a)))
			}
		case tb.Info()&types.IsFloat != 0:
			switch a := v.(type) {
			case Float:
				return a
			case *Expr:
				if a.isConst() {
					if isSigned(from) {
						return Float(sx(a.val, a.w))
					}
					return Float(a.val)
				}
			}
		case tb.Info()&types.IsString != 0:
			switch a := v.(type) {
			case *Str:
				return a
			case Slice:
				e := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				o := st.obj(a.obj)
				bs := make([]*Expr, a.len)
				for i := range bs {
					bs[i] = o.cells[a.off+i].(*Expr)
				}
				if e.Kind() == types.Uint8 {
					return mkStr(bs)
				}
				var out []*Expr
				for _, r := range bs {
					out = append(out, x.encodeRune(st, r)...)
				}
				return mkStr(out)
			case *Expr:
				return mkStr(x.encodeRune(st, c.Resize(a, 32, isSigned(from))))
			}
		case tb.Kind() == types.UnsafePointer:
			return v
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := v.(*Str); ok {
			e := ts.Elem().Underlying().(*types.Basic)
			var cells []Value
			if e.Kind() == types.Uint8 {
				for i := 0; i < s.Len(); i++ {
					cells = append(cells, s.at(c, i))
				}
			} else {
				for i := 0; i < s.Len(); {
					r, n := x.decodeRune(st, s, i)
					cells = append(cells, r)
					i += n
				}
			}
			if cells == nil {
				cells = []Value{}
			}
			return Slice{obj: st.alloc(&Obj{cells: cells}), len: len(cells), cap: len(cells)}
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v // from unsafe.Pointer
	}
	unsupported("conversion %s to %s", from, to)
	return nil
}

// decodeRune decodes the rune at s[i:], splitting on lead and continuation bytes only as needed.
func (x *Exec) decodeRune(st *State, s *Str, i int) (*Expr, int) {
	c := x.c
	b0 := s.at(c, i)
	bad := c.Const(32, 0xFFFD)
	lt := func(e *Expr, v uint64) bool { return x.decide(st, c.Cmp(OUlt, e, c.Const(8, v))) }
	if lt(b0, 0x80) {
		return c.Resize(b0, 32, false), 1
	}
	if lt(b0, 0xC2) || !lt(b0, 0xF5) {
		return bad, 1
	}
	in := func(e *Expr, lo, hi uint64) bool {
		return x.decide(st, c.And(c.Cmp(OUle, c.Const(8, lo), e), c.Cmp(OUle, e, c.Const(8, hi))))
	}
	low := func(e *Expr, m uint64) *Expr { return c.Resize(c.Bin(OBAnd, e, c.Const(8, m)), 32, false) }
	sh := func(e *Expr, k uint64) *Expr { return c.Bin(OShl, e, c.Const(32, k)) }
	or := func(a, b *Expr) *Expr { return c.Bin(OBOr, a, b) }
	at := func(k int) (*Expr, bool) {
		if i+k >= s.Len() {
			return nil, false
		}
		return s.at(c, i+k), true
	}
	b1, ok := at(1)
	if !ok {
		return bad, 1
	}
	if lt(b0, 0xE0) {
		if !in(b1, 0x80, 0xBF) {
			return bad, 1
		}
		return or(sh(low(b0, 0x1F), 6), low(b1, 0x3F)), 2
	}
	if lt(b0, 0xF0) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if x.decide(st, c.Eq(b0, c.Const(8, 0xE0))) {
			lo = 0xA0
		} else if x.decide(st, c.Eq(b0, c.Const(8, 0xED))) {
			hi = 0x9F
		}
		if !in(b1, lo, hi) {
			return bad, 1
		}
		b2, ok := at(2)
		if !ok || !in(b2, 0x80, 0xBF) {
			return bad, 1
		}
		return or(or(sh(low(b0, 0x0F), 12), sh(low(b1, 0x3F), 6)), low(b2, 0x3F)), 3
	}
	lo, hi := uint64(0x80), uint64(0xBF)
	if x.decide(st, c.Eq(b0, c.Const(8, 0xF0))) {
		lo = 0x90
	} else if x.decide(st, c.Eq(b0, c.Const(8, 0xF4))) {
		hi = 0x8F
	}
	if !in(b1, lo, hi) {
		return bad, 1
	}
	b2, ok := at(2)
	if !ok || !in(b2, 0x80, 0xBF) {
		return bad, 1
	}
	b3, ok := at(3)
	if !ok || !in(b3, 0x80, 0xBF) {
		return bad, 1
	}
	return or(or(sh(low(b0, 0x07), 18), sh(low(b1, 0x3F), 12)), or(sh(low(b2, 0x3F), 6), low(b3, 0x3F))), 4
}

func (x *Exec) encodeRune(st *State, r *Expr) []*Expr {
	c := x.c
	if r.isConst() {
		v := rune(int32(r.val))
		var out []*Expr
		for _, b := range []byte(string(v)) {
			out = append(out, c.Const(8, uint64(b)))
		}
		return out
	}
	lt := func(v uint64) bool { return x.decide(st, c.Cmp(OUlt, r, c.Const(32, v))) }
	if lt(0x80) {
		return []*Expr{c.Resize(r, 8, false)}
	}
	part := func(shift, m, base uint64) *Expr {
		e := c.Bin(OBAnd, c.Bin(OLShr, r, c.Const(32, shift)), c.Const(32, m))
		return c.Bin(OBOr, c.Resize(e, 8, false), c.Const(8, base))
	}
	if lt(0x800) {
		return []*Expr{part(6, 0x1F, 0xC0), part(0, 0x3F, 0x80)}
	}
	if x.decide(st, c.And(c.Cmp(OUle, c.Const(32, 0xD800), r), c.Cmp(OUle, r, c.Const(32, 0xDFFF)))) || !lt(0x110000) {
		return []*Expr{c.Const(8, 0xEF), c.Const(8, 0xBF), c.Const(8, 0xBD)}
	}
	if lt(0x10000) {
		return []*Expr{part(12, 0x0F, 0xE0), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)}
	}
	return []*Expr{part(18, 0x07, 0xF0), part(12, 0x3F, 0x80), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80)}
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert, v Iface) Value {
	at := in.AssertedType
	ok := false
	var res Value
	if v.typ != nil {
		if it, isI := at.Underlying().(*types.Interface); isI {
			k := implKey{v.typ, at}
			r, have := x.implC[k]
			if !have {
				r = types.Implements(v.typ, it)
				x.implC[k] = r
			}
			ok, res = r, v
		} else {
			ok, res = x.canon(at) == x.canon(v.typ), v.val
		}
	}
	if !ok {
		if !in.CommaOk {
			panic(goPanic{"interface conversion: wrong dynamic type for " + at.String()})
		}
		res = x.zero(at)
	}
	if in.CommaOk {
		return Tuple{res, x.c.Bool(ok)}
	}
	return res
}

// ---- maps ----

// findKey returns the position of key in m or -1, splitting on symbolic equality.
func (x *Exec) findKey(st *State, m *MapData, key Value) int {
	var maybe []int
	var eqs []*Expr
	for i, k := range m.keys {
		e := x.eqKey(k, key)
		if e.isTrue() {
			return i
		}
		if !e.isFalse() {
			maybe = append(maybe, i)
			eqs = append(eqs, e)
		}
	}
	for j, e := range eqs {
		if x.decide(st, e) {
			return maybe[j]
		}
	}
	return -1
}

func (x *Exec) eqKey(a, b Value) *Expr {
	if ai, ok := a.(Iface); ok {
		bi := b.(Iface)
		if ai.typ != nil && bi.typ != nil && !types.Comparable(bi.typ) {
			panic(goPanic{"runtime error: hash of unhashable type " + bi.typ.String()})
		}
	}
	return x.valEq(a, b, nil)
}

func (x *Exec) lookup(st *State, in *ssa.Lookup, v, key Value) Value {
	if s, ok := v.(*Str); ok {
		return x.strIndex(st, s, key.(*Expr), isSigned(in.Index.Type()))
	}
	mt := in.X.Type().Underlying().(*types.Map)
	mr := v.(MapRef)
	pos := -1
	var m *MapData
	if mr.obj != 0 {
		m = st.obj(mr.obj).m
		pos = x.findKey(st, m, key)
	}
	var res Value
	if pos >= 0 {
		res = m.vals[pos]
	} else {
		res = x.zero(mt.Elem())
	}
	if in.CommaOk {
		return Tuple{res, x.c.Bool(pos >= 0)}
	}
	return res
}

func (x *Exec) mapUpdate(st *State, mr MapRef, key, val Value) {
	if mr.obj == 0 {
		panic(goPanic{"assignment to entry in nil map"})
	}
	pos := x.findKey(st, st.obj(mr.obj).m, key)
	m := st.wobj(mr.obj).m
	if pos >= 0 {
		m.vals[pos] = val
		return
	}
	m.keys = append(m.keys, key)
	m.vals = append(m.vals, val)
}

func (x *Exec) mapDelete(st *State, mr MapRef, key Value) {
	if mr.obj == 0 {
		return
	}
	pos := x.findKey(st, st.obj(mr.obj).m, key)
	if pos < 0 {
		return
	}
	m := st.wobj(mr.obj).m
	m.keys = append(m.keys[:pos:pos], m.keys[pos+1:]...)
	m.vals = append(m.vals[:pos:pos], m.vals[pos+1:]...)
}

func (x *Exec) rangeStart(st *State, v Value) Value {
	it := &Iter{}
	switch v := v.(type) {
	case *Str:
		it.str = v
	case MapRef:
		it.m = v.obj
		if v.obj != 0 {
			it.left = append([]Value(nil), st.obj(v.obj).m.keys...)
			if x.order == "rev" {
				for i, j := 0, len(it.left)-1; i < j; i, j = i+1, j-1 {
					it.left[i], it.left[j] = it.left[j], it.left[i]
				}
			}
		}
	}
	return IterRef{st.alloc(&Obj{iter: it})}
}

func (x *Exec) next(cur *cursor, pi *PIns, in *ssa.Next) (bool, event) {
	st := cur.st
	ref := cur.get(pi.ops[0]).(IterRef)
	it := st.obj(ref.obj).iter
	c := x.c
	if in.IsString {
		if it.pos >= it.str.Len() {
			cur.fr.regs[pi.dst] = Tuple{c.False, c.Const(64, 0), c.Const(32, 0)}
			return false, event{}
		}
		r, n := x.decodeRune(st, it.str, it.pos)
		pos := it.pos
		st.wobj(ref.obj).iter.pos += n
		cur.fr.regs[pi.dst] = Tuple{c.True, c.Const(64, uint64(pos)), r}
		return false, event{}
	}
	// map: which keys are still there
	var m *MapData
	if it.m != 0 {
		m = st.obj(it.m).m
	}
	tt := in.Type().(*types.Tuple)
	zero := func(i int) Value {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return x.zero(tt.At(i).Type())
	}
	type cand struct{ pos, at int }
	var cands []cand
	var rest []Value
	for _, k := range it.left {
		for j, mk := range m.keys {
			if x.eqKey(k, mk).isTrue() {
				cands = append(cands, cand{len(rest), j})
				rest = append(rest, k)
				break
			}
		}
	}
	if len(cands) == 0 {
		st.wobj(ref.obj).iter.left = nil
		cur.fr.regs[pi.dst] = Tuple{c.False, zero(1), zero(2)}
		return false, event{}
	}
	take := func(cu *cursor, k cand) {
		it := cu.st.wobj(ref.obj).iter
		left := append([]Value(nil), rest[:k.pos]...)
		it.left = append(left, rest[k.pos+1:]...)
		cu.fr.regs[pi.dst] = Tuple{c.True, m.keys[k.at], m.vals[k.at]}
	}
	if x.order != "all" || len(cands) == 1 || x.inInit {
		take(cur, cands[0])
		return false, event{}
	}
	base := x.mark(st)
	x.newBase(st)
	x.ordN++
	ov := c.Var(fmt.Sprintf("__order%d", x.ordN), 8)
	var subs []cursor
	for i, k := range cands {
		cu := *cur
		pick := c.Eq(ov, c.Const(8, uint64(i)))
		if i < len(cands)-1 {
			cu = cursor{fr: cur.fr.clone(), st: x.fork(st), bi: cur.bi, its: cur.its}
		} else {
			pick = c.Cmp(OUle, c.Const(8, uint64(i)), ov)
		}
		x.addPC(cu.st, pick, map[*Expr]uint64{ov: uint64(i)})
		take(&cu, k)
		cu.ii = cur.ii + 1
		subs = append(subs, cu)
	}
	return true, event{kind: evMulti, subs: subs, base: base}
}

func (x *Exec) sliceOp(cur *cursor, in *ssa.Slice, pi *PIns) Value {
	st := cur.st
	v := cur.get(pi.ops[0])
	k := 0
	get := func(val ssa.Value) int {
		k++
		if val == nil {
			return -1
		}
		n := x.concInt(st, cur.get(pi.ops[k]))
		if n < 0 {
			panic(goPanic{"runtime error: slice bounds out of range"})
		}
		return n
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	if lo < 0 {
		lo = 0
	}
	switch s := v.(type) {
	case *Str:
		if hi < 0 {
			hi = s.Len()
		}
		if hi > s.Len() || lo > hi {
			panic(goPanic{"runtime error: slice bounds out of range"})
		}
		return s.sub(lo, hi)
	case Slice:
		if hi < 0 {
			hi = s.len
		}
		if mx < 0 {
			mx = s.cap
		}
		if mx > s.cap || hi > mx || lo > hi {
			panic(goPanic{"runtime error: slice bounds out of range"})
		}
		if s.obj == 0 {
			return s
		}
		sz := x.cellsOf(in.X.Type().Underlying().(*types.Slice).Elem())
		return Slice{obj: s.obj, off: s.off + lo*sz, len: hi - lo, cap: mx - lo}
	case Ptr:
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if s.obj == 0 {
			panic(goPanic{"runtime error: invalid memory address or nil pointer dereference"})
		}
		n := int(at.Len())
		if hi < 0 {
			hi = n
		}
		if mx < 0 {
			mx = n
		}
		if mx > n || hi > mx || lo > hi {
			panic(goPanic{"runtime error: slice bounds out of range"})
		}
		return Slice{obj: s.obj, off: s.off + lo*x.cellsOf(at.Elem()), len: hi - lo, cap: mx - lo}
	}
	unsupported("slicing %T", v)
	return nil
}

// ---- builtins ----

func (x *Exec) builtin(st *State, b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	c := x.c
	argT := func(i int) types.Type { return call.Args[i].Type() }
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *Str:
			return c.Const(64, uint64(v.Len()))
		case Slice:
			return c.Const(64, uint64(v.len))
		case MapRef:
			if v.obj == 0 {
				return c.Const(64, 0)
			}
			return c.Const(64, uint64(len(st.obj(v.obj).m.keys)))
		}
	case "cap":
		if v, ok := args[0].(Slice); ok {
			return c.Const(64, uint64(v.cap))
		}
	case "append":
		s := args[0].(Slice)
		elem := b.Type().(*types.Signature).Results().At(0).Type().Underlying().(*types.Slice).Elem()
		sz := x.cellsOf(elem)
		var add []Value
		switch v := args[1].(type) {
		case Slice:
			if v.len == 0 {
				return s
			}
			add = st.obj(v.obj).cells[v.off : v.off+v.len*sz]
		case *Str:
			if v.Len() == 0 {
				return s
			}
			for i := 0; i < v.Len(); i++ {
				add = append(add, v.at(c, i))
			}
		}
		n := len(add) / sz
		if s.len+n <= s.cap {
			add = append([]Value(nil), add...)
			o := st.wobj(s.obj)
			copy(o.cells[s.off+s.len*sz:], add)
			return Slice{s.obj, s.off, s.len + n, s.cap}
		}
		nc := growCap(s.cap, s.len+n)
		cells := make([]Value, 0, nc*sz)
		if s.len > 0 {
			cells = append(cells, st.obj(s.obj).cells[s.off:s.off+s.len*sz]...)
		}
		cells = append(cells, add...)
		z := x.zero(elem)
		for i := s.len + n; i < nc; i++ {
			cells = flat(cells, z)
		}
		return Slice{st.alloc(&Obj{cells: cells}), 0, s.len + n, nc}
	case "copy":
		d := args[0].(Slice)
		sz := x.cellsOf(argT(0).Underlying().(*types.Slice).Elem())
		var src []Value
		n := 0
		switch v := args[1].(type) {
		case Slice:
			n = min(d.len, v.len)
			if n > 0 {
				src = append(src, st.obj(v.obj).cells[v.off:v.off+n*sz]...)
			}
		case *Str:
			n = min(d.len, v.Len())
			for i := 0; i < n; i++ {
				src = append(src, v.at(c, i))
			}
		}
		if n > 0 {
			copy(st.wobj(d.obj).cells[d.off:], src)
		}
		return c.Const(64, uint64(n))
	case "delete":
		x.mapDelete(st, args[0].(MapRef), args[1])
		return nil
	case "clear":
		switch v := args[0].(type) {
		case MapRef:
			if v.obj != 0 {
				m := st.wobj(v.obj).m
				m.keys, m.vals = nil, nil
			}
		case Slice:
			elem := argT(0).Underlying().(*types.Slice).Elem()
			sz := x.cellsOf(elem)
			z := x.zero(elem)
			if v.len > 0 {
				o := st.wobj(v.obj)
				for i := 0; i < v.len; i++ {
					copy(o.cells[v.off+i*sz:], flat(nil, z))
				}
			}
		}
		return nil
	case "print", "println":
		return nil
	case "recover":
		if st.panicking == nil {
			return Iface{}
		}
		pv := st.panicking
		st.panicking = nil
		if pv.val != nil {
			return pv.val
		}
		return Iface{typ: x.canon(types.Typ[types.String]), val: lit(pv.msg)}
	case "min", "max":
		r := args[0]
		for i, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			cond := x.binop(st, op, a, r, argT(i+1), argT(0)).(*Expr)
			ae, ok1 := a.(*Expr)
			re, ok2 := r.(*Expr)
			if ok1 && ok2 {
				r = c.Ite(cond, ae, re)
			} else if x.decide(st, cond) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			panic(goPanic{"value method called using nil pointer"})
		}
		return args[0]
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{s.obj, s.off}
	case "StringData":
		s := args[0].(*Str)
		cells := make([]Value, s.Len())
		for i := range cells {
			cells[i] = s.at(c, i)
		}
		return Ptr{st.alloc(&Obj{cells: cells}), 0}
	case "String":
		n := x.concInt(st, args[1])
		if n == 0 {
			return emptyStr
		}
		p := args[0].(Ptr)
		o := st.obj(p.obj)
		bs := make([]*Expr, n)
		for i := range bs {
			bs[i] = o.cells[p.off+i].(*Expr)
		}
		return mkStr(bs)
	case "Slice":
		n := x.concInt(st, args[1])
		p := args[0].(Ptr)
		return Slice{p.obj, p.off, n, n}
	}
	unsupported("builtin %s", b.Name())
	return nil
}

// growCap mimics the runtime's growth closely enough that aliasing through spare capacity is explored.
func growCap(old, need int) int {
	if need > 2*old {
		if need <= 2 {
			return need
		}
		if need%2 == 1 && need > 4 {
			return need + 1
		}
		return need
	}
	if old < 256 {
		return 2 * old
	}
	return max(need, old+(old+3*256)/4)
}

// c64size is the size in bytes of a value of type t on the target.
func (x *Exec) c64size(t types.Type) int64 {
	return types.SizesFor("gc", "amd64").Sizeof(t)
}
