package main

import (
	"go/types"
	"reflect"
	"strings"
)

// Intrinsics that stand for the parts of reflection and of the runtime that library models need.

func isNamed(t types.Type) bool {
	_, ok := types.Unalias(t).(*types.Named)
	return ok
}

func kindName(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return "string"
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsUnsigned != 0:
			return "uint"
		case u.Info()&types.IsInteger != 0:
			return "int"
		}
	case *types.Slice:
		return "slice"
	case *types.Array:
		return "array"
	case *types.Pointer:
		return "ptr"
	case *types.Struct:
		return "struct"
	case *types.Map:
		return "map"
	case *types.Signature:
		return "func"
	}
	return "other"
}

func (x *Exec) box(v Value, t types.Type) Iface {
	if iv, ok := v.(Iface); ok {
		return iv
	}
	return Iface{typ: x.canon(t), val: v}
}

// deepEq is reflect.DeepEqual on two values of static type t.
func (x *Exec) deepEq(st *State, a, b Value, t types.Type, depth int) *Expr {
	c := x.c
	if depth > 40 {
		unsupported("comparison of deep values")
	}
	if ai, ok := a.(Iface); ok {
		bi := b.(Iface)
		if ai.typ == nil || bi.typ == nil {
			return c.Bool(ai.typ == nil && bi.typ == nil)
		}
		if x.canon(ai.typ) != x.canon(bi.typ) {
			return c.False
		}
		return x.deepEq(st, ai.val, bi.val, ai.typ, depth+1)
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, q := a.(Ptr), b.(Ptr)
		if p == q {
			return c.True
		}
		if p.obj == 0 || q.obj == 0 {
			return c.False
		}
		return x.deepEq(st, x.load(st, p, u.Elem()), x.load(st, q, u.Elem()), u.Elem(), depth+1)
	case *types.Slice:
		s, r := a.(Slice), b.(Slice)
		if (s.obj == 0) != (r.obj == 0) || s.len != r.len {
			return c.False
		}
		sz := x.cellsOf(u.Elem())
		res := c.True
		for i := 0; i < s.len && !res.isFalse(); i++ {
			res = c.And(res, x.deepEq(st, x.loadAt(st, s.obj, s.off+i*sz, u.Elem()), x.loadAt(st, r.obj, r.off+i*sz, u.Elem()), u.Elem(), depth+1))
		}
		return res
	case *types.Array:
		sz := x.cellsOf(u.Elem())
		res := c.True
		for i := 0; i < int(u.Len()) && !res.isFalse(); i++ {
			res = c.And(res, x.deepEq(st, x.unflat(a.(Agg)[i*sz:(i+1)*sz], u.Elem()), x.unflat(b.(Agg)[i*sz:(i+1)*sz], u.Elem()), u.Elem(), depth+1))
		}
		return res
	case *types.Struct:
		res := c.True
		for i := 0; i < u.NumFields() && !res.isFalse(); i++ {
			ft := u.Field(i).Type()
			o, n := x.fieldOff(u, i), x.cellsOf(ft)
			res = c.And(res, x.deepEq(st, x.unflat(a.(Agg)[o:o+n], ft), x.unflat(b.(Agg)[o:o+n], ft), ft, depth+1))
		}
		return res
	case *types.Map:
		m, r := a.(MapRef), b.(MapRef)
		if (m.obj == 0) != (r.obj == 0) {
			return c.False
		}
		if m == r {
			return c.True
		}
		ma, mb := st.obj(m.obj).m, st.obj(r.obj).m
		if len(ma.keys) != len(mb.keys) {
			return c.False
		}
		res := c.True
		for i, k := range ma.keys {
			j := x.findKey(st, mb, k)
			if j < 0 {
				return c.False
			}
			res = c.And(res, x.deepEq(st, ma.vals[i], mb.vals[j], u.Elem(), depth+1))
		}
		return res
	case *types.Signature:
		f, _ := a.(*Func)
		g, _ := b.(*Func)
		return c.Bool(f == nil && g == nil)
	}
	return x.valEq(a, b, t)
}

func structOf(v Value) (*types.Struct, Agg) {
	f := v.(Iface)
	return f.typ.Underlying().(*types.Struct), f.val.(Agg)
}

func init() {
	m := map[string]intrinsic{
		vfp + "kindOf": func(x *Exec, st *State, a []Value) Value {
			f := a[0].(Iface)
			if f.typ == nil {
				return lit("nil")
			}
			return lit(kindName(f.typ))
		},
		vfp + "fieldIdent": func(x *Exec, st *State, a []Value) Value {
			s, _ := structOf(a[0])
			return lit(s.Field(x.concInt(st, a[1])).Name())
		},
		vfp + "fieldExported": func(x *Exec, st *State, a []Value) Value {
			s, _ := structOf(a[0])
			return x.c.Bool(s.Field(x.concInt(st, a[1])).Exported())
		},
		vfp + "fieldEmbedded": func(x *Exec, st *State, a []Value) Value {
			s, _ := structOf(a[0])
			return x.c.Bool(s.Field(x.concInt(st, a[1])).Embedded())
		},
		vfp + "fieldTag": func(x *Exec, st *State, a []Value) Value {
			s, _ := structOf(a[0])
			return lit(reflect.StructTag(s.Tag(x.concInt(st, a[1]))).Get(strArg(a[2])))
		},
		vfp + "isNil": func(x *Exec, st *State, a []Value) Value {
			switch v := a[0].(Iface).val.(type) {
			case Ptr:
				return x.c.Bool(v.obj == 0)
			case Slice:
				return x.c.Bool(v.obj == 0)
			case MapRef:
				return x.c.Bool(v.obj == 0)
			}
			return x.c.Bool(a[0].(Iface).typ == nil)
		},
		vfp + "deref": func(x *Exec, st *State, a []Value) Value {
			f := a[0].(Iface)
			et := f.typ.Underlying().(*types.Pointer).Elem()
			return x.box(x.load(st, f.val, et), et)
		},
		vfp + "mapLen": func(x *Exec, st *State, a []Value) Value {
			r := a[0].(Iface).val.(MapRef)
			if r.obj == 0 {
				return x.c.Const(64, 0)
			}
			return x.c.Const(64, uint64(len(st.obj(r.obj).m.keys)))
		},
		vfp + "mapKey": func(x *Exec, st *State, a []Value) Value {
			f := a[0].(Iface)
			return x.box(st.obj(f.val.(MapRef).obj).m.keys[x.concInt(st, a[1])], f.typ.Underlying().(*types.Map).Key())
		},
		vfp + "mapVal": func(x *Exec, st *State, a []Value) Value {
			f := a[0].(Iface)
			return x.box(st.obj(f.val.(MapRef).obj).m.vals[x.concInt(st, a[1])], f.typ.Underlying().(*types.Map).Elem())
		},
		vfp + "isComparable": func(x *Exec, st *State, a []Value) Value {
			f := a[0].(Iface)
			return x.c.Bool(f.typ == nil || types.Comparable(f.typ))
		},
		// assignTo stores v in *target when its type allows.
		vfp + "assignTo": func(x *Exec, st *State, a []Value) Value {
			v, f := a[0].(Iface), a[1].(Iface)
			if f.typ == nil {
				panic(goPanic{"errors: target cannot be nil"})
			}
			pt, ok := f.typ.Underlying().(*types.Pointer)
			if !ok || f.val.(Ptr).obj == 0 {
				panic(goPanic{"errors: target must be a non-nil pointer"})
			}
			et := pt.Elem()
			if it, ok := et.Underlying().(*types.Interface); ok {
				if v.typ == nil || !types.Implements(v.typ, it) {
					return x.c.False
				}
				x.store(st, f.val, v)
				return x.c.True
			}
			if v.typ == nil || x.canon(et) != x.canon(v.typ) {
				return x.c.False
			}
			x.store(st, f.val, v.val)
			return x.c.True
		},
		"reflect.DeepEqual": func(x *Exec, st *State, a []Value) Value {
			return x.deepEq(st, a[0], a[1], nil, 0)
		},
		"(*sync/atomic.Value).Load": func(x *Exec, st *State, a []Value) Value {
			return st.obj(a[0].(Ptr).obj).cells[a[0].(Ptr).off]
		},
		"(*sync/atomic.Value).Store": func(x *Exec, st *State, a []Value) Value {
			x.store(st, a[0], a[1])
			return nil
		},
		"(*sync.WaitGroup).Add":  nop,
		"(*sync.WaitGroup).Done": nop,
		"(*sync.WaitGroup).Wait": nop,
		"time.Sleep":             nop,
		"runtime.Gosched":        nop,
		"runtime.GC":             nop,
	}
	words := map[string]uint8{"Int32": 32, "Uint32": 32, "Int64": 64, "Uint64": 64, "Uintptr": 64, "Pointer": 0}
	for _, pkg := range []string{"sync/atomic."} {
		for w := range words {
			cell := func(st *State, p Value) *Value {
				q, ok := p.(Ptr)
				if !ok || q.obj == 0 {
					panic(goPanic{"runtime error: invalid memory address or nil pointer dereference"})
				}
				return &st.wobj(q.obj).cells[q.off]
			}
			m[pkg+"Load"+w] = func(x *Exec, st *State, a []Value) Value { return *cell(st, a[0]) }
			m[pkg+"Store"+w] = func(x *Exec, st *State, a []Value) Value { *cell(st, a[0]) = a[1]; return nil }
			m[pkg+"Swap"+w] = func(x *Exec, st *State, a []Value) Value {
				c := cell(st, a[0])
				old := *c
				*c = a[1]
				return old
			}
			m[pkg+"CompareAndSwap"+w] = func(x *Exec, st *State, a []Value) Value {
				if !x.decide(st, x.valEq(*cell(st, a[0]), a[1], nil)) {
					return x.c.False
				}
				*cell(st, a[0]) = a[2]
				return x.c.True
			}
			if w != "Pointer" {
				m[pkg+"Add"+w] = func(x *Exec, st *State, a []Value) Value {
					c := cell(st, a[0])
					*c = x.c.Bin(OAdd, (*c).(*Expr), a[1].(*Expr))
					return *c
				}
			}
		}
	}
	for k, v := range m {
		intrinsics[k] = v
	}
	_ = strings.Cut
}
