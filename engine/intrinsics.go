package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

type intrinsic func(x *Exec, st *State, args []Value) Value

// modelNames redirects library functions to models written in Go (package vf), which are encoded like any other code.
var modelNames = map[string]string{
	"fmt.Sprintf":    "MSprintf",
	"fmt.Sprint":     "MSprint",
	"fmt.Sprintln":   "MSprintln",
	"fmt.Errorf":     "MErrorf",
	"fmt.Println":    "MPrintln",
	"fmt.Printf":     "MPrintf",
	"fmt.Print":      "MPrintln",
	"fmt.Fprintf":    "MFprintf",
	"fmt.Fprintln":   "MFprintln",
	"fmt.Fprint":     "MFprint",
	"io.WriteString": "MWriteString",

	"errors.Is":     "MErrIs",
	"errors.Unwrap": "MErrUnwrap",

	"errors.As": "MErrAs",

	"encoding/json.Marshal":       "MJSONMarshal",
	"encoding/json.MarshalIndent": "MJSONMarshalIndent",

	"(*sync.Pool).Get": "MPoolGet",
	"(*sync.Pool).Put": "MPoolPut",
	"time.Now":         "MNow",
	"time.Since":       "MSince",

	"sort.Slice":       "MSortSlice",
	"sort.SliceStable": "MSortSlice",
	"sort.Strings":     "MSortStrings",
	"sort.Ints":        "MSortInts",

	"strings.Index":                        "MIndex",
	"strings.Contains":                     "MContains",
	"internal/bytealg.IndexByteString":     "MIndexByteString",
	"internal/bytealg.IndexByte":           "MIndexByte",
	"internal/bytealg.LastIndexByteString": "MLastIndexByteString",
	"internal/bytealg.CountString":         "MCountString",
	"internal/bytealg.Count":               "MCount",
	"internal/bytealg.IndexString":         "MIndex",
	"internal/stringslite.Index":           "MIndex",
	"internal/bytealg.Equal":               "MBytesEqual",
	"bytes.Equal":                          "MBytesEqual",
	"internal/bytealg.MakeNoZero":          "MMakeNoZero",
	"internal/bytealg.CompareString":       "MCompareString",
	"strings.Compare":                      "MCompareString",

	"os.MkdirAll":                "MMkdirAll",
	"os.Mkdir":                   "MMkdir",
	"os.MkdirTemp":               "MMkdirTemp",
	"os.RemoveAll":               "MRemoveAll",
	"os.Truncate":                "MTruncate",
	"os.UserHomeDir":             "MUserHomeDir",
	"os.TempDir":                 "MTempDir",
	"os.Getwd":                   "MGetwd",
	"(*os.File).Truncate":        "MFileTruncate",
	"(*os.File).Read":            "MFileRead",
	"(*os.File).ReadDir":         "MFileReadDir",
	"(*os.File).Readdirnames":    "MFileReaddirnames",
	"path/filepath.Abs":          "MAbs",
	"path/filepath.EvalSymlinks": "MEvalSymlinks",
	"path/filepath.Glob":         "MGlob",
	"path/filepath.WalkDir":      "MWalkDir",
	"path/filepath.Walk":         "MWalk",
	"os.IsExist":                 "MIsExist",
	"(*os.File).Stat":            "MFileStat",
	"io/ioutil.ReadFile":         "MReadFile",
	"io/ioutil.WriteFile":        "MWriteFile",
	"os.WriteFile":               "MWriteFile",
	"os.ReadFile":                "MReadFile",
	"os.ReadDir":                 "MReadDir",
	"os.CreateTemp":              "MCreateTemp",
	"os.Create":                  "MCreate",
	"os.OpenFile":                "MOpenFile",
	"os.Open":                    "MOpen",
	"os.Rename":                  "MRename",
	"os.Remove":                  "MRemove",
	"os.Stat":                    "MStat",
	"os.Lstat":                   "MStat",
	"os.Getenv":                  "MGetenv",
	"os.IsNotExist":              "MIsNotExist",
	"os.Chmod":                   "MChmod",
	"(*os.File).Write":           "MFileWrite",
	"(*os.File).WriteString":     "MFileWriteString",
	"(*os.File).Close":           "MFileClose",
	"(*os.File).Sync":            "MFileSync",
	"(*os.File).Name":            "MFileName",
	"(*os.File).Chmod":           "MFileChmod",
}

func syncIntrinsic(name string) (intrinsic, bool) {
	for _, s := range []string{".Lock", ".Unlock", ".RLock", ".RUnlock", ".lockSlow", ".unlockSlow"} {
		if strings.HasSuffix(name, s) {
			return nop, true
		}
	}
	return nil, false
}

func nop(x *Exec, st *State, args []Value) Value { return nil }

var intrinsics map[string]intrinsic

const vfp = modPath + "/zz_verif/vf."

func strArg(v Value) string {
	s, ok := v.(*Str)
	if !ok || !s.isLit() {
		unsupported("symbolic name in a harness call")
	}
	return s.lit
}

func init() {
	intrinsics = map[string]intrinsic{
		"(*strings.Builder).copyCheck": nop,
		"runtime.KeepAlive":            nop,
		"internal/race.Acquire":        nop,
		"unique.Make":                  nil,

		vfp + "Symbolic": func(x *Exec, st *State, a []Value) Value { return x.c.True },
		vfp + "paramVar": func(x *Exec, st *State, a []Value) Value {
			if v, ok := x.params[strArg(a[0])]; ok {
				return x.c.Const(64, uint64(v))
			}
			return a[1]
		},
		vfp + "bytesVar": func(x *Exec, st *State, a []Value) Value {
			name := strArg(a[0])
			n := x.concInt(st, a[1])
			class := strArg(a[2])
			var dom bitset
			for i := 0; i < len(class); i++ {
				dom.set(int(class[i]))
			}
			if class == "" {
				dom = fullBits
			}
			b := make([]*Expr, n)
			for i := range b {
				v := x.newVar(fmt.Sprintf("%s[%d]", name, i), 8)
				b[i] = v
				x.declare(st, v, dom)
			}
			return mkStr(b)
		},
		vfp + "intVar": func(x *Exec, st *State, a []Value) Value {
			name := strArg(a[0])
			lo, hi := x.concInt(st, a[1]), x.concInt(st, a[2])
			if lo < 0 || hi > 255 || lo > hi {
				unsupported("range of %s", name)
			}
			if p, ok := x.pins[name]; ok {
				lo, hi = p, p
			}
			v := x.newVar(name, 8)
			var dom bitset
			for i := lo; i <= hi; i++ {
				dom.set(i)
			}
			x.declare(st, v, dom)
			return x.c.Resize(v, 64, false)
		},
		vfp + "boolVar": func(x *Exec, st *State, a []Value) Value {
			name := strArg(a[0])
			if p, ok := x.pins[name]; ok {
				return x.c.Bool(p != 0)
			}
			v := x.newVar(name, 0)
			return v
		},
		vfp + "concrete": func(x *Exec, st *State, a []Value) Value {
			e := a[0].(*Expr)
			return x.c.Const(e.w, x.conc(st, e))
		},
		vfp + "concreteBool": func(x *Exec, st *State, a []Value) Value {
			return x.c.Bool(x.decide(st, a[0].(*Expr)))
		},
		vfp + "and": func(x *Exec, st *State, a []Value) Value { return x.c.And(a[0].(*Expr), a[1].(*Expr)) },
		vfp + "one": func(x *Exec, st *State, a []Value) Value {
			return x.c.Ite(a[0].(*Expr), x.c.Const(64, 1), x.c.Const(64, 0))
		},
		vfp + "assume": func(x *Exec, st *State, a []Value) Value {
			c := a[0].(*Expr)
			if c.isTrue() {
				return nil
			}
			if c.isFalse() || !x.decide(st, c) {
				panic(assumeFail{})
			}
			return nil
		},
		vfp + "assertCond": func(x *Exec, st *State, a []Value) Value {
			c, label := a[0].(*Expr), strArg(a[1])
			if !concerns(label, x.prop) {
				return nil // another property's business
			}
			s := x.asserts[label]
			if s == nil {
				s = &AssertStat{}
				x.asserts[label] = s
			}
			if c.isTrue() {
				s.Proved++
				return nil
			}
			nc := x.c.Not(c)
			// not cached by path: the solver decides the negation under the whole path condition
			r, m := x.feasible(st, nc)
			switch r {
			case SatNo:
				s.Proved++
				return nil
			case SatUnknown:
				s.Unknown++
				x.incon["solver gave up on "+label]++
			case SatYes:
				s.Refuted++
				if mergeCheck {
					fmt.Println("MCHK refuted", label, c, "model ok:", st.satisfies(m), c.eval(m, map[*Expr]uint64{}), "pc:")
					for n := st.pc; n != nil; n = n.prev {
						fmt.Println("      ", n.c)
					}
				}
				x.candidate(st, label, "assert", "assertion fails", nc)
			}
			if r2, m2 := x.feasible(st, c); r2 == SatNo {
				panic(assumeFail{})
			} else {
				x.addPC(st, c, m2)
			}
			return nil
		},
		vfp + "reach": func(x *Exec, st *State, a []Value) Value {
			x.reach[strArg(a[0])]++
			return nil
		},
		vfp + "lenOf": func(x *Exec, st *State, a []Value) Value {
			return x.c.Const(64, uint64(a[0].(Iface).val.(Slice).len))
		},
		vfp + "swap": func(x *Exec, st *State, a []Value) Value {
			f := a[0].(Iface)
			s := f.val.(Slice)
			sz := x.cellsOf(f.typ.Underlying().(*types.Slice).Elem())
			i, j := x.concInt(st, a[1]), x.concInt(st, a[2])
			o := st.wobj(s.obj)
			for k := 0; k < sz; k++ {
				p, q := s.off+i*sz+k, s.off+j*sz+k
				o.cells[p], o.cells[q] = o.cells[q], o.cells[p]
			}
			return nil
		},
		"maps.clone": func(x *Exec, st *State, a []Value) Value {
			f := a[0].(Iface)
			r := f.val.(MapRef)
			o := st.obj(r.obj)
			n := &MapData{keys: append([]Value(nil), o.m.keys...), vals: append([]Value(nil), o.m.vals...), ksz: o.m.ksz, vsz: o.m.vsz}
			return Iface{typ: f.typ, val: MapRef{st.alloc(&Obj{m: n})}}
		},
		vfp + "rawString": func(x *Exec, st *State, a []Value) Value { return a[0].(Iface).val },
		vfp + "rawBool":   func(x *Exec, st *State, a []Value) Value { return a[0].(Iface).val },
		vfp + "rawInt": func(x *Exec, st *State, a []Value) Value {
			f := a[0].(Iface)
			return x.c.Resize(f.val.(*Expr), 64, isSigned(f.typ))
		},
		vfp + "elem": func(x *Exec, st *State, a []Value) Value {
			f := a[0].(Iface)
			s := f.val.(Slice)
			et := f.typ.Underlying().(*types.Slice).Elem()
			i := x.concInt(st, a[1])
			v := x.loadAt(st, s.obj, s.off+i*x.cellsOf(et), et)
			if iv, ok := v.(Iface); ok {
				return iv
			}
			return Iface{typ: x.canon(et), val: v}
		},
		vfp + "fieldCount": func(x *Exec, st *State, a []Value) Value {
			n := 0
			if f := a[0].(Iface); f.typ != nil {
				if s, ok := f.typ.Underlying().(*types.Struct); ok {
					n = s.NumFields()
				}
			}
			return x.c.Const(64, uint64(n))
		},
		vfp + "fieldName": func(x *Exec, st *State, a []Value) Value {
			s := a[0].(Iface).typ.Underlying().(*types.Struct)
			i := x.concInt(st, a[1])
			if !s.Field(i).Exported() {
				return lit("-")
			}
			name, opts, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ",")
			if name == "" {
				name = s.Field(i).Name()
			}
			if opts != "" {
				name += "," + opts
			}
			return lit(name)
		},
		vfp + "fieldVal": func(x *Exec, st *State, a []Value) Value {
			f := a[0].(Iface)
			s := f.typ.Underlying().(*types.Struct)
			i := x.concInt(st, a[1])
			off := x.fieldOff(s, i)
			ft := s.Field(i).Type()
			v := x.unflat(f.val.(Agg)[off:off+x.cellsOf(ft)], ft)
			if iv, ok := v.(Iface); ok {
				return iv
			}
			return Iface{typ: x.canon(ft), val: v}
		},
		vfp + "typeName": func(x *Exec, st *State, a []Value) Value {
			f := a[0].(Iface)
			if f.typ == nil {
				return lit("nil")
			}
			return lit(f.typ.String())
		},
		vfp + "unsupported": func(x *Exec, st *State, a []Value) Value {
			unsupported("%s", strArg(a[0]))
			return nil
		},
	}
	for k, v := range intrinsics {
		if v == nil {
			delete(intrinsics, k)
		}
	}
}

// assumeFail ends a path that the harness does not consider.
type assumeFail struct{}

func (x *Exec) newVar(name string, w uint8) *Expr {
	return x.c.Var(name, w)
}

func (x *Exec) declare(st *State, v *Expr, dom bitset) {
	if _, ok := st.model[v]; ok {
		panic(budgetErr{"the harness uses an input name twice: " + v.String()})
	}
	e := x.c.domExpr(v, dom)
	st.model = x.overlay(st.model, map[*Expr]uint64{v: uint64(dom.first())})
	if e.isTrue() {
		return
	}
	st.pc = &pcnode{c: e, prev: st.pc, n: pcLen(st.pc) + 1}
	st.setDom(v, st.dom(v).and(dom))
}
