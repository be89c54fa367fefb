// Package vfjs stands in for syscall/js: functions given to the browser can be called from a harness.
package vfjs

import "errors"

type Type int

const (
	TypeUndefined Type = iota
	TypeNull
	TypeBoolean
	TypeNumber
	TypeString
	TypeSymbol
	TypeObject
	TypeFunction
)

// Value is a value of the browser: nil, a string, a bool, a number, an object or a function.
type Value struct {
	v   any
	def bool // false for undefined
}

type Func struct {
	Value
	f func(Value, []Value) any
}

type object struct{ fields map[string]Value }

type done struct{}

var global = &object{fields: map[string]Value{}}

// Wanted is the name that ends the program under test once it is set.
var Wanted string

// Run runs a program until the wanted function is there, and returns the function.
func Run(wanted string, main func()) (f func(args ...any) Value, ok bool) {
	global = &object{fields: map[string]Value{}}
	Wanted = wanted
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(done); !is {
					panic(r)
				}
			}
		}()
		main()
	}()
	v, ok := global.fields[wanted]
	if !ok {
		return nil, false
	}
	g, ok := v.v.(func(Value, []Value) any)
	if !ok {
		return nil, false
	}
	return func(args ...any) Value {
		var vs []Value
		for _, a := range args {
			vs = append(vs, ValueOf(a))
		}
		return ValueOf(g(Undefined(), vs))
	}, true
}

func Global() Value    { return Value{global, true} }
func Null() Value      { return Value{nil, true} }
func Undefined() Value { return Value{} }

func FuncOf(f func(this Value, args []Value) any) Func { return Func{Value: Value{f, true}, f: f} }
func (f Func) Release()                                {}

func ValueOf(x any) Value {
	switch x := x.(type) {
	case Value:
		return x
	case Func:
		return x.Value
	}
	return Value{x, true}
}

func (v Value) Set(name string, x any) {
	v.v.(*object).fields[name] = ValueOf(x)
	if v.v == any(global) && name == Wanted {
		panic(done{})
	}
}

func (v Value) Get(name string) Value {
	if o, ok := v.v.(*object); ok {
		return o.fields[name]
	}
	return Value{}
}

func (v Value) Type() Type {
	if !v.def {
		return TypeUndefined
	}
	switch v.v.(type) {
	case nil:
		return TypeNull
	case bool:
		return TypeBoolean
	case int, float64:
		return TypeNumber
	case string:
		return TypeString
	case func(Value, []Value) any:
		return TypeFunction
	}
	return TypeObject
}

func (v Value) String() string {
	switch v.Type() {
	case TypeString:
		return v.v.(string)
	case TypeUndefined:
		return "<undefined>"
	case TypeNull:
		return "<null>"
	}
	return "<object>"
}

func (v Value) IsNull() bool      { return v.Type() == TypeNull }
func (v Value) IsUndefined() bool { return v.Type() == TypeUndefined }
func (v Value) Truthy() bool {
	switch x := v.v.(type) {
	case nil:
		return false
	case bool:
		return x
	case string:
		return x != ""
	}
	return v.def
}
func (v Value) Bool() bool { return v.v.(bool) }
func (v Value) Int() int   { return v.v.(int) }
func (v Value) Length() int {
	if s, ok := v.v.(string); ok {
		return len(s)
	}
	return 0
}

// Plain is what the value holds.
func (v Value) Plain() any { return v.v }

var ErrType = errors.New("type")
