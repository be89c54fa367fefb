// Package vf is the harness interface: symbolic inputs, assumptions and assertions.
//
// Under the symbolic executor the lower-case functions are intrinsics. Compiled natively they read
// one assignment (a counterexample) from the file named by VF_MODEL, which is how every reported
// violation is replayed against the real code.
package vf

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"slices"
	"strings"
)

// Character classes for Bytes.
const (
	Any    = "" // all 256 byte values
	Plain  = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"
	Quoted = Plain + ".,!@#$%^&*()[]+=~;: "
)

// Ascii is every 7-bit byte.
var Ascii = func() string {
	s := ""
	for i := 0; i < 128; i++ {
		s += string(rune(i))
	}
	return s
}()

type model struct {
	Prop   string
	Vars   map[string]uint64
	Params map[string]int
}

var loaded *model

func get() *model {
	if loaded == nil {
		loaded = &model{}
		b, err := os.ReadFile(os.Getenv("VF_MODEL"))
		if err == nil {
			err = json.Unmarshal(b, loaded)
		}
		if err != nil {
			panic(err)
		}
	}
	return loaded
}

// Bytes is a string of n symbolic bytes drawn from class.
func Bytes(name string, n int, class string) string { return bytesVar(name, n, class) }

// Int is a symbolic integer between lo and hi (0..255).
func Int(name string, lo, hi int) int { return intVar(name, lo, hi) }

// Bool is a symbolic boolean.
func Bool(name string) bool { return boolVar(name) }

// Pick is an integer in 0..n-1, explored one value at a time.
func Pick(name string, n int) int { return concrete(intVar(name, 0, n-1)) }

// Range is an integer in lo..hi, explored one value at a time.
func Range(name string, lo, hi int) int { return concrete(intVar(name, lo, hi)) }

// Flip is a boolean explored one value at a time.
func Flip(name string) bool { return concreteBool(boolVar(name)) }

// Param is a bound given on the command line.
func Param(name string, def int) int { return paramVar(name, def) }

// Assume drops the paths on which c does not hold.
func Assume(c bool) { assume(c) }

// Assert is the property.
func Assert(c bool, label string) { assertCond(c, label) }

// Fail reports that the property is broken whenever this point can be reached.
func Fail(label string) { assertCond(false, label) }

// Reach marks a point that the exploration must reach (vacuity control).
func Reach(label string) { reach(label) }

// Str is a symbolic string of symbolic length lo..hi (the length is explored one value at a time).
func Str(name string, lo, hi int, class string) string {
	n := lo
	if hi > lo {
		n = Range(name+".len", lo, hi)
	}
	return Bytes(name, n, class)
}

// All is the conjunction of its arguments, without branching.
func All(cs ...bool) bool {
	r := true
	for _, c := range cs {
		r = and(r, c)
	}
	return r
}

// One is 1 when c holds and 0 otherwise, without branching.
func One(c bool) int { return one(c) }

// ---- native meaning of the intrinsics ----

func Symbolic() bool { return false }

func paramVar(name string, def int) int {
	if v, ok := get().Params[name]; ok {
		return v
	}
	return def
}

func bytesVar(name string, n int, class string) string {
	b := make([]byte, n)
	for i := range b {
		v, ok := get().Vars[fmt.Sprintf("%s[%d]", name, i)]
		if !ok && class != "" {
			v = uint64(class[0])
		}
		b[i] = byte(v)
	}
	return string(b)
}
func intVar(name string, lo, hi int) int {
	if v, ok := get().Vars[name]; ok {
		return int(v)
	}
	if v, ok := get().Params["="+name]; ok {
		return v
	}
	return lo
}
func boolVar(name string) bool {
	if v, ok := get().Vars[name]; ok {
		return v != 0
	}
	return get().Params["="+name] != 0
}
func concrete(n int) int       { return n }
func concreteBool(b bool) bool { return b }
func assume(c bool) {
	if !c {
		fmt.Println("VF-ASSUME")
		os.Exit(4)
	}
}
func assertCond(c bool, label string) {
	if !c && concerns(label, get().Prop) {
		fmt.Println("VF-FAIL " + label)
		os.Exit(3)
	}
}
func concerns(label, prop string) bool {
	owners, _, ok := strings.Cut(label, ": ")
	return prop == "" || !ok || slices.Contains(strings.Split(owners, ","), prop)
}
func reach(label string) { fmt.Println("VF-REACH " + label) }

func and(a, b bool) bool { return a && b }
func one(c bool) int {
	if c {
		return 1
	}
	return 0
}

// Fields are the exported fields of a struct under the names they have in JSON (options follow a comma).
func Fields(v any) map[string]any {
	m := map[string]any{}
	for i := 0; i < fieldCount(v); i++ {
		if n := fieldName(v, i); n != "-" {
			m[n] = fieldVal(v, i)
		}
	}
	return m
}

func fieldCount(v any) int {
	if v == nil || reflect.TypeOf(v).Kind() != reflect.Struct {
		return 0
	}
	return reflect.TypeOf(v).NumField()
}

func fieldName(v any, i int) string {
	f := reflect.TypeOf(v).Field(i)
	if !f.IsExported() {
		return "-"
	}
	name, opts, _ := strings.Cut(f.Tag.Get("json"), ",")
	if name == "" {
		name = f.Name
	}
	if opts != "" {
		name += "," + opts
	}
	return name
}

func fieldVal(v any, i int) any { return reflect.ValueOf(v).Field(i).Interface() }
