package vf

import (
	"strconv"
	"sync"
	"time"
)

// Model of package fmt's formatting, and of encoding/json's writing.

// engine primitives; never called natively
func fieldIdent(x any, i int) string         { panic("vf") }
func fieldExported(x any, i int) bool        { panic("vf") }
func fieldEmbedded(x any, i int) bool        { panic("vf") }
func fieldTag(x any, i int, k string) string { panic("vf") }
func isNil(x any) bool                       { panic("vf") }
func deref(x any) any                        { panic("vf") }
func mapLen(x any) int                       { panic("vf") }
func mapKey(x any, i int) any                { panic("vf") }
func mapVal(x any, i int) any                { panic("vf") }
func isComparable(x any) bool                { panic("vf") }
func assignTo(x, target any) bool            { panic("vf") }

type spec struct {
	plus, plusV, minus, sharp, space, zero bool
	wid, prec                              int // -1: not given
	verb                                   rune
}

func (f spec) pad(s string) string {
	if f.wid <= 0 {
		return s
	}
	n := 0
	for range s {
		n++
	}
	for ; n < f.wid; n++ {
		if f.minus {
			s += " "
		} else if f.zero {
			s = "0" + s
		} else {
			s = " " + s
		}
	}
	return s
}

func (f spec) str(s string) string {
	if f.prec >= 0 {
		n := 0
		for i := range s {
			if n == f.prec {
				s = s[:i]
				break
			}
			n++
		}
	}
	switch f.verb {
	case 'x', 'X':
		digits := "0123456789abcdef"
		if f.verb == 'X' {
			digits = "0123456789ABCDEF"
		}
		out := ""
		for i := 0; i < len(s); i++ {
			out += string(digits[s[i]>>4]) + string(digits[s[i]&15])
		}
		s = out
	case 'q':
		switch {
		case f.sharp && strconv.CanBackquote(s):
			s = "`" + s + "`"
		case f.plus:
			s = strconv.QuoteToASCII(s)
		default:
			s = strconv.Quote(s)
		}
	}
	return f.pad(s)
}

func (f spec) num(n int, unsigned bool) string {
	base := 10
	switch f.verb {
	case 'x', 'X':
		base = 16
	case 'o':
		base = 8
	case 'b':
		base = 2
	case 'c':
		return f.pad(string(rune(n)))
	case 'q':
		return f.pad(strconv.QuoteRune(rune(n)))
	case 'U':
		h := strconv.FormatInt(int64(n), 16)
		out := ""
		for i := 0; i < len(h); i++ {
			c := h[i]
			if c >= 'a' {
				c -= 32
			}
			out += string(rune(c))
		}
		for len(out) < 4 {
			out = "0" + out
		}
		return f.pad("U+" + out)
	}
	if f.sharp || f.space {
		unsupported("number format")
	}
	sign := ""
	var d string
	if unsigned {
		d = strconv.FormatUint(uint64(n), base)
	} else {
		d = strconv.FormatInt(int64(n), base)
		if n < 0 {
			sign, d = "-", d[1:]
		}
	}
	if f.plus && sign == "" {
		sign = "+"
	}
	if f.verb == 'X' {
		unsupported("number format")
	}
	for len(d) < f.prec {
		d = "0" + d
	}
	if f.zero && !f.minus && f.prec < 0 {
		for len(sign)+len(d) < f.wid {
			d = "0" + d
		}
	}
	g := f
	g.zero = false
	return g.pad(sign + d)
}

func (f spec) bad(v any) string {
	if v == nil {
		return "%!" + string(f.verb) + "(<nil>)"
	}
	g := spec{verb: 'v', wid: -1, prec: -1}
	return "%!" + string(f.verb) + "(" + typeName(v) + "=" + g.text(v, 0) + ")"
}

func (f spec) text(v any, depth int) string {
	switch f.verb {
	case 'T':
		if v == nil {
			return "<nil>"
		}
		return f.pad(typeName(v))
	case 'p':
		unsupported("formatting of an address")
	}
	if v == nil {
		if f.verb == 'v' {
			return f.pad("<nil>")
		}
		return f.bad(v)
	}
	if depth > 8 {
		unsupported("formatting of deep values")
	}
	if f.sharp && f.verb == 'v' {
		unsupported("format verb #v")
	}
	switch f.verb {
	case 's', 'v', 'q', 'x', 'X':
		if e, ok := v.(error); ok {
			return f.str(e.Error())
		}
		if st, ok := v.(stringer); ok {
			return f.str(st.String())
		}
	}
	return f.plain(v, depth)
}

// plain ignores methods of v itself.
func (f spec) plain(v any, depth int) string {
	k := kindOf(v)
	switch k {
	case "string":
		switch f.verb {
		case 's', 'v', 'q', 'x', 'X':
			return f.str(rawString(v))
		}
		return f.bad(v)
	case "bool":
		if f.verb != 't' && f.verb != 'v' {
			return f.bad(v)
		}
		if rawBool(v) {
			return f.pad("true")
		}
		return f.pad("false")
	case "int", "uint":
		switch f.verb {
		case 'd', 'v', 'x', 'X', 'o', 'b', 'c', 'q', 'U':
			return f.num(rawInt(v), k == "uint")
		}
		return f.bad(v)
	case "slice", "array":
		if b, ok := v.([]byte); ok {
			switch f.verb {
			case 's', 'q', 'x', 'X':
				return f.str(string(b))
			}
		}
		if k == "array" {
			unsupported("formatting of an array")
		}
		s := "["
		for i := 0; i < lenOf(v); i++ {
			if i > 0 {
				s += " "
			}
			s += f.text(elem(v, i), depth+1)
		}
		return s + "]"
	case "struct":
		s := "{"
		for i := 0; i < fieldCount(v); i++ {
			if i > 0 {
				s += " "
			}
			if f.plusV {
				s += fieldIdent(v, i) + ":"
			}
			if fieldExported(v, i) {
				s += f.text(fieldVal(v, i), depth+1)
			} else {
				s += f.hidden(fieldVal(v, i), depth+1)
			}
		}
		return s + "}"
	case "map":
		var ks []string
		var ps []string
		for i := 0; i < mapLen(v); i++ {
			key := mapKey(v, i)
			if kindOf(key) != "string" {
				unsupported("formatting of a map")
			}
			ks = append(ks, rawString(key))
			ps = append(ps, f.text(key, depth+1)+":"+f.text(mapVal(v, i), depth+1))
		}
		sortBy(ks, ps)
		s := "map["
		for i, p := range ps {
			if i > 0 {
				s += " "
			}
			s += p
		}
		return s + "]"
	case "ptr":
		if isNil(v) {
			if f.verb == 'v' {
				return f.pad("<nil>")
			}
			return "%!" + string(f.verb) + "(" + typeName(v) + "=<nil>)"
		}
		if depth == 0 {
			d := deref(v)
			switch kindOf(d) {
			case "struct", "slice", "map":
				return "&" + f.text2(d)
			}
		}
	}
	unsupported("formatting of " + typeName(v))
	return ""
}

func (f spec) text2(v any) string {
	switch f.verb {
	case 's', 'v', 'q', 'x', 'X':
		if e, ok := v.(error); ok {
			return f.str(e.Error())
		}
		if st, ok := v.(stringer); ok {
			return f.str(st.String())
		}
	}
	return f.plain(v, 1)
}

// hidden prints the value of an unexported field: no methods are called on it.
func (f spec) hidden(v any, depth int) string {
	if v == nil {
		if f.verb == 'v' {
			return f.pad("<nil>")
		}
		return f.bad(v)
	}
	switch kindOf(v) {
	case "string", "bool", "int", "uint":
		return f.plain(v, depth)
	}
	unsupported("formatting of unexported " + typeName(v))
	return ""
}

func sortBy(ks, ps []string) {
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
			ps[j], ps[j-1] = ps[j-1], ps[j]
		}
	}
}

func text(v any, verb byte) string {
	f := spec{verb: rune(verb), wid: -1, prec: -1}
	return f.text(v, 0)
}

func MSprintf(format string, args ...any) string {
	out := ""
	n := 0
	start := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		out += format[start:i]
		i++
		f := spec{wid: -1, prec: -1}
	flags:
		for ; i < len(format); i++ {
			switch format[i] {
			case '+':
				f.plus = true
			case '-':
				f.minus = true
			case '#':
				f.sharp = true
			case ' ':
				f.space = true
			case '0':
				f.zero = true
			default:
				break flags
			}
		}
		if f.minus {
			f.zero = false
		}
		if i < len(format) && format[i] == '*' {
			if n < len(args) {
				w, ok := args[n].(int)
				if !ok {
					unsupported("format width")
				}
				n++
				i++
				f.wid = w
				if w < 0 {
					f.minus, f.zero, f.wid = true, false, -w
				}
			} else {
				unsupported("format width")
			}
		} else {
			for ; i < len(format) && format[i] >= '0' && format[i] <= '9'; i++ {
				f.wid = max(f.wid, 0)*10 + int(format[i]-'0')
			}
		}
		if i < len(format) && format[i] == '.' {
			i++
			f.prec = 0
			if i < len(format) && format[i] == '*' {
				unsupported("format precision")
			}
			for ; i < len(format) && format[i] >= '0' && format[i] <= '9'; i++ {
				f.prec = f.prec*10 + int(format[i]-'0')
			}
		}
		if i < len(format) && format[i] == '[' {
			j, k := i+1, 0
			for ; j < len(format) && format[j] >= '0' && format[j] <= '9'; j++ {
				k = k*10 + int(format[j]-'0')
			}
			if j >= len(format) || format[j] != ']' || k < 1 || k > len(args) {
				unsupported("format " + format)
			}
			n = k - 1
			i = j + 1
		}
		if i >= len(format) {
			return out + "%!(NOVERB)"
		}
		switch c := format[i]; c {
		case '%':
			out += "%"
		case 's', 'd', 't', 'v', 'q', 'w', 'x', 'X', 'c', 'U', 'o', 'b', 'T', 'p':
			if c == 'w' {
				c = 'v'
			}
			f.verb = rune(c)
			if c == 'v' && f.plus {
				f.plus, f.plusV = false, true
			}
			if n >= len(args) {
				out += "%!" + string(rune(c)) + "(MISSING)"
			} else {
				out += f.text(args[n], 0)
				n++
			}
		default:
			unsupported("format verb in " + format)
		}
		start = i + 1
	}
	out += format[start:]
	if n < len(args) && !hasIndex(format) {
		out += "%!(EXTRA "
		for i := n; i < len(args); i++ {
			if i > n {
				out += ", "
			}
			if args[i] == nil {
				out += "<nil>"
			} else {
				out += typeName(args[i]) + "=" + text(args[i], 'v')
			}
		}
		out += ")"
	}
	return out
}

func hasIndex(format string) bool {
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' {
			for j := i + 1; j < len(format) && (format[j] < 'A' || format[j] == '['); j++ {
				if format[j] == '[' {
					return true
				}
			}
		}
	}
	return false
}

// ---- errors ----

func MErrUnwrap(err error) error {
	if u, ok := err.(interface{ Unwrap() error }); ok {
		return u.Unwrap()
	}
	return nil
}

func MErrIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	cmp := isComparable(target)
	return errIs(err, target, cmp)
}

func errIs(err, target error, cmp bool) bool {
	for {
		if cmp && isComparable(err) && err == target {
			return true
		}
		if i, ok := err.(interface{ Is(error) bool }); ok && i.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if errIs(err, target, cmp) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func MErrAs(err error, target any) bool {
	if err == nil {
		return false
	}
	for {
		if assignTo(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, err := range x.Unwrap() {
				if err == nil {
					continue
				}
				if MErrAs(err, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

type wrapErr struct {
	s   string
	err error
}

func (e *wrapErr) Error() string { return e.s }
func (e *wrapErr) Unwrap() error { return e.err }

type wrapErrs struct {
	s    string
	errs []error
}

func (e *wrapErrs) Error() string   { return e.s }
func (e *wrapErrs) Unwrap() []error { return e.errs }

type plainErr struct{ s string }

func (e *plainErr) Error() string { return e.s }

func MErrorf(format string, args ...any) error {
	var inner []error
	n, ws := 0, 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] == '%' {
			i++
			for i < len(format) && (format[i] < 'A' && format[i] != '%') {
				i++
			}
			if i >= len(format) {
				break
			}
			if format[i] == 'w' && n < len(args) {
				ws++
				if e, ok := args[n].(error); ok {
					inner = append(inner, e)
				}
			}
			if format[i] != '%' {
				n++
			}
		}
	}
	s := MSprintf(format, args...)
	switch {
	case ws == 0:
		return &plainErr{s}
	case ws == 1:
		if len(inner) == 0 {
			return &wrapErr{s, nil}
		}
		return &wrapErr{s, inner[0]}
	}
	return &wrapErrs{s, inner}
}

// ---- encoding/json ----

type jsonErr struct{ s string }

func (e *jsonErr) Error() string { return e.s }

// MJSONMarshal writes strings, integers, booleans, lists, maps with text keys, structs and pointers to them.
// At the top level structs get a fixed text unless WholeJSON is set: the code uses the JSON of structs only as
// free-form error data, which no property mentions, and every byte written costs a branch.
func MJSONMarshal(v any) ([]byte, error) {
	if !WholeJSON {
		switch kindOf(v) {
		case "struct", "ptr":
			return []byte("{}"), nil
		}
	}
	return jsonOf(v, 0)
}

// WholeJSON asks for exact JSON of structs.
var WholeJSON bool

func MJSONMarshalIndent(v any, prefix, indent string) ([]byte, error) {
	unsupported("indented JSON")
	return nil, nil
}

func jsonOf(v any, depth int) ([]byte, error) {
	if v == nil {
		return []byte("null"), nil
	}
	if depth > 10 {
		unsupported("JSON of deep values")
	}
	if _, ok := v.(interface{ MarshalText() ([]byte, error) }); ok {
		unsupported("JSON of " + typeName(v))
	}
	if m, ok := v.(interface{ MarshalJSON() ([]byte, error) }); ok {
		return m.MarshalJSON()
	}
	k := kindOf(v)
	switch k {
	case "string":
		return jsonString(rawString(v)), nil
	case "bool":
		if rawBool(v) {
			return []byte("true"), nil
		}
		return []byte("false"), nil
	case "int":
		return []byte(strconv.FormatInt(int64(rawInt(v)), 10)), nil
	case "uint":
		return []byte(strconv.FormatUint(uint64(rawInt(v)), 10)), nil
	case "slice":
		if _, ok := v.([]byte); ok {
			unsupported("JSON of bytes")
		}
		if isNil(v) {
			return []byte("null"), nil
		}
		out := []byte("[")
		for i := 0; i < lenOf(v); i++ {
			if i > 0 {
				out = append(out, ',')
			}
			b, err := jsonOf(elem(v, i), depth+1)
			if err != nil {
				return nil, err
			}
			out = append(out, b...)
		}
		return append(out, ']'), nil
	case "ptr":
		if isNil(v) {
			return []byte("null"), nil
		}
		return jsonOf(deref(v), depth+1)
	case "map":
		if isNil(v) {
			return []byte("null"), nil
		}
		var ks, ps []string
		for i := 0; i < mapLen(v); i++ {
			key := mapKey(v, i)
			if kindOf(key) != "string" {
				unsupported("JSON of a map")
			}
			b, err := jsonOf(mapVal(v, i), depth+1)
			if err != nil {
				return nil, err
			}
			ks = append(ks, rawString(key))
			ps = append(ps, string(jsonString(rawString(key)))+":"+string(b))
		}
		sortBy(ks, ps)
		out := []byte("{")
		for i, p := range ps {
			if i > 0 {
				out = append(out, ',')
			}
			out = append(out, p...)
		}
		return append(out, '}'), nil
	case "struct":
		out := []byte("{")
		first := true
		for i := 0; i < fieldCount(v); i++ {
			if !fieldExported(v, i) {
				if fieldEmbedded(v, i) {
					unsupported("JSON of embedded fields")
				}
				continue
			}
			tag := fieldTag(v, i, "json")
			if tag == "-" {
				continue
			}
			if fieldEmbedded(v, i) && tag == "" {
				unsupported("JSON of embedded fields")
			}
			name, opts := tag, ""
			for j := 0; j < len(tag); j++ {
				if tag[j] == ',' {
					name, opts = tag[:j], tag[j+1:]
					break
				}
			}
			if name == "" {
				name = fieldIdent(v, i)
			}
			fv := fieldVal(v, i)
			if opts == "omitempty" && emptyJSON(fv) {
				continue
			}
			if opts != "" && opts != "omitempty" {
				unsupported("JSON option " + opts)
			}
			b, err := jsonOf(fv, depth+1)
			if err != nil {
				return nil, err
			}
			if !first {
				out = append(out, ',')
			}
			first = false
			out = append(out, jsonString(name)...)
			out = append(out, ':')
			out = append(out, b...)
		}
		return append(out, '}'), nil
	case "func":
		return nil, &jsonErr{"json: unsupported type: " + typeName(v)}
	}
	unsupported("JSON of " + typeName(v))
	return nil, nil
}

func emptyJSON(v any) bool {
	if v == nil {
		return true
	}
	switch kindOf(v) {
	case "string":
		return len(rawString(v)) == 0
	case "bool":
		return !rawBool(v)
	case "int", "uint":
		return rawInt(v) == 0
	case "slice":
		return lenOf(v) == 0
	case "map":
		return mapLen(v) == 0
	case "ptr":
		return isNil(v)
	}
	return false
}

// ---- sync, time ----

func MPoolGet(p *sync.Pool) any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
func MPoolPut(p *sync.Pool, x any) {}

func MNow() time.Time                  { return time.Time{} }
func MSince(t time.Time) time.Duration { return 0 }
