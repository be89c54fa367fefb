package vf

import (
	"io"
	"os"
)

// Models of library functions. The executor runs these in place of the originals.

// engine primitives; never called natively
func lenOf(x any) int           { panic("vf") }
func swap(x any, i, j int)      { panic("vf") }
func kindOf(x any) string       { panic("vf") }
func rawString(x any) string    { panic("vf") }
func rawBool(x any) bool        { panic("vf") }
func rawInt(x any) int          { panic("vf") }
func elem(x any, i int) any     { panic("vf") }
func typeName(x any) string     { panic("vf") }
func unsupported(s string) bool { panic("vf") }

type stringer interface{ String() string }

func MSprint(args ...any) string {
	out := ""
	for i, a := range args {
		if i > 0 && kindOf(a) != "string" && kindOf(args[i-1]) != "string" {
			out += " "
		}
		out += text(a, 'v')
	}
	return out
}
func MSprintln(args ...any) string {
	out := ""
	for i, a := range args {
		if i > 0 {
			out += " "
		}
		out += text(a, 'v')
	}
	return out + "\n"
}

func MPrintln(args ...any) (int, error)               { return 0, nil }
func MPrintf(format string, args ...any) (int, error) { return 0, nil }

func write(w io.Writer, s string) (int, error) {
	if typeName(w) == "*os.File" {
		if FS == nil || handleOf(w.(*os.File)) == nil {
			return len(s), nil // a standard stream
		}
	}
	return w.Write([]byte(s))
}
func MFprintf(w io.Writer, format string, args ...any) (int, error) {
	if typeName(w) == "*os.File" && FS == nil {
		return 0, nil
	}
	return write(w, MSprintf(format, args...))
}
func MFprintln(w io.Writer, args ...any) (int, error) {
	if typeName(w) == "*os.File" && FS == nil {
		return 0, nil
	}
	return write(w, MSprintln(args...))
}
func MFprint(w io.Writer, args ...any) (int, error) {
	if typeName(w) == "*os.File" && FS == nil {
		return 0, nil
	}
	return write(w, MSprint(args...))
}
func MWriteString(w io.Writer, s string) (int, error) {
	if typeName(w) == "*os.File" && FS == nil {
		return 0, nil
	}
	return write(w, s)
}

const hexd = "0123456789abcdef"

func jsonString(s string) []byte {
	out := []byte{'"'}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"' || c == '\\':
			out = append(out, '\\', c)
		case c == '<' || c == '>' || c == '&':
			out = append(out, '\\', 'u', '0', '0', hexd[c>>4], hexd[c&15])
		case c == '\n':
			out = append(out, '\\', 'n')
		case c == '\r':
			out = append(out, '\\', 'r')
		case c == '\t':
			out = append(out, '\\', 't')
		case c == '\b':
			out = append(out, '\\', 'b')
		case c == '\f':
			out = append(out, '\\', 'f')
		case c < 0x20:
			out = append(out, '\\', 'u', '0', '0', hexd[c>>4], hexd[c&15])
		default:
			out = append(out, c)
		}
	}
	return append(out, '"')
}

func MSortSlice(x any, less func(i, j int) bool) {
	n := lenOf(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(x, j, j-1)
		}
	}
}
func MSortStrings(x []string) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}
func MSortInts(x []int) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}

func MIndex(s, sep string) int {
	for i := 0; i+len(sep) <= len(s); i++ {
		if s[i:i+len(sep)] == sep {
			return i
		}
	}
	return -1
}
func MContains(s, sep string) bool { return MIndex(s, sep) >= 0 }
func MIndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func MIndexByte(s []byte, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func MLastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func MCountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}
func MCount(s []byte, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}
func MBytesEqual(a, b []byte) bool { return string(a) == string(b) }
func MMakeNoZero(n int) []byte     { return make([]byte, n) }
func MCompareString(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}
