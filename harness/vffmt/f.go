// Package vffmt stands in for fmt in the console: what is printed is kept.
package vffmt

import (
	"fmt"
	"io"
	"os"
)

type (
	Stringer = fmt.Stringer
	State    = fmt.State
)

// Out is what was printed to the standard output so far.
var Out string

func Println(a ...any) (int, error) { return put(fmt.Sprintln(a...)) }
func Print(a ...any) (int, error)   { return put(fmt.Sprint(a...)) }
func Printf(format string, a ...any) (int, error) {
	return put(fmt.Sprintf(format, a...))
}

func put(s string) (int, error) {
	Out += s
	return len(s), nil
}

func Sprintln(a ...any) string               { return fmt.Sprintln(a...) }
func Sprint(a ...any) string                 { return fmt.Sprint(a...) }
func Sprintf(format string, a ...any) string { return fmt.Sprintf(format, a...) }
func Errorf(format string, a ...any) error   { return fmt.Errorf(format, a...) }

func fput(w io.Writer, s string) (int, error) {
	if f, ok := w.(*os.File); ok {
		if f == os.Stdout {
			return put(s)
		}
		return len(s), nil
	}
	return io.WriteString(w, s)
}

func Fprintln(w io.Writer, a ...any) (int, error) { return fput(w, fmt.Sprintln(a...)) }
func Fprint(w io.Writer, a ...any) (int, error)   { return fput(w, fmt.Sprint(a...)) }
func Fprintf(w io.Writer, format string, a ...any) (int, error) {
	return fput(w, fmt.Sprintf(format, a...))
}
