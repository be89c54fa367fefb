// Package vfjson stands in for encoding/json in the browser bridge: it keeps the values that are encoded.
package vfjson

import "io"

var kept []any

const mark = "vfjson:"

func Marshal(v any) ([]byte, error) {
	kept = append(kept, v)
	return []byte(mark + string(rune('0'+len(kept)-1))), nil
}

func MarshalIndent(v any, prefix, indent string) ([]byte, error) { return Marshal(v) }

type Encoder struct{ w io.Writer }

func NewEncoder(w io.Writer) *Encoder           { return &Encoder{w} }
func (e *Encoder) SetEscapeHTML(bool)           {}
func (e *Encoder) SetIndent(prefix, tab string) {}
func (e *Encoder) Encode(v any) error {
	b, _ := Marshal(v)
	_, err := e.w.Write(append(b, '\n'))
	return err
}

// Kept is the value that a text encodes.
func Kept(s string) (any, bool) {
	for len(s) > 0 && s[len(s)-1] == '\n' {
		s = s[:len(s)-1]
	}
	if len(s) != len(mark)+1 || s[:len(mark)] != mark {
		return nil, false
	}
	i := int(s[len(mark)] - '0')
	if i < 0 || i >= len(kept) {
		return nil, false
	}
	return kept[i], true
}
