// Package errs holds the harnesses over pkg/errors.
package errs

import (
	"strings"

	"github.com/williamflynt/topolith/pkg/errors"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/zz_verif/vf"
)

func num(i int) string { return string(rune('0' + i)) }

// documented is the table of codes.
var documented = []struct {
	code errors.TopolithErrorCode
	text string
}{
	{400, "Invalid input"}, {404, "Not found"}, {409, "Conflict or impossible state"}, {450, "Error while executing command"},
	{500, "An unknown error occurred"}, {502, "Issue with World state sync detected"}, {600, "Multiple errors"},
}

// plain is some other kind of error.
type plain string

func (p plain) Error() string { return string(p) }

// E is what an error value holds.
type E struct {
	code      errors.TopolithErrorCode
	desc, msg string
	data      []errors.KvPair
	errs      []error
}

func (e *E) copy() *E {
	c := *e
	c.data = append([]errors.KvPair{}, e.data...)
	c.errs = append([]error{}, e.errs...)
	return &c
}

func text(name string) string {
	class := vf.Any
	if vf.Param("quoted", 0) == 1 {
		class = vf.Quoted
	}
	return vf.Str(name, vf.Param("tmin", 1), vf.Param("tmax", 1), class)
}

var made = 0 // errors made to be wrapped

// another is an error of some kind with a text no other has, or nil.
func another(k string) error {
	kinds := vf.Param("wrap", 3)
	made++
	s := "wrapped-" + num(made)
	switch vf.Pick("kind"+k, kinds) {
	case 1:
		return nil
	case 2:
		return errors.New(s).UseCode(errors.TopolithErrorConflict)
	}
	return plain(s)
}

// build applies one arbitrary building step to e, and to what it should hold.
func build(k string, e errors.TopolithError, m *E) (errors.TopolithError, *E) {
	m = m.copy()
	switch vf.Pick("op"+k, 6) {
	case 0:
		i := vf.Pick("code"+k, len(documented)+1)
		if i == len(documented) {
			m.code = errors.TopolithErrorCode(vf.Int("n"+k, 0, 255))
			return e.UseCode(m.code), m
		}
		m.code, m.desc = documented[i].code, documented[i].text
		return e.UseCode(m.code), m
	case 1:
		m.desc = text("desc" + k)
		return e.WithDescription(m.desc), m
	case 2:
		n := vf.Range("pairs"+k, 0, vf.Param("many", 2))
		var kv []errors.KvPair
		for i := 0; i < n; i++ {
			kv = append(kv, errors.KvPair{Key: text("key" + num(i) + k), Value: text("val" + num(i) + k)})
		}
		m.data = append(m.data, kv...)
		e = e.WithData(kv...)
		for i := range kv { // what was given belongs to the caller
			kv[i].Key = "changed"
		}
		return e, m
	case 3:
		m.data = nil
		return e.ClearData(), m
	case 4:
		n := vf.Range("errs"+k, 0, vf.Param("many", 2))
		var es []error
		for i := 0; i < n; i++ {
			x := another(num(i) + k)
			es = append(es, x)
			if x != nil {
				m.errs = append(m.errs, x)
			}
		}
		e = e.WithError(es...)
		for i := range es {
			es[i] = plain("changed")
		}
		return e, m
	}
	// filling a list up beyond what it holds leaves room at its end
	for i := 0; i < 3; i++ {
		x := plain("filled-" + num(i) + k)
		m.errs = append(m.errs, x)
		e = e.WithError(x)
		kv := errors.KvPair{Key: "k" + num(i), Value: k}
		m.data = append(m.data, kv)
		e = e.WithData(kv)
	}
	return e, m
}

// holds checks that e is what m says.
func holds(e errors.TopolithError, m *E, what string) {
	vf.Assert(e.Code == m.code, "R01: "+what+": the code")
	vf.Assert(e.Description == m.desc, "R01: "+what+": the description")
	vf.Assert(e.Message == m.msg, "R01: "+what+": the message")
	vf.Assert(len(e.Data) == len(m.data), "R01: "+what+": how many data")
	if len(e.Data) == len(m.data) {
		for i := range m.data {
			vf.Assert(vf.All(e.Data[i].Key == m.data[i].Key, e.Data[i].Value == m.data[i].Value), "R01: "+what+": the data")
		}
	}
	wraps(e, m.errs, "R01,R03: "+what+": the wrapped errors")
}

// wraps checks which errors are wrapped, by what can be seen of them.
func wraps(e errors.TopolithError, errs []error, label string) {
	u := e.Unwrap()
	if len(errs) == 0 {
		vf.Assert(u == nil, label)
	} else {
		vf.Assert(u != nil && u.Error() == errs[0].Error(), label)
	}
	s := e.Error()
	at := 0
	for _, x := range errs {
		i := strings.Index(s[at:], x.Error())
		vf.Assert(i >= 0, label)
		if i < 0 {
			return
		}
		at += i + len(x.Error())
	}
	n := 0
	for i := 0; i+8 <= len(s); i++ {
		if s[i:i+8] == "wrapped-" || s[i:i+7] == "filled-" {
			n++
		}
	}
	vf.Assert(n == len(errs), label)
}

func fresh() (errors.TopolithError, *E) {
	msg := text("msg")
	return errors.New(msg), &E{code: 500, desc: documented[4].text, msg: msg}
}

// Derive: values built on a common one, and on each other, keep apart.
func Derive() {
	e, m := fresh()
	holds(e, m, "a new error")
	for i := 0; i < vf.Param("k", 1); i++ {
		e, m = build(num(i), e, m)
	}
	a, am := build("a", e, m)
	b, bm := build("b", e, m)
	holds(e, m, "the original")
	holds(a, am, "one built on it")
	holds(b, bm, "another built on it")
	vf.Reach("end")
}

// Text: the text of an error parses as a status.
func Text() {
	e, m := fresh()
	for i := 0; i < vf.Param("k", 1); i++ {
		e, m = build(num(i), e, m)
	}
	if vf.Param("big", 0) == 1 {
		c := vf.Param("low", 100) + vf.Pick("offset", vf.Param("span", 8))
		m.code = errors.TopolithErrorCode(c)
		e = e.UseCode(m.code)
		for _, x := range documented {
			if x.code == m.code {
				m.desc = x.text
			}
		}
		vf.Assert(e.Code == m.code && e.Description == m.desc, "R02: a code sets its description")
	}
	status(e, m)
	vf.Reach("end")
}

func status(e errors.TopolithError, m *E) {
	p, err := grammar.Parse(e.String())
	vf.Assert(err == nil, "R02: the text of an error parses")
	if err != nil {
		return
	}
	vf.Assert(p.StmtType == "Status", "R02: the text of an error is a status")
	vf.Assert(p.Response.Status.Code == int(m.code), "R02: the code is the error's")
	if vf.Param("quoted", 0) == 1 && len(m.errs) == 0 {
		vf.Assert(p.Response.Status.Message == m.desc+": "+m.msg, "R02: the message is the error's description and message")
	}
	vf.Assert(e.Error() == e.String(), "R02: an error has one text")
}

// Codes: the documented descriptions.
func Codes() {
	e, m := fresh()
	i := vf.Pick("code", len(documented))
	e = e.UseCode(documented[i].code)
	vf.Assert(e.Code == documented[i].code && e.Description == documented[i].text && e.Message == m.msg, "R02: a code sets its description")
	f := e.WithDescription(text("desc")).UseCode(documented[i].code)
	vf.Assert(f.Description == documented[i].text, "R02: a code sets its description")
	m.code, m.desc = documented[i].code, documented[i].text
	status(e, m)
	vf.Reach("end")
}

// Joining: any errors, some of them nil, some of them wrapping others.
func Joining() {
	n := vf.Range("count", 0, vf.Param("many", 3))
	var es, want []error
	for i := 0; i < n; i++ {
		x := another(num(i))
		es = append(es, x)
		if x != nil {
			want = append(want, x)
		}
	}
	j := errors.Join(es...)
	vf.Assert(j.Code == 600, "R03: joined errors have their code")
	wraps(j, want, "R03: joining keeps every error in order")
	o := errors.New("outer").WithError(j)
	u := o.Unwrap()
	vf.Assert(u != nil && u.Error() == j.Error(), "R03: unwrapping yields the wrapped error")
	vf.Assert(strings.Contains(o.Error(), j.Error()), "R03: the text has the text of the wrapped error")
	x := text("plain")
	o = o.WithError(plain(x))
	vf.Assert(strings.Contains(o.Error(), x) && strings.Contains(o.Error(), j.Error()), "R03: the text has the text of every wrapped error")
	status(o, &E{code: 500, errs: []error{j}})
	vf.Reach("end")
}
