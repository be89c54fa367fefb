package world

import (
	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/zz_verif/vf"
)

// wellFormed: an answer parses as a response or as a status.
func wellFormed(r string) *grammar.Parser {
	p, err := grammar.Parse(r)
	vf.Assert(err == nil, "A01: the answer parses")
	if err != nil {
		return nil
	}
	vf.Assert(p.StmtType == "Response" || p.StmtType == "Status", "A01: the answer is a response or a status")
	return p
}

// Lines: any text, on a small world.
func Lines() {
	a, m := start()
	h := [2]string{}
	if vf.Param("holes", 0) == 1 {
		h = holes[vf.Pick("hole", len(holes))]
	}
	s := h[0] + vf.Str("s", 0, vf.Param("slen", 2), vf.Any) + h[1]
	said(a, m, s)
}

func said(a app.App, m *M, s string) {
	p, err := grammar.Parse(s)
	command := err == nil && p.StmtType == "Command"
	r := wellFormed(a.Exec(s))
	if r != nil && !command {
		vf.Assert(r.StmtType == "Status" && r.Response.Status.Code == 400, "A01: text that is no command gets an invalid-input status")
	}
	if !command {
		vf.Assert(len(a.History()) == 0 && !a.CanUndo() && !a.CanRedo(), "A01: text that is no command leaves the history")
		checkAll(a.World(), m, "A01")
	}
	vf.Reach("end")
}

// holes are texts with a place for any bytes.
var holes = [][2]string{
	{"item ", ""}, {"item create \"", "\""}, {"item a name=\"", "\""}, {"item a type=", ""}, {"item a ", "=true"},
	{"rel a b ", ""}, {"nest a in ", ""}, {"nest ", " in b"}, {"free ", " x"}, {"in? a ", ""}, {"tree{item a::[", "]}"},
	{"", " $$$$ 200 ok"}, {"", " error \"x\""}, {"item list ", ""}, {"item a ", "-strict"}, {"rel clear a b ", ""}, {"item clear a ", ""},
	{"rel a b verb=\"", "\""}, {"item set a expanded=", ""}, {"world ", ""},
	{"item list 99999999999999999", "9"}, {"rel list 922337203685477580", ""}, {"99999999999999999", "999 error \"x\""},
}

// Answers: any command in a world of any shape.
func Answers() {
	a, m := start()
	c := newCmd("", vf.Param("cmds", 1<<nCmds-1))
	_ = m
	r := wellFormed(a.Exec(c.text))
	if r != nil {
		code := r.Response.Status.Code
		vf.Assert((code == 200) == (r.StmtType == "Response"), "A01: the answer to a command that worked is a response, and a status otherwise")
	}
	vf.Reach("end")
}
