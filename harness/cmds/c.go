// Package cmds holds the harnesses over the programs: the browser bridge and the console.
package cmds

import (
	"strings"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/world"
	"github.com/williamflynt/topolith/zz_verif/cmdcli"
	"github.com/williamflynt/topolith/zz_verif/cmdwasm"
	"github.com/williamflynt/topolith/zz_verif/vf"
	"github.com/williamflynt/topolith/zz_verif/vffmt"
	"github.com/williamflynt/topolith/zz_verif/vfjs"
	"github.com/williamflynt/topolith/zz_verif/vfjson"
	"github.com/williamflynt/topolith/zz_verif/vfprompt"
)

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

// hole is a text around a place for any bytes.
func hole(k string, hs [][2]string) string {
	h := hs[vf.Pick("hole"+k, len(hs))]
	return h[0] + vf.Str("s"+k, vf.Param("smin", 0), vf.Param("smax", 2), class()) + h[1]
}

func class() string {
	switch vf.Param("class", 0) {
	case 1:
		return vf.Quoted
	case 2:
		return vf.Plain
	}
	return vf.Any
}

// a reply mirrors the response.
func mirrors(r any, response string) {
	f := vf.Fields(r)
	p, err := grammar.Parse(response)
	status, isStatus := f["status"].(int)
	data, isData := f["data"].(grammar.Response)
	raw, isRaw := f["raw"].(string)
	details, isDetails := f["error"].(map[string]string)
	vf.Assert(len(f) == 4 && isStatus && isData && isRaw && isDetails, "C01: a reply has a status, data, error details and the raw text")
	if !isStatus || !isData || !isRaw || !isDetails {
		return
	}
	vf.Assert(raw == response, "C01: the raw text is the response")
	if err != nil {
		vf.Assert(status == 500, "C01: text that does not parse gives code 500")
		vf.Assert(details["code"] == "500" && details["message"] != "", "C01: text that does not parse gives error details")
		vf.Reach("unparsed")
		return
	}
	s := p.Response.Status
	vf.Assert(status == s.Code, "C01: the status is the response's")
	vf.Assert(data == p.Response, "C01: the data is the response's")
	if s.Code == 200 {
		vf.Assert(len(details) == 0, "C01: no error details for code 200")
		vf.Reach("fine")
		return
	}
	vf.Assert(len(details) > 0, "C01: error details for other codes")
	vf.Assert(vf.All(details["code"] == itoa(s.Code), details["message"] == s.Message), "C01: the details are the response's")
	vf.Reach("failed")
}

var responses = [][2]string{
	{"", ""},
	{"item a::[", "]\n$$$$ 200 ok"}, {"item a::[name=\"", "\"] $$$$ 200 ok"}, {"", " $$$$ 200 ok"}, {"$$$$ 200 ok", ""}, {"$$$$ 20", " ok"},
	{"$$$$ ", " ok"}, {"4", " error \"x\""}, {"404 error \"", "\""}, {"404 error \"x\" errors=[", "]"}, {"", " error \"x: y\""},
	{"", "\n$$$$ 200 ok"}, {"200 ", " \"a\""}, {"200 ok ", ""}, {"rel a b::[verb=\"", "\"]\n$$$$ 200 ok"}, {"tree{nil::[", "]} $$$$ 200 ok"}, {"item list", ""},
}

// Reply: any response text.
func Reply() {
	s := hole("", responses)
	r, ok := cmdwasm.VfReply(s)
	if !ok {
		return
	}
	mirrors(r, s)
}

// lines are texts a user types, with a place for any bytes.
var lines = [][2]string{
	{"", ""}, {"item create \"", "\""}, {"item a name=\"", "\""}, {"item a", ""}, {"item b", ""}, {"item list", ""}, {"item a::", ""},
	{" item b ", " "}, {"rel create a b ", ""}, {"nest b in ", ""}, {"item create b ", ""}, {"world", ""}, {"item delete ", ""},
}

// typed is the k-th line.
func typed(k string) string {
	if k == "0" && vf.Param("given", 1) == 1 {
		return "item create a name=\"x\""
	}
	return hole(k, lines)
}

// Browser: any lines, sent through the function the browser is given.
func Browser() {
	send, ok := vfjs.Run("topolithSend", cmdwasm.VfMain)
	vf.Assert(ok, "C01: the browser is given the function")
	if !ok {
		return
	}
	twin, err := app.NewApp(world.CreateWorld("default-world"))
	vf.Assert(err == nil, "C01: the twin is made")
	for i := 0; i < vf.Param("k", 2); i++ {
		s := typed(itoa(i))
		r, fine := vfjson.Kept(send(s).String())
		vf.Assert(fine, "C01: an answer is a reply")
		if fine {
			answer := twin.Exec(s)
			if raw, is := vf.Fields(r)["raw"].(string); is && raw != answer && same(raw, answer) {
				answer = raw
			}
			mirrors(r, answer)
		}
	}
	vf.Reach("end")
}

// same: equal but for blanks around, and for the order of lists, which is free.
func same(a, b string) bool {
	a, b = strings.TrimSpace(a), strings.TrimSpace(b)
	return a == b || len(a) == len(b) && sorted(a) == sorted(b)
}

func sorted(s string) string {
	b := []byte(s)
	for i := range b {
		for j := i; j > 0 && b[j] < b[j-1]; j-- {
			b[j], b[j-1] = b[j-1], b[j]
		}
	}
	return string(b)
}

// Console: any lines, given to the console.
func Console() {
	vfprompt.Last = nil
	vffmt.Out = ""
	cmdcli.VfMain()
	p := vfprompt.Last
	vf.Assert(p != nil && p.E != nil && p.C != nil, "C02: a prompt is made")
	twin, err := app.NewApp(world.CreateWorld("default-world"))
	vf.Assert(err == nil, "C02: the twin is made")
	for i := 0; i < vf.Param("k", 2); i++ {
		s := typed(itoa(i))
		vffmt.Out = ""
		p.E(s)
		t := strings.TrimSpace(s)
		if t == "" {
			vf.Assert(vffmt.Out == "", "C02: nothing is said for a blank line")
			vf.Reach("blank")
			continue
		}
		if _, err := grammar.Parse(t); err != nil {
			vf.Assert(strings.HasPrefix(vffmt.Out, "invalid input:"), "C02: text outside the language is called invalid")
			vf.Reach("invalid")
			continue
		}
		vf.Assert(same(vffmt.Out, twin.Exec(t)), "C02: the answer of the app is printed")
		vf.Reach("answered")
	}
	vffmt.Out = ""
	p.E("world")
	vf.Assert(same(vffmt.Out, twin.Exec("world")), "C02: the world is as the app would have it")
	vf.Reach("end")
}

var words = []string{".save", ".load", "item", "rel", "world", "in?", "nest", "free", "undo", "redo"}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 'a' - 'A'
		}
	}
	return string(b)
}

// Suggest: any text before the cursor.
func Suggest() {
	vfprompt.Last = nil
	cmdcli.VfMain()
	p := vfprompt.Last
	s := vf.Str("s", 0, vf.Param("smax", 3), vf.Ascii)
	if n := vf.Pick("word", len(words)+1); n < len(words) {
		s = words[n][:min(len(words[n]), vf.Pick("cut", 5))] + s
	}
	b := vfprompt.NewBuffer()
	b.InsertText(s, false, true)
	b.InsertText(vf.Str("after", 0, vf.Param("amax", 1), vf.Ascii), false, false)
	d := b.Document()
	got := p.C(*d)
	n := 0
	for _, w := range words {
		begins := len(s) <= len(w) && lower(s) == lower(w[:min(len(w), len(s))])
		found := 0
		for _, g := range got {
			if g.Text == w {
				found++
			}
		}
		vf.Assert(found == 1 == begins && found <= 1, "C02: the commands that begin with the typed text are suggested")
		n += found
	}
	vf.Assert(n == len(got), "C02: nothing else is suggested")
	vf.Reach("end")
}
