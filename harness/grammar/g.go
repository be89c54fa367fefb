// Package grammar holds the harnesses over pkg/grammar.
package grammar

import (
	g "github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/zz_verif/vf"
)

func num(i int) string { return string(rune('0' + i)) }

// reserved are the words no plain word may start with.
var reserved = []string{"world", "endworld", "error", "ok", "item", "rel", "from?", "to?", "in", "create", "delete", "set", "clear", "fetch", "list", "exists", "free", "nest", "-"}

func startsReserved(s string) bool {
	for _, k := range reserved {
		if len(s) >= len(k) && s[:len(k)] == k {
			return true
		}
	}
	return false
}

// word is a symbolic identifier or value, and how it is written: in quotes, or as a plain word.
func word(name string) (text, value string) {
	lo, hi := vf.Param("wmin", 1), vf.Param("wmax", 2)
	form := vf.Param("form", 2)
	if form == 2 {
		form = vf.Pick(name+".form", 2)
	}
	if form == 0 {
		v := vf.Str(name, lo, hi, vf.Quoted)
		return `"` + v + `"`, v
	}
	v := vf.Str(name, max(lo, 1), max(hi, 1), vf.Plain)
	vf.Assume(!startsReserved(v))
	return v, v
}

// value is a word in a place where reserved words are allowed.
func value(name string) (text, val string) {
	lo, hi := vf.Param("vmin", 1), vf.Param("vmax", 1)
	form := vf.Param("vform", 0)
	if form == 2 {
		form = vf.Pick(name+".form", 2)
	}
	if form == 0 {
		v := vf.Str(name, lo, hi, vf.Quoted)
		return `"` + v + `"`, v
	}
	v := vf.Str(name, max(lo, 1), max(hi, 1), vf.Plain)
	return v, v
}

// line is a command under construction together with what it means.
type line struct {
	text      string
	typ, verb string
	id        string
	ids, sec  []string
	keys      []string
	vals      []string
	flags     []string
}

// gap is what separates two words.
func (l *line) gap() string {
	switch vf.Param("gap", 0) {
	case 1:
		return "\t"
	case 2:
		return " \r\n "
	case 3:
		return "   "
	}
	return " "
}

func (l *line) add(w string) {
	if l.text != "" {
		l.text += l.gap()
	}
	l.text += w
}

func (l *line) param(k, text, val string) {
	l.add(k + "=" + text)
	l.keys = append(l.keys, k)
	l.vals = append(l.vals, val)
}

var typeNames = []string{"person", "database", "queue", "blobstore", "browser", "mobile", "server", "device", "code"}

// params adds attributes: those selected by the mask, each there or not, in either order.
func (l *line) params(item bool, atLeast int) {
	mask := vf.Param("pmask", 31)
	order := []int{0, 1, 2, 3, 4}
	if vf.Param("back", 0) == 1 {
		order = []int{4, 3, 2, 1, 0}
	}
	for _, i := range order {
		if mask&(1<<i) == 0 || !item && i == 4 || vf.Param("all", 0) == 0 && !vf.Flip("has"+num(i)) {
			continue
		}
		switch {
		case i == 0 && item:
			t, v := value("name")
			l.param("name", t, v)
		case i == 0:
			t, v := value("verb")
			l.param("verb", t, v)
		case i == 1:
			k := "async"
			if item {
				k = "external"
			}
			v := "false"
			if vf.Flip("mark") {
				v = "true"
			}
			l.param(k, v, v)
		case i == 2:
			t, v := value("mech")
			l.param("mechanism", t, v)
		case i == 3:
			t, v := value("exp")
			l.param("expanded", t, v)
		case i == 4:
			v := typeNames[vf.Pick("type", len(typeNames))]
			l.param("type", v, v)
		}
	}
	vf.Assume(len(l.keys) >= atLeast)
}

func (l *line) clearKeys(item bool) {
	ks := []string{"verb", "async", "mechanism", "expanded"}
	if item {
		ks = []string{"name", "external", "mechanism", "expanded", "type"}
	}
	for i, k := range ks {
		if vf.Flip("has" + num(i)) {
			l.add(k)
			l.keys = append(l.keys, k)
			l.vals = append(l.vals, "")
		}
	}
	vf.Assume(len(l.keys) > 0)
}

func (l *line) one(name string) {
	t, v := word(name)
	l.add(t)
	l.id = v
}

func (l *line) two() {
	l.one("a")
	t, v := word("b")
	l.add(t)
	l.sec = []string{v}
}

func (l *line) many() {
	n := vf.Range("count", 1, vf.Param("ids", 2))
	for i := 0; i < n; i++ {
		t, v := word("id" + num(i))
		l.add(t)
		l.ids = append(l.ids, v)
	}
}

func (l *line) limit() {
	if n := vf.Range("digits", 0, vf.Param("digits", 2)); n > 0 {
		d := vf.Bytes("limit", n, "0123456789")
		if vf.Param("big", 0) == 1 {
			d += "99999999999999999999"
		}
		l.add(d)
		l.keys, l.vals = []string{"limit"}, []string{d}
	}
}

const nKinds = 28

// command writes one command of the given kind.
func command(kind int) *line {
	l := &line{}
	is := func(typ, verb string, ws ...string) {
		l.typ, l.verb = typ, verb
		for _, w := range ws {
			l.add(w)
		}
	}
	switch kind {
	case 0:
		is("item", "create", "item", "create")
		l.one("a")
		l.params(true, 0)
	case 1:
		is("item", "set", "item", "set")
		l.one("a")
		l.params(true, 0)
	case 2:
		is("item", "clear", "item", "clear")
		l.one("a")
		l.clearKeys(true)
	case 3:
		is("item", "delete", "item", "delete")
		l.one("a")
	case 4:
		is("item", "fetch", "item", "fetch")
		l.one("a")
	case 5:
		is("item", "exists", "item", "exists")
		l.one("a")
	case 6:
		is("item", "exists", "item?")
		l.one("a")
	case 7:
		is("item", "list", "item", "list")
		l.limit()
	case 8:
		is("item", "list", "item", "in")
		l.one("a")
	case 9:
		is("item", "create-or-fetch", "item")
		l.one("a")
	case 10:
		is("item", "create-or-set", "item")
		l.one("a")
		l.params(true, 1)
	case 11:
		is("item", "nest", "nest")
		l.many()
		l.add("in")
		t, v := value("dst")
		l.add(t)
		l.sec = []string{v}
	case 12:
		is("item", "free", "free")
		l.many()
	case 13:
		is("item", "in?", "in?")
		l.two()
	case 14:
		is("rel", "create", "rel", "create")
		l.two()
		l.params(false, 0)
	case 15:
		is("rel", "set", "rel", "set")
		l.two()
		l.params(false, 0)
	case 16:
		is("rel", "clear", "rel", "clear")
		l.two()
		l.clearKeys(false)
	case 17:
		is("rel", "delete", "rel", "delete")
		l.two()
	case 18:
		is("rel", "fetch", "rel", "fetch")
		l.two()
	case 19:
		is("rel", "exists", "rel", "exists")
		l.two()
	case 20:
		is("rel", "exists", "rel?")
		l.two()
	case 21:
		is("rel", "list", "rel", "list")
		l.limit()
	case 22:
		is("rel", "to?", "to?")
		l.one("a")
	case 23:
		is("rel", "from?", "from?")
		l.one("a")
	case 24:
		is("rel", "create-or-fetch", "rel")
		l.two()
	case 25:
		is("rel", "create-or-set", "rel")
		l.two()
		l.params(false, 1)
	case 26:
		is("world", "fetch", "world")
	case 27:
		is("item", "list", "items", "list")
		l.limit()
	}
	return l
}

var flagNames = []string{"strict", "verbose", "ids"}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vf.All(ok, a[i] == b[i])
	}
	return ok
}

// asWritten: the parsed command is the line.
func (l *line) asWritten(p *g.Parser, who string) {
	a := p.InputAttributes
	vf.Assert(p.StmtType == "Command", who+": a command is classified as a command")
	vf.Assert(a.ResourceType == l.typ, who+": the resource is as written")
	vf.Assert(a.Verb == l.verb, who+": the verb is as written")
	if len(l.ids) > 0 {
		vf.Assert(sameList(a.ResourceIds, l.ids), who+": the identifiers are as written")
	} else {
		vf.Assert(a.ResourceId == l.id, who+": the identifier is as written")
	}
	vf.Assert(sameList(a.SecondaryIds, l.sec), who+": the second identifier is as written")
	vf.Assert(len(a.Params) == len(l.keys), who+": exactly the attributes written are there")
	for i, k := range l.keys {
		v, ok := a.Params[k]
		vf.Assert(ok && v == l.vals[i], who+": every attribute has the value written")
	}
	vf.Assert(sameList(a.Flags, l.flags), who+": the flags are as written")
}

// Commands: every command parses to what was written.
func Commands() {
	l := command(vf.Pick("kind", nKinds))
	for i := 0; i < vf.Param("flags", 1); i++ {
		if k := vf.Pick("flag"+num(i), 7) - 1; k >= 0 {
			l.add([]string{"-", "--"}[k%2] + flagNames[k/2])
			l.flags = append(l.flags, flagNames[k/2])
		}
	}
	s := l.text
	if vf.Param("lead", 0) == 1 {
		s = vf.Bytes("lead", 2, " \t\n\r") + s
	}
	p, err := g.Parse(s)
	vf.Assert(err == nil, "G02: a command parses")
	if err != nil {
		return
	}
	l.asWritten(p, "G02")
	vf.Reach("end")
}

// others are texts of every kind, and one that is none.
var others = []string{
	`item create "zz" name="yy" external=true mechanism="ww" expanded="vv" type=queue --strict`, `rel clear "zz" "yy" verb async mechanism expanded -ids`, `nest "x1" "x2" "x3" in "x4"`,
	`item "zz" name="yy" $$$$ 404 error "no"`, `"z1" "z2" "z3" $$$$ 200 ok`, `tree{item "zz"::[tree{item "yy"::[]}]}`, `item list 7`, `301 ok`, `item create zz name="`,
	"$$world\nversion=9\nid=\"zz\"\nname=\"zz\"\nexpanded=\"zz\"\ntree{nil::[tree{item \"zz\"::[]}]}\nrel \"zz\" \"zz\"\nendworld$$",
}

// Apart: what was parsed from one text stays as it is whatever is parsed, or done with the result, afterwards.
func Apart() {
	l := command(vf.Pick("kind", nKinds))
	if k := vf.Pick("flag", 4) - 1; k >= 0 {
		l.add("--" + flagNames[k])
		l.flags = append(l.flags, flagNames[k])
	}
	p, err := g.Parse(l.text)
	vf.Assert(err == nil, "G05: a command parses")
	if err != nil {
		return
	}
	other := l.text
	if k := vf.Pick("other", len(others)+1); k < len(others) {
		other = others[k]
	}
	q, err2 := g.Parse(other)
	if vf.Flip("edit") && q != nil {
		a := &q.InputAttributes
		for _, s := range [][]string{a.ResourceIds, a.SecondaryIds, a.Flags, q.ItemStrings, q.RelStrings} {
			for i := range s {
				s[i] = "changed"
			}
			_ = append(s[:0], "more")
		}
		if a.Params != nil {
			a.Params["name"], a.Params["more"] = "changed", "more"
		}
		if q.WorldParams != nil {
			q.WorldParams["name"] = "changed"
		}
	}
	l.asWritten(p, "G05")
	vf.Assert(len(p.ItemStrings) == 0 && len(p.RelStrings) == 0 && len(p.WorldParams) == 0, "G05: nothing of one text is in the result of another")
	p2, err := g.Parse(l.text)
	vf.Assert(err == nil, "G05: a command parses again")
	if err == nil {
		l.asWritten(p2, "G05")
	}
	q2, err3 := g.Parse(other)
	vf.Assert((err2 == nil) == (err3 == nil), "G05: a text parses the same every time")
	if err2 == nil && err3 == nil {
		vf.Assert(q2.StmtType == q.StmtType, "G05: a text parses the same every time")
	}
	vf.Reach("end")
}

func classified(p *g.Parser) bool {
	switch p.StmtType {
	case "Command", "Response", "WorldObject", "Tree", "Status":
		return true
	}
	return false
}

// Total: any text at all.
func Total() {
	s := vf.Str("s", 0, vf.Param("n", 3), vf.Any)
	p, err := g.Parse(s)
	if err == nil {
		vf.Assert(classified(p), "G01: text that parses is classified")
		if p.StmtType == "Command" {
			vf.Assert(len(s) >= 4 && s[:3] == "to?", "G03: no text this short is a command but a to-query")
		}
	}
	vf.Reach("end")
}

// holes are texts with a place for any bytes.
var holes = [][2]string{
	{"item ", ""}, {"item create \"", "\""}, {"item a name=\"", "\""}, {"item a type=", ""}, {"item a ", "=true"},
	{"rel a b ", ""}, {"nest a in ", ""}, {"nest ", " in b"}, {"free ", " x"}, {"in? a ", ""}, {"tree{item a::[", "]}"}, {"tree{nil::[]", ""},
	{"", " $$$$ 200 ok"}, {"item \"a\" ", "$$$$ 200 ok"}, {"$$$$ ", " ok"}, {"$$$$ 200 ", ""}, {"", " error \"x\""},
	{"$$world\nversion=1\nid=", "\nname=\nexpanded=\ntree{nil::[]}\nendworld$$"}, {"$$world\nversion=", "\nid=a\nname=b\nexpanded=c\ntree{nil::[]}\nendworld$$"},
	{"$$world\nversion=1\nid=a\nname=b\nexpanded=c\ntree{nil::[]}\n", "endworld$$"}, {"item list ", ""}, {"item ", "\xff"}, {"item a ", "-strict"}, {"\xe2\x82", ""},
	{"item list 99999999999999999", "9999"}, {"rel list 922337203685477580", ""}, {"99999999999999999", "999 error \"x\""},
	{"$$world\nversion=99999999999999999999", "\nid=a\nname=b\nexpanded=c\ntree{nil::[]}\nendworld$$"},
}

// Holes: well-formed text with any bytes put into it.
func Holes() {
	h := holes[vf.Pick("hole", len(holes))]
	s := h[0] + vf.Str("s", 0, vf.Param("n", 2), vf.Any) + h[1]
	p, err := g.Parse(s)
	if err == nil {
		vf.Assert(classified(p), "G01: text that parses is classified")
	}
	vf.Reach("end")
}

// closed writes a command after which only flags may follow.
func closed(k int) string {
	w := func(n string) string { t, _ := word(n); return t }
	switch k {
	case 0:
		return "item delete " + w("a")
	case 1:
		return "item fetch " + w("a")
	case 2:
		return "rel delete " + w("a") + " " + w("b")
	case 3:
		return "in? " + w("a") + " " + w("b")
	case 4:
		return "to? " + w("a")
	case 5:
		return "from? " + w("a")
	case 6:
		return "item exists " + w("a")
	case 7:
		return "rel? " + w("a") + " " + w("b")
	case 8:
		return "world"
	case 9:
		return "nest " + w("a") + " in " + w("b")
	case 10:
		return "item list " + vf.Bytes("limit", 1, "0123456789")
	case 11:
		return "item create " + w("a") + ` name="` + vf.Bytes("v", 1, vf.Quoted) + `"`
	case 12:
		return "item set " + w("a") + ` external=true`
	case 13:
		return "rel set " + w("a") + " " + w("b") + ` verb="` + vf.Bytes("v", 1, vf.Quoted) + `"`
	case 14:
		return "rel clear " + w("a") + " " + w("b") + ` verb`
	case 15:
		return "item clear " + w("a") + ` name`
	case 16:
		return "item " + w("a") + " type=queue"
	case 17:
		return "free " + w("a") + " -strict"
	case 18:
		return "item " + w("a") + " --verbose"
	case 19:
		return "rel fetch " + w("a") + " " + w("b")
	case 20:
		return "item in " + w("a")
	}
	return "rel list"
}

const nClosed = 22

func isBlank(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func notCommand(s string) {
	p, err := g.Parse(s)
	vf.Assert(err != nil || p.StmtType != "Command", "G03: a command with something else in it is no command")
	vf.Reach("end")
}

// Trailing: a complete command with further text.
func Trailing() {
	c := closed(vf.Pick("kind", nClosed))
	var junk string
	switch vf.Pick("tail", 3) {
	case 0:
		junk = vf.Str("junk", 1, vf.Param("jmax", 2), vf.Any)
		vf.Assume(!isBlank(junk[0]) && junk[0] != '-')
		vf.Assume(!(c == "rel list" && junk[0] >= '0' && junk[0] <= '9'))
	case 1: // another command
		junk = []string{"item delete ", "free ", "item list ", "world ", "rel a b "}[vf.Pick("next", 5)] + vf.Bytes("junk", 1, vf.Plain)
	case 2: // an answer
		junk = []string{"$$$$ 200 ok", "200 ok", "400 error \"x\"", "$$", "endworld$$", "tree{nil::[]}"}[vf.Pick("answer", 6)]
		vf.Assume(c != "rel list" || junk[0] < '0' || junk[0] > '9')
	}
	notCommand(c + []string{" ", "\n", "  ", "\t "}[vf.Param("gap", 0)] + junk)
}

// Outside: a character that the language does not know, anywhere in a command.
func Outside() {
	c := command(vf.Pick("kind", nKinds)).text
	at := vf.Range("at", 0, len(c))
	x := vf.Bytes("x", 1, vf.Any)[0]
	for i := 0; i < len(vf.Quoted); i++ {
		vf.Assume(x != vf.Quoted[i])
	}
	vf.Assume(!isBlank(x) && x != '"' && x != '?')
	notCommand(c[:at] + string([]byte{x}) + c[at:])
}

// InQuotes: any text in quotes that has a character that is not allowed there.
func InQuotes() {
	v := vf.Str("v", 1, vf.Param("vmax", 2), vf.Any)
	bad := false
	for i := 0; i < len(v); i++ {
		vf.Assume(v[i] != '"')
		in := false
		for j := 0; j < len(vf.Quoted); j++ {
			in = in || v[i] == vf.Quoted[j]
		}
		bad = bad || !in
	}
	vf.Assume(bad)
	q := `"` + v + `"`
	notCommand([]string{
		"item create " + q, "item fetch " + q, "item " + q, "item a name=" + q, "item set a mechanism=" + q, "item set a expanded=" + q,
		"rel create a " + q, "rel create " + q + " b", "rel a b verb=" + q, "rel set a b mechanism=" + q, "rel set a b expanded=" + q,
		"nest " + q + " in b", "nest a in " + q, "free " + q, "free a " + q, "in? " + q + " b", "to? " + q, "item in " + q, "item list " + q, "item a type=" + q,
	}[vf.Pick("place", 20)])
}

// Status: a status line parses to its parts.
func Status() {
	code, ok, msg, line := status()
	p, err := g.Parse(line)
	vf.Assert(err == nil, "G04: a status line parses")
	if err == nil {
		vf.Assert(p.StmtType == "Status", "G04: a status line is classified as a status")
		_ = ok
		vf.Assert(p.Response.Status.Code == code, "G04: the code is as written")
		vf.Assert(p.Response.Status.Message == msg, "G04: the message is as written")
	}
	vf.Reach("end")
}

func status() (code int, ok bool, msg, line string) {
	ds := vf.Str("code", vf.Param("dmin", 3), vf.Param("dmax", 3), "0123456789")
	for i := 0; i < len(ds); i++ {
		code = code*10 + int(ds[i]-'0')
	}
	line = ds + " error"
	if ok = vf.Flip("ok"); ok {
		line = ds + " ok"
	}
	switch vf.Pick("message", 4) {
	case 1:
		msg = vf.Str("m", 0, vf.Param("mmax", 2), vf.Quoted)
		line += ` "` + msg + `"`
	case 2:
		msg = vf.Str("m", 1, vf.Param("mmax", 2), vf.Plain)
		line += " " + msg
	case 3:
		msg = vf.Str("m", 1, vf.Param("mmax", 2), vf.Plain) + " " + vf.Str("m2", 1, vf.Param("mmax", 2), vf.Plain)
		line += " " + msg
	}
	return
}

// object is an object of a response: its kind, its text, and the texts of its parts.
func object(kind int) (typ, text string, parts []string) {
	q := func(n string) string {
		return `"` + vf.Str(n, vf.Param("wmin", 1), vf.Param("wmax", 1), vf.Quoted) + `"`
	}
	item := func(n string) string {
		s := "item " + q(n)
		if vf.Param("attrs", 1) == 1 {
			s += " type=queue name=" + q(n+"name") + " external=true"
		}
		return s
	}
	rel := func(n string) string {
		s := "rel " + q(n) + " " + q(n+"to")
		if vf.Param("attrs", 1) == 1 {
			s += " verb=" + q(n+"verb") + " async=true"
		}
		return s
	}
	switch kind {
	case 0:
		return "", "", nil
	case 1:
		n := vf.Range("count", 1, vf.Param("max", 2))
		for i := 0; i < n; i++ {
			parts = append(parts, item("i"+num(i)))
		}
		typ = "item"
	case 2:
		n := vf.Range("count", 1, vf.Param("max", 2))
		for i := 0; i < n; i++ {
			parts = append(parts, rel("r"+num(i)))
		}
		typ = "rel"
	case 3:
		return "tree", "tree{" + item("i") + "::[tree{" + item("j") + "::[]}]}", nil
	case 4:
		n := vf.Range("count", 1, vf.Param("max", 2))
		for i := 0; i < n; i++ {
			parts = append(parts, q("i"+num(i)))
		}
		typ = "ids"
	case 5:
		return "world", "$$world\nversion=1\nid=" + q("wid") + "\nname=" + q("wname") + "\nexpanded=" + q("wexp") + "\ntree{nil::[tree{" + item("i") + "::[]}]}\n" + rel("r") + "\nendworld$$", nil
	}
	sep := []string{" ", "\n"}[vf.Param("sep", 1)]
	for i, p := range parts {
		if i > 0 {
			text += sep
		}
		text += p
	}
	return
}

// Responses: an object and a status.
func Responses() {
	typ, text, parts := object(vf.Pick("kind", 6))
	code, _, msg, line := status()
	gap := []string{" ", "\n"}[vf.Param("sep", 1)]
	p, err := g.Parse(text + gap + "$$$$" + gap + line)
	vf.Assert(err == nil, "G04: a response parses")
	if err != nil {
		return
	}
	vf.Assert(p.StmtType == "Response", "G04: a response is classified as a response")
	vf.Assert(p.Response.Status.Code == code, "G04: the code is as written")
	vf.Assert(p.Response.Status.Message == msg, "G04: the message is as written")
	vf.Assert(p.Response.Object.Type == typ, "G04: the kind of object is as written")
	repr := p.Response.Object.Repr
	switch typ {
	case "item":
		vf.Assert(sameList(p.ItemStrings, parts), "G04: all items are recovered in order")
		if len(parts) == 1 {
			vf.Assert(repr == parts[0], "G04: the object's text is as written")
		}
	case "rel":
		vf.Assert(sameList(p.RelStrings, parts), "G04: all relationships are recovered in order")
		if len(parts) == 1 {
			vf.Assert(repr == parts[0], "G04: the object's text is as written")
		}
	case "tree":
		vf.Assert(repr == text, "G04: the object's text is as written")
	case "ids":
		ids := []string{}
		for _, q := range parts {
			ids = append(ids, q[1:len(q)-1])
		}
		vf.Assert(sameList(p.InputAttributes.ResourceIds, ids), "G04: all identifiers are recovered in order")
	case "":
		vf.Assert(repr == "", "G04: no object, no text")
	}
	vf.Reach("end")
}
