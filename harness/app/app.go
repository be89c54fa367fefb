package world

import (
	"fmt"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/world"
	"github.com/williamflynt/topolith/zz_verif/vf"
)

// The commands, as bits of the parameter "cmds".
const (
	cItemCreate = iota
	cItemSet
	cItemClear
	cItemDelete
	cNest
	cFree
	cItemCoF
	cItemCoS
	cRelCreate
	cRelSet
	cRelClear
	cRelDelete
	cRelCoF
	cRelCoS
	cItemFetch
	cItemExists
	cItemList
	cComponents
	cIn
	cRelFetch
	cRelExists
	cRelList
	cTo
	cFrom
	cWorld
	nCmds
)

const queries = 1<<nCmds - 1<<cItemFetch

var verbs = []string{"create", "set", "clear", "delete", "nest", "free", "create-or-fetch", "create-or-set",
	"create", "set", "clear", "delete", "create-or-fetch", "create-or-set",
	"fetch", "exists", "list", "list", "in?", "fetch", "exists", "list", "to?", "from?", "fetch"}

// how each command is written, with the identifiers and the rest following
var heads = []string{"item create", "item set", "item clear", "item delete", "nest", "free", "item", "item",
	"rel create", "rel set", "rel clear", "rel delete", "rel", "rel",
	"item fetch", "item exists", "item list", "item in", "in?", "rel fetch", "rel exists", "rel list", "to?", "from?", "world"}

var flagSets = [][]string{{}, {"strict"}, {"verbose"}, {"ids"}, {"verbose", "strict"}, {"strict", "ids"}}

var bigNumbers = []string{"1000", "999999999999999999", "9223372036854775807", "9223372036854775808", "99999999999999999999999"}

// cmd is one command, and what it means.
type cmd struct {
	op     int
	in     grammar.InputAttributes
	text   string
	x, y   string
	xs     []string
	item   itemChange
	rel    relChange
	limit  int
	strict bool
}

func (c *cmd) onRel() bool {
	return c.op >= cRelCreate && c.op <= cRelCoS || c.op >= cRelFetch && c.op <= cFrom
}

func quote(s string) string { return `"` + s + `"` }

func (c *cmd) param(k, v string, q bool) {
	c.in.Params[k] = v
	if q {
		v = quote(v)
	}
	c.text += " " + k + "=" + v
}

func truth(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

// newCmd is an arbitrary command out of those in cmds, with arbitrary ids and values.
func newCmd(k string, cmds int) *cmd {
	var ops []int
	for i := 0; i < nCmds; i++ {
		if cmds&(1<<i) != 0 {
			ops = append(ops, i)
		}
	}
	c := &cmd{op: ops[0]}
	if len(ops) > 1 {
		c.op = ops[vf.Pick("cmd"+k, len(ops))]
	}
	c.in = grammar.InputAttributes{ResourceType: "item", Verb: verbs[c.op], ResourceIds: []string{}, SecondaryIds: []string{}, Params: map[string]string{}, Flags: []string{}}
	if c.onRel() {
		c.in.ResourceType = "rel"
	}
	if c.op == cWorld {
		c.in.ResourceType = "world"
	}
	c.text = heads[c.op]
	switch c.op {
	case cItemList, cRelList:
		c.limit = vf.Range("limit"+k, 0, vf.Param("maxlimit", 2))
		if c.limit > 0 {
			t := num(c.limit)
			if vf.Param("biglimit", 0) == 1 { // far more than there can be
				c.limit, t = 1000, bigNumbers[c.limit-1]
			}
			c.in.Params["limit"] = t
			c.text += " " + t
		}
	case cWorld:
	case cNest, cFree:
		n := vf.Range("count"+k, 1, vf.Param("ids", 2))
		for i := 0; i < n; i++ {
			c.xs = append(c.xs, newId("x"+num(i)+k))
			c.text += " " + quote(c.xs[i])
		}
		c.in.ResourceIds = c.xs
		if c.op == cNest {
			c.y = newId("y" + k)
			c.in.SecondaryIds = []string{c.y}
			c.text += " in " + quote(c.y)
		}
	default:
		c.x = newId("x" + k)
		c.in.ResourceId = c.x
		c.text += " " + quote(c.x)
		if c.onRel() && c.op != cTo && c.op != cFrom || c.op == cIn {
			c.y = newId("y" + k)
			c.in.SecondaryIds = []string{c.y}
			c.text += " " + quote(c.y)
		}
		if c.op == cComponents {
			vf.Assume(c.x != "") // no such command
		}
	}
	switch c.op {
	case cItemCreate, cItemSet, cItemCoS:
		c.item = newItemChange("x"+k, vf.Param("amask", 1))
		p := c.item.p
		if p.Name != nil {
			c.param("name", *p.Name, true)
		}
		if p.External != nil {
			c.param("external", truth(*p.External), false)
		}
		if p.Mechanism != nil {
			c.param("mechanism", *p.Mechanism, true)
		}
		if p.Expanded != nil {
			c.param("expanded", *p.Expanded, true)
		}
		if p.Type != nil {
			vf.Assume(*p.Type != "") // cannot be written
			c.param("type", *p.Type, false)
		}
	case cRelCreate, cRelSet, cRelCoS:
		c.rel = newRelChange("x"+k, vf.Param("rmask", 1))
		p := c.rel.p
		if p.Verb != nil {
			c.param("verb", *p.Verb, true)
		}
		if p.Async != nil {
			c.param("async", truth(*p.Async), false)
		}
		if p.Mechanism != nil {
			c.param("mechanism", *p.Mechanism, true)
		}
		if p.Expanded != nil {
			c.param("expanded", *p.Expanded, true)
		}
	case cItemClear:
		no, none := false, ""
		clear := func(bit int, key string) bool {
			if vf.Param("cmask", 31)&bit == 0 || vf.Param("full", 0) == 0 && !vf.Flip("clear"+key+k) {
				return false
			}
			c.in.Params[key] = ""
			c.text += " " + key
			return true
		}
		if clear(1, "name") {
			c.item.p.Name = &none
		}
		if clear(2, "external") {
			c.item.p.External = &no
		}
		if clear(4, "mechanism") {
			c.item.p.Mechanism = &none
		}
		if clear(8, "expanded") {
			c.item.p.Expanded = &none
		}
		if clear(16, "type") {
			c.item.p.Type = &none
		}
		vf.Assume(len(c.in.Params) > 0)
	case cRelClear:
		no, none := false, ""
		clear := func(bit int, key string) bool {
			if vf.Param("cmask", 31)&bit == 0 || vf.Param("full", 0) == 0 && !vf.Flip("clear"+key+k) {
				return false
			}
			c.in.Params[key] = ""
			c.text += " " + key
			return true
		}
		if clear(1, "verb") {
			c.rel.p.Verb = &none
		}
		if clear(2, "async") {
			c.rel.p.Async = &no
		}
		if clear(4, "mechanism") {
			c.rel.p.Mechanism = &none
		}
		if clear(8, "expanded") {
			c.rel.p.Expanded = &none
		}
		vf.Assume(len(c.in.Params) > 0)
	}
	if c.op == cItemCoS || c.op == cRelCoS {
		vf.Assume(len(c.in.Params) > 0) // otherwise it is create-or-fetch
	}
	hasStrict := c.op == cIn || c.op == cTo || c.op == cFrom || c.op == cRelFetch
	if vf.Param("flags", 0) == 1 {
		c.in.Flags = flagSets[vf.Pick("flags"+k, len(flagSets))]
	} else if hasStrict && vf.Flip("strict"+k) {
		c.in.Flags = flagSets[1]
	}
	for _, f := range c.in.Flags {
		c.strict = c.strict || hasStrict && f == "strict"
		c.text += " --" + f
	}
	c.in.Raw = c.text
	return c
}

// answer is what a command must answer.
type answer struct {
	err   bool
	any   bool // the answer is not compared
	items []world.Item
	rels  []world.Rel
	truth string
	size  int // how many of the items or relationships
}

// apply runs the command on the model. unsure: the world may also be only part of the way there.
func (m *M) apply(c *cmd) (a answer, unsure bool) {
	item := func(k int) { a.items, a.size = []world.Item{m.it[k].at}, 1 }
	rel := func(k int) { a.rels, a.size = []world.Rel{m.relOf(k)}, 1 }
	i, j := -1, -1
	if !(c.op == cNest || c.op == cFree || c.op == cItemList || c.op == cRelList || c.op == cWorld) {
		i = m.find(c.x)
	}
	if len(c.in.SecondaryIds) > 0 && c.op != cNest {
		j = m.find(c.y)
	}
	l := -1
	if i >= 0 && j >= 0 {
		l = m.link(i, j)
	}
	switch c.op {
	case cItemCreate, cItemCoF, cItemCoS:
		if c.x == "" {
			a.err = true
			return
		}
		if i < 0 {
			at := world.Item{Id: c.x}
			c.item.apply(&at)
			i = m.create(c.x, at)
		} else if c.op == cItemCoS {
			c.item.apply(&m.it[i].at)
		}
		item(i)
	case cItemSet, cItemClear:
		if i < 0 {
			a.err = true
			return
		}
		c.item.apply(&m.it[i].at)
		item(i)
	case cItemDelete:
		m.del(c.x)
		a.any = true
	case cNest, cFree:
		for _, x := range c.xs {
			fails := false
			if c.op == cNest {
				fails = m.nest(x, c.y)
			} else {
				fails = m.free(x)
			}
			a.err = a.err || fails
		}
		a.any = true
		return a, a.err && len(c.xs) > 1
	case cRelCreate, cRelCoF, cRelCoS:
		if i < 0 || j < 0 {
			a.err = true
			return
		}
		if l < 0 {
			n := link{from: i, to: j, ok: true}
			c.rel.apply(&n.at)
			m.rel = append(m.rel, n)
			l = len(m.rel) - 1
		} else if c.op == cRelCoS {
			c.rel.apply(&m.rel[l].at)
		}
		rel(l)
	case cRelSet, cRelClear:
		if l < 0 {
			a.err = true
			return
		}
		c.rel.apply(&m.rel[l].at)
		rel(l)
	case cRelDelete:
		if l >= 0 {
			m.rel[l].ok = false
		}
		a.any = true
	case cItemFetch:
		if i < 0 {
			a.err = true
			return
		}
		item(i)
	case cItemExists:
		a.truth = truth(i >= 0)
	case cRelExists:
		a.truth = truth(l >= 0)
	case cItemList:
		for k := range m.it {
			if m.it[k].ok {
				a.items = append(a.items, m.it[k].at)
			}
		}
		a.size = limited(c.limit, len(a.items)+len(a.rels))
	case cRelList:
		for k := range m.rel {
			if m.rel[k].ok {
				a.rels = append(a.rels, m.relOf(k))
			}
		}
		a.size = limited(c.limit, len(a.items)+len(a.rels))
	case cComponents:
		if i < 0 {
			a.err = true
			return
		}
		for k := range m.it {
			if m.it[k].ok && m.it[k].parent == i {
				a.items = append(a.items, m.it[k].at)
			}
		}
		a.size = len(a.items) + len(a.rels)
	case cIn:
		if c.x == c.y {
			a.any = true // not specified
			return
		}
		a.truth = truth(i >= 0 && j >= 0 && !c.strict && m.inside(i, j))
	case cTo, cFrom, cRelFetch:
		for k := range m.rel {
			r := m.rel[k]
			if !r.ok {
				continue
			}
			want := true
			if c.op != cTo {
				want = m.matches(r.from, c.x, c.strict)
			}
			if c.op == cTo {
				want = m.matches(r.to, c.x, c.strict)
			}
			if c.op == cRelFetch && want {
				want = m.matches(r.to, c.y, c.strict)
			}
			if want {
				a.rels = append(a.rels, m.relOf(k))
			}
		}
		a.size = len(a.items) + len(a.rels)
		if c.op == cRelFetch {
			a.err = a.size == 0
			a.size = 1
		}
	case cWorld:
		a.any = true
	}
	return a, false
}

func limited(limit, n int) int {
	if limit > 0 && limit < n {
		return limit
	}
	return n
}

// joins is every text made of n of the lines, in any order.
func joins(lines []string, n int) []string {
	if n == 0 {
		return []string{""}
	}
	var out []string
	for i := range lines {
		rest := append(append([]string{}, lines[:i]...), lines[i+1:]...)
		for _, r := range joins(rest, n-1) {
			if n > 1 {
				r = "\n" + r
			}
			out = append(out, lines[i]+r)
		}
	}
	return out
}

// given reports whether what was returned is what the answer says.
func (a *answer) given(got fmt.Stringer) bool {
	switch x := got.(type) {
	case world.Item:
		return a.listed([]world.Item{x})
	case world.Rel:
		return a.related([]world.Rel{x})
	case app.StringerList[world.Item]:
		return a.listed(x)
	case app.StringerList[world.Rel]:
		return a.related(x)
	}
	text := got.String()
	if a.truth != "" {
		return text == a.truth
	}
	var lines []string
	for _, i := range a.items {
		lines = append(lines, i.String())
	}
	for _, r := range a.rels {
		lines = append(lines, r.String())
	}
	t := 0
	for _, s := range joins(lines, a.size) {
		t += vf.One(s == text)
	}
	return t > 0
}

func (a *answer) listed(got []world.Item) bool {
	if a.truth != "" || len(a.rels) > 0 || len(got) != a.size {
		return false
	}
	ok := true
	for i, g := range got {
		t := 0
		for _, x := range a.items {
			t += vf.One(sameItem(g, x))
		}
		ok = vf.All(ok, t == 1)
		for _, h := range got[:i] {
			ok = vf.All(ok, g.Id != h.Id)
		}
	}
	return ok
}

func (a *answer) related(got []world.Rel) bool {
	if a.truth != "" || len(a.items) > 0 || len(got) != a.size {
		return false
	}
	ok := true
	for i, g := range got {
		t := 0
		for _, x := range a.rels {
			t += vf.One(sameRel(g, x))
		}
		ok = vf.All(ok, t == 1)
		for _, h := range got[:i] {
			ok = vf.All(ok, !vf.All(g.From.Id == h.From.Id, g.To.Id == h.To.Id))
		}
	}
	return ok
}

func (m *M) matches(i int, id string, strict bool) bool {
	if m.it[i].id == id {
		return true
	}
	if strict {
		return false
	}
	q := m.find(id)
	return q >= 0 && m.inside(i, q)
}

func (m *M) copy() *M {
	return &M{it: append([]slot{}, m.it...), rel: append([]link{}, m.rel...)}
}

func checkAll(w world.World, m *M, who string) {
	check := vf.Param("check", 7)
	if check&1 != 0 {
		checkPlaces(w, m, who)
	}
	if check&2 != 0 {
		checkItems(w, m, who)
	}
	if check&4 != 0 {
		checkRels(w, m, who)
	}
}

func start() (app.App, *M) {
	w := world.CreateWorld("w")
	m := &M{}
	forest(w, m, vf.Param("n", 2), vf.Param("fmask", 0))
	arrows(w, m, vf.Param("r", 0), vf.Param("rfmask", 0))
	a, err := app.NewApp(w)
	vf.Assert(err == nil && a != nil, "A05: a session starts on any world")
	return a, m
}

// run executes the command, as parsed or as text. nil: it failed.
func run(a app.App, c *cmd) fmt.Stringer {
	if vf.Param("text", 0) == 1 {
		return reply(a.Exec(c.text))
	}
	x, err := app.InputToCommand(c.in)
	vf.Assert(err == nil, "A05: every command is understood")
	if err != nil {
		return nil
	}
	var s fmt.Stringer
	s, err, found := app.VfExec(a, x)
	if !found {
		return reply(a.Exec(c.text))
	}
	if err != nil {
		return nil
	}
	return s
}

const tail = "\n$$$$\n200 ok "

type plain string

func (p plain) String() string { return string(p) }

// reply takes apart what a session answers.
func reply(s string) fmt.Stringer {
	if n := len(s) - len(tail); n >= 0 && s[n:] == tail {
		return plain(s[:n])
	}
	return nil
}

// Do: one command on any world. With undo=1 it is then undone.
func Do() {
	a, m := start()
	before := m.copy()
	c := newCmd("", vf.Param("cmds", 1<<nCmds-1))
	got := run(a, c)
	want, unsure := m.apply(c)
	who := "A05"
	if queries&(1<<c.op) != 0 {
		who = "A04,A05"
	}
	if vf.Param("effect", 1) == 1 {
		vf.Assert((got == nil) == want.err, "A05: a command reports an error exactly when it cannot be done")
		if got != nil && !want.any {
			vf.Assert(want.given(got), "A05: the answer is what the command table says")
		}
		if unsure {
			checkItems(a.World(), m, who)
			checkRels(a.World(), m, who)
		} else {
			checkAll(a.World(), m, who)
		}
	}
	if vf.Param("again", 0) == 1 {
		got2 := run(a, c)
		vf.Assert((got2 == nil) == (got == nil), "A04: a query repeated gives the same answer")
		if got2 != nil && !want.any {
			vf.Assert(want.given(got2), "A04: a query repeated gives the same answer")
		}
		checkAll(a.World(), m, "A04")
	}
	if vf.Param("undo", 0) == 1 {
		err, found := app.VfUndo(a)
		if !found {
			h := a.History()
			err = h[len(h)-1].Undo(a.World())
		}
		vf.Assert(err == nil, "A02: a command can be undone")
		checkAll(a.World(), before, "A02")
	}
	vf.Reach("end")
}

// Walk: any mix of commands, undo and redo.
func Walk() {
	a, m := start()
	states := []*M{m} // what the world was after each command
	var said []string
	pos := 0
	for s := 0; s < vf.Param("k", 2); s++ {
		what := 0
		if s > 0 {
			what = vf.Pick("what"+num(s), 3)
		}
		switch what {
		case 0:
			c := newCmd(num(s), vf.Param("cmds", 1<<nCmds-1))
			run(a, c)
			m = states[pos].copy()
			_, unsure := m.apply(c)
			vf.Assume(!unsure)
			states = append(states[:pos+1:pos+1], m)
			said = append(said[:pos:pos], c.text)
			pos++
		case 1:
			err, found := app.VfUndo(a)
			vf.Assume(found)
			vf.Assert(err == nil, "A03: undo works")
			if pos > 0 {
				pos--
			}
		case 2:
			before := pos
			_, found := app.VfRedo(a)
			vf.Assume(found)
			if pos < len(states)-1 {
				pos = before + 1
			}
		}
		vf.Assert(a.CanUndo() == (pos > 0), "A03: can-undo describes the position")
		vf.Assert(a.CanRedo() == (pos < len(states)-1), "A03: can-redo describes the position")
		h := a.History()
		vf.Assert(len(h) == pos, "A03: the history has the commands up to the position")
		for i := 0; i < len(h) && i < pos; i++ {
			vf.Assert(h[i].String() == said[i], "A03: the history has the commands in their order")
		}
	}
	checkAll(a.World(), states[pos], "A03")
	vf.Reach("end")
}
