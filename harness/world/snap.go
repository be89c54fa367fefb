package world

import (
	"github.com/williamflynt/topolith/pkg/world"
	"github.com/williamflynt/topolith/zz_verif/vf"
)

// held is everything a caller can have asked a world for.
type held struct {
	items, parents []world.Item
	rels           []world.Rel
	comps          []string
	icomps         []world.Item
	one            []world.Item
	lists          [][]world.Rel
	all            string
}

func hold(w world.World, m *M, i int) *held {
	h := &held{items: w.ItemList(0), rels: w.RelList(0)}
	id := m.it[i].id
	h.comps, _ = w.Components(id)
	h.icomps, _ = w.ItemComponents(id)
	it, _ := w.ItemFetch(id)
	h.one = append(h.one, it)
	it, _ = w.ItemParent(id)
	h.one = append(h.one, it)
	h.lists = append(h.lists, w.RelTo(id, false), w.RelFrom(id, false), w.RelTo(id, true), w.RelFrom(id, true), w.RelFetch(id, id, true), w.RelFetch(id, id, false))
	if len(m.it) > 1 {
		h.lists = append(h.lists, w.RelFetch(m.it[0].id, m.it[1].id, true), w.RelFetch(m.it[0].id, m.it[1].id, false))
	}
	return h
}

func (h *held) copy() *held {
	c := &held{}
	c.items = append(c.items, h.items...)
	c.rels = append(c.rels, h.rels...)
	c.comps = append(c.comps, h.comps...)
	c.icomps = append(c.icomps, h.icomps...)
	c.one = append(c.one, h.one...)
	for _, l := range h.lists {
		c.lists = append(c.lists, append([]world.Rel{}, l...))
	}
	return c
}

func sameItems(a, b []world.Item) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vf.All(ok, sameItem(a[i], b[i]))
	}
	return ok
}

func sameRels(a, b []world.Rel) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vf.All(ok, sameRel(a[i], b[i]))
	}
	return ok
}

func (h *held) same(c *held) bool {
	ok := vf.All(sameItems(h.items, c.items), sameRels(h.rels, c.rels), sameItems(h.icomps, c.icomps), sameItems(h.one, c.one), len(h.comps) == len(c.comps), len(h.lists) == len(c.lists))
	for i := range c.comps {
		ok = vf.All(ok, h.comps[i] == c.comps[i])
	}
	for i := range c.lists {
		ok = vf.All(ok, sameRels(h.lists[i], c.lists[i]))
	}
	return ok
}

// alike: the same answers, up to the order of what they list.
func (h *held) alike(c *held) bool {
	ok := vf.All(bagItems(h.items, c.items), bagRels(h.rels, c.rels), bagItems(h.icomps, c.icomps), sameItems(h.one, c.one), len(h.comps) == len(c.comps), len(h.lists) == len(c.lists))
	for _, x := range c.comps {
		ok = vf.All(ok, times(h.comps, x) == times(c.comps, x))
	}
	for i := range c.lists {
		ok = vf.All(ok, bagRels(h.lists[i], c.lists[i]))
	}
	return ok
}

func bagItems(a, b []world.Item) bool {
	ok := len(a) == len(b)
	for _, x := range b {
		n := 0
		for _, y := range a {
			n += vf.One(sameItem(x, y))
		}
		ok = vf.All(ok, n == 1)
	}
	return ok
}

func bagRels(a, b []world.Rel) bool {
	ok := len(a) == len(b)
	for _, x := range b {
		n := 0
		for _, y := range a {
			n += vf.One(sameRel(x, y))
		}
		ok = vf.All(ok, n == 1)
	}
	return ok
}

func spoil(s []world.Item) {
	for i := range s {
		s[i] = world.Item{Id: "zz", Name: "zz", External: !s[i].External, Type: s[i].Type + 1, Mechanism: "zz", Expanded: "zz"}
	}
	_ = append(s[:0], world.Item{Id: "yy"})
}

func spoilRels(s []world.Rel) {
	for i := range s {
		r := &s[i]
		r.From, r.To = r.To, r.From
		r.From.Name, r.To.Name, r.Verb, r.Mechanism, r.Async, r.Expanded = "zz", "zz", "zz", "zz", !r.Async, "zz"
	}
	_ = append(s[:0], world.Rel{Verb: "yy"})
}

func (h *held) spoil() {
	spoil(h.items)
	spoil(h.icomps)
	spoil(h.one)
	spoilRels(h.rels)
	for _, l := range h.lists {
		spoilRels(l)
	}
	for i := range h.comps {
		h.comps[i] = "zz"
	}
	_ = append(h.comps[:0], "yy")
}

// Snap: what a world hands out and what it is given is never shared with it.
func Snap() {
	w, m := build()
	of := vf.Pick("of", len(m.it))
	h := hold(w, m, of)
	c := h.copy()
	switch vf.Pick("what", 3) {
	case 0: // the world changes
		step(w, m, "0", vf.Param("ops", 255))
		vf.Assert(h.same(c), "W10: what was returned earlier stays as it was")
		checkPlaces(w, m, "W10")
		hold(w, m, of)
		vf.Assert(h.same(c), "W10: what was returned earlier stays as it was")
	case 1: // what was returned is changed
		h.spoil()
		checkPlaces(w, m, "W10")
		checkItems(w, m, "W10")
		checkRels(w, m, "W10")
		h2 := hold(w, m, of)
		vf.Assert(h2.alike(c), "W10: asking again gives the same, whatever was done with the first answer")
	case 2: // what was given is changed
		a, b := newItemChange("a", vf.Param("amask", 1)), newRelChange("b", vf.Param("rmask", 1))
		x := newId("x")
		vf.Assume(x != "")
		i := m.find(x)
		vf.Assume(!a.badType)
		if i < 0 {
			w.ItemCreate(x, a.p)
			at := world.Item{}
			a.apply(&at)
			i = m.create(x, at)
		} else {
			w.ItemSet(x, a.p)
			a.apply(&m.it[i].at)
		}
		if l := m.link(i, 0); l < 0 {
			w.RelCreate(x, m.it[0].id, b.p)
			n := link{from: i, to: 0, ok: true}
			b.apply(&n.at)
			m.rel = append(m.rel, n)
		} else {
			w.RelSet(x, m.it[0].id, b.p)
			b.apply(&m.rel[l].at)
		}
		for _, p := range []*string{a.p.Name, a.p.Mechanism, a.p.Expanded, a.p.Type, b.p.Verb, b.p.Mechanism, b.p.Expanded} {
			if p != nil {
				*p = "zz"
			}
		}
		for _, p := range []*bool{a.p.External, b.p.Async} {
			if p != nil {
				*p = !*p
			}
		}
		checkPlaces(w, m, "W10")
		checkItems(w, m, "W10")
		checkRels(w, m, "W10")
	}
	vf.Reach("end")
}

// Apart: two worlds or trees, made in any of the ways there are, share nothing.
func Apart() {
	make2 := func(kind int) (a, b world.World, m1, m2 *M) {
		m1, m2 = &M{}, &M{}
		if kind == 0 {
			a, b = world.CreateWorld("w"), world.CreateWorld("w")
		} else {
			s := world.CreateWorld("w").String()
			var err1, err2 error
			a, err1 = world.FromString(s)
			b, err2 = world.FromString(s)
			vf.Assert(err1 == nil && err2 == nil, "W11: a world is read back")
		}
		return
	}
	a, b, m1, m2 := make2(vf.Pick("kind", 2))
	n := vf.Param("n", 2)
	forest(a, m1, n, 0)
	for i := range m1.it { // the same items, all at the top
		b.ItemCreate(m1.it[i].id, world.ItemParams{})
		m2.create(m1.it[i].id, world.Item{})
	}
	if n > 0 {
		arrows(a, m1, vf.Param("r", 1), 0)
	}
	for s := 0; s < vf.Param("k", 1); s++ {
		step(a, m1, num(s), vf.Param("ops", 255))
	}
	a.SetName("x").SetId("x").SetExpanded("x").SetVersion(7)
	checkPlaces(b, m2, "W11")
	checkItems(b, m2, "W11")
	checkRels(b, m2, "W11")
	vf.Assert(b.Name() == "w" && b.Id() == "w" && b.Expanded() == "" && b.Version() != 7, "W11: a world keeps its own name, id, description and version")
	checkPlaces(a, m1, "W11")
	checkItems(a, m1, "W11")
	checkRels(a, m1, "W11")
	vf.Reach("end")
}

// ApartTrees: the same for trees read from text.
func ApartTrees() {
	s := []string{"", "tree{nil::[]}", "tree{item \"a\"::[]}", "tree{nil::[tree{item \"a\"::[]}]}"}[vf.Pick("text", 4)]
	t1, items1, err1 := world.TreeFromString(s)
	t2, items2, err2 := world.TreeFromString(s)
	vf.Assert(err1 == nil && err2 == nil, "W11: a tree is read back")
	if err1 != nil || err2 != nil {
		return
	}
	n := t2.Components().Cardinality()
	x := newId("x")
	vf.Assume(x != "" && x != "a")
	vf.Assert(t1.AddOrMove(&world.Item{Id: x}) == nil && t1.Has(x, false), "W11: an item is added to a tree")
	items1["zz"] = world.Item{Id: "zz"}
	t3, items3, err := world.TreeFromString(s)
	vf.Assert(err == nil, "W11: a tree is read back")
	for _, t := range []world.Tree{t2, t3} {
		_, ok := t.Find(x)
		vf.Assert(!ok && !t.Has(x, false) && t.Components().Cardinality() == n, "W11: a tree does not change with another one")
	}
	vf.Assert(len(items2) == len(items3) && len(items2) <= 1, "W11: the items of a tree do not change with another one")
	w := world.CreateWorld("w")
	_, ok := w.Parent(x)
	vf.Assert(!ok, "W11: a new world has none of it")
	vf.Reach("end")
}
