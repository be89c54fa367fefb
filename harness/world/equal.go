package world

import (
	"github.com/williamflynt/topolith/pkg/world"
	"github.com/williamflynt/topolith/zz_verif/vf"
)

func anyItem(k string) world.Item {
	return world.Item{Id: newId("id" + k), External: vf.Bool("ext" + k), Type: world.ItemType(vf.Int("type"+k, 0, 9)), Name: text("name" + k), Mechanism: text("mech" + k), Expanded: text("exp" + k)}
}

func anyRel(k string) world.Rel {
	return world.Rel{From: anyItem("f" + k), To: anyItem("t" + k), Verb: text("verb" + k), Mechanism: text("rmech" + k), Async: vf.Bool("async" + k), Expanded: text("rexp" + k)}
}

// EqualItems: any two items and any two relationships.
func EqualItems() {
	if vf.Flip("rels") {
		a, b := anyRel("a"), anyRel("b")
		vf.Assert(world.RelEqual(a, b) == sameRel(a, b), "E01: relationships are equal exactly when all they hold is equal")
	} else {
		a, b := anyItem("a"), anyItem("b")
		vf.Assert(world.ItemEqual(a, b) == sameItem(a, b), "E01: items are equal exactly when all their attributes are equal")
	}
	vf.Reach("end")
}

// sameModel: same items, attributes, places and relationships, whatever the order they were made in.
func sameModel(a, b *M) bool {
	if a.count() != b.count() || a.rels() != b.rels() {
		return false
	}
	return within(a, b) && within(b, a)
}

func within(a, b *M) bool {
	for i := range a.it {
		if !a.it[i].ok {
			continue
		}
		j := b.find(a.it[i].id)
		if j < 0 || !sameItem(a.it[i].at, b.it[j].at) {
			return false
		}
		p, q := a.it[i].parent, b.it[j].parent
		if (p < 0) != (q < 0) || p >= 0 && a.it[p].id != b.it[q].id {
			return false
		}
	}
	for k := range a.rel {
		if !a.rel[k].ok {
			continue
		}
		ra := a.relOf(k)
		found := false
		for l := range b.rel {
			if b.rel[l].ok && sameRel(ra, b.relOf(l)) {
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// remake builds the world of the model again, starting with another item, relationships last to first.
func remake(m *M) (world.World, *M) {
	w := world.CreateWorld("w")
	c := &M{it: append([]slot{}, m.it...), rel: append([]link{}, m.rel...)}
	n := len(m.it)
	s := 0
	if n > 0 {
		s = vf.Pick("start", n)
	}
	for d := 0; d < n; d++ {
		at := m.it[(s+d)%n].at
		t := world.StringFromItemType(at.Type)
		p := world.ItemParams{Name: &at.Name, External: &at.External, Mechanism: &at.Mechanism, Expanded: &at.Expanded}
		if at.Type != 0 {
			p.Type = &t
		}
		w.ItemCreate(at.Id, p)
	}
	for d := 0; d < n; d++ {
		if p := m.it[(s+d)%n].parent; p >= 0 {
			w.Nest(m.it[(s+d)%n].id, m.it[p].id)
		}
	}
	for k := len(m.rel) - 1; k >= 0; k-- {
		r := m.rel[k]
		w.RelCreate(m.it[r.from].id, m.it[r.to].id, world.RelParams{Verb: &r.at.Verb, Async: &r.at.Async, Mechanism: &r.at.Mechanism, Expanded: &r.at.Expanded})
	}
	return w, c
}

func compare(v, w world.World, same, sameTree bool) {
	switch vf.Param("only", 0) { // fewer comparisons where every iteration order is explored
	case 1:
		vf.Assert(world.WorldEqual(v, w) == same, "E01: worlds are equal exactly when all they hold is equal")
		return
	case 2:
		if s, t := world.VfRoot(v), world.VfRoot(w); s != nil && t != nil {
			vf.Assert(world.TreeEqual(s, t) == sameTree, "E01: trees are equal exactly when they hold equal items in equal places")
		}
		return
	}
	vf.Assert(world.WorldEqual(v, w) == same, "E01: worlds are equal exactly when all they hold is equal")
	vf.Assert(world.WorldEqual(w, v) == same, "E01: comparing worlds is symmetric")
	if s, t := world.VfRoot(v), world.VfRoot(w); s != nil && t != nil {
		vf.Assert(world.TreeEqual(s, t) == sameTree, "E01: trees are equal exactly when they hold equal items in equal places")
		vf.Assert(world.TreeEqual(t, s) == sameTree, "E01: comparing trees is symmetric")
	}
	vf.Assert(world.WorldEqual(v, v), "E01: a world is equal to itself")
}

// bare is the model without relationships.
func (m *M) bare() *M { return &M{it: m.it} }

// EqualWorlds: a world and its copy, made in another order, then any operations on the copy.
func EqualWorlds() {
	v, m := build()
	w, c := remake(m)
	for s := 0; s < vf.Param("k", 1); s++ {
		step(w, c, num(s), vf.Param("ops", 255))
	}
	compare(v, w, sameModel(m, c), sameModel(m.bare(), c.bare()))
	vf.Reach("end")
}

// EqualPairs: two worlds that have nothing to do with each other.
func EqualPairs() {
	v, m := build()
	pre = "o"
	w, c := build()
	compare(v, w, sameModel(m, c), sameModel(m.bare(), c.bare()))
	vf.Reach("end")
}

// EqualHeads: the world's own texts and version.
func EqualHeads() {
	mk := func(k string) (world.World, [3]string, int) {
		t := [3]string{text("wid" + k), text("wname" + k), text("wexp" + k)}
		n := vf.Int("ver"+k, 0, 9)
		return world.CreateWorld("w").SetId(t[0]).SetName(t[1]).SetExpanded(t[2]).SetVersion(n), t, n
	}
	v, a, x := mk("a")
	w, b, y := mk("b")
	same := vf.All(a[0] == b[0], a[1] == b[1], a[2] == b[2], x == y)
	compare(v, w, same, true)
	vf.Reach("end")
}
