package world

import (
	"github.com/williamflynt/topolith/pkg/world"
	"github.com/williamflynt/topolith/zz_verif/vf"
)

// isIn: the endpoint i matches a query for the item named id.
func (m *M) matches(i int, id string, strict bool) bool {
	if m.it[i].id == id {
		return true
	}
	if strict {
		return false
	}
	q := m.find(id)
	return q >= 0 && m.inside(i, q)
}

// RelQueries: to, from and between queries, with ids that may name any item or none.
func RelQueries() {
	w, m := build()
	strict := vf.Flip("strict")
	a := newId("a")
	kind := vf.Pick("kind", 3)
	b := ""
	var got []world.Rel
	switch kind {
	case 0:
		got = w.RelTo(a, strict)
	case 1:
		got = w.RelFrom(a, strict)
	default:
		b = newId("b")
		got = w.RelFetch(a, b, strict)
	}
	n := 0
	for k := range m.rel {
		r := m.rel[k]
		want := false
		switch kind {
		case 0:
			want = m.matches(r.to, a, strict)
		case 1:
			want = m.matches(r.from, a, strict)
		default:
			want = m.matches(r.from, a, strict) && m.matches(r.to, b, strict)
		}
		t := 0
		for _, g := range got {
			t += vf.One(vf.All(g.From.Id == m.it[r.from].id, g.To.Id == m.it[r.to].id))
		}
		if want {
			n++
			vf.Assert(t == 1, "W07: a matching relationship is returned once")
		} else {
			vf.Assert(t == 0, "W07: no other relationship is returned")
		}
	}
	vf.Assert(len(got) == n, "W07: nothing else is returned")
	for _, g := range got {
		t := 0
		for k := range m.rel {
			t += vf.One(sameRel(g, m.relOf(k)))
		}
		vf.Assert(t >= 1, "W06,W07: every relationship returned is a stored one, with current ends")
	}
	vf.Reach("end")
}

// Ends: after one update of any item, whatever a query returns shows the current items.
func Ends() {
	w, m := build()
	for s := 0; s < vf.Param("k", 1); s++ {
		step(w, m, num(s), vf.Param("ops", opSet|opDelete|opCreate))
	}
	var got []world.Rel
	switch vf.Pick("kind", vf.Param("kinds", 4)) {
	case 0:
		got = w.RelList(0)
	case 1:
		got = w.RelTo(newId("q"), vf.Flip("strict"))
	case 2:
		got = w.RelFrom(newId("q"), vf.Flip("strict"))
	case 3:
		got = w.RelFetch(newId("q"), newId("p"), vf.Flip("strict"))
	}
	for _, g := range got {
		for _, e := range []world.Item{g.From, g.To} {
			i := m.find(e.Id)
			vf.Assert(i >= 0, "W06: both ends exist")
			if i >= 0 {
				vf.Assert(sameItem(e, m.it[i].at), "W06: both ends show the current attributes")
			}
		}
	}
	vf.Reach("end")
}

// Containment: the in, parent and component queries, by id and by item.
func Containment() {
	w, m := build()
	for s := 0; s < vf.Param("k", 0); s++ {
		step(w, m, num(s), vf.Param("ops", opNest|opFree|opDelete|opSet))
	}
	a := newId("a")
	i := m.find(a)
	switch vf.Pick("kind", 3) {
	case 0:
		b := newId("b")
		strict := vf.Flip("strict")
		vf.Assume(a != b)
		j := m.find(b)
		want := i >= 0 && j >= 0 && !strict && m.inside(i, j)
		vf.Assert(w.In(a, b, strict) == want, "W08: in is true exactly for items nested anywhere inside")
	case 1:
		p, ok := w.Parent(a)
		ip, iok := w.ItemParent(a)
		vf.Assert(ok == (i >= 0) && iok == (i >= 0), "W08: parent queries say not-found exactly for missing items")
		want := world.Item{}
		if i >= 0 && m.it[i].parent >= 0 {
			want = m.it[m.it[i].parent].at
		}
		vf.Assert(p == want.Id, "W08: the parent's id is returned")
		vf.Assert(sameItem(ip, want), "W08: the parent is returned with its current attributes")
	case 2:
		cs, ok := w.Components(a)
		ics, iok := w.ItemComponents(a)
		vf.Assert(ok == (i >= 0) && iok == (i >= 0), "W08: component queries say not-found exactly for missing items")
		n := 0
		for j := range m.it {
			if i < 0 || !m.it[j].ok || m.it[j].parent != i {
				continue
			}
			n++
			vf.Assert(times(cs, m.it[j].id) == 1, "W08: every component's id is returned once")
			t := 0
			for _, c := range ics {
				t += vf.One(sameItem(c, m.it[j].at))
			}
			vf.Assert(t == 1, "W08: every component is returned once with its current attributes")
		}
		vf.Assert(len(cs) == n && len(ics) == n, "W08: nothing but the components is returned")
	}
	vf.Reach("end")
}

// Lists: with any limit.
func Lists() {
	w, m := build()
	for s := 0; s < vf.Param("k", 0); s++ {
		step(w, m, num(s), vf.Param("ops", opCreate|opDelete|opLink|opUnlink))
	}
	limit := vf.Range("limit", 0, vf.Param("maxlimit", 4))
	size := func(total int) int {
		if limit > 0 && limit < total {
			return limit
		}
		return total
	}
	if vf.Flip("rels") {
		got := w.RelList(limit)
		vf.Assert(len(got) == size(m.rels()), "W09: the list has the right length")
		for i, g := range got {
			t := 0
			for k := range m.rel {
				if m.rel[k].ok {
					t += vf.One(sameRel(g, m.relOf(k)))
				}
			}
			vf.Assert(t == 1, "W09: only stored relationships are listed")
			for _, h := range got[:i] {
				vf.Assert(!vf.All(g.From.Id == h.From.Id, g.To.Id == h.To.Id), "W09: no relationship is listed twice")
			}
		}
	} else {
		got := w.ItemList(limit)
		vf.Assert(len(got) == size(m.count()), "W09: the list has the right length")
		for i, g := range got {
			t := 0
			for k := range m.it {
				if m.it[k].ok {
					t += vf.One(sameItem(g, m.it[k].at))
				}
			}
			vf.Assert(t == 1, "W09: only stored items are listed")
			for _, h := range got[:i] {
				vf.Assert(g.Id != h.Id, "W09: no item is listed twice")
			}
		}
	}
	vf.Reach("end")
}

// Pairs: relationships of two different ordered pairs of items never interfere, whatever the ids.
func Pairs() {
	w := world.CreateWorld("w")
	m := &M{}
	var s [4]int
	for i := range s {
		id := newId("id" + num(i))
		vf.Assume(id != "")
		if s[i] = m.find(id); s[i] < 0 {
			w.ItemCreate(id, world.ItemParams{})
			s[i] = m.create(id, world.Item{})
		}
	}
	vf.Assume(s[0] != s[2] || s[1] != s[3])
	v0, v1 := text("v0"), text("v1")
	w.RelCreate(m.it[s[0]].id, m.it[s[1]].id, world.RelParams{Verb: &v0})
	m.rel = append(m.rel, link{from: s[0], to: s[1], ok: true, at: world.Rel{Verb: v0}})
	switch vf.Pick("op", 3) {
	case 0:
		err := w.RelCreate(m.it[s[2]].id, m.it[s[3]].id, world.RelParams{Verb: &v1}).Err()
		vf.Assert(err == nil, "W05: another pair can always be related")
		m.rel = append(m.rel, link{from: s[2], to: s[3], ok: true, at: world.Rel{Verb: v1}})
	case 1:
		err := w.RelSet(m.it[s[2]].id, m.it[s[3]].id, world.RelParams{Verb: &v1}).Err()
		vf.Assert(err != nil, "W05: setting reports a missing relationship")
	case 2:
		w.RelDelete(m.it[s[2]].id, m.it[s[3]].id)
	}
	checkRels(w, m, "W05")
	vf.Reach("end")
}
