package world

import (
	"github.com/williamflynt/topolith/pkg/world"
	"github.com/williamflynt/topolith/zz_verif/vf"
)

// textItem is an item with any type and mark, and the attributes selected by mask (1 name, 4 mechanism, 8 expanded).
func textItem(k string, mask int) world.Item {
	it := world.Item{Id: newId("id" + k)}
	if mask&1 != 0 {
		it.Name = text("name" + k)
	}
	if mask&2 != 0 {
		it.External = vf.Flip("ext" + k)
	}
	if mask&4 != 0 {
		it.Mechanism = text("mech" + k)
	}
	if mask&8 != 0 {
		it.Expanded = text("exp" + k)
	}
	if mask&16 != 0 {
		it.Type = world.ItemType(vf.Pick("type"+k, 10))
	}
	return it
}

// ItemText: an item is read back from its text.
func ItemText() {
	it := textItem("", vf.Param("amask", 31))
	got, err := world.ItemFromString(it.String())
	vf.Assert(err == nil, "S01: the text of an item is read back")
	vf.Assert(sameItem(got, it), "S01: the item read back is the same")
	vf.Reach("end")
}

// ItemTypes: names and types map to each other one to one.
func ItemTypes() {
	s := vf.Str("s", 0, 10, vf.Any)
	t, ok := typeOf(s)
	got := world.ItemTypeFromString(s)
	if ok {
		vf.Assert(got == t, "S01: every type name stands for its type")
		vf.Assert(world.StringFromItemType(t) == s, "S01: every type has its name")
	} else {
		vf.Assert(got == 0, "S01: no other text is a type name")
	}
	vf.Reach("end")
}

func RelText() {
	w := world.CreateWorld("w")
	m := &M{}
	forest(w, m, 2, 0)
	i, j := vf.Pick("from", 2), vf.Pick("to", 2)
	mask := vf.Param("rmask", 15)
	r := world.Rel{From: m.it[i].at, To: m.it[j].at}
	if mask&1 != 0 {
		r.Verb = text("verb")
	}
	if mask&2 != 0 {
		r.Async = vf.Flip("async")
	}
	if mask&4 != 0 {
		r.Mechanism = text("rmech")
	}
	if mask&8 != 0 {
		r.Expanded = text("rexp")
	}
	got, err := world.RelFromString(w, r.String())
	vf.Assert(err == nil, "S02: the text of a relationship is read back")
	vf.Assert(sameRel(got, r), "S02: the relationship read back is the same")
	vf.Reach("end")
}

// RelMissing: text naming an item that does not exist.
func RelMissing() {
	w := world.CreateWorld("w")
	m := &M{}
	forest(w, m, 2, 0)
	a, b := newId("a"), newId("b")
	vf.Assume(a != "" && b != "")
	r := world.Rel{From: world.Item{Id: a}, To: world.Item{Id: b}, Verb: "v"}
	got, err := world.RelFromString(w, r.String())
	i, j := m.find(a), m.find(b)
	vf.Assert((err != nil) == (i < 0 || j < 0), "S02: text naming a missing item is an error")
	if i >= 0 && j >= 0 {
		vf.Assert(got.From.Id == a && got.To.Id == b, "S02: the relationship joins the named items")
	}
	vf.Reach("end")
}

// notRel is text that is well-formed but no relationship.
func notRel(k int, a, b string) string {
	switch k {
	case 0:
		return `item "` + a + `"`
	case 1:
		return `in? "` + a + `" "` + b + `"`
	case 2:
		return `nest "` + a + `" in "` + b + `"`
	case 3:
		return `tree{item "` + a + `"::[]}`
	case 4:
		return `to? "` + a + `"`
	case 5:
		return `rel list`
	case 6:
		return `free "` + a + `" "` + b + `"`
	case 7:
		return `200 ok "` + a + `"`
	case 8:
		return `item in "` + a + `"`
	case 9:
		return `rel "` + a + `" "` + b + `" $$ 200 ok`
	}
	return "$$world\nversion=1\nid=\"" + a + "\"\nname=\"\"\nexpanded=\"\"\ntree{nil::[]}\n\nendworld$$"
}

// RelNot: text that is not a relationship.
func RelNot() {
	w := world.CreateWorld("w")
	m := &M{}
	forest(w, m, 2, 0)
	s := ""
	if k := vf.Pick("kind", vf.Param("kinds", 12)); k < 11 {
		if k == 9 {
			return // whether a response carrying a relationship counts is not settled by the property
		}
		s = notRel(k, m.it[0].id, m.it[1].id)
	} else {
		s = vf.Str("s", 0, vf.Param("slen", 3), vf.Any)
	}
	_, err := world.RelFromString(w, s)
	vf.Assert(err != nil, "S02: text that is not a relationship is an error")
	vf.Reach("end")
}

// sameTree compares a tree with the part of the model below the slot p (-1: all of it).
func sameTree(t world.Tree, m *M, p int) bool {
	cs := t.Components().ToSlice()
	n := 0
	for i := range m.it {
		if m.it[i].parent != p {
			continue
		}
		n++
		found := false
		for _, c := range cs {
			if c.Item().Id == m.it[i].id {
				if found || !sameItem(c.Item(), m.it[i].at) || !sameTree(c, m, i) {
					return false
				}
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return n == len(cs)
}

// below is the slots at or below p.
func (m *M) below(p int) []int {
	out := []int{}
	if p >= 0 {
		out = append(out, p)
	}
	for i := range m.it {
		if m.it[i].parent == p {
			out = append(out, m.below(i)...)
		}
	}
	return out
}

// TreeText: the tree of a world, or the tree of one of its items.
func TreeText() {
	w := world.CreateWorld("w")
	m := &M{}
	forest(w, m, vf.Param("n", 2), vf.Param("fmask", 0))
	t := world.VfRoot(w)
	if t == nil {
		return
	}
	p := vf.Range("at", 0, len(m.it)) - 1
	if p >= 0 {
		c, ok := t.Find(m.it[p].id)
		if !ok {
			return // W01 is about that
		}
		t = c
	}
	got, items, err := world.TreeFromString(t.String())
	vf.Assert(err == nil, "S03: the text of a tree is read back")
	if err == nil {
		if p >= 0 {
			vf.Assert(sameItem(got.Item(), m.it[p].at), "S03: the tree has its root item")
		} else {
			vf.Assert(got.Item() == world.Item{}, "S03: the top level is no item")
		}
		vf.Assert(sameTree(got, m, p), "S03: the tree read back has the same items in the same places")
		below := m.below(p)
		vf.Assert(len(items) == len(below), "S03: exactly the items of the tree are reported")
		for _, i := range below {
			it, ok := items[m.it[i].id]
			vf.Assert(ok && sameItem(it, m.it[i].at), "S03: every item of the tree is reported")
		}
	}
	vf.Reach("end")
}

// WorldText: a world is read back from its text.
func WorldText() {
	w, m := build()
	head := [3]string{"w", "w", ""}
	if vf.Param("heads", 0) == 1 {
		head = [3]string{vf.Str("wid", 0, vf.Param("hmax", 1), vf.Quoted), vf.Str("wname", 0, vf.Param("hmax", 1), vf.Quoted), vf.Str("wexp", 0, vf.Param("hmax", 1), vf.Quoted)}
		w.SetId(head[0]).SetName(head[1]).SetExpanded(head[2])
	}
	ver := vf.Range("version", 1, vf.Param("vmax", 1))
	w.SetVersion(ver)
	got, err := world.FromString(w.String())
	vf.Assert(err == nil, "S04: the text of a world is read back")
	if err == nil {
		vf.Assert(got.Version() == ver, "S04: the version is kept")
		vf.Assert(got.Id() == head[0], "S04: the id is kept")
		vf.Assert(got.Name() == head[1], "S04: the name is kept")
		vf.Assert(got.Expanded() == head[2], "S04: the description is kept")
		checkPlaces(got, m, "S04")
		checkItems(got, m, "S04")
		checkRels(got, m, "S04")
	}
	vf.Reach("end")
}

// WorldCut: a part of the text of a world is rejected, and so is the text with something after it.
func WorldCut() {
	w, _ := build()
	s := w.String()
	if vf.Flip("cut") {
		s = s[:vf.Range("len", 0, vf.Param("upto", 200))%len(s)]
	} else {
		junk := vf.Str("junk", 1, vf.Param("jmax", 2), vf.Any)
		solid := false
		for i := 0; i < len(junk); i++ {
			solid = solid || junk[i] != ' ' && junk[i] != '\t' && junk[i] != '\n' && junk[i] != '\r'
		}
		vf.Assume(solid)
		s += junk
	}
	got, err := world.FromString(s)
	vf.Assert(err != nil, "S04: an incomplete world is rejected")
	vf.Assert(err == nil || got == nil, "S04: no world is returned with an error")
	vf.Reach("end")
}

// WorldNot: other well-formed text, and any short text, is rejected.
func WorldNot() {
	s := ""
	switch k := vf.Pick("kind", 12); k {
	case 10:
		s = "$$world\nversion=1\nid=\"a\"\nname=\"\"\nexpanded=\"\"\ntree{nil::[]}\n\nendworld$$ $$ 200 ok"
	case 11:
		s = vf.Str("s", 0, vf.Param("slen", 3), vf.Any)
	default:
		s = notRel(k, newId("a"), newId("b"))
	}
	_, err := world.FromString(s)
	vf.Assert(err != nil, "S04: text that is not a world is rejected")
	vf.Reach("end")
}

// readers are texts with a place for any bytes, for the functions that read text.
var readers = [][2]string{
	{"", ""}, {"item ", ""}, {"item \"a\" name=\"", "\""}, {"item a type=", ""}, {"rel a ", ""}, {"rel a b ", ""}, {"rel ", " a"}, {"tree{item a::[", "]}"}, {"tree{nil::[", "]}"},
	{"tree{item a::[tree{item a::[]}", "]}"}, {"tree{item ", "::[tree{item b::[]}]}"}, {"nest a in ", ""}, {"free ", ""}, {"", " $$$$ 200 ok"}, {"in? a ", ""},
	{"$$world\nversion=", "\nid=a\nname=b\nexpanded=c\ntree{nil::[]}\nendworld$$"},
	{"$$world\nversion=1\nid=a\nname=b\nexpanded=c\ntree{nil::[tree{item ", "::[]}]}\nrel a a\nendworld$$"},
	{"$$world\nversion=1\nid=a\nname=b\nexpanded=c\ntree{nil::[tree{item a::[]}]}\n", "\nendworld$$"},
	{"$$world\nversion=1\nid=a\nname=b\nexpanded=c\ntree{item a::[tree{item ", "::[]}]}\nendworld$$"},
}

// Readers: reading items, relationships, trees and worlds never crashes, whatever the text.
func Readers() {
	w := world.CreateWorld("w")
	w.ItemCreate("a", world.ItemParams{})
	r := readers[vf.Pick("text", len(readers))]
	s := r[0] + vf.Str("s", 0, vf.Param("slen", 2), vf.Any) + r[1]
	switch vf.Pick("reader", 4) {
	case 0:
		it, err := world.ItemFromString(s)
		if err == nil {
			_ = it.String()
		}
	case 1:
		r, err := world.RelFromString(w, s)
		if err == nil {
			_, ok := w.ItemFetch(r.From.Id)
			_, ok2 := w.ItemFetch(r.To.Id)
			vf.Assert(ok && ok2, "G01: a relationship that is read joins items of the world")
		}
	case 2:
		t, _, err := world.TreeFromString(s)
		vf.Assert((err == nil) == (t != nil) || err != nil, "G01: reading a tree gives a tree or an error")
	case 3:
		v, err := world.FromString(s)
		vf.Assert((err == nil) == (v != nil), "G01: reading a world gives a world or an error")
	}
	vf.Reach("end")
}
