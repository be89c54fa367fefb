// Package world holds the harnesses over pkg/world: a short reference model, and the histories that
// are run against both.
package world

import (
	"github.com/williamflynt/topolith/pkg/world"
	"github.com/williamflynt/topolith/zz_verif/vf"
)

// M is the reference model: slots of items with (symbolic) ids, parent links, and relationships by
// ordered pair of slots. Slot numbers are concrete, all texts are symbolic.
type M struct {
	it  []slot
	rel []link
}

type slot struct {
	id     string
	ok     bool
	parent int // -1: top level
	at     world.Item
}

type link struct {
	from, to int
	ok       bool
	at       world.Rel // endpoints are filled in from the slots
}

// find returns the slot of an existing item, or -1. The comparison is symbolic.
func (m *M) find(id string) int {
	for i := range m.it {
		if m.it[i].ok && m.it[i].id == id {
			return i
		}
	}
	return -1
}

func (m *M) inside(a, b int) bool { // a somewhere inside b
	for p := m.it[a].parent; p >= 0; p = m.it[p].parent {
		if p == b {
			return true
		}
	}
	return false
}

func (m *M) create(id string, at world.Item) int {
	if id == "" {
		return -1
	}
	if i := m.find(id); i >= 0 {
		return i
	}
	at.Id = id
	m.it = append(m.it, slot{id: id, ok: true, parent: -1, at: at})
	return len(m.it) - 1
}

func (m *M) del(id string) {
	i := m.find(id)
	if i < 0 {
		return
	}
	for j := range m.it {
		if m.it[j].ok && m.it[j].parent == i {
			m.it[j].parent = m.it[i].parent
		}
	}
	for k := range m.rel {
		if m.rel[k].from == i || m.rel[k].to == i {
			m.rel[k].ok = false
		}
	}
	m.it[i].ok = false
}

// nest reports whether it must fail.
func (m *M) nest(child, parent string) (fails bool) {
	c := m.find(child)
	p := m.find(parent)
	if c < 0 || p < 0 || m.inside(p, c) {
		return true
	}
	if c != p {
		m.it[c].parent = p
	}
	return false
}

func (m *M) free(child string) (fails bool) {
	c := m.find(child)
	if c < 0 {
		return true
	}
	m.it[c].parent = -1
	return false
}

func (m *M) link(i, j int) int {
	for k := range m.rel {
		if m.rel[k].ok && m.rel[k].from == i && m.rel[k].to == j {
			return k
		}
	}
	return -1
}

func (m *M) relOf(k int) world.Rel {
	r := m.rel[k].at
	r.From, r.To = m.it[m.rel[k].from].at, m.it[m.rel[k].to].at
	return r
}

func (m *M) count() int {
	n := 0
	for i := range m.it {
		if m.it[i].ok {
			n++
		}
	}
	return n
}

func (m *M) rels() int {
	n := 0
	for k := range m.rel {
		if m.rel[k].ok {
			n++
		}
	}
	return n
}

func sameItem(a, b world.Item) bool {
	return vf.All(a.Id == b.Id, a.External == b.External, a.Type == b.Type, a.Name == b.Name, a.Mechanism == b.Mechanism, a.Expanded == b.Expanded)
}

func sameRel(a, b world.Rel) bool {
	return vf.All(sameItem(a.From, b.From), sameItem(a.To, b.To), a.Verb == b.Verb, a.Mechanism == b.Mechanism, a.Async == b.Async, a.Expanded == b.Expanded)
}

func num(i int) string { return string(rune('0' + i)) }

// times counts how often id occurs in list, as one symbolic number.
func times(list []string, id string) int {
	n := 0
	for _, x := range list {
		n += vf.One(x == id)
	}
	return n
}

func nodes(t world.Tree) []string {
	out := make([]string, 0)
	for _, c := range t.Components().ToSlice() {
		out = append(out, c.Item().Id)
		out = append(out, nodes(c)...)
	}
	return out
}

// checkPlaces compares placement: items exist as they should, parents and components agree, every
// item has one place in the hierarchy and nothing else has one.
func checkPlaces(w world.World, m *M, who string) {
	for i := range m.it {
		id := m.it[i].id
		if !m.it[i].ok {
			if m.find(id) < 0 {
				_, ok := w.ItemFetch(id)
				vf.Assert(!ok, who+": a deleted item does not exist")
				p, ok := w.Parent(id)
				vf.Assert(!ok && p == "", who+": a deleted item has no parent")
				cs, ok := w.Components(id)
				vf.Assert(!ok && len(cs) == 0, who+": a deleted item has no components")
			}
			continue
		}
		_, ok := w.ItemFetch(id)
		vf.Assert(ok, who+": an item exists until it is deleted")
		p, ok := w.Parent(id)
		vf.Assert(ok, who+": parent query finds every existing item")
		want := ""
		if m.it[i].parent >= 0 {
			want = m.it[m.it[i].parent].id
		}
		vf.Assert(p == want, who+": every item is where it should be")
		cs, ok := w.Components(id)
		vf.Assert(ok, who+": components query finds every existing item")
		n := 0
		for j := range m.it {
			if m.it[j].ok && m.it[j].parent == i {
				n++
				vf.Assert(times(cs, m.it[j].id) == 1, who+": every component is listed once")
			}
		}
		vf.Assert(len(cs) == n, who+": only components are listed")
	}
	vf.Assert(len(w.ItemList(0)) == m.count(), who+": the item list has every item")
	if root := world.VfRoot(w); root != nil {
		all := nodes(root)
		vf.Assert(len(all) == m.count(), who+": nothing else has a place")
		for i := range m.it {
			if m.it[i].ok {
				vf.Assert(times(all, m.it[i].id) == 1, who+": every item has exactly one place")
			}
		}
	}
}

// checkItems compares the stored attributes.
func checkItems(w world.World, m *M, who string) {
	for i := range m.it {
		if m.it[i].ok {
			it, ok := w.ItemFetch(m.it[i].id)
			vf.Assert(ok && sameItem(it, m.it[i].at), who+": every item has exactly its attributes")
		}
	}
	vf.Assert(len(w.ItemList(0)) == m.count(), who+": there are no other items")
}

// checkRels compares the stored relationships, seen through the list and through fetching.
func checkRels(w world.World, m *M, who string) {
	all := w.RelList(0)
	vf.Assert(len(all) == m.rels(), who+": exactly the created relationships exist")
	for i := range m.it {
		for j := range m.it {
			if !m.it[i].ok || !m.it[j].ok {
				continue
			}
			k := m.link(i, j)
			got := w.RelFetch(m.it[i].id, m.it[j].id, true)
			if k < 0 {
				vf.Assert(len(got) == 0, who+": no relationship appears between other items")
				continue
			}
			vf.Assert(len(got) == 1, who+": the relationship is there")
			if len(got) == 1 {
				vf.Assert(sameRel(got[0], m.relOf(k)), who+": the relationship has its attributes and current ends")
			}
			n := 0
			for _, r := range all {
				n += vf.One(sameRel(r, m.relOf(k)))
			}
			vf.Assert(n == 1, who+": the relationship is listed once with its attributes and current ends")
		}
	}
}

// newId is a fresh symbolic id of lmin..lmax bytes.
func newId(name string) string {
	class := vf.Any
	if vf.Param("quoted", 0) == 1 {
		class = vf.Quoted
	}
	return vf.Str(name, vf.Param("lmin", 1), vf.Param("lmax", 1), class)
}

// text is a symbolic attribute value.
func text(name string) string {
	class := vf.Any
	if vf.Param("quoted", 0) == 1 {
		class = vf.Quoted
	}
	return vf.Str(name, vf.Param("tmin", 1), vf.Param("tmax", 1), class)
}

const letters = "abcdefghijklmnopqrstuvwxyz"

var typeNames = []string{"", "person", "database", "queue", "blobstore", "browser", "mobile", "server", "device", "code"}

// typeOf is the table of the documentation: the position is the type.
func typeOf(s string) (world.ItemType, bool) {
	for i, n := range typeNames {
		if s == n {
			return world.ItemType(i), true
		}
	}
	return 0, false
}

// itemChange is a set of attributes to apply; attributes not selected by the mask are left out.
// Bits: 1 name, 2 external, 4 mechanism, 8 expanded, 16 type.
type itemChange struct {
	p       world.ItemParams
	badType bool
	typ     world.ItemType
}

func newItemChange(k string, mask int) itemChange {
	c := itemChange{}
	has := func(bit int, name string) bool {
		return mask&bit != 0 && (vf.Param("full", 0) == 1 || vf.Flip("has"+name+k))
	}
	if has(1, "name") {
		v := text("name" + k)
		c.p.Name = &v
	}
	if has(2, "ext") {
		v := vf.Bool("ext" + k)
		c.p.External = &v
	}
	if has(4, "mech") {
		v := text("mech" + k)
		c.p.Mechanism = &v
	}
	if has(8, "exp") {
		v := text("exp" + k)
		c.p.Expanded = &v
	}
	if has(16, "type") {
		v := ""
		if vf.Param("anytype", 0) == 1 {
			v = vf.Str("type"+k, 0, 9, letters)
		} else {
			v = typeNames[vf.Pick("type"+k, len(typeNames))]
		}
		t, ok := typeOf(v)
		c.p.Type, c.typ, c.badType = &v, t, !ok
	}
	return c
}

func (c *itemChange) apply(i *world.Item) {
	if c.p.Name != nil {
		i.Name = *c.p.Name
	}
	if c.p.External != nil {
		i.External = *c.p.External
	}
	if c.p.Mechanism != nil {
		i.Mechanism = *c.p.Mechanism
	}
	if c.p.Expanded != nil {
		i.Expanded = *c.p.Expanded
	}
	if c.p.Type != nil && !c.badType {
		i.Type = c.typ
	}
}

// differs reports whether applying the change would alter i (an unknown type always differs).
func (c *itemChange) differs(i world.Item) bool {
	j := i
	c.apply(&j)
	return !vf.All(!c.badType, sameItem(i, j))
}

// relChange, with bits 1 verb, 2 async, 4 mechanism, 8 expanded.
type relChange struct{ p world.RelParams }

func newRelChange(k string, mask int) relChange {
	c := relChange{}
	has := func(bit int, name string) bool {
		return mask&bit != 0 && (vf.Param("full", 0) == 1 || vf.Flip("rhas"+name+k))
	}
	if has(1, "verb") {
		v := text("verb" + k)
		c.p.Verb = &v
	}
	if has(2, "async") {
		v := vf.Bool("async" + k)
		c.p.Async = &v
	}
	if has(4, "mech") {
		v := text("rmech" + k)
		c.p.Mechanism = &v
	}
	if has(8, "exp") {
		v := text("rexp" + k)
		c.p.Expanded = &v
	}
	return c
}

func (c *relChange) apply(r *world.Rel) {
	if c.p.Verb != nil {
		r.Verb = *c.p.Verb
	}
	if c.p.Async != nil {
		r.Async = *c.p.Async
	}
	if c.p.Mechanism != nil {
		r.Mechanism = *c.p.Mechanism
	}
	if c.p.Expanded != nil {
		r.Expanded = *c.p.Expanded
	}
}

func (c *relChange) differs(r world.Rel) bool {
	j := r
	c.apply(&j)
	return !sameRel(r, j)
}

// pre is put before the names of the inputs of forest and arrows, for a second world.
var pre = ""

// shaped is the parent of item i in one of the fixed shapes for larger worlds.
func shaped(shape, i, n int) int {
	switch shape {
	case 1: // one chain
		return i - 1
	case 2: // everything directly inside the first
		if i > 0 {
			return 0
		}
	case 3: // a binary tree
		if i > 0 {
			return (i - 1) / 2
		}
	case 4: // two chains
		if i > 1 {
			return i - 2
		}
	case 5: // a chain built from the inside out
		if i < n-1 {
			return i + 1
		}
	case 6: // two items with the others spread over them
		if i > 1 {
			return i % 2
		}
	}
	return -1
}

// fixedEnds is the k-th relationship of one of the fixed sets for larger worlds.
func fixedEnds(shape, k, n int) (int, int) {
	switch shape {
	case 1: // a path through all items
		return k % n, (k + 1) % n
	case 2: // from the first item
		return 0, k % n
	case 3: // to the last item
		return k % n, n - 1
	case 4: // every pair
		return k / n % n, k % n
	default: // backwards
		return (n - k%n) % n, (n - k%n - 1 + n) % n
	}
}

// forest builds an arbitrary world of n items with symbolic distinct ids and any forest over them.
// amask selects the attributes of the items (see itemChange); they are always given.
func forest(w world.World, m *M, n, amask int) {
	for i := 0; i < n; i++ {
		id := ""
		if i < vf.Param("cid", 0) { // for larger worlds
			id = letters[i : i+1]
		} else {
			id = newId(pre + "id" + num(i))
		}
		vf.Assume(id != "")
		for j := range m.it {
			vf.Assume(m.it[j].id != id)
		}
		at := world.Item{}
		p := world.ItemParams{}
		if amask&1 != 0 {
			at.Name = text(pre + "name" + num(i))
			p.Name = &at.Name
		}
		if amask&2 != 0 {
			at.External = vf.Bool(pre + "ext" + num(i))
			p.External = &at.External
		}
		if amask&4 != 0 {
			at.Mechanism = text(pre + "mech" + num(i))
			p.Mechanism = &at.Mechanism
		}
		if amask&8 != 0 {
			at.Expanded = text(pre + "exp" + num(i))
			p.Expanded = &at.Expanded
		}
		if amask&16 != 0 {
			t := typeNames[(i+3)%len(typeNames)]
			if i == 0 { // the others have some fixed type
				t = typeNames[vf.Pick(pre+"type"+num(i), len(typeNames))]
			}
			at.Type, _ = typeOf(t)
			p.Type = &t
		}
		w.ItemCreate(id, p)
		m.create(id, at)
	}
	shape := vf.Param("shape", 0)
	if shape == 9 { // any of them
		shape = 1 + vf.Pick(pre+"shape", 6)
	}
	for i := 0; i < n; i++ {
		if vf.Param("flat", 0) == 1 {
			break
		}
		p := -1
		if shape > 0 {
			p = shaped(shape, i, n)
		} else {
			p = vf.Range(pre+"par"+num(i), 0, n) - 1
		}
		if p < 0 {
			continue
		}
		vf.Assume(p != i && !m.inside(p, i))
		w.Nest(m.it[i].id, m.it[p].id)
		m.it[i].parent = p
	}
}

// arrows adds r relationships between any items of the world (distinct pairs), with attributes by rmask.
func arrows(w world.World, m *M, r, rmask int) {
	n := len(m.it)
	shape := vf.Param("rshape", 0)
	if shape == 9 { // any of them
		shape = 1 + vf.Pick(pre+"rshape", 5)
	}
	for k := 0; k < r; k++ {
		i, j := 0, 0
		if shape > 0 {
			i, j = fixedEnds(shape, k, n)
		} else {
			i, j = vf.Pick(pre+"from"+num(k), n), vf.Pick(pre+"to"+num(k), n)
		}
		vf.Assume(m.link(i, j) < 0)
		if k > 0 && shape == 0 { // the order of creation is covered by the order of the items
			l := m.rel[k-1]
			vf.Assume(vf.Param("anyorder", 0) == 1 || l.from*n+l.to < i*n+j)
		}
		at := world.Rel{}
		p := world.RelParams{}
		if rmask&1 != 0 {
			at.Verb = text(pre + "verb" + num(k))
			p.Verb = &at.Verb
		}
		if rmask&2 != 0 {
			at.Async = vf.Bool(pre + "async" + num(k))
			p.Async = &at.Async
		}
		if rmask&4 != 0 {
			at.Mechanism = text(pre + "rmech" + num(k))
			p.Mechanism = &at.Mechanism
		}
		if rmask&8 != 0 {
			at.Expanded = text(pre + "rexp" + num(k))
			p.Expanded = &at.Expanded
		}
		w.RelCreate(m.it[i].id, m.it[j].id, p)
		m.rel = append(m.rel, link{from: i, to: j, ok: true, at: at})
	}
}
