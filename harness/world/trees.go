package world

import (
	"github.com/williamflynt/topolith/pkg/world"
	"github.com/williamflynt/topolith/zz_verif/vf"
)

// treeText writes the components of slot i (-1: the top).
func (m *M) treeText(i int) string {
	s := ""
	for j := range m.it {
		if m.it[j].ok && m.it[j].parent == i {
			if s != "" {
				s += " "
			}
			s += "tree{item \"" + m.it[j].id + "\"::[" + m.treeText(j) + "]}"
		}
	}
	return s
}

// checkTree compares all of a tree with the model, from its root (slot root, -1: no item).
func checkTree(t world.Tree, m *M, root int) {
	name := func(i int) string {
		if i < 0 {
			return ""
		}
		return m.it[i].id
	}
	vf.Assert(t.Item().Id == name(root), "T01: the root has its item")
	all := nodes(t)
	n := m.count()
	if root >= 0 {
		n--
	}
	vf.Assert(len(all) == n, "T01: nothing else is in the tree")
	vf.Assert(t.Empty() == (root < 0 && n == 0), "T01: a tree is empty when it has nothing")
	for i := range m.it {
		id := m.it[i].id
		node, ok := t.Find(id)
		if !m.it[i].ok {
			if m.find(id) < 0 {
				vf.Assert(!ok && !t.Has(id, false) && len(t.GetDescendantIds(id)) == 0, "T01: what was deleted is gone")
			}
			continue
		}
		vf.Assert(ok && t.Has(id, false), "T01: what is in the tree is found")
		if !ok {
			continue
		}
		vf.Assert(node.Item().Id == id && node.Has(id, true), "T01: what is found is what was asked for")
		vf.Assert(t.Has(id, true) == (i == root), "T01: strict means the tree's own item")
		vf.Assert(node.Parent().Item().Id == name(m.it[i].parent), "T01: a tree's parent is the one it is in")
		vf.Assert(node.Root().Item().Id == name(root) && node.Root().Components().Cardinality() == t.Components().Cardinality(), "T01: a tree's root is the outermost one")
		got, sub := t.GetDescendantIds(id), nodes(node)
		direct := 0
		inside := 0
		for j := range m.it {
			if !m.it[j].ok {
				continue
			}
			other := m.it[j].id
			in := m.inside(j, i)
			vf.Assert(node.Has(other, false) == (in || i == j), "T01: a tree has what is anywhere in it")
			_, found := node.Find(other)
			vf.Assert(found == (in || i == j), "T01: a tree finds what is anywhere in it")
			if in {
				inside++
				vf.Assert(times(got, other) == 1 && times(sub, other) == 1, "T01: descendants are listed once")
			}
			if m.it[j].parent == i {
				direct++
			}
		}
		vf.Assert(len(got) == inside && len(sub) == inside, "T01: only descendants are listed")
		vf.Assert(node.Components().Cardinality() == direct, "T01: components are what is directly inside")
	}
}

// TreeOps: operations on any part of a tree read from text, with or without an item at its root.
func TreeOps() {
	m := &M{}
	n := vf.Param("n", 3)
	root := -1
	if n > 0 && vf.Flip("rooted") {
		root = 0
	}
	for i := 0; i < n; i++ {
		id := letters[i : i+1]
		m.create(id, world.Item{Id: id})
	}
	shape := vf.Param("shape", 0)
	if shape == 9 {
		shape = 1 + vf.Pick("shape", 6)
	}
	for i := 0; i < n; i++ {
		if i == root {
			continue
		}
		p := -1
		if shape > 0 {
			p = shaped(shape, i, n)
		} else {
			p = vf.Range("par"+num(i), 0, n) - 1
		}
		if p < 0 {
			p = root
		}
		vf.Assume(p != i && (p < 0 || !m.inside(p, i)))
		m.it[i].parent = p
	}
	text := ""
	if root >= 0 {
		text = m.treeText(-1)
	} else {
		text = "tree{nil::[" + m.treeText(-1) + "]}"
	}
	t, items, err := world.TreeFromString(text)
	vf.Assert(err == nil && t != nil && len(items) == n, "T01: a tree is read")
	if err != nil || t == nil {
		return
	}
	for s := 0; s < vf.Param("k", 1); s++ {
		k := num(s)
		x := newId("x" + k)
		vf.Assume(x != "")
		on := vf.Range("on"+k, 0, len(m.it)) - 1
		at := t
		if on < 0 {
			on = root
		} else {
			vf.Assume(m.it[on].ok)
			node, ok := t.Find(m.it[on].id)
			vf.Assert(ok, "T01: what is in the tree is found")
			if !ok {
				return
			}
			at = node
		}
		i := m.find(x)
		if vf.Flip("delete" + k) {
			vf.Assume(i < 0 || i != root) // not specified
			at.Delete(x)
			if i >= 0 && (on < 0 || i == on || m.inside(i, on)) {
				m.del(x)
			}
			continue
		}
		err := at.AddOrMove(&world.Item{Id: x})
		switch {
		case i < 0:
			vf.Assert(err == nil, "T01: an item is added")
			i = m.create(x, world.Item{Id: x})
			m.it[i].parent = on
		case i == on:
			vf.Assert(err == nil, "T01: an item can stay where it is")
		case i == root || on >= 0 && m.inside(on, i):
			vf.Assert(err != nil, "T01: an item is not moved into its own components")
		default:
			vf.Assert(err == nil, "T01: an item is moved")
			m.it[i].parent = on
		}
	}
	checkTree(t, m, root)
	vf.Reach("end")
}
