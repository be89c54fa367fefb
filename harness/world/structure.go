package world

import (
	"github.com/williamflynt/topolith/pkg/world"
	"github.com/williamflynt/topolith/zz_verif/vf"
)

// Operations for step, as bits of the parameter "ops".
const (
	opCreate = 1 << iota
	opDelete
	opNest
	opFree
	opSet
	opLink
	opUnlink
	opRelSet
	nOps = 8
)

// step runs one arbitrary operation of the given kinds with arbitrary ids, on the world and on the model,
// and compares what is returned. who names the properties an operation's answer belongs to.
func step(w world.World, m *M, k string, ops int) {
	var kinds []int
	for i := 0; i < nOps; i++ {
		if ops&(1<<i) != 0 {
			kinds = append(kinds, 1<<i)
		}
	}
	amask, rmask := vf.Param("amask", 1), vf.Param("rmask", 1)
	op := kinds[0]
	if len(kinds) > 1 {
		op = kinds[vf.Pick("op"+k, len(kinds))]
	}
	x := newId("x" + k)
	switch op {
	case opCreate:
		c := newItemChange("x"+k, amask)
		it, err := w.ItemCreate(x, c.p).Item()
		i := m.find(x)
		switch {
		case x == "":
			vf.Assert(err != nil, "W04: an item needs an id")
		case i >= 0:
			vf.Assert(sameItem(it, m.it[i].at), "W04: creating an existing item returns it unchanged")
			vf.Assert((err != nil) == c.differs(m.it[i].at), "W04: a conflict is reported exactly when the attributes differ")
		default:
			at := world.Item{Id: x}
			c.apply(&at)
			m.create(x, at)
			vf.Assert(sameItem(it, at), "W04: creating returns the new item with its attributes")
			if !c.badType {
				vf.Assert(err == nil, "W04: creating a new item works")
			}
		}
	case opDelete:
		w.ItemDelete(x)
		m.del(x)
	case opNest:
		y := newId("y" + k)
		fails := m.nest(x, y)
		err := w.Nest(x, y).Err()
		vf.Assert((err != nil) == fails, "W02: nest reports an error exactly when it cannot be done")
	case opFree:
		fails := m.free(x)
		err := w.Free(x).Err()
		vf.Assert((err != nil) == fails, "W02: free reports an error exactly when it cannot be done")
	case opSet:
		c := newItemChange("x"+k, amask)
		it, err := w.ItemSet(x, c.p).Item()
		i := m.find(x)
		vf.Assert((err != nil) == (i < 0 || c.badType), "W04: setting reports a missing item and an unknown type")
		if i >= 0 {
			c.apply(&m.it[i].at)
			vf.Assert(sameItem(it, m.it[i].at), "W04: setting returns the item with exactly the named attributes changed")
		}
	case opLink:
		y := newId("y" + k)
		c := newRelChange("x"+k, rmask)
		r, err := w.RelCreate(x, y, c.p).Rel()
		i, j := m.find(x), m.find(y)
		if i < 0 || j < 0 {
			vf.Assert(err != nil, "W05: a relationship needs both items")
			return
		}
		if l := m.link(i, j); l >= 0 {
			vf.Assert(sameRel(r, m.relOf(l)), "W05: creating an existing relationship returns it unchanged")
			vf.Assert((err != nil) == c.differs(m.rel[l].at), "W05: a conflict is reported exactly when the attributes differ")
			return
		}
		n := link{from: i, to: j, ok: true}
		c.apply(&n.at)
		m.rel = append(m.rel, n)
		vf.Assert(err == nil && sameRel(r, m.relOf(len(m.rel)-1)), "W05: creating returns the new relationship with its attributes")
	case opUnlink:
		y := newId("y" + k)
		w.RelDelete(x, y)
		i, j := m.find(x), m.find(y)
		if i >= 0 && j >= 0 {
			if l := m.link(i, j); l >= 0 {
				m.rel[l].ok = false
			}
		}
	case opRelSet:
		y := newId("y" + k)
		c := newRelChange("x"+k, rmask)
		r, err := w.RelSet(x, y, c.p).Rel()
		i, j := m.find(x), m.find(y)
		l := -1
		if i >= 0 && j >= 0 {
			l = m.link(i, j)
		}
		vf.Assert((err != nil) == (l < 0), "W05: setting reports a missing relationship")
		if l >= 0 {
			c.apply(&m.rel[l].at)
			vf.Assert(sameRel(r, m.relOf(l)), "W05: setting returns the relationship with exactly the named attributes changed")
		}
	}
}

func build() (world.World, *M) {
	w := world.CreateWorld("w")
	m := &M{}
	forest(w, m, vf.Param("n", 3), vf.Param("fmask", 0))
	arrows(w, m, vf.Param("r", 0), vf.Param("rfmask", 0))
	return w, m
}

// Steps: from any world, any sequence of operations of the given kinds leaves what the model has.
// The parameter check has bits 1 placement, 2 item attributes, 4 relationships.
func Steps() {
	w, m := build()
	for s := 0; s < vf.Param("k", 1); s++ {
		step(w, m, num(s), vf.Param("ops", 255))
	}
	check := vf.Param("check", 7)
	who := owner()
	if check&1 != 0 {
		checkPlaces(w, m, who)
	}
	if check&2 != 0 {
		checkItems(w, m, who)
	}
	if check&4 != 0 {
		checkRels(w, m, who)
	}
	vf.Reach("end")
}

func owner() string {
	n := vf.Param("own", 1)
	return "W0" + num(n)
}
