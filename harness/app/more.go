package world

import (
	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/world"
	"github.com/williamflynt/topolith/zz_verif/vf"
)

// Two: what happens in one session does not reach another one.
func Two() {
	a, ma := start()
	pre = "o"
	b, mb := start()
	pre = ""
	c := newCmd("b", vf.Param("bcmds", 1))
	run(b, c)
	before := mb.copy()
	_, unsure := mb.apply(c)
	vf.Assume(!unsure)
	for s := 0; s < vf.Param("k", 1); s++ {
		c := newCmd(num(s), vf.Param("cmds", 1<<nCmds-1))
		run(a, c)
		_, unsure := ma.apply(c)
		vf.Assume(!unsure)
	}
	checkAll(b.World(), mb, "A06")
	h := b.History()
	vf.Assert(len(h) == 1 && b.CanUndo() && !b.CanRedo(), "A06: the history of a session is its own")
	if len(h) == 1 {
		vf.Assert(h[0].String() == c.text, "A06: the history of a session is its own")
	}
	vf.Assert(len(a.History()) == vf.Param("k", 1), "A06: the history of a session is its own")
	err, found := app.VfUndo(b)
	if found {
		vf.Assert(err == nil, "A06: undo works in each session")
		checkAll(b.World(), before, "A06")
		vf.Assert(!b.CanUndo() && b.CanRedo() && a.CanUndo() && !a.CanRedo(), "A06: the position of a session is its own")
	}
	checkAll(a.World(), ma, "A06")
	vf.Reach("end")
}

// Replay: the history of a session, run again from where it started, gives the same world.
func Replay() {
	a, err := app.NewApp(world.CreateWorld("w"))
	b, err2 := app.NewApp(world.CreateWorld("w"))
	vf.Assert(err == nil && err2 == nil, "A07: a session starts")
	states := []*M{{}}
	pos := 0
	for s := 0; s < vf.Param("k", 2); s++ {
		what := 0
		if s >= vf.Param("first", 2) {
			what = vf.Pick("what"+num(s), 3)
		}
		switch what {
		case 0:
			c := newCmd(num(s), vf.Param("cmds"+num(s), vf.Param("cmds", 1<<cItemFetch-1)))
			reply(a.Exec(c.text))
			m := states[pos].copy()
			_, unsure := m.apply(c)
			vf.Assume(!unsure)
			states = append(states[:pos+1:pos+1], m)
			pos++
		case 1:
			_, found := app.VfUndo(a)
			vf.Assume(found)
			if pos > 0 {
				pos--
			}
		case 2:
			_, found := app.VfRedo(a)
			vf.Assume(found)
			if pos < len(states)-1 {
				pos++
			}
		}
	}
	for _, c := range a.History() {
		b.Exec(c.String())
	}
	checkAll(b.World(), states[pos], "A07")
	vf.Assert(world.WorldEqual(a.World(), b.World()) && world.WorldEqual(b.World(), a.World()), "A07: both worlds are equal")
	vf.Assert(len(b.History()) == len(a.History()), "A07: both histories are equal")
	vf.Reach("end")
}
