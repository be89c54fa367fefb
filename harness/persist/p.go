package world

import (
	"github.com/williamflynt/topolith/pkg/persistence"
	"github.com/williamflynt/topolith/pkg/world"
	"github.com/williamflynt/topolith/zz_verif/vf"
)

var root = "/data/src"

// store is a file persistence on an empty directory of the model file system.
func store() persistence.Persistence {
	if vf.Param("home", 0) == 1 {
		root = "/home/u/.local/share/topolith"
	}
	vf.FS = &vf.FSState{Root: root, Dirs: []string{"/data", "/cwd", "/home", "/home/u", "/tmp"}}
	if vf.Param("fresh", 0) == 0 {
		vf.FS.Dirs = append(vf.FS.Dirs, root)
	}
	p := persistence.NewFilePersistence()
	if vf.Param("home", 0) == 0 {
		p.SetSourcePath(root)
	}
	return p
}

// content makes the k-th world, told from the others by its first item.
func content(name, k string) (world.World, *M) {
	pre = k
	w := world.CreateWorld(name)
	m := &M{}
	forest(w, m, vf.Param("n", 1), vf.Param("fmask", 1))
	arrows(w, m, vf.Param("r", 0), vf.Param("rfmask", 0))
	return w, m
}

// meta is what a world says of itself, apart from its name.
type meta struct {
	id, expanded string
	version      int
}

func describe(w world.World, k string) meta {
	d := meta{w.Name(), "", w.Version()}
	if vf.Param("meta", 0) == 0 {
		return d
	}
	d.id = vf.Str("wid"+k, 1, vf.Param("wmax", 1), vf.Plain)
	d.expanded = vf.Str("wexp"+k, 0, vf.Param("wmax", 1), vf.Quoted)
	d.version = vf.Range("wversion"+k, 1, 3)
	w.SetId(d.id)
	w.SetExpanded(d.expanded)
	w.SetVersion(d.version)
	return d
}

func checkMeta(w world.World, d meta, what string) {
	vf.Assert(w.Id() == d.id && w.Expanded() == d.expanded && w.Version() == d.version, "P01: "+what+": the id, the description and the version")
}

// fixed makes a world without symbolic parts.
func fixed(name, k string) (world.World, *M) {
	w := world.CreateWorld(name)
	m := &M{}
	for i := 0; i < vf.Param("n", 1); i++ {
		at := world.Item{Id: "i" + num(i), Name: k}
		w.ItemCreate(at.Id, world.ItemParams{Name: &k})
		m.create(at.Id, at)
	}
	return w, m
}

func check(w world.World, err error, name string, m *M, who, what string) {
	vf.Assert(err == nil && w != nil, who+": "+what+": it loads")
	if err != nil || w == nil {
		return
	}
	vf.Assert(w.Name() == name, who+": "+what+": it has its name")
	checkPlaces(w, m, who)
	checkItems(w, m, who)
	checkRels(w, m, who)
}

// worldName is a symbolic plain name, possibly one that looks like a file name.
func worldName(k string) string {
	s := vf.Str(k, vf.Param("hmin", 1), vf.Param("hmax", 1), vf.Quoted)
	switch vf.Pick(k+".form", vf.Param("forms", 1)) {
	case 1:
		s += ".world"
	case 2:
		s += ".tmp"
	case 3:
		s = "." + s
	case 4:
		s += ".world.tmp"
	}
	return s
}

// SaveLoad: several saves under arbitrary names, then every name is loaded.
func SaveLoad() {
	p := store()
	var names []string
	var ms []*M
	var ds []meta
	for i := 0; i < vf.Param("saves", 2); i++ {
		name := worldName("name" + num(i))
		var w world.World
		var m *M
		if vf.Param("fix", 0) == 1 {
			w, m = fixed(name, num(i))
		} else {
			w, m = content(name, num(i))
		}
		d := describe(w, num(i))
		vf.Assert(p.Save(w) == nil, "P01: a world with a plain name is saved")
		check(w, nil, name, m, "P01", "the world that was saved")
		checkMeta(w, d, "the world that was saved")
		names = append(names, name)
		ms = append(ms, m)
		ds = append(ds, d)
	}
	for i := range names {
		last := i
		for j := i + 1; j < len(names); j++ {
			if names[j] == names[i] {
				last = j
			}
		}
		w, err := p.Load(names[i])
		check(w, err, names[i], ms[last], "P01", "the version saved last")
		if err == nil && w != nil {
			checkMeta(w, ds[last], "the version saved last")
		}
	}
	vf.Assert(!vf.FS.Outside, "P02: nothing outside the directory is touched")
	vf.Reach("end")
}

// Outside: any name at all.
func Outside() {
	p := store()
	vf.FS.Dirs = append(vf.FS.Dirs, root+"/d", root+"/..world", "/data/e")
	pre := []string{"", "../", "d/../../", "/", "../e/", "..\\", "./../", "d/"}[vf.Pick("pre", 8)]
	name := pre + vf.Str("name", vf.Param("hmin", 0), vf.Param("hmax", 2), vf.Any)
	if vf.Param("up", 0) == 1 {
		name += "/../../x"
	}
	w, _ := fixed(name, "a")
	p.Save(w)
	vf.Assert(!vf.FS.Outside, "P02: nothing outside the directory is touched")
	vf.Reach("end")
}

// Faults: a save that is cut short somewhere.
func Faults() {
	p := store()
	name := worldName("name")
	w1, m1 := fixed(name, "a")
	w2, m2 := fixed(name, "b")
	had := vf.Param("had", 1) == 1
	if had {
		vf.Assert(p.Save(w1) == nil, "P03: a world with a plain name is saved")
	}
	vf.FS.FaultAt = vf.FS.Step + vf.Range("at", 1, vf.Param("steps", 8))
	vf.FS.Crash = vf.Flip("crash")
	n := len(w2.String())
	vf.FS.Partial = []int{0, 1, n / 2, n - 1, n}[vf.Pick("part", 5)]
	err := p.Save(w2)
	hit := vf.FS.Hit()
	crashed := hit && vf.FS.Crash
	vf.FS.Recover()
	w, lerr := p.Load(name)
	switch {
	case crashed:
		// the new version may be there already, but then all of it
		if lerr == nil && w != nil && len(w.ItemList(0)) > 0 && w.ItemList(0)[0].Name == "b" {
			check(w, lerr, name, m2, "P03", "the new version is complete")
		} else if had {
			check(w, lerr, name, m1, "P03", "the earlier version is kept")
		} else {
			vf.Assert(lerr != nil, "P03: there is no incomplete version")
		}
	case err != nil:
		vf.Assert(hit, "P03: a save fails only when something went wrong")
		if had {
			check(w, lerr, name, m1, "P03", "the earlier version is kept")
		} else {
			vf.Assert(lerr != nil, "P03: there is no incomplete version")
		}
	default:
		check(w, lerr, name, m2, "P03", "a save that succeeds is complete")
	}
	if vf.Param("after", 1) == 1 {
		names, err := p.ListWorlds()
		if had {
			vf.Assert(err == nil && len(names) == 1 && names[0] == name, "P04: leftovers of a failed save are not listed")
		}
		w3, m3 := fixed(name, "c")
		vf.Assert(p.Save(w3) == nil, "P03: saving works again")
		w, err := p.Load(name)
		check(w, err, name, m3, "P03", "the version saved last")
	}
	vf.Reach("end")
}

// Listing: saved worlds among other files.
func Listing() {
	p := store()
	var names []string
	for i := 0; i < vf.Param("saves", 2); i++ {
		name := worldName("name" + num(i))
		w, _ := fixed(name, num(i))
		vf.Assert(p.Save(w) == nil, "P04: a world with a plain name is saved")
		for _, n := range names {
			vf.Assume(n != name || vf.Param("twice", 0) == 1)
		}
		names = append(names, name)
	}
	if vf.Param("other", 1) == 1 {
		f := vf.Str("file", 1, vf.Param("flen", 2), vf.Any) + []string{"", ".worl", ".world.bak", "world", ".worlds", ".World", ".world "}[vf.Pick("ending", 7)]
		for i := 0; i < len(f); i++ {
			vf.Assume(f[i] != '/' && f[i] != 0)
		}
		vf.Assume(f != "." && f != "..")
		if n := len(f) - len(".world"); n >= 0 {
			vf.Assume(f[n:] != ".world")
		}
		vf.FS.Add(root+"/"+f, "anything")
		if vf.Flip("dir") {
			d := "d.world"
			vf.Assume(names[0]+".world" != d && names[len(names)-1]+".world" != d)
			vf.FS.Dirs = append(vf.FS.Dirs, root+"/"+d)
		}
		vf.FS.Dirs = append(vf.FS.Dirs, root+"/sub")
		vf.FS.Add(root+"/sub/inner.world", "anything")
	}
	got, err := p.ListWorlds()
	vf.Assert(err == nil, "P04: listing works")
	n := 0
	for i, x := range names {
		again := false
		for _, y := range names[:i] {
			again = again || x == y
		}
		if again {
			continue
		}
		n++
		vf.Assert(times(got, x) == 1, "P04: every saved world is listed once")
	}
	vf.Assert(len(got) == n, "P04: nothing else is listed")
	for _, x := range got {
		_, err := p.Load(x)
		vf.Assert(err == nil, "P04: every listed world can be loaded")
	}
	vf.Reach("end")
}

// Loads: loading never makes up a world. The file of a name has any text, or is missing.
func Loads() {
	p := store()
	name := worldName("name")
	other := vf.Str("other", 1, vf.Param("hmax", 1), vf.Quoted)
	vf.Assume(other != name)
	if vf.Flip("others") { // neither is one of these
		w, _ := fixed(other, "a")
		vf.Assert(p.Save(w) == nil, "P05: a world with a plain name is saved")
		vf.FS.Add(root+"/"+name, "anything")
		vf.FS.Add("/cwd/"+name+"x.world", "anything")
	}
	text := ""
	kind := vf.Pick("text", 6)
	w0, m0 := fixed(name, "c")
	full := w0.String()
	switch kind {
	case 0: // missing
	case 1:
		text = vf.Str("s", 0, vf.Param("slen", 2), vf.Any)
	case 2:
		text = full[:[]int{1, len(full) / 2, len(full) - 8, len(full) - 2, len(full) - 1}[vf.Pick("cut", 5)]]
	case 3:
		text = `item "zz"`
	case 4:
		text = full + vf.Str("s", 1, vf.Param("slen", 2), vf.Plain)
	case 5:
		text = full
	}
	if kind > 0 {
		vf.FS.Add(root+"/"+name+".world", text)
	}
	w, err := p.Load(name)
	if kind == 5 {
		check(w, err, name, m0, "P05", "a complete file")
	} else {
		vf.Assert(err != nil, "P05: loading reports an error when there is no complete world")
	}
	w, err = p.Load(name)
	vf.Assert((err == nil) == (kind == 5), "P05: loading again gives the same")
	vf.Assert(!vf.FS.Outside, "P05: loading changes nothing")
	vf.Reach("end")
}
