package main

// The jobs of every check. Parameters are explained with the harnesses.
var plans = []plan{
	{prop: "W01", quick: []spec{
		{h: "world.Steps", p: "own=1,check=1,n=3,k=1,ops=31,amask=1"},
		{h: "world.Steps", p: "own=1,check=1,n=2,k=2,ops=31,amask=1", orders: "ins,rev", split: "op0:5"},
		{h: "world.Steps", p: "own=1,check=1,n=2,k=1,ops=31,amask=1,lmin=0,lmax=3"},
		{h: "world.Steps", p: "own=1,check=1,n=9,k=1,ops=31,amask=1,cid=9,shape=9"},
		{h: "world.Steps", p: "own=1,check=1,n=5,k=2,ops=31,amask=0,cid=5,shape=9", split: "op0:5", orders: "ins,rev"},
	}, deep: []spec{
		{h: "world.Steps", p: "own=1,check=1,n=3,k=2,ops=31,amask=0", split: "op0:5,op1:5", t: 600},
		{h: "world.Steps", p: "own=1,check=1,n=1,k=3,ops=31,amask=0", split: "op0:5", t: 600},
		{h: "world.Steps", p: "own=1,check=1,n=4,k=1,ops=15,amask=0", split: "op0:4,par0:5", t: 600},
		{h: "world.Steps", p: "own=1,check=1,n=20,k=1,ops=31,amask=1,cid=20,shape=9", split: "op0:5", t: 300},
		{h: "world.Steps", p: "own=1,check=1,n=7,k=2,ops=31,amask=0,cid=7,shape=9", split: "op0:5,op1:5", t: 600},
		{h: "world.Steps", p: "own=1,check=1,n=4,k=3,ops=14,cid=4,shape=9", split: "op0:3,op1:3", t: 600},
	}},
	{prop: "W02", quick: []spec{
		{h: "world.Steps", p: "own=2,check=5,n=3,r=1,k=1,ops=12,amask=1", orders: "ins,rev"},
		{h: "world.Steps", p: "own=2,check=1,n=4,k=1,ops=12,fmask=0", split: "par0:5"},
		{h: "world.Steps", p: "own=2,check=3,n=2,k=2,ops=12,fmask=15", orders: "ins,rev"},
		{h: "world.Steps", p: "own=2,check=1,n=2,k=1,ops=12,lmin=0,lmax=3"},
		{h: "world.Steps", p: "own=2,check=1,n=10,k=1,ops=12,cid=10,shape=9", orders: "ins,rev"},
		{h: "world.Steps", p: "own=2,check=1,n=5,k=2,ops=12,cid=5,shape=9", split: "op0:2"},
	}, deep: []spec{
		{h: "world.Steps", p: "own=2,check=1,n=3,k=2,ops=12", split: "op0:2,op1:2,par0:4", t: 600},
		{h: "world.Steps", p: "own=2,check=1,n=3,k=1,ops=12", orders: "all", split: "par0:4", t: 600},
		{h: "world.Steps", p: "own=2,check=1,n=20,k=1,ops=12,cid=20,shape=9", split: "op0:2", t: 600},
		{h: "world.Steps", p: "own=2,check=1,n=5,k=3,ops=12,cid=5,shape=9", split: "op0:2,op1:2,op2:2", t: 600},
	}},
	{prop: "W03", quick: []spec{
		{h: "world.Steps", p: "own=3,check=7,n=3,r=2,k=1,ops=2,fmask=1,rfmask=1", orders: "ins,rev", split: "from0:3"},
		{h: "world.Steps", p: "own=3,check=7,n=3,r=0,k=2,ops=2"},
		{h: "world.Steps", p: "own=3,check=1,n=4,k=1,ops=2", split: "par0:5"},
		{h: "world.Steps", p: "own=3,check=7,n=2,r=1,k=1,ops=2,fmask=31,rfmask=15"},
		{h: "world.Steps", p: "own=3,check=5,n=2,r=1,k=1,ops=2,lmin=0,lmax=3"},
		{h: "world.Steps", p: "own=3,check=5,n=2,r=4,k=1,ops=2"},
		{h: "world.Steps", p: "own=3,check=7,n=9,r=9,k=1,ops=2,cid=9,fmask=1,shape=9,rshape=9"},
		{h: "world.Steps", p: "own=3,check=7,n=5,r=5,k=2,ops=2,cid=5,shape=9,rshape=9"},
	}, deep: []spec{
		{h: "world.Steps", p: "own=3,check=5,n=3,r=3,k=1,ops=2", split: "from0:3,from1:3,par0:4", t: 600},
		{h: "world.Steps", p: "own=3,check=5,n=3,r=2,k=1,ops=2", orders: "all", split: "from0:3,to0:3", t: 600},
		{h: "world.Steps", p: "own=3,check=7,n=16,r=16,k=1,ops=2,cid=16,shape=9,rshape=9", t: 600},
		{h: "world.Steps", p: "own=3,check=5,n=6,r=6,k=3,ops=2,cid=6,shape=9,rshape=9", split: "rshape:5", t: 600},
	}},
	{prop: "W04", quick: []spec{
		{h: "world.Steps", p: "own=4,check=2,n=1,k=1,ops=17,amask=31,fmask=31", split: "op0:2,type0:10"},
		{h: "world.Steps", p: "own=4,check=2,n=2,k=1,ops=17,amask=31,flat=1", split: "op0:2"},
		{h: "world.Steps", p: "own=4,check=2,n=1,k=1,ops=17,amask=16,fmask=16,anytype=1", split: "op0:2"},
		{h: "world.Steps", p: "own=4,check=2,n=2,k=2,ops=19,amask=1,fmask=1,flat=1", orders: "ins,rev"},
		{h: "world.Steps", p: "own=4,check=2,n=2,k=1,ops=17,amask=1,fmask=5,tmin=0,tmax=2,lmin=0,lmax=2,flat=1"},
		{h: "world.Steps", p: "own=4,check=2,n=12,k=1,ops=19,amask=31,cid=12,flat=1", split: "op0:3"},
		{h: "world.Steps", p: "own=4,check=2,n=5,k=1,ops=30,amask=1,fmask=1,cid=5,shape=9"},
	}, deep: []spec{
		{h: "world.Steps", p: "own=4,check=2,n=3,k=1,ops=31,amask=15,fmask=1", split: "op0:5", t: 600},
		{h: "world.Steps", p: "own=4,check=2,n=1,k=2,ops=17,amask=31,fmask=0", split: "op0:2,op1:2", t: 600},
	}},
	{prop: "W05", quick: []spec{
		{h: "world.Pairs", p: "lmin=1,lmax=4", split: "id0.len:1-4,id1.len:1-4", t: 300},
		{h: "world.Steps", p: "own=5,check=4,n=2,r=1,k=1,ops=224,rmask=15,rfmask=15,flat=1", split: "op0:3"},
		{h: "world.Steps", p: "own=5,check=4,n=2,r=1,k=2,ops=224,rmask=1,rfmask=1,flat=1", split: "op0:3", orders: "ins,rev"},
		{h: "world.Steps", p: "own=5,check=4,n=3,r=1,k=1,ops=224,rmask=3,rfmask=1,flat=1", split: "op0:3"},
		{h: "world.Steps", p: "own=5,check=4,n=8,r=8,cid=8,k=1,ops=224,rmask=15,flat=1,rshape=9", split: "op0:3"},
		{h: "world.Steps", p: "own=5,check=4,n=4,r=16,cid=4,k=1,ops=224,rmask=1,flat=1,rshape=4", orders: "ins,rev"},
	}, deep: []spec{
		{h: "world.Steps", p: "own=5,check=4,n=4,r=4,cid=4,k=2,ops=224,rmask=1,flat=1,rshape=9", split: "op0:3,op1:3", t: 600},
		{h: "world.Steps", p: "own=5,check=4,n=3,r=2,k=1,ops=224,rmask=15,rfmask=15,flat=1", split: "op0:3", t: 600},
		{h: "world.Pairs", p: "lmin=5,lmax=6", split: "id0.len:5-6,id1.len:5-6", t: 600},
	}},
	{prop: "W06", quick: []spec{
		{h: "world.Ends", p: "n=2,r=1,k=1,ops=17,amask=31,fmask=15,kinds=1", split: "op0:2"},
		{h: "world.Ends", p: "n=2,r=1,k=1,ops=19,amask=3,fmask=3", split: "op0:3", orders: "ins,rev"},
		{h: "world.Ends", p: "n=3,r=2,k=1,ops=18,amask=1,fmask=1,kinds=1", split: "op0:2,from0:3", orders: "ins,rev"},
		{h: "world.Ends", p: "n=2,r=1,k=2,ops=127,amask=1,fmask=1,kinds=1", split: "op0:7"},
		{h: "world.Ends", p: "n=2,r=2,k=1,ops=16,amask=1,full=1", split: "kind:4,from0:2"},
		{h: "world.Ends", p: "n=7,r=7,cid=7,k=1,ops=18,amask=31,fmask=1,kinds=1,shape=3,rshape=9", split: "op0:2"},
		{h: "world.Ends", p: "n=5,r=5,cid=5,k=1,ops=16,amask=3,shape=9,rshape=1,full=1", split: "kind:4"},
	}, deep: []spec{
		{h: "world.Ends", p: "n=3,r=2,k=1,ops=16,amask=1,full=1", split: "kind:4,from0:3,from1:3", t: 600},
		{h: "world.Ends", p: "n=3,r=1,k=2,ops=18,amask=1,full=1,kinds=1", split: "op0:2,op1:2,from0:3", t: 600},
	}},
	{prop: "W07", quick: []spec{
		{h: "world.RelQueries", p: "n=3,r=2,fmask=1", split: "kind:3,par0:4", orders: "ins,rev"},
		{h: "world.RelQueries", p: "n=2,r=2", orders: "all"},
		{h: "world.RelQueries", p: "n=2,r=1,lmin=0,lmax=3,rfmask=15", split: "kind:3"},
		{h: "world.RelQueries", p: "n=4,r=1", split: "kind:3,par0:5"},
		{h: "world.RelQueries", p: "n=10,r=10,cid=10,shape=9,rshape=9", split: "kind:3"},
		{h: "world.RelQueries", p: "n=6,r=6,cid=6,shape=9,rshape=9,fmask=1,rfmask=1", split: "kind:3"},
		{h: "world.RelQueries", p: "n=4,r=16,cid=4,rshape=4", split: "kind:3"},
	}, deep: []spec{
		{h: "world.RelQueries", p: "n=5,r=1", split: "kind:3,par0:6,par1:6", t: 300},
		{h: "world.RelQueries", p: "n=4,r=2", split: "kind:3,par0:5,from0:4", t: 300},
		{h: "world.RelQueries", p: "n=3,r=3", split: "kind:3,par0:4,from0:3", orders: "ins,rev", t: 300},
		{h: "world.RelQueries", p: "n=16,r=16,cid=16,shape=9,rshape=9", split: "kind:3", t: 600},
	}},
	{prop: "W08", quick: []spec{
		{h: "world.Containment", p: "n=3,fmask=1", split: "kind:3", orders: "ins,rev"},
		{h: "world.Containment", p: "n=4", split: "kind:3,par0:5"},
		{h: "world.Containment", p: "n=2,k=1,ops=30,fmask=31,amask=1", split: "kind:3,op0:4"},
		{h: "world.Containment", p: "n=2,lmin=0,lmax=3"},
		{h: "world.Containment", p: "n=16,cid=16,shape=9", split: "kind:3"},
		{h: "world.Containment", p: "n=6,cid=6,shape=9,fmask=1,k=1,ops=14", split: "kind:3,shape:6"},
	}, deep: []spec{
		{h: "world.Containment", p: "n=4,k=2,ops=30,amask=1,cid=4,shape=9", split: "kind:3,op0:4", t: 600},
		{h: "world.Containment", p: "n=5", split: "kind:3,par0:6", t: 600},
		{h: "world.Containment", p: "n=26,cid=26,shape=9", split: "kind:3", t: 600},
	}},
	{prop: "W09", quick: []spec{
		{h: "world.Lists", p: "n=3,r=3,maxlimit=4,fmask=1,flat=1", orders: "ins,rev"},
		{h: "world.Lists", p: "n=2,r=2,k=1,ops=99,maxlimit=5", split: "op0:4"},
		{h: "world.Lists", p: "n=2,r=3", orders: "all"},
		{h: "world.Lists", p: "n=4,r=0,maxlimit=5"},
		{h: "world.Lists", p: "n=12,r=12,cid=12,maxlimit=14,shape=9,rshape=9"},
	}, deep: []spec{
		{h: "world.Lists", p: "n=20,r=20,cid=20,maxlimit=24,rshape=9", t: 600},
		{h: "world.Lists", p: "n=3,r=3,k=2,ops=99,maxlimit=6", split: "op0:4,op1:4", t: 600},
		{h: "world.Lists", p: "n=3,r=4,maxlimit=5", orders: "all", t: 300},
	}},
	{prop: "W10", quick: []spec{
		{h: "world.Snap", p: "n=2,r=1,flat=1", split: "what:3", orders: "ins,rev"},
		{h: "world.Snap", p: "n=2,r=1,fmask=1,rfmask=1,amask=31,rmask=15,full=1", split: "what:3"},
		{h: "world.Snap", p: "n=3,r=3,cid=3,shape=9,rshape=9,ops=126", split: "what:3,shape:6"},
		{h: "world.Snap", p: "n=6,r=6,cid=6,shape=9,rshape=1", split: "what:3,of:6"},
	}, deep: []spec{
		{h: "world.Snap", p: "n=3,r=2,fmask=1,rfmask=1", split: "what:3,of:3,from0:3", t: 600},
		{h: "world.Snap", p: "n=9,r=9,cid=9,shape=9,rshape=9", split: "what:3,of:9", t: 600},
	}},
	{prop: "W11", quick: []spec{
		{h: "world.Apart", p: "n=2,r=1", split: "kind:2", orders: "ins,rev"},
		{h: "world.Apart", p: "n=3,r=1,cid=3,k=1,amask=3", split: "kind:2,op0:8"},
		{h: "world.Apart", p: "n=2,r=0,k=2,cid=2,ops=31", split: "kind:2,op0:5"},
		{h: "world.ApartTrees", p: "lmax=3"},
	}, deep: []spec{
		{h: "world.Apart", p: "n=2,r=1,k=2,cid=2", split: "kind:2,op0:8,op1:8", t: 600},
	}},
	{prop: "T01", quick: []spec{
		{h: "world.TreeOps", p: "n=3", orders: "ins,rev"},
		{h: "world.TreeOps", p: "n=4", split: "par1:5"},
		{h: "world.TreeOps", p: "n=3,k=2", split: "par1:4"},
		{h: "world.TreeOps", p: "n=2", merge: true, orders: "all"},
		{h: "world.TreeOps", p: "n=2,lmin=0,lmax=3", merge: true},
		{h: "world.TreeOps", p: "n=8,shape=9", split: "shape:6"},
		{h: "world.TreeOps", p: "n=0,k=3"},
	}, deep: []spec{
		{h: "world.TreeOps", p: "n=4,k=2", split: "par1:5,par2:5", t: 600},
		{h: "world.TreeOps", p: "n=3,k=3", split: "par1:4,par2:4", t: 600},
		{h: "world.TreeOps", p: "n=16,shape=9", split: "shape:6", t: 600},
		{h: "world.TreeOps", p: "n=5", split: "par1:6,par2:6", t: 600},
	}},
	{prop: "E01", quick: []spec{
		{h: "world.EqualItems", p: ""},
		{h: "world.EqualItems", p: "tmin=2,tmax=2,lmin=2,lmax=2"},
		{h: "world.EqualHeads", p: ""},
		{h: "world.EqualHeads", p: "tmin=0,tmax=1"},
		{h: "world.EqualWorlds", p: "n=2,r=1,fmask=1,k=1", orders: "ins,rev"},
		{h: "world.EqualWorlds", p: "n=2,r=1,fmask=31,rfmask=15,k=0"},
		{h: "world.EqualWorlds", p: "n=2,r=1,amask=15,rmask=15,k=1,ops=144,flat=1", split: "op0:2"},
		{h: "world.EqualWorlds", p: "n=3,r=0,k=1,ops=14", split: "op0:3,start:3", orders: "ins,rev"},
		{h: "world.EqualWorlds", p: "n=2,r=2,k=1,ops=224,rmask=1", split: "op0:3,start:2", orders: "ins,rev"},
		{h: "world.EqualWorlds", p: "n=2,r=0,k=0,only=1", orders: "all", split: "start:2,par0:3"},
		{h: "world.EqualWorlds", p: "n=2,r=0,k=0,only=2", orders: "all", split: "start:2"},
		{h: "world.EqualPairs", p: "n=2,r=1,fmask=0", orders: "ins,rev"},
		{h: "world.EqualWorlds", p: "n=6,r=6,cid=6,shape=3,rshape=1,k=1,ops=255", split: "start:3"},
		{h: "world.EqualWorlds", p: "n=5,r=5,cid=5,shape=9,rshape=2,k=1,ops=255", orders: "rev"},
	}, deep: []spec{
		{h: "world.EqualWorlds", p: "n=3,r=1,fmask=0,k=1,ops=255", split: "op0:8,start:3", t: 600},
		{h: "world.EqualWorlds", p: "n=3,r=2,k=1,ops=96,flat=1", split: "op0:2,start:3", orders: "ins,rev"},
		{h: "world.EqualPairs", p: "n=2,r=2", split: "from0:2,ofrom0:2", t: 600},
	}},
	{prop: "S01", quick: []spec{
		{h: "world.ItemText", p: "lmin=1,lmax=4,tmin=0,tmax=1,quoted=1,amask=31", merge: true, split: "id.len:1-4"},
		{h: "world.ItemText", p: "lmin=1,lmax=2,tmin=4,tmax=4,quoted=1,amask=31", merge: true},
		{h: "world.ItemText", p: "lmin=1,lmax=8,quoted=1,amask=0", merge: true},
		{h: "world.ItemTypes", p: "", merge: true},
	}, deep: []spec{
		{h: "world.ItemText", p: "lmin=1,lmax=1,tmin=0,tmax=3,quoted=1,amask=15", merge: true, split: "name.len:4", t: 600},
		{h: "world.ItemText", p: "lmin=16,lmax=16,tmin=16,tmax=16,quoted=1,amask=31", merge: true, t: 600},
	}},
	{prop: "S02", quick: []spec{
		{h: "world.RelText", p: "lmin=1,lmax=2,tmin=0,tmax=1,quoted=1", merge: true, split: "from:2,to:2"},
		{h: "world.RelText", p: "lmin=3,lmax=3,tmin=3,tmax=3,quoted=1", merge: true, split: "from:2,to:2"},
		{h: "world.RelMissing", p: "lmin=1,lmax=3,quoted=1", merge: true},
		{h: "world.RelNot", p: "lmin=1,lmax=2,quoted=1,slen=3", merge: true, split: "kind:12"},
	}, deep: []spec{
		{h: "world.RelText", p: "lmin=8,lmax=8,tmin=8,tmax=8,quoted=1", merge: true, split: "from:2,to:2", t: 600},
		{h: "world.RelNot", p: "lmin=3,lmax=4,quoted=1,slen=6", merge: true, split: "kind:12", t: 600},
	}},
	{prop: "S03", quick: []spec{
		{h: "world.TreeText", p: "n=3,fmask=1,quoted=1", merge: true, orders: "ins,rev"},
		{h: "world.TreeText", p: "n=2,fmask=31,quoted=1", merge: true, split: "par0:3,type0:10"},
		{h: "world.TreeText", p: "n=2,fmask=13,tmin=0,tmax=1,quoted=1", merge: true, split: "par0:3"},
		{h: "world.TreeText", p: "n=2,lmax=3,quoted=1", merge: true},
		{h: "world.TreeText", p: "n=4,quoted=1", merge: true, split: "par0:5"},
		{h: "world.TreeText", p: "n=0,quoted=1", merge: true},
		{h: "world.TreeText", p: "n=12,cid=12,shape=9,quoted=1,fmask=1", merge: true},
		{h: "world.TreeText", p: "n=6,shape=9,quoted=1", merge: true, split: "shape:6"},
	}, deep: []spec{
		{h: "world.TreeText", p: "n=5,quoted=1", merge: true, split: "par0:6,par1:6", t: 600},
		{h: "world.TreeText", p: "n=3,fmask=15,lmin=3,lmax=3,tmin=3,tmax=3,quoted=1", merge: true, split: "par0:4", t: 600},
	}},
	{prop: "S04", quick: []spec{
		{h: "world.WorldText", p: "n=1,heads=1,hmax=2,quoted=1,vmax=12", merge: true, split: "wid.len:3"},
		{h: "world.WorldText", p: "n=3,r=2,quoted=1", merge: true, split: "par0:4", orders: "ins,rev"},
		{h: "world.WorldText", p: "n=2,r=1,fmask=15,rfmask=15,quoted=1", merge: true, split: "par0:3"},
		{h: "world.WorldText", p: "n=1,fmask=31,lmax=2,tmin=0,tmax=1,quoted=1", merge: true},
		{h: "world.WorldText", p: "n=2,r=1,rfmask=15,tmin=0,tmax=1,quoted=1", merge: true},
		{h: "world.WorldText", p: "n=2,lmin=3,lmax=3,quoted=1", merge: true},
		{h: "world.WorldText", p: "n=0,heads=1,quoted=1,hmax=1", merge: true},
		{h: "world.WorldCut", p: "n=1,r=1,fmask=1,quoted=1,jmax=2", merge: true},
		{h: "world.WorldNot", p: "lmin=1,lmax=2,quoted=1,slen=4", merge: true, split: "kind:12"},
		{h: "world.WorldText", p: "n=10,r=10,cid=10,shape=9,rshape=9,quoted=1,fmask=1,rfmask=1", merge: true},
	}, deep: []spec{
		{h: "world.WorldText", p: "n=4,r=2,quoted=1", merge: true, split: "par0:5,par1:5", t: 600},
		{h: "world.WorldCut", p: "n=2,r=2,fmask=15,rfmask=15,quoted=1,jmax=3,upto=254", merge: true, t: 600},
		{h: "world.WorldNot", p: "lmin=3,lmax=3,quoted=1,slen=6", merge: true, split: "kind:12", t: 600},
	}},
	{prop: "G01", quick: []spec{
		{h: "grammar.Total", p: "n=4", merge: true, split: "s.len:5"},
		{h: "grammar.Holes", p: "n=3", merge: true, split: "hole:24"},
		{h: "grammar.Holes", p: "n=2", merge: true, split: "hole:24-27"},
		{h: "world.Readers", p: "slen=2", merge: true, split: "text:19"},
	}, deep: []spec{
		{h: "grammar.Total", p: "n=6", merge: true, split: "s.len:5-6", t: 700},
		{h: "grammar.Holes", p: "n=5", merge: true, split: "hole:24", t: 300},
		{h: "world.Readers", p: "slen=4", merge: true, split: "text:19", t: 300},
	}},
	{prop: "G02", quick: []spec{
		{h: "grammar.Commands", p: "wmax=2,all=1", merge: true, split: "kind:28"},
		{h: "grammar.Commands", p: "wmax=1,flags=0,form=0", merge: true, split: "kind:28"},
		{h: "grammar.Commands", p: "wmin=0,wmax=0,vmin=0,vmax=0,flags=0,form=0,all=1", merge: true, split: "kind:28"},
		{h: "grammar.Commands", p: "wmin=5,wmax=5,vmin=3,vmax=3,flags=2,form=0,all=1,back=1", merge: true, split: "kind:28"},
		{h: "grammar.Commands", p: "wmax=1,flags=1,gap=2,lead=1,all=1,vform=1", merge: true, split: "kind:28"},
		{h: "grammar.Commands", p: "wmin=3,wmax=3,flags=1,gap=1,form=1,all=1,vform=1", merge: true, split: "kind:28"},
		{h: "grammar.Commands", p: "wmax=1,flags=0,form=0,ids=4", merge: true, split: "kind:11-12"},
		{h: "grammar.Commands", p: "wmax=1,form=0,vform=2,pmask=5,gap=3,flags=0,back=1", merge: true, split: "kind:28"},
	}, deep: []spec{
		{h: "grammar.Commands", p: "wmin=4,wmax=6,vmin=1,vmax=4,flags=1,form=2,all=1", merge: true, split: "kind:28", t: 500},
		{h: "grammar.Commands", p: "wmin=16,wmax=16,vmin=16,vmax=16,flags=2,form=0,all=1", merge: true, split: "kind:28", t: 500},
	}},
	{prop: "G03", quick: []spec{
		{h: "grammar.Total", p: "n=4", merge: true},
		{h: "grammar.Trailing", p: "form=0,wmax=2,jmax=3", merge: true, split: "kind:22"},
		{h: "grammar.Trailing", p: "form=1,wmax=2,jmax=2,gap=1", merge: true, split: "kind:22"},
		{h: "grammar.InQuotes", p: "vmax=3", merge: true, split: "place:20"},
		{h: "grammar.Outside", p: "all=1,flags=0,wmax=1,form=0,pmask=15", merge: true, split: "kind:28"},
	}, deep: []spec{
		{h: "grammar.Trailing", p: "form=2,wmax=4,jmax=5", merge: true, split: "kind:22", t: 500},
		{h: "grammar.InQuotes", p: "vmax=8", merge: true, split: "place:20"},
		{h: "grammar.Outside", p: "all=1,flags=0,wmax=2,form=2", merge: true, split: "kind:28", t: 500},
	}},
	{prop: "G04", quick: []spec{
		{h: "grammar.Status", p: "dmin=1,dmax=4,mmax=2", merge: true},
		{h: "grammar.Responses", p: "wmin=2,wmax=2,max=2,mmax=1", merge: true, split: "kind:6"},
		{h: "grammar.Responses", p: "wmin=4,wmax=4,max=3,sep=0,mmax=1", merge: true, split: "kind:6"},
		{h: "grammar.Responses", p: "wmax=1,max=5,attrs=0,mmax=1", merge: true, split: "kind:6"},
	}, deep: []spec{
		{h: "grammar.Responses", p: "wmin=10,wmax=10,max=8,mmax=6", merge: true, split: "kind:6", t: 500},
	}},
	{prop: "G05", quick: []spec{
		{h: "grammar.Apart", p: "all=1,wmax=1,form=0,pmask=5", merge: true, split: "kind:28"},
		{h: "grammar.Apart", p: "all=1,wmin=0,wmax=0,vmin=0,vmax=0,form=0,pmask=26", merge: true, split: "kind:28"},
	}, deep: []spec{
		{h: "grammar.Apart", p: "all=1,wmin=3,wmax=3,vmin=2,vmax=2", merge: true, split: "kind:28,other:10", t: 300},
	}},
	{prop: "A01", quick: []spec{
		{h: "app.Lines", p: "n=1,quoted=1,slen=3", merge: true},
		{h: "app.Lines", p: "n=1,quoted=1,slen=2,holes=1", merge: true, split: "hole:23"},
		{h: "app.Answers", p: "n=1,r=1,quoted=1,flags=1", merge: true, split: "cmd:25"},
		{h: "app.Answers", p: "n=1,r=1,quoted=1,cmds=2162688,biglimit=1,maxlimit=5", merge: true},
		{h: "app.Answers", p: "n=2,r=1,quoted=1,cmask=3,lmin=0,lmax=1", merge: true, split: "cmd:25"},
		{h: "app.Answers", p: "n=1,r=1,quoted=1,cmask=3,fmask=15,rfmask=15,amask=15,rmask=15,full=1", merge: true, split: "cmd:25"},
	}, deep: []spec{
		{h: "app.Lines", p: "n=1,quoted=1,slen=4", merge: true, t: 600},
		{h: "app.Lines", p: "n=1,quoted=1,slen=4,holes=1", merge: true, split: "hole:23", t: 400},
		{h: "app.Answers", p: "n=3,r=2,quoted=1,cmask=3", merge: true, split: "cmd:25,par0:4", t: 400},
	}},
	{prop: "A02", quick: []spec{
		{h: "app.Do", p: "effect=0,undo=1,cmds=16383,n=2,r=1,cmask=3", split: "cmd:14", orders: "ins,rev"},
		{h: "app.Do", p: "effect=0,undo=1,cmds=112,n=3,r=0,check=1", split: "cmd:3,par0:4"},
		{h: "app.Do", p: "effect=0,undo=1,cmds=8,n=3,r=1,check=7,fmask=1", split: "par0:4,from0:3"},
		{h: "app.Do", p: "effect=0,undo=1,cmds=12495,n=2,r=1,fmask=31,rfmask=15,amask=31,rmask=15,full=1,flat=1", split: "cmd:8"},
		{h: "app.Do", p: "effect=0,undo=1,cmds=16383,n=2,r=1,cmask=3,quoted=1,text=1,ids=1", merge: true, split: "cmd:14"},
		{h: "app.Do", p: "effect=0,undo=1,cmds=16383,n=1,r=0,cmask=1,lmin=0,lmax=2,full=1", split: "cmd:14"},
		{h: "app.Do", p: "effect=0,undo=1,cmds=16383,n=6,r=6,cid=6,shape=9,rshape=9,cmask=3", split: "cmd:14"},
	}, deep: []spec{
		{h: "app.Do", p: "effect=0,undo=1,cmds=8,n=3,r=2,check=7", split: "par0:4,from0:3", t: 600},
		{h: "app.Do", p: "effect=0,undo=1,cmds=16,n=3,ids=3,check=1", split: "par0:4,par1:4", t: 600},
	}},
	{prop: "A03", quick: []spec{
		{h: "app.Walk", p: "n=1,k=4,cmds=9,full=1,ids=1", split: "what1:3,what2:3"},
		{h: "app.Walk", p: "n=1,k=3,cmds=255,full=1,cmask=1,ids=1", split: "what1:3,cmd0:8"},
		{h: "app.Walk", p: "n=1,k=3,cmds=16128,full=1,cmask=1", split: "what1:3,cmd0:6"},
		{h: "app.Walk", p: "n=2,k=3,cmds=48,ids=1", split: "what1:3,cmd0:2"},
		{h: "app.Walk", p: "n=0,k=5,cmds=1,full=1", split: "what1:3"},
		{h: "app.Walk", p: "n=1,k=5,cmds=2,full=1", split: "what1:3"},
		{h: "app.Walk", p: "n=1,k=3,cmds=2146305,ids=1,full=1", split: "what1:3,cmd0:4"},
		{h: "app.Walk", p: "n=4,k=3,cmds=48,ids=1,cid=4,shape=1", split: "what1:3,cmd0:2"},
	}, deep: []spec{
		{h: "app.Walk", p: "n=1,k=5,cmds=9,full=1,ids=1", split: "what1:3,what2:3,what3:3", t: 600},
		{h: "app.Walk", p: "n=1,k=4,cmds=15,full=1,ids=1,cmask=1", split: "what1:3,what2:3,what3:3", t: 600},
	}},
	{prop: "A04", quick: []spec{
		{h: "app.Do", p: "again=1,cmds=33538048,n=2,r=1,fmask=1,rfmask=1", split: "cmd:11", orders: "ins,rev"},
		{h: "app.Do", p: "again=1,cmds=13500416,n=3,r=1,check=5", split: "cmd:5,par0:4,from0:3"},
		{h: "app.Do", p: "again=1,cmds=33538048,n=2,r=2", split: "cmd:11", orders: "ins,rev"},
		{h: "app.Do", p: "again=1,cmds=33538048,n=2,r=1,quoted=1,text=1,lmin=0,lmax=1", merge: true, split: "cmd:11"},
		{h: "app.Do", p: "again=1,cmds=33538048,n=2,r=1,fmask=31,rfmask=15,flat=1", split: "cmd:11"},
		{h: "app.Do", p: "again=1,cmds=33538048,n=6,r=6,cid=6,shape=9,rshape=9", split: "cmd:11"},
	}, deep: []spec{
		{h: "app.Do", p: "again=1,cmds=33538048,n=3,r=2,check=5", split: "cmd:11,par0:4", t: 600},
	}},
	{prop: "A05", quick: []spec{
		{h: "app.Do", p: "cmds=33538048,n=2,r=1,flags=1", split: "cmd:11"},
		{h: "app.Do", p: "cmds=2162688,n=1,r=1,biglimit=1,maxlimit=5", split: "cmd:2"},
		{h: "app.Do", p: "cmds=33554431,n=2,r=1,cmask=3", split: "cmd:25", orders: "ins,rev"},
		{h: "app.Do", p: "cmds=112,n=3,r=0,check=1,maxlimit=3", split: "cmd:3,par0:4"},
		{h: "app.Do", p: "cmds=33554431,n=2,r=1,fmask=31,rfmask=15,amask=31,rmask=15,full=1,flat=1", split: "cmd:25"},
		{h: "app.Do", p: "cmds=33554431,n=2,r=1,cmask=3,quoted=1,text=1", merge: true, split: "cmd:25"},
		{h: "app.Do", p: "cmds=33554431,n=1,r=1,cmask=1,lmin=0,lmax=2", split: "cmd:25"},
		{h: "app.Do", p: "cmds=13500424,n=3,r=1,check=7", split: "cmd:6,par0:4,from0:3"},
		{h: "app.Do", p: "cmds=33554431,n=6,r=6,cid=6,shape=9,rshape=1,cmask=3", split: "cmd:25"},
		{h: "app.Do", p: "cmds=2162688,n=8,r=8,cid=8,shape=2,rshape=2,maxlimit=9"},
	}, deep: []spec{
		{h: "app.Do", p: "cmds=33554431,n=3,r=1,cmask=3", split: "cmd:25,par0:4", t: 600},
	}},
	{prop: "A06", quick: []spec{
		{h: "app.Two", p: "n=1,r=0,cmds=16383,bcmds=1", split: "cmd0:14"},
		{h: "app.Two", p: "n=1,r=1,cmds=16383,bcmds=10249,full=1,cmask=1", split: "cmd0:14"},
		{h: "app.Two", p: "n=2,r=0,cmds=121,bcmds=8,full=1,ids=1,cid=2", split: "cmd0:5"},
		{h: "app.Two", p: "n=0,r=0,k=2,cmds=9,bcmds=9,full=1", orders: "ins,rev"},
	}, deep: []spec{
		{h: "app.Two", p: "n=2,r=1,cmds=16383,bcmds=8,cid=2", split: "cmd0:14", t: 600},
	}},
	{prop: "A07", quick: []spec{
		{h: "app.Replay", p: "quoted=1,k=1,full=1", merge: true},
		{h: "app.Replay", p: "quoted=1,k=2,cmds=1,cmds1=16383,cmask=1", merge: true, split: "cmd1:14"},
		{h: "app.Replay", p: "quoted=1,k=2,cmds=1,cmds1=4751,full=1,amask=15,tmin=0,tmax=1", merge: true, split: "cmd1:7"},
		{h: "app.Replay", p: "quoted=1,k=3,first=3,cmds=1,cmds2=16383,full=1", merge: true, split: "cmd2:14"},
		{h: "app.Replay", p: "quoted=1,k=4,first=4,cmds=1,cmds2=256,cmds3=15880,full=1", merge: true, split: "cmd3:6"},
		{h: "app.Replay", p: "quoted=1,k=4,first=2,cmds=1,cmds1=27,full=1,ids=1", merge: true, split: "cmd1:4,what2:3"},
	}, deep: []spec{
		{h: "app.Replay", p: "quoted=1,k=4,first=4,cmds=1,cmds2=16383,cmds3=16383,full=1,ids=1", merge: true, split: "cmd2:14,cmd3:14", t: 300},
		{h: "app.Replay", p: "quoted=1,k=5,first=2,cmds=1,cmds1=9,full=1,ids=1", merge: true, split: "cmd1:2,what2:3,what3:3", t: 600},
	}},
	{prop: "P01", quick: []spec{
		{h: "persist.SaveLoad", p: "quoted=1,forms=5,hmax=2", merge: true, split: "name0.form:5"},
		{h: "persist.SaveLoad", p: "quoted=1,saves=3,hmax=1,n=1", merge: true},
		{h: "persist.SaveLoad", p: "quoted=1,saves=1,hmin=0,hmax=6,n=0,fmask=0,home=1", merge: true},
		{h: "persist.SaveLoad", p: "quoted=1,saves=1,n=2,r=1,fmask=15,rfmask=15,fresh=1", merge: true, split: "par0:3"},
		{h: "persist.SaveLoad", p: "quoted=1,saves=2,n=2,r=1", merge: true, split: "0par0:3"},
		{h: "persist.SaveLoad", p: "quoted=1,saves=4,hmax=1,fix=1", merge: true},
		{h: "persist.SaveLoad", p: "quoted=1,saves=2,hmax=1,n=0,meta=1,wmax=2", merge: true, split: "wversion0:1-3"},
		{h: "persist.SaveLoad", p: "quoted=1,saves=1,n=8,r=8,cid=8,shape=9,rshape=9", merge: true},
	}, deep: []spec{
		{h: "persist.SaveLoad", p: "quoted=1,saves=3,forms=5,hmax=2", merge: true, split: "name0.form:5,name1.form:5", t: 600},
		{h: "persist.SaveLoad", p: "quoted=1,saves=1,hmin=12,hmax=12,n=3,r=2,fmask=31", merge: true, t: 600},
	}},
	{prop: "P02", quick: []spec{
		{h: "persist.Outside", p: "hmax=4", merge: true, split: "pre:8"},
		{h: "persist.Outside", p: "hmax=3,fresh=1", merge: true, split: "pre:8"},
		{h: "persist.Outside", p: "hmax=2,up=1", merge: true, split: "pre:8"},
		{h: "persist.Outside", p: "hmax=3,home=1", merge: true, split: "pre:8"},
		{h: "persist.SaveLoad", p: "quoted=1,forms=5,hmax=2,fix=1", merge: true, split: "name0.form:5"},
	}, deep: []spec{
		{h: "persist.Outside", p: "hmin=5,hmax=7", merge: true, split: "pre:8", t: 600},
	}},
	{prop: "P03", quick: []spec{
		{h: "persist.Faults", p: "quoted=1,forms=5,hmax=2", merge: true, split: "at:1-8"},
		{h: "persist.Faults", p: "quoted=1,had=0,fresh=1", merge: true, split: "at:1-8"},
		{h: "persist.Faults", p: "quoted=1,n=2,home=1,hmin=3,hmax=3", merge: true, split: "at:1-8"},
		{h: "persist.Faults", p: "quoted=1,n=0", merge: true, split: "at:1-8"},
	}, deep: []spec{
		{h: "persist.Faults", p: "quoted=1,n=4,hmin=6,hmax=8,forms=5,steps=16", merge: true, split: "at:1-16", t: 600},
	}},
	{prop: "P04", quick: []spec{
		{h: "persist.Listing", p: "quoted=1,forms=5,hmax=1", merge: true, split: "ending:7,name0.form:5"},
		{h: "persist.Listing", p: "quoted=1,hmax=2,other=0,saves=3,twice=1,n=0", merge: true},
		{h: "persist.Listing", p: "quoted=1,flen=3,saves=1,hmin=0,hmax=2", merge: true, split: "ending:7"},
		{h: "persist.Faults", p: "quoted=1,forms=5,hmax=1", merge: true, split: "at:1-8"},
	}, deep: []spec{
		{h: "persist.Listing", p: "quoted=1,saves=3,forms=5,hmax=2", merge: true, split: "ending:7,name0.form:5,name1.form:5", t: 600},
	}},
	{prop: "P05", quick: []spec{
		{h: "persist.Loads", p: "quoted=1,forms=5,hmax=2", merge: true, split: "text:6"},
		{h: "persist.Loads", p: "quoted=1,slen=3", merge: true, split: "text:6"},
		{h: "persist.Loads", p: "quoted=1,fresh=1,n=3,home=1", merge: true, split: "text:6"},
	}, deep: []spec{
		{h: "persist.Loads", p: "quoted=1,slen=5,hmin=3,hmax=5", merge: true, split: "text:6", t: 600},
	}},
	{prop: "R01", quick: []spec{
		{h: "errs.Derive", p: "k=0,many=3", merge: true},
		{h: "errs.Derive", p: "k=1,wrap=2,many=1", merge: true, split: "op0:6"},
		{h: "errs.Derive", p: "k=0,many=2,tmin=2,tmax=2", merge: true},
	}, deep: []spec{
		{h: "errs.Derive", p: "k=2,wrap=1,many=1", merge: true, split: "op0:6,op1:6", t: 600},
		{h: "errs.Derive", p: "k=1,wrap=3,many=2", merge: true, split: "op0:6", t: 600},
	}},
	{prop: "R02", quick: []spec{
		{h: "errs.Codes", p: "tmax=2", merge: true},
		{h: "errs.Codes", p: "quoted=1,tmin=0,tmax=3", merge: true},
		{h: "errs.Text", p: "k=1", merge: true},
		{h: "errs.Text", p: "k=1,quoted=1,tmin=0,tmax=2", merge: true},
		{h: "errs.Text", p: "k=2,quoted=1,wrap=2,many=1", merge: true, split: "op0:6"},
		{h: "errs.Text", p: "k=1,big=1,low=396,span=16,quoted=1", merge: true},
		{h: "errs.Text", p: "k=0,big=1,low=0,span=12,quoted=1", merge: true},
		{h: "errs.Text", p: "k=0,big=1,low=596,span=8,quoted=1", merge: true},
		{h: "errs.Text", p: "k=0,big=1,low=445,span=60,quoted=1", merge: true},
		{h: "errs.Joining", p: "quoted=1,many=2", merge: true},
		{h: "errs.Joining", p: "many=1,tmax=2", merge: true},
	}, deep: []spec{
		{h: "errs.Text", p: "k=2,tmax=3", merge: true, split: "op0:6,op1:6", t: 600},
		{h: "errs.Text", p: "k=0,big=1,low=0,span=200,quoted=1,tmin=5,tmax=5", merge: true, t: 600},
		{h: "errs.Text", p: "k=0,tmin=4,tmax=6", merge: true, t: 600},
	}},
	{prop: "R03", quick: []spec{
		{h: "errs.Joining", p: "many=3", merge: true},
		{h: "errs.Joining", p: "many=2,tmax=3", merge: true},
		{h: "errs.Joining", p: "many=4,quoted=1", merge: true, split: "count:5"},
		{h: "errs.Derive", p: "k=1,wrap=3,many=2", merge: true, split: "op0:6"},
	}, deep: []spec{
		{h: "errs.Joining", p: "many=6,quoted=1", merge: true, split: "count:7", t: 600},
	}},
	{prop: "C01", quick: []spec{
		{h: "cmds.Reply", p: "smax=2", merge: true, split: "hole:16"},
		{h: "cmds.Reply", p: "smin=3,smax=3,class=2", merge: true, split: "hole:16"},
		{h: "cmds.Browser", p: "smax=2,k=2", merge: true, split: "hole1:13"},
	}, deep: []spec{
		{h: "cmds.Reply", p: "smin=3,smax=3", merge: true, split: "hole:16", t: 600},
		{h: "cmds.Browser", p: "smax=1,k=3,class=1", merge: true, split: "hole1:13,hole2:13", t: 600},
	}},
	{prop: "C02", quick: []spec{
		{h: "cmds.Console", p: "smax=2,k=2", merge: true, split: "hole1:13"},
		{h: "cmds.Console", p: "smax=2,k=1,given=0", merge: true, split: "hole0:13"},
		{h: "cmds.Suggest", p: "smax=2", merge: true, split: "word:11"},
		{h: "cmds.Suggest", p: "smax=4", merge: true, split: "word:10-10,s.len:5"},
	}, deep: []spec{
		{h: "cmds.Console", p: "smin=3,smax=3,k=2", merge: true, split: "hole1:13", t: 600},
		{h: "cmds.Console", p: "smax=1,k=3,class=1", merge: true, split: "hole1:13,hole2:13", t: 600},
	}},
}
