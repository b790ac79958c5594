package main

import "math/rand"

type op struct {
	w int
	f func(*H) bool
}
type profile struct {
	vals   int
	npool  int
	spread int
	kinds  []int
	ms     []int // comparisons
	grow   bool
	aggmin bool
	fault  bool // callbacks panic
	reent  bool // callbacks always perform further steps; else in some histories
	setup  func(*H)
	ops    []op
	finish func(*H)
	mixm   bool   // tables made later may compare in other ways
	shape  string // what tShape goes on with
	runner func(h *H, n, i int)
}

func (h *H) step() {
	if h.nest == 0 {
		h.budget = 10
	}
	tot := 0
	for _, o := range h.pr.ops {
		tot += o.w
	}
	if h.big && h.r.Intn(6) == 0 {
		if len(h.MS) == 0 || len(h.MT) > 0 && h.r.Intn(2) == 0 {
			h.tBulk()
		} else {
			h.sBulk()
		}
		return
	}
	if h.long > 0 && h.nest == 0 && h.r.Intn(12) == 0 {
		h.long--
		if h.longRun() {
			return
		}
	}
	if h.pr.fault && h.depth == 0 && h.r.Intn(2) == 0 {
		h.fault = 1 + h.r.Intn(1+h.r.Intn(12))
		defer func() { h.fault = 0 }()
	}
	for try := 0; try < 20; try++ {
		x := h.r.Intn(tot)
		for _, o := range h.pr.ops {
			if x < o.w {
				if o.f(h) {
					return
				}
				break
			}
			x -= o.w
		}
	}
}

func (p *profile) run(h *H, n, i int) {
	if p.runner != nil {
		p.runner(h, n, i)
		return
	}
	np := p.npool
	if np == 0 {
		np = 9
	}
	sp := p.spread
	if sp == 0 {
		sp = 8
	}
	h.pool = genPool(h.r, h.w, 3+h.r.Intn(np), sp)
	if h.big {
		h.pool = bigPool(h, i)
	}
	if len(p.kinds) > 0 {
		h.kind = p.kinds[h.r.Intn(len(p.kinds))]
	}
	if h.kind >= 10 {
		h.m = []int{0, 2, 3, 5}[h.r.Intn(4)]
		if len(p.ms) > 0 {
			h.m = p.ms[h.r.Intn(len(p.ms))]
		}
	}
	switch h.kind {
	case 5:
		h.m = -1
	case 6, 9:
		h.m = 1
	}
	if p.reent || !p.fault && h.r.Intn(6) == 0 {
		h.nestMax = []int{1, 2, 2, 3, 9}[h.r.Intn(5)]
	} else if !p.fault && h.r.Intn(4) == 0 {
		h.long = 1 + h.r.Intn(3)
	}
	if p.setup != nil {
		p.setup(h)
	}
	if h.big && len(h.MT) > 0 {
		h.tLoad()
		h.tSnap()
	}
	if h.big && len(h.MS) > 0 {
		h.sLoad()
	}
	for len(h.ev) < n && h.steps() {
	}
	if p.finish != nil {
		h.nestMax = 0
		p.finish(h)
	}
}

// steps makes a step, or one, perhaps another, and the first again: the same
// choices from what there is then, which is the same call unless it was a
// modification or made something.
func (h *H) steps() bool {
	r := h.r
	defer func() { h.r = r }()
	script := []int64{0}
	if r.Intn(6) == 0 {
		script = []int64{r.Int63(), r.Int63(), 0}[:1+r.Intn(2)]
		script = append(script, script[0])
	}
	for _, seed := range script {
		if seed != 0 {
			h.r = rand.New(rand.NewSource(seed))
		}
		before := len(h.ev)
		h.step()
		if len(h.ev) == before {
			return false
		}
		if h.ev[len(h.ev)-1]["pan"] == 1 && !h.expectedPanic() {
			return false // do not go on from a broken object; the spec rejects the event
		}
	}
	return true
}

func (h *H) expectedPanic() bool {
	e := h.ev[len(h.ev)-1]
	switch e["op"] {
	case "t.mod":
		return h.zeroMT[e["h"].(int)-1]
	case "s.mod":
		return h.zeroMS[e["h"].(int)-1]
	}
	return false
}

var allKinds = []int{0, 0, 0, 1, 2, 3, 4, 10, 10, 11, 12, 13, 14, 15}

func tSetup(h *H) { h.tNew() }
func sSetup(h *H) {
	h.sNew()
	for i := h.r.Intn(3); i >= 0; i-- {
		h.sTo()
	}
}

var profiles = map[string]*profile{}

func init() {
	profiles["map"] = &profile{vals: 4, kinds: []int{0}, setup: tSetup, ops: []op{
		{60, (*H).tMod}, {12, (*H).tGet}, {4, (*H).tNum}, {6, (*H).tDump}, {3, (*H).tSnap}, {2, (*H).tClone}},
		finish: func(h *H) { h.tAll() }}
	profiles["lpm"] = &profile{vals: 4, kinds: []int{0}, setup: tSetup, ops: []op{
		{40, (*H).tMod}, {50, (*H).tLPM}, {8, (*H).tGet}, {3, (*H).tSnap}}}
	profiles["walk"] = &profile{vals: 4, kinds: []int{0}, setup: tSetup, npool: 12, shape: "ww", ops: []op{
		{50, (*H).tMod}, {2, (*H).tShape}, {10, (*H).tSnap}, {30, (*H).tWalk}, {4, (*H).tClone}, {3, (*H).tMap}, {3, (*H).tAgg}}}
	profiles["diff"] = &profile{vals: 3, kinds: []int{0, 0, 10}, setup: tSetup, npool: 12, shape: "dd", mixm: true, ops: []op{
		{45, (*H).tMod}, {2, (*H).tShape}, {14, (*H).tSnap}, {35, (*H).tDiff}, {5, (*H).tClone}, {2, (*H).tNew}, {2, (*H).tOther}, {2, (*H).tMap}, {2, (*H).tAgg}}}
	profiles["agg"] = &profile{vals: 2, kinds: []int{0, 0, 10, 1, 12, 4}, setup: tSetup, npool: 14, grow: true, spread: 5, shape: "a", ops: []op{
		{60, (*H).tMod}, {5, (*H).tShape}, {10, (*H).tSnap}, {12, (*H).tAgg}, {4, (*H).tReAgg}, {5, (*H).tClone}, {3, (*H).tMap}, {3, (*H).tWalk}, {2, (*H).tDiff}}}
	profiles["aggmin"] = &profile{vals: 2, kinds: []int{0, 0, 10, 4, 11}, setup: tSetup, npool: 14, grow: true, spread: 5, aggmin: true, shape: "a", ops: []op{
		{60, (*H).tMod}, {5, (*H).tShape}, {10, (*H).tSnap}, {12, (*H).tAgg}, {6, (*H).tReAgg}, {5, (*H).tClone}, {3, (*H).tMap}}}
	profiles["mapfn"] = &profile{vals: 4, kinds: allKinds, setup: tSetup, npool: 12, shape: "md", ops: []op{
		{45, (*H).tMod}, {2, (*H).tShape}, {10, (*H).tSnap}, {22, (*H).tMap}, {5, (*H).tClone}, {5, (*H).tDiff}, {5, (*H).tWalk}, {3, (*H).tAgg}}}
	profiles["alias"] = &profile{vals: 4, kinds: []int{0, 0, 10}, setup: tSetup, npool: 8, ops: []op{
		{40, (*H).tMod}, {8, (*H).tSnap}, {8, (*H).tClone}, {5, (*H).tCopy}, {2, (*H).tNew}, {6, (*H).tAll}, {4, (*H).tMap}, {4, (*H).tAgg},
		{4, (*H).tBuild}, {3, (*H).tDiff}},
		finish: func(h *H) { h.tAll() }}
	profiles["salias"] = &profile{setup: sSetup, npool: 6, ops: []op{
		{40, (*H).sMod}, {8, (*H).sSnap}, {8, (*H).sClone}, {5, (*H).sCopy}, {2, (*H).sNew}, {6, (*H).sAll}, {10, (*H).sAlg}, {4, (*H).sTo},
		{4, (*H).sBuild}, {2, (*H).sFind}},
		finish: func(h *H) { h.sAll() }}
	profiles["build"] = &profile{vals: 4, kinds: []int{0, 10, 1}, setup: func(h *H) { tSetup(h); h.tIZero(); h.tSnap() }, ops: []op{
		{30, (*H).tMod}, {8, (*H).tSnap}, {30, (*H).tBuild}, {3, (*H).tClone}, {6, (*H).tAll}},
		finish: func(h *H) { h.tAll() }}
	profiles["sbuild"] = &profile{setup: func(h *H) { sSetup(h); h.sIZero() }, npool: 6, ops: []op{
		{25, (*H).sMod}, {8, (*H).sSnap}, {30, (*H).sBuild}, {3, (*H).sClone}, {6, (*H).sAll}},
		finish: func(h *H) { h.sAll() }}
	profiles["zero"] = &profile{vals: 3, kinds: []int{0, 1, 2, 3, 4}, npool: 5, setup: func(h *H) {
		h.pool = append(h.pool, P{})
		h.tZero()
		h.tIZero()
	}, ops: []op{
		{25, (*H).tMod}, {6, (*H).tGet}, {6, (*H).tLPM}, {4, (*H).tNum}, {6, (*H).tWalk}, {8, (*H).tDiff}, {4, (*H).tAgg}, {4, (*H).tMap},
		{4, (*H).tBuild}, {6, (*H).tSnap}, {6, (*H).tClone}, {3, (*H).tCopy}, {3, (*H).tZero}, {2, (*H).tIZero}, {2, (*H).tDump}}}
	profiles["szero"] = &profile{npool: 4, setup: func(h *H) { h.sZero(); h.sIZero() }, ops: []op{
		{25, (*H).sMod}, {10, (*H).sAlg}, {10, (*H).sContains}, {6, (*H).sEqual}, {6, (*H).sEmpty}, {4, (*H).sNum}, {4, (*H).sNumPfx},
		{3, (*H).sWalkP}, {3, (*H).sWalkR}, {3, (*H).sWalkA}, {6, (*H).sFind}, {4, (*H).sSnap}, {4, (*H).sClone}, {3, (*H).sCopy},
		{3, (*H).sZero}, {2, (*H).sIZero}, {3, (*H).sBuild}, {4, (*H).sTo}, {3, (*H).sList}}}
	profiles["setalg"] = &profile{setup: sSetup, npool: 8, ops: []op{
		{20, (*H).sMod}, {4, (*H).sShape}, {30, (*H).sAlg}, {6, (*H).sTo}, {14, (*H).sContains}, {8, (*H).sEqual}, {3, (*H).sEmpty}, {4, (*H).sSnap}, {2, (*H).sClone}, {4, (*H).sList}},
		finish: func(h *H) { h.sAll() }}
	profiles["canon"] = &profile{setup: sSetup, npool: 8, ops: []op{
		{25, (*H).sMod}, {2, (*H).sShape}, {25, (*H).sAlg}, {8, (*H).sTo}, {14, (*H).sEqual}, {10, (*H).sList}, {4, (*H).sSnap}, {2, (*H).sClone}}}
	profiles["count"] = &profile{setup: sSetup, npool: 6, spread: 20, ops: []op{
		{10, (*H).sMod}, {2, (*H).sShape}, {10, (*H).sAlg}, {6, (*H).sTo}, {20, (*H).sNum}, {30, (*H).sNumPfx}, {3, (*H).sEmpty}, {4, (*H).sSnap}}}
	profiles["swalk"] = &profile{setup: sSetup, npool: 8, ops: []op{
		{10, (*H).sMod}, {2, (*H).sShape}, {12, (*H).sAlg}, {6, (*H).sTo}, {14, (*H).sWalkP}, {16, (*H).sWalkR}, {14, (*H).sWalkA}, {4, (*H).sSnap}}}
	profiles["find"] = &profile{shape: "f", setup: sSetup, npool: 8, ops: []op{
		{8, (*H).sMod}, {2, (*H).sShape}, {8, (*H).sAlg}, {8, (*H).sTo}, {30, (*H).sFind}, {6, (*H).sAlloc}, {4, (*H).sSnap}}}
	profiles["range"] = &profile{setup: sSetup, npool: 8, spread: 12, ops: []op{
		{40, (*H).sTo}, {20, (*H).rFrom}, {30, (*H).sContains}}}
	profiles["rarith"] = &profile{npool: 8, spread: 12, ops: []op{
		{40, (*H).rPlus}, {40, (*H).rMinus}, {5, (*H).rFrom}}}
	profiles["prefix"] = &profile{npool: 8, spread: 12, ops: []op{
		{60, (*H).pFacts}, {10, (*H).aFacts}, {30, (*H).pContains}}}
	profiles["kinds"] = &profile{vals: 4, kinds: []int{10, 11, 12, 13, 14, 15, 1, 2, 3, 4, 6, 7, 7, 8, 8, 9}, ms: []int{0, 2, 3, 5, 1}, setup: tSetup, npool: 8, mixm: true, shape: "d", ops: []op{
		{45, (*H).tMod}, {2, (*H).tNew}, {3, (*H).tOther}, {1, (*H).tShape}, {8, (*H).tGet}, {6, (*H).tLPM}, {8, (*H).tSnap}, {6, (*H).tClone}, {8, (*H).tDiff}, {8, (*H).tAgg}, {8, (*H).tMap}, {3, (*H).tBuild},
		{3, (*H).tWalk}, {2, (*H).tNum}},
		finish: func(h *H) { h.tAll() }}
	// a comparison by which no value equals any, not even itself
	profiles["never"] = &profile{vals: 3, kinds: []int{10, 11, 12, 13, 14, 15, 15, 5, 5}, ms: []int{-1}, setup: tSetup, npool: 8, ops: []op{
		{50, (*H).tMod}, {6, (*H).tGet}, {6, (*H).tLPM}, {8, (*H).tSnap}, {6, (*H).tClone}, {20, (*H).tDiff}, {8, (*H).tAgg}, {8, (*H).tMap}, {3, (*H).tBuild},
		{3, (*H).tWalk}, {2, (*H).tNew}},
		finish: func(h *H) { h.tAll() }}
	profiles["share"] = &profile{vals: 4, kinds: []int{10, 10, 12, 15}, npool: 40, spread: 10, setup: func(h *H) {
		h.tNew()
		for n := len(h.pool) / (1 + h.r.Intn(3)); n > 0 && !h.big; n-- {
			h.tModOn(0, "iou", h.noisy(h.pick()))
		}
		if !h.big {
			h.tSnap()
		}
	}, ops: []op{
		{40, (*H).tMod}, {14, (*H).tSnap}, {45, (*H).tDiffCheap}, {30, (*H).tStep}, {8, (*H).tClone}, {3, (*H).tCopy}, {5, (*H).tMap}, {2, (*H).tAgg}, {4, (*H).tBuild},
		{1, (*H).tNew}, {2, (*H).tDiff}}}
	profiles["reent"] = &profile{vals: 4, kinds: []int{0, 10}, reent: true, npool: 6, setup: func(h *H) { tSetup(h); sSetup(h); h.tSnap(); h.sSnap() }, ops: []op{
		{40, (*H).tMod}, {4, (*H).tGet}, {4, (*H).tLPM}, {6, (*H).tSnap}, {3, (*H).tClone}, {10, (*H).tDiff}, {8, (*H).tMap}, {2, (*H).tBuild}, {14, (*H).tWalk},
		{20, (*H).sMod}, {3, (*H).sAlg}, {6, (*H).sWalkR}, {6, (*H).sWalkP}, {4, (*H).sSnap}, {3, (*H).sClone}},
		finish: func(h *H) { h.tAll(); h.sAll() }}
	profiles["fault"] = &profile{vals: 3, kinds: []int{10, 10, 11, 12, 15, 0}, fault: true, npool: 8, setup: func(h *H) { tSetup(h); sSetup(h); h.tSnap(); h.sSnap() }, ops: []op{
		{40, (*H).tMod}, {4, (*H).tGet}, {4, (*H).tLPM}, {8, (*H).tSnap}, {3, (*H).tClone}, {10, (*H).tDiff}, {8, (*H).tMap}, {6, (*H).tBuild}, {6, (*H).tWalk},
		{6, (*H).tAgg}, {3, (*H).tNum}, {4, (*H).tDump},
		{20, (*H).sMod}, {6, (*H).sAlg}, {4, (*H).sWalkR}, {4, (*H).sWalkP}, {3, (*H).sWalkA}, {4, (*H).sSnap}, {3, (*H).sClone}, {4, (*H).sBuild},
		{4, (*H).sContains}, {4, (*H).sFind}, {2, (*H).sEqual}},
		finish: func(h *H) { h.tAll(); h.sAll() }}
	profiles["nested"] = &profile{runner: nestedRun}
	profiles["mixed"] = &profile{vals: 4, kinds: allKinds, npool: 8, setup: func(h *H) { tSetup(h); sSetup(h) }, ops: []op{
		{30, (*H).tMod}, {4, (*H).tGet}, {4, (*H).tLPM}, {4, (*H).tSnap}, {3, (*H).tClone}, {4, (*H).tDiff}, {3, (*H).tAgg}, {3, (*H).tMap}, {2, (*H).tBuild}, {3, (*H).tWalk},
		{15, (*H).sMod}, {10, (*H).sAlg}, {4, (*H).sContains}, {3, (*H).sEqual}, {3, (*H).sWalkR}, {3, (*H).sFind}, {2, (*H).sSnap}, {2, (*H).sClone}, {2, (*H).sBuild}}}
}

// pContains asks containment among prefixes and addresses only.
func (h *H) pContains() bool {
	x, xi := h.operand("p")
	y, yi := h.operand("ppppa")
	e := M{"op": "s.contains", "x": h.jsarg(x, xi), "y": h.jsarg(y, yi)}
	h.call(e, func() { e["r"] = h.f.Contains(x, y) })
	h.emit(e)
	return true
}
