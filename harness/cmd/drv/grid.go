package main

import (
	"addrsverif/api"
)

// Grids: every operation on every kind of zero, empty and non-empty object
// with every kind of argument. A history performs one part of the grid.

const gridParts = 4

func (h *H) gridRun(acts []func(), i int) {
	h.r.Shuffle(len(acts), func(a, b int) { acts[a], acts[b] = acts[b], acts[a] })
	part := (i / 2) % gridParts
	for k, f := range acts {
		if k%gridParts == part {
			f()
			if e := h.ev[len(h.ev)-1]; e["pan"] == 1 && !h.expectedPanic() {
				return
			}
		}
	}
}

func tgridRun(h *H, n, i int) {
	h.kind = []int{0, 1, 2, 3, 4}[h.r.Intn(5)]
	h.pool = genPool(h.r, h.w, 6, 8)
	h.tZero()  // m 1
	h.tIZero() // t 1
	h.tNew()   // m 2: empty
	h.MTsnap(1)
	h.tNew() // m 3: not empty
	for k := 0; k < 4; k++ {
		h.tModOn(2, "iou", h.pick())
	}
	h.MTsnap(2)
	h.MTsnap(0) // t 4: of the zero one
	h.tModOn(2, "rem", h.pool[0])
	acts := []func(){}
	add := func(f func()) { acts = append(acts, f) }
	qs := []P{{}, h.pool[0], h.pool[1], {A: net(h.w, h.pool[2]), L: h.w}, {A: full(h.w), L: h.w}, {A: A{}, L: 0}}
	for m := range h.MT[:3] {
		m := m
		for _, q := range qs {
			q := q
			add(func() { h.getOn("m", m, h.MT[m], q) })
			add(func() { h.lpmOn("m", m, h.MT[m], q) })
			if m != 2 {
				for _, o := range []string{"ins", "upd", "iou", "goi", "rem"} {
					o := o
					if m == 0 || o == "rem" || o == "upd" {
						add(func() { h.tModOn(m, o, q) })
					}
				}
			}
		}
		add(func() { h.tnumOn("m", m, h.MT[m]) })
		add(func() { h.dumpOn(m) })
	}
	for t := range h.T[:4] {
		t := t
		for _, q := range qs {
			q := q
			add(func() { h.getOn("t", t, h.T[t], q) })
			add(func() { h.lpmOn("t", t, h.T[t], q) })
		}
		add(func() { h.tnumOn("t", t, h.T[t]) })
		for stop := 0; stop < 3; stop++ {
			stop := stop
			add(func() { h.walkOn(t, stop) })
		}
		add(func() { h.aggOn(t) })
		add(func() { h.mapOn(t, []int{}) })
		add(func() { h.mapOn(t, mapFns[h.r.Intn(3)]) })
		add(func() { h.buildOn(t, false) })
		add(func() { h.buildOn(t, true) })
		add(func() { // the clone of a zero value is usable
			e := M{"op": "t.clone", "h": t + 1}
			h.call(e, func() { h.addM(h.T[t].Mut(), false) })
			h.emit(e)
			if e["pan"] == 0 {
				h.tModOn(len(h.MT)-1, "ins", h.pick())
				h.walkOn(t, 0)
			}
		})
		for u := range h.T[:4] {
			u := u
			for on := 0; on < 16; on++ {
				on := on
				add(func() {
					h.diffOn(t, u, [4]bool{on&1 != 0, on&2 != 0, on&4 != 0, on&8 != 0}, h.r.Intn(3))
				})
			}
		}
	}
	h.gridRun(acts, i)
	h.tAll()
}

// MTsnap takes a snapshot of a given table.
func (h *H) MTsnap(i int) {
	e := M{"op": "t.snap", "h": i + 1}
	h.call(e, func() { h.addT(h.MT[i].Snap()) })
	h.emit(e)
}
func (h *H) MSsnap(i int) {
	e := M{"op": "s.snap", "h": i + 1}
	h.call(e, func() { h.addS(h.MS[i].Snap()) })
	h.emit(e)
}

func sgridRun(h *H, n, i int) {
	h.pool = genPool(h.r, h.w, 5, 8)
	h.sZero()
	h.sIZero()
	h.sNew()
	h.MSsnap(1)
	h.sNew()
	p, q := h.pool[1], h.pool[2]
	h.smodOn(2, "ins", api.SArg{Kind: "p", P: p}, 0)
	h.smodOn(2, "ins", api.SArg{Kind: "p", P: q}, 0)
	h.MSsnap(2)
	h.MSsnap(0)
	h.smodOn(2, "ins", api.SArg{Kind: "r", R: h.rng()}, 0)
	type opd struct {
		a api.SArg
		i int
	}
	var objs, args []opd
	for k := range h.S[:4] {
		objs = append(objs, opd{api.SArg{Kind: "s", S: h.S[k]}, k + 1})
	}
	for k := range h.MS[:3] {
		objs = append(objs, opd{api.SArg{Kind: "m", M: h.MS[k]}, k + 1})
	}
	plain := []opd{
		{api.SArg{Kind: "a", P: P{A: h.point(), L: h.w}}, 0},
		{api.SArg{Kind: "a", P: P{A: A{}, L: h.w}}, 0},
		{api.SArg{Kind: "p", P: p}, 0},
		{api.SArg{Kind: "p", P: P{}}, 0},
		{api.SArg{Kind: "r", R: h.rng()}, 0},
		{api.SArg{Kind: "r", R: api.Rng{}}, 0},
	}
	args = append(append(append(args, objs...), plain...), opd{api.SArg{Kind: "nil"}, 0})
	acts := []func(){}
	add := func(f func()) { acts = append(acts, f) }
	for _, x := range objs {
		x := x
		for _, y := range args {
			y := y
			for _, o := range []string{"u", "i", "d"} {
				o := o
				add(func() { h.algOn(o, x.a, x.i, y.a, y.i) })
			}
			add(func() { h.containsOn(x.a, x.i, y.a, y.i) })
			if x.a.Kind == "s" {
				add(func() { h.findOn(x.a, x.i, y.a, y.i, h.anyLen()) })
				add(func() { h.findOn(x.a, x.i, y.a, y.i, h.w) })
			}
			if x.a.Kind == y.a.Kind {
				add(func() { h.equalOn(x.a.Kind, x.a, x.i, y.a, y.i) })
			}
			if x.a.Kind == "m" && x.i < 3 {
				if x.i == 1 || y.a.Kind == "nil" {
					add(func() { h.smodOn(x.i-1, "ins", y.a, y.i) })
				}
				add(func() { h.smodOn(x.i-1, "rem", y.a, y.i) })
			}
			if x.a.Kind == "m" && x.i == 3 && y.a.Kind == "nil" {
				add(func() { h.smodOn(2, "ins", y.a, y.i) })
				add(func() { h.smodOn(2, "rem", y.a, y.i) })
			}
		}
		add(func() { h.emptyOn(x.a, x.i) })
		if h.w == 32 {
			add(func() { h.numOn(x.a, x.i) })
		}
		if x.a.Kind == "s" {
			for _, l := range []int{0, 1, h.w, h.w + 1, h.anyLen()} {
				l := l
				add(func() { h.numPfxOn(x.a, x.i, l) })
			}
			for stop := 0; stop < 3; stop++ {
				stop := stop
				add(func() { h.walkPOn(x.i-1, stop) })
				add(func() { h.walkROn(x.i-1, stop) })
				if h.w == 32 {
					add(func() { h.walkAOn(x.i-1, 1+stop*20) })
				}
			}
		}
		add(func() { h.toOn(x.a, x.i) })
		add(func() { h.sListOn(x.a.Kind, x.i-1) })
	}
	for _, x := range plain {
		x := x
		for _, y := range args {
			y := y
			if x.a.Kind != "a" {
				add(func() { h.containsOn(x.a, x.i, y.a, y.i) })
			}
		}
	}
	h.gridRun(acts, i)
	h.sAll()
}

func init() {
	profiles["tgrid"] = &profile{vals: 3, runner: tgridRun, ops: []op{{1, (*H).tGet}, {1, (*H).tLPM}}}
	profiles["sgrid"] = &profile{runner: sgridRun, ops: []op{{1, (*H).sContains}}}
}
