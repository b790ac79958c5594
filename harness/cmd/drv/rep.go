package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"addrsverif/api"
	"addrsverif/fam4"
	"addrsverif/fam6"
)

// Replay of behaviours that TLC enumerated (spec/GenTables.tla and
// spec/GenSets.tla) on the real code, at random positions of the real address
// spaces. Nothing here decides what is right: every expected result is looked
// up in what TLC wrote.

type genTables struct {
	Keys []struct {
		Len    int
		Bits   []int
		Parent int
	}
	Funs   [][]int
	Kinds  [][]string
	States []struct {
		List               [][2]int
		Lpm                []int
		Ins, Upd, Iou, Goi [][][2]int
		Rem                [][2]int
		Map                []int
		Look               []int
		Irr                int
	}
	opt map[string]int // fewest entries for the same lookups
}

type genSets struct {
	B      int
	States []struct {
		List, Rng [][2]int
		Num       []uint64
		Fit       [][][2]int
	}
	Union, Inter, Minus, Subset [][]int
}

// repFail is a difference between the specification and the real code.
type repFail struct {
	Key  string      `json:"key,omitempty"` // identifies the input, for known findings
	What string      `json:"what"`
	At   interface{} `json:"at"`
	Seed string      `json:"seed"`
}

type rep struct {
	prop string
	r    *rand.Rand
	f    api.Fam
	w    int
	at   M
	n    int64 // steps replayed
	fail func(repFail)
	tick *int64
	full bool
}

type repStop struct{}

func (x *rep) bad(format string, a ...interface{}) {
	x.fail(repFail{What: fmt.Sprintf(format, a...), At: x.at})
	panic(repStop{})
}
func (x *rep) ok() { x.n++; atomic.StoreInt64(x.tick, time.Now().UnixNano()) }

// ---- tables

type tpos struct {
	key    []P // by key number; key[0] unused
	hosts  []P // the regions of the model's addresses, when contiguous
	before []api.Entry
	after  []api.Entry
	cover  *api.Entry
	val    [3]int
	kind   int
	ragged bool
}

func (x *rep) place(g *genTables, ragged, bg bool) *tpos {
	r, w := x.r, x.w
	t := &tpos{ragged: ragged}
	depth := 0
	for _, k := range g.Keys {
		depth = max(depth, k.Len)
	}
	k := r.Intn(w - depth + 1)
	switch r.Intn(6) {
	case 0:
		k = 0
	case 1:
		k = w - depth
	case 2:
		k = max(0, min(w-depth, w/2-2+r.Intn(4)))
	}
	base := P{net(w, P{rndAddr(r, w), k}), k}
	n := len(g.Keys)
	t.key = make([]P, n+1)
	lens := append([]int{k}, make([]int, depth)...)
	for d := 1; d <= depth; d++ { // the last place where depth d may end
		lens[d] = w - depth + d
	}
	for i, kk := range g.Keys {
		if kk.Len == 0 {
			t.key[i+1] = base
			continue
		}
		p := t.key[kk.Parent]
		q := P{setBit(w, p.A, p.L, kk.Bits[kk.Len-1]), p.L + 1}
		if ragged {
			for e := r.Intn(4) * r.Intn(9); e > 0 && q.L < lens[kk.Len]; e-- {
				q.A = setBit(w, q.A, q.L, r.Intn(2))
				q.L++
			}
		}
		t.key[i+1] = q
	}
	if !ragged {
		for i, kk := range g.Keys {
			if kk.Len == depth {
				t.hosts = append(t.hosts, t.key[i+1])
			}
		}
	}
	// other entries, outside the model
	perm := r.Perm(60)
	t.val = [3]int{0, 3 + perm[0], 3 + perm[1]}
	t.kind = []int{0, 0, 1, 2, 3, 4, 10, 11, 12, 13, 14, 15}[r.Intn(12)]
	if bg && k > 0 {
		if r.Intn(2) == 0 {
			l := r.Intn(k)
			t.cover = &api.Entry{P: P{net(w, P{base.A, l}), l}, V: 3 + perm[2]}
			t.before = append(t.before, *t.cover)
		}
		for i := 0; i < r.Intn(3); i++ {
			b := r.Intn(k)
			q := P{setBit(w, base.A, b, 1-getBit(w, base.A, b)), b + 1}
			q.A = net(w, q)
			dup := false
			for e := r.Intn(5); e > 0 && q.L < w; e-- {
				q.A = setBit(w, q.A, q.L, r.Intn(2))
				q.L++
			}
			for _, y := range append(t.before, t.after...) {
				dup = dup || covers(w, y.P, q) && y.P.L == q.L
			}
			if dup {
				continue
			}
			y := api.Entry{P: q, V: 3 + perm[3+i]}
			if lt(q.A, base.A) {
				t.before = append(t.before, y)
			} else {
				t.after = append(t.after, y)
			}
		}
		less := func(s []api.Entry) func(i, j int) bool {
			return func(i, j int) bool {
				a, b := s[i].P, s[j].P
				return lt(a.A, b.A) || a.A == b.A && a.L < b.L
			}
		}
		sort.Slice(t.before, less(t.before))
		sort.Slice(t.after, less(t.after))
	}
	x.at = M{"family": x.f.Name(), "base": x.pstr(base), "kind": t.kind, "values": t.val[1:], "prefixes": x.pstrs(t.key[1:]),
		"others": x.estrs(append(append([]api.Entry{}, t.before...), t.after...))}
	return t
}

func (x *rep) pstr(p P) string {
	if x.w == 32 {
		return fmt.Sprintf("%08x/%d", p.A.Lo, p.L)
	}
	return fmt.Sprintf("%016x%016x/%d", p.A.Hi, p.A.Lo, p.L)
}
func (x *rep) pstrs(ps []P) (s []string) {
	for _, p := range ps {
		s = append(s, x.pstr(p))
	}
	return
}
func (x *rep) estrs(es []api.Entry) (s []string) {
	for _, e := range es {
		s = append(s, fmt.Sprintf("%s=%d", x.pstr(e.P), e.V))
	}
	return
}

func (x *rep) arg(p P) api.PArg {
	if p.L < x.w && x.r.Intn(4) == 0 {
		p.A = or(net(x.w, p), and(A{x.r.Uint64(), x.r.Uint64()}, not(x.w, maskOf(x.w, p.L))))
	}
	switch {
	case p.L == x.w && x.r.Intn(2) == 0:
		return api.PArg{Kind: "a", P: p}
	case p.L == 0 && x.r.Intn(2) == 0:
		return api.PArg{Kind: "n"}
	}
	return api.PArg{Kind: "p", P: p}
}

// want is the listing of state c.
func (t *tpos) want(g *genTables, c int) []api.Entry {
	es := append([]api.Entry{}, t.before...)
	for _, e := range g.States[c].List {
		es = append(es, api.Entry{P: t.key[e[0]], V: t.val[e[1]]})
	}
	return append(es, t.after...)
}
func (x *rep) list(t api.Table) (es []api.Entry) {
	t.Walk(func(p P, v int) bool { es = append(es, api.Entry{P: P{net(x.w, p), p.L}, V: v}); return true })
	return
}
func same(a, b []api.Entry) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func (x *rep) holds(t api.Table, want []api.Entry, what string) {
	if got := x.list(t); !same(got, want) {
		x.bad("%s: the table holds %v, specified is %v", what, x.estrs(got), x.estrs(want))
	}
	x.ok()
}

type tstep struct {
	o    string
	k, v int
}

var tsteps = func() (s []tstep) {
	for k := 1; k <= 7; k++ {
		for v := 1; v <= 2; v++ {
			for _, o := range []string{"insert", "update", "insertOrUpdate", "getOrInsert"} {
				s = append(s, tstep{o, k, v})
			}
		}
		s = append(s, tstep{"remove", k, 0})
	}
	return
}()

// step performs one modification; it returns the next state.
func (x *rep) step(g *genTables, t *tpos, c int, m api.MTable, s tstep) int {
	st := &g.States[c]
	p, v := x.arg(t.key[s.k]), t.val[s.v]
	var want [2]int
	got := -1
	flag := func(b bool) {
		got = 0
		if b {
			got = 1
		}
	}
	switch s.o {
	case "insert":
		want = st.Ins[s.k-1][s.v-1]
		flag(m.Insert(p, v))
	case "update":
		want = st.Upd[s.k-1][s.v-1]
		flag(m.Update(p, v))
	case "insertOrUpdate":
		want = st.Iou[s.k-1][s.v-1]
		m.InsertOrUpdate(p, v)
		got = want[0]
	case "getOrInsert":
		want = st.Goi[s.k-1][s.v-1]
		r := m.GetOrInsert(p, v)
		for i := 1; i <= 2; i++ {
			if r == t.val[i] {
				got = i
			}
		}
	case "remove":
		want = st.Rem[s.k-1]
		flag(m.Remove(p))
	}
	if got != want[0] {
		x.bad("%s(%s, %d) on %v returned %d, specified is %d", s.o, x.pstr(t.key[s.k]), v, x.estrs(t.want(g, c)), got, want[0])
	}
	return want[1]
}

// forest builds every state along a random spanning tree of the model's
// transitions, from states of from if given.
func (x *rep) forest(g *genTables, t *tpos, from []api.Table) []api.Table {
	ts := make([]api.Table, len(g.States))
	n := 0
	add := func(c int, y api.Table) {
		ts[c] = y
		n++
	}
	if from == nil {
		m := x.f.NewTable(t.kind, 0, nil)
		es := append(append([]api.Entry{}, t.before...), t.after...)
		x.r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		for _, e := range es {
			m.Insert(x.arg(e.P), e.V)
		}
		add(0, m.Snap())
	} else {
		for i := 0; i < 3; i++ {
			if c := x.r.Intn(len(ts)); ts[c] == nil {
				add(c, from[c])
			}
		}
	}
	var front []int
	for c := range ts {
		if ts[c] != nil {
			front = append(front, c)
		}
	}
	for n < len(ts) {
		i := x.r.Intn(len(front))
		if x.r.Intn(3) > 0 {
			i = len(front) - 1
		}
		c := front[i]
		progress := false
		for _, j := range x.r.Perm(len(tsteps)) {
			s := tsteps[j]
			if ts[x.next(g, c, s)] != nil {
				continue
			}
			m := ts[c].Mut()
			d := x.step(g, t, c, m, s)
			add(d, m.Snap())
			front = append(front, d)
			progress = true
			break
		}
		if !progress {
			front = append(front[:i], front[i+1:]...)
		}
	}
	return ts
}
func (x *rep) next(g *genTables, c int, s tstep) int {
	st := &g.States[c]
	switch s.o {
	case "insert":
		return st.Ins[s.k-1][s.v-1][1]
	case "update":
		return st.Upd[s.k-1][s.v-1][1]
	case "insertOrUpdate":
		return st.Iou[s.k-1][s.v-1][1]
	case "getOrInsert":
		return st.Goi[s.k-1][s.v-1][1]
	}
	return st.Rem[s.k-1][1]
}

func (x *rep) tables(g *genTables) {
	agg := x.prop == "C05" || x.prop == "C06"
	t := x.place(g, !agg && x.r.Intn(2) == 0, x.r.Intn(2) == 0)
	ts := x.forest(g, t, nil)
	order := x.r.Perm(len(ts))
	if !x.full {
		order = order[:len(order)/2]
	}
	switch x.prop {
	case "C01":
		for _, c := range order {
			for _, s := range tsteps {
				m := ts[c].Mut()
				d := x.step(g, t, c, m, s)
				want := t.want(g, d)
				x.holds(m.Snap(), want, fmt.Sprintf("after %v on %v", s, x.estrs(t.want(g, c))))
				if m.Num() != int64(len(want)) {
					x.bad("after %v on %v there are %d entries, %d are specified", s, x.estrs(t.want(g, c)), m.Num(), len(want))
				}
			}
			x.lookups(g, t, ts[c], c, false)
		}
	case "C02":
		for _, c := range order {
			x.lookups(g, t, ts[c], c, true)
		}
	case "C03":
		for _, c := range order {
			want := t.want(g, c)
			x.holds(ts[c], want, "built")
			for stop := 0; stop < len(want); stop++ {
				var got []api.Entry
				r := ts[c].Walk(func(p P, v int) bool {
					got = append(got, api.Entry{P: P{net(x.w, p), p.L}, V: v})
					return len(got) <= stop
				})
				if r || !same(got, want[:stop+1]) {
					x.bad("walk of %v, stopped at %d, returned %v after %v", x.estrs(want), stop+1, r, x.estrs(got))
				}
				x.ok()
			}
		}
	case "C04":
		var us []api.Table
		switch x.r.Intn(3) {
		case 0:
			us = ts
		case 1:
			us = x.forest(g, t, ts)
		default:
			us = x.forest(g, t, nil)
		}
		n := 60000
		if x.full {
			n = 400000
		}
		for i := 0; i < n; i++ {
			a, b := x.r.Intn(len(ts)), x.r.Intn(len(ts))
			if i%4 == 0 {
				b = x.next(g, a, tsteps[x.r.Intn(len(tsteps))])
			}
			x.diff(g, t, ts[a], us[b], a, b)
		}
	case "C07":
		for _, c := range order {
			want := t.want(g, c)
			for i, fn := range g.Funs {
				var got []api.Entry
				u := ts[c].Map(func(p P, v int) int {
					got = append(got, api.Entry{P: P{net(x.w, p), p.L}, V: v})
					for j := 1; j <= 2; j++ {
						if v == t.val[j] {
							return t.val[fn[j-1]]
						}
					}
					return v
				})
				if !same(got, want) {
					x.bad("the mapper saw %v of %v", x.estrs(got), x.estrs(want))
				}
				x.holds(u, t.want(g, g.States[c].Map[i]), fmt.Sprintf("mapped by %v", fn))
				x.holds(ts[c], want, "after Map, the original")
			}
			x.holds(ts[c].Map(nil), want, "mapped by nil")
		}
	case "C08":
		for _, c := range order {
			want := t.want(g, c)
			m := ts[c].Mut()
			cc := c
			for i := 0; i < 12; i++ {
				cc = x.step(g, t, cc, m, tsteps[x.r.Intn(len(tsteps))])
				if x.r.Intn(4) == 0 {
					m = m.Copy()
				}
			}
			x.holds(m.Snap(), t.want(g, cc), "the clone")
			x.holds(ts[c], want, "after changes of a clone, the original")
		}
		for _, c := range order {
			x.holds(ts[c], t.want(g, c), "after changes of every clone, the original")
		}
	case "C05", "C06":
		for _, c := range order {
			x.aggregate(g, t, ts[c], c)
		}
	}
}

// lookups: exact and longest match of the model's prefixes and of others
// between and below them.
func (x *rep) lookups(g *genTables, t *tpos, y api.Table, c int, more bool) {
	st := &g.States[c]
	digit := map[int]int{}
	for _, e := range st.List {
		digit[e[0]] = e[1]
	}
	get := func(q P, k int) {
		v, ok := y.Get(x.arg(q))
		if ok != (k > 0 && digit[k] > 0) || ok && v != t.val[digit[k]] {
			x.bad("Get(%s) on %v gave %d, %v", x.pstr(q), x.estrs(t.want(g, c)), v, ok)
		}
		x.ok()
	}
	lpm := func(q P, k int) { // k: the model's prefix whose longest match q has
		v, ok, p := y.LPM(x.arg(q))
		var want *api.Entry
		if k > 0 && st.Lpm[k-1] > 0 {
			m := st.Lpm[k-1]
			want = &api.Entry{P: t.key[m], V: t.val[digit[m]]}
		} else if t.cover != nil && covers(x.w, t.cover.P, q) {
			want = t.cover
		}
		if ok != (want != nil) || ok && (v != want.V || p.L != want.P.L || net(x.w, p) != want.P.A) {
			x.bad("LongestMatch(%s) on %v gave %s=%d, %v", x.pstr(q), x.estrs(t.want(g, c)), x.pstr(p), v, ok)
		}
		x.ok()
	}
	for i, kk := range g.Keys {
		p := t.key[i+1]
		get(p, i+1)
		if !more {
			continue
		}
		lpm(p, i+1)
		leaf := true
		for _, k2 := range g.Keys {
			if k2.Len > 0 && k2.Parent == i+1 {
				leaf = false
			}
		}
		if leaf && p.L < x.w { // below
			q := P{p.A, p.L + 1 + x.r.Intn(x.w-p.L)}
			q.A = net(x.w, P{or(p.A, and(A{x.r.Uint64(), x.r.Uint64()}, not(x.w, maskOf(x.w, p.L)))), q.L})
			lpm(q, i+1)
			get(q, 0)
		}
		if kk.Len > 0 && t.ragged { // on the edge from the parent, and off it
			pp := t.key[kk.Parent]
			if p.L-pp.L > 1 {
				q := P{p.A, pp.L + 1 + x.r.Intn(p.L-pp.L-1)}
				q.A = net(x.w, q)
				lpm(q, kk.Parent)
				get(q, 0)
				b := pp.L + 1 + x.r.Intn(p.L-pp.L-1)
				q = P{setBit(x.w, p.A, b, 1-getBit(x.w, p.A, b)), b + 1 + x.r.Intn(x.w-b)}
				q.A = net(x.w, q)
				lpm(q, kk.Parent)
				get(q, 0)
			}
		}
		if kk.Len == 0 && p.L > 0 { // above and beside
			q := P{p.A, x.r.Intn(p.L)}
			q.A = net(x.w, q)
			beside := false
			for _, e := range append(append([]api.Entry{}, t.before...), t.after...) {
				beside = beside || covers(x.w, e.P, q) && (t.cover == nil || e.P != t.cover.P)
			}
			if !beside {
				lpm(q, 0)
			}
		}
	}
}

func (x *rep) diff(g *genTables, t *tpos, y, z api.Table, a, b int) {
	var want []api.DiffRep
	mask := [4]bool{true, true, true, true}
	if x.r.Intn(3) == 0 {
		for i := range mask {
			mask[i] = x.r.Intn(2) == 0
		}
	}
	on := map[string]bool{"C": mask[0], "L": mask[1], "R": mask[2], "S": mask[3]}
	da, db := make([]int, len(t.key)), make([]int, len(t.key))
	for _, e := range g.States[a].List {
		da[e[0]] = e[1]
	}
	for _, e := range g.States[b].List {
		db[e[0]] = e[1]
	}
	put := func(d string, p P, v, v2 int) {
		if on[d] {
			r := api.DiffRep{D: d, P: p, V: v}
			if d == "C" || d == "R" {
				r.V2 = v2
			}
			if d == "R" {
				r.V = 0
			}
			want = append(want, r)
		}
	}
	for _, e := range t.before {
		put("S", e.P, e.V, e.V)
	}
	for i := 1; i < len(t.key); i++ {
		if d := g.Kinds[da[i]][db[i]]; d != "-" {
			put(d, t.key[i], t.val[da[i]], t.val[db[i]])
		}
	}
	for _, e := range t.after {
		put("S", e.P, e.V, e.V)
	}
	stop := len(want)
	if x.r.Intn(4) == 0 && len(want) > 0 {
		stop = x.r.Intn(len(want))
	}
	var got []api.DiffRep
	r := y.Diff(z, mask, func(d api.DiffRep) bool {
		d.P.A = net(x.w, d.P)
		got = append(got, d)
		return len(got) <= stop
	})
	exp := want
	if stop < len(want) {
		exp = want[:stop+1]
	}
	ok := r == (stop == len(want)) && len(got) == len(exp)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i] == exp[i]
	}
	if !ok {
		x.bad("diff of %v and %v (asked for changed,left,right,same: %v; stopped at %d) gave %v, %v; specified is %v",
			x.estrs(t.want(g, a)), x.estrs(t.want(g, b)), mask, stop+1, got, r, exp)
	}
	x.ok()
}

func (x *rep) aggregate(g *genTables, t *tpos, y api.Table, c int) {
	st := &g.States[c]
	want := t.want(g, c)
	u := y.Agg()
	got := x.list(u)
	if x.prop == "C05" {
		for i, h := range t.hosts {
			for j := 0; j < 3; j++ {
				a := h.A
				if j == 1 {
					a = last(x.w, h)
				} else if j == 2 {
					a = or(h.A, and(A{x.r.Uint64(), x.r.Uint64()}, not(x.w, maskOf(x.w, h.L))))
				}
				v, ok, _ := u.LPM(api.PArg{Kind: "a", P: P{a, x.w}})
				exp, eok := 0, false
				if d := st.Look[i]; d >= 0 {
					exp, eok = t.val[d], true
				} else if t.cover != nil {
					exp, eok = t.cover.V, true
				}
				if ok != eok || ok && v != exp {
					x.bad("aggregate %v of %v: %s is looked up as %d, %v; specified is %d, %v", x.estrs(got), x.estrs(want),
						x.pstr(P{a, x.w}), v, ok, exp, eok)
				}
				x.ok()
			}
		}
		for _, e := range append(append([]api.Entry{}, t.before...), t.after...) {
			if t.cover != nil && e.P == t.cover.P {
				continue
			}
			v1, ok1, _ := y.LPM(api.PArg{Kind: "a", P: P{e.P.A, x.w}})
			v2, ok2, _ := u.LPM(api.PArg{Kind: "a", P: P{e.P.A, x.w}})
			if v1 != v2 || ok1 != ok2 {
				x.bad("aggregate %v of %v: %s is looked up differently", x.estrs(got), x.estrs(want), x.pstr(P{e.P.A, x.w}))
			}
		}
		if len(got) > len(want) || u.Num() != int64(len(got)) {
			x.bad("aggregate %v of %v has more entries", x.estrs(got), x.estrs(want))
		}
		x.holds(u.Agg(), got, "aggregated again")
		x.holds(y, want, "after Aggregate, the original")
		return
	}
	if len(t.before)+len(t.after) > 0 {
		return
	}
	code, p3 := 0, 1
	inv := map[P]int{}
	for i := 1; i < len(t.key); i++ {
		inv[t.key[i]] = p3
		p3 *= 3
	}
	for _, e := range got {
		d := 1
		if e.V == t.val[2] {
			d = 2
		}
		if inv[e.P] == 0 {
			x.bad("aggregate %v of %v has a prefix that cannot be needed", x.estrs(got), x.estrs(want))
		}
		code += d * inv[e.P]
	}
	if g.States[code].Irr == 0 {
		x.bad("aggregate %v of %v can be reduced", x.estrs(got), x.estrs(want))
	}
	x.ok()
	if opt := g.opt[fmt.Sprint(st.Look)]; len(got) > opt {
		x.fail(repFail{Key: fmt.Sprintf("table-%d", c), At: x.at,
			What: fmt.Sprintf("the aggregate of %v has %d entries, %d would do", x.model(g, c), len(got), opt)})
	}
}

// model writes a table of the model: {0*=1, 01=2}.
func (x *rep) model(g *genTables, c int) string {
	var s []string
	for _, e := range g.States[c].List {
		b := ""
		for _, v := range g.Keys[e[0]-1].Bits {
			b += fmt.Sprint(v)
		}
		if len(b) < 2 {
			b += "*"
		}
		s = append(s, fmt.Sprintf("%s=%s", b, string(rune('A'-1+e[1]))))
	}
	return "{" + strings.Join(s, " ") + "}"
}

// ---- running

func runRep(prop string, seed int64, rounds int, fam string, full bool, gt, gs string) {
	var g genTables
	var s genSets
	load := func(f string, v interface{}) {
		b, err := os.ReadFile(f)
		if err == nil {
			err = json.Unmarshal(b, v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(2)
		}
	}
	tables := map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true, "C08": true}[prop]
	if tables {
		load(gt, &g)
		g.opt = map[string]int{}
		for _, st := range g.States {
			k := fmt.Sprint(st.Look)
			if n, ok := g.opt[k]; !ok || len(st.List) < n {
				g.opt[k] = len(st.List)
			}
		}
	} else {
		load(gs, &s)
	}
	var mu sync.Mutex
	fails := map[string]repFail{}
	var first *repFail
	total := int64(0)
	finish := func() {
		mu.Lock()
		out := M{"replayed": total}
		known := []repFail{}
		for _, f := range fails {
			known = append(known, f)
		}
		sort.Slice(known, func(i, j int) bool { return known[i].Key < known[j].Key })
		out["keyed"] = known
		if first != nil {
			out["violation"] = *first
		}
		b, _ := json.Marshal(out)
		fmt.Println(string(b))
		os.Exit(0)
	}
	var wg sync.WaitGroup
	ticks := make([]int64, runtime.NumCPU())
	cur := make([]*rep, len(ticks))
	next := int64(-1)
	for wi := range ticks {
		wi := wi
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				mu.Lock()
				stop := first != nil
				mu.Unlock()
				if i >= rounds || stop {
					atomic.StoreInt64(&ticks[wi], 0)
					return
				}
				x := &rep{prop: prop, r: rand.New(rand.NewSource(seed*1000003 + int64(i)*7919 + 5)), f: fam4.F{}, tick: &ticks[wi], full: full}
				if fam == "6" || fam == "0" && i%2 == 1 {
					x.f = fam6.F{}
				}
				x.w = x.f.Bits()
				x.fail = func(f repFail) {
					f.Seed = fmt.Sprintf("seed %d, round %d, family %s", seed, i, x.f.Name())
					mu.Lock()
					defer mu.Unlock()
					if f.Key != "" {
						if _, ok := fails[f.Key]; !ok {
							fails[f.Key] = f
						}
					} else if first == nil {
						first = &f
					}
				}
				mu.Lock()
				cur[wi] = x
				mu.Unlock()
				x.tickNow()
				x.round(i, tables, &g, &s)
				atomic.AddInt64(&total, x.n)
			}
		}()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	for {
		select {
		case <-done:
			finish()
		case <-time.After(200 * time.Millisecond):
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		for wi := range ticks {
			v := atomic.LoadInt64(&ticks[wi])
			if v != 0 && (time.Since(time.Unix(0, v)) > 40*time.Second || ms.HeapAlloc > 12<<30) {
				mu.Lock()
				if first == nil {
					first = &repFail{What: "a call did not return, or needs unbounded memory", At: M{"family": cur[wi].f.Name()}, Seed: fmt.Sprint(seed)}
				}
				mu.Unlock()
				finish()
			}
		}
	}
}

func (x *rep) tickNow() { atomic.StoreInt64(x.tick, time.Now().UnixNano()) }

func (x *rep) round(i int, tables bool, g *genTables, s *genSets) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(repStop); ok {
				return
			}
			buf := make([]byte, 4000)
			buf = buf[:runtime.Stack(buf, false)]
			x.fail(repFail{What: fmt.Sprintf("panic: %v", e), At: M{"position": x.at, "stack": string(buf)}})
		}
	}()
	if tables {
		x.tables(g)
	} else {
		switch x.prop {
		case "C15", "C17":
			x.sets(s)
		case "C19":
			x.stretched(s)
		default:
			if i/2%2 == 0 {
				x.sets(s)
			} else {
				x.stretched(s)
			}
		}
	}
}
