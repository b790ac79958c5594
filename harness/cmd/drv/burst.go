package main

import (
	"encoding/json"
	"sync"
	"sync/atomic"

	"addrsverif/api"
)

// Contention in bulk, for ConcTrace.tla: what can be said about very many
// overlapping calls without knowing their order.

// spread gives distinct, disjoint prefixes of one length, at a random place.
func (h *H) spread(n int) []P {
	l := 12 + h.r.Intn(h.w-12)
	if h.r.Intn(3) == 0 {
		l = h.w
	}
	out := make([]P, n)
	step := 1 + h.r.Intn(3) // 1: they touch, so that sets merge them
	p := P{A: net(h.w, P{A: rndAddr(h.r, h.w), L: l - 12}), L: l}
	for i := range out {
		q := p
		k := i * step
		for b := 0; b < 12; b++ {
			if k>>uint(b)&1 == 1 {
				q.A = setBit(h.w, q.A, l-1-b, 1)
			}
		}
		out[i] = q
	}
	return out
}

// burstRuns lets goroutines insert or remove distinct prefixes: every call
// that returns took effect, every one that panics did not.
func burstRuns(h *H, rounds int) {
	const workers, per = 8, 40
	kind := "t"
	if h.r.Intn(2) == 0 {
		kind = "s"
	}
	h.extra = M{"k": kind, "m": 0, "init": []int{}}
	for round := 0; round < rounds; round++ {
		c := newCobj(h, false)
		for c.kind != kind {
			c = newCobj(h, false)
		}
		keys := h.spread(workers * per)
		arg := func(i int) api.SArg { return api.SArg{Kind: "p", P: keys[i]} }
		o := []string{"ins", "rem", "iou", "goi"}[h.r.Intn(4)]
		if kind == "s" && o != "rem" {
			o = "ins"
		}
		pre := 0
		if o == "rem" {
			for i := range keys {
				if kind == "t" {
					c.mt[0].Insert(api.PArg{Kind: "p", P: keys[i]}, 1)
				} else {
					c.ms[0].Insert(arg(i))
				}
			}
			pre = len(keys)
		}
		var done [workers * per]bool
		var odd int64
		var wg sync.WaitGroup
		start := make(chan bool)
		for w := 0; w < workers; w++ {
			w := w
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < per; k++ {
					i := w*per + k
					func() {
						defer func() {
							if x := recover(); x != nil {
								if s, ok := x.(string); !ok || len(s) > 8 && s[:8] == "harness:" {
									atomic.AddInt64(&odd, 1)
								}
							}
						}()
						ok := true
						switch {
						case kind == "s" && o == "ins":
							c.ms[w%2].Insert(arg(i))
						case kind == "s":
							c.ms[w%2].Remove(arg(i))
						case o == "ins":
							ok = c.mt[w%2].Insert(api.PArg{Kind: "p", P: keys[i]}, i)
						case o == "iou":
							c.mt[w%2].InsertOrUpdate(api.PArg{Kind: "p", P: keys[i]}, i)
						case o == "goi":
							ok = c.mt[w%2].GetOrInsert(api.PArg{Kind: "p", P: keys[i]}, i) == i
						case o == "rem":
							ok = c.mt[w%2].Remove(api.PArg{Kind: "p", P: keys[i]})
						}
						done[i] = true
						if !ok {
							atomic.AddInt64(&odd, 1)
						}
					}()
				}
			}()
		}
		close(start)
		wg.Wait()
		n, returned, wrong := 0, 0, 0
		for i := range keys {
			var there bool
			if kind == "t" {
				_, there = c.mt[0].Get(api.PArg{Kind: "p", P: keys[i]})
			} else {
				there = c.ms[0].Contains(arg(i))
			}
			if there {
				n++
			}
			if done[i] {
				returned++
			}
			if there != (done[i] == (o != "rem")) {
				wrong++
			}
		}
		e := M{"op": "burst", "k": kind, "o": o, "pre": pre, "ret": returned, "n": n, "wrong": wrong, "odd": odd, "pan": 0}
		if len(h.ev) < 3 || wrong > 0 || odd > 0 || n != pre+returned && n != pre-returned {
			h.emit(e)
		} else { // the same shape again
			h.ev[round%3] = e
		}
	}
}

// cycleRuns has one goroutine repeat a fixed cycle of modifications while
// others read: whatever a read returns must be right for one of the versions.
func cycleRuns(h *H, rounds int) {
	h.pool = genPool(h.r, h.w, 3+h.r.Intn(3), 4)
	c := newCobj(h, false)
	h.extra = M{"k": c.kind, "m": h.m, "init": []int{}}
	mods := []cop{}
	for len(mods) < 3+h.r.Intn(4) {
		q := c.choose(h.r)
		switch q.o {
		case "ins", "iou", "upd", "goi", "rem":
			mods = append(mods, q)
		}
	}
	for _, p := range h.pool { // the cycle ends with nothing left
		q := cop{o: "rem", p: p, arg: "p"}
		q.y = api.SArg{Kind: "p", P: p}
		mods = append(mods, q)
	}
	reads := []cop{}
	for len(reads) < 5 {
		q := c.choose(h.r)
		switch q.o {
		case "get", "lpm", "num", "list", "contains", "empty", "u", "i", "d", "snum":
			reads = append(reads, q)
		}
	}
	jm := []M{}
	for i, q := range mods {
		e := c.callEvent(i+1, q)
		delete(e, "op")
		jm = append(jm, e)
	}
	stop := int32(0)
	var wg sync.WaitGroup
	seen := make([]map[string]M, len(reads))
	for i := range reads {
		i := i
		seen[i] = map[string]M{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < rounds*8 && atomic.LoadInt32(&stop) == 0; n++ {
				e := M{}
				c.do(n%2, reads[i], e, nil)
				k, _ := json.Marshal(e)
				if _, ok := seen[i][string(k)]; !ok {
					seen[i][string(k)] = e
				}
			}
		}()
	}
	panics := 0
	for n := 0; n < rounds; n++ {
		for _, q := range mods {
			e := M{}
			c.do(0, q, e, nil)
			if e["pan"] != 0 {
				panics++
			}
		}
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	h.emit(M{"op": "cycle", "mods": jm, "pan": 0, "bad": panics})
	for i, q := range reads {
		for _, e := range seen[i] {
			x := c.callEvent(1, q)
			x["op"] = "saw"
			for k, v := range e {
				x[k] = v
			}
			h.emit(x)
		}
	}
}
