package main

// C06 C07 C08 on diagrams with many nodes or many paths; the expected result
// is what was recorded while the diagram was made with Makenode.

import (
	"bytes"
	"errors"
	"fmt"
	"runtime"

	"github.com/dalzilio/rudd"
)

type bigDAG struct {
	*Ctx
	b    *Bdd
	nv   int
	recs map[int]rec
	ids  []int // in order of creation: branches come before
}

// newBigDAG makes about n nodes over nv variables.
func (c *Ctx) newBigDAG(n, nv int) *bigDAG {
	g := defCfg(nv)
	g.Node = c.Pick(0, n/3, 2*n)
	d := &bigDAG{Ctx: c, b: c.New(g), nv: nv, recs: map[int]rec{}}
	b := d.b
	b.Initref()
	c.Step("%d nodes made with Makenode", n)
	below := []int{0, 1}
	orphans := []int{} // not yet below another node
	pick := func() int {
		if k := len(orphans); k > 0 && !c.Chance(20) {
			j := c.Intn(k)
			id := orphans[j]
			orphans[j] = orphans[k-1]
			orphans = orphans[:k-1]
			return id
		}
		return below[c.Intn(len(below))]
	}
	for v := nv - 1; v >= 0; v-- {
		lvl := []int{}
		want := n / nv
		if len(below) < 100 {
			want = min(want, len(below)*len(below)/2)
		}
		if v < 20 {
			want = min(want, 1<<v)
		}
		for i := 0; i < want; i++ {
			lo, hi := pick(), pick()
			if i < 40 {
				lo = below[len(below)-1-i%len(below)] // long chains too
			}
			if lo == hi {
				continue
			}
			id := b.Makenode(int32(v), lo, hi)
			if id < 2 {
				c.Failf("Makenode(%d, %d, %d) = %d", v, lo, hi, id)
			}
			r := rec{id, v, lo, hi}
			if w, ok := d.recs[id]; ok {
				if w != r {
					c.Failf("Makenode(%d, %d, %d) returned node %d, that is (%d, %d, %d)", v, lo, hi, id, w.level, w.low, w.high)
				}
				continue
			}
			b.Pushref(id)
			d.recs[id] = r
			d.ids = append(d.ids, id)
			lvl = append(lvl, id)
		}
		progress.Add(1)
		below, orphans = append(below, lvl...), append(orphans, lvl...)
	}
	return d
}

// reach gives the nodes of the diagram reachable from roots.
func (d *bigDAG) reach(roots []int) map[int]rec {
	res := map[int]rec{}
	st := append([]int{}, roots...)
	for len(st) > 0 {
		id := st[len(st)-1]
		st = st[:len(st)-1]
		if _, ok := res[id]; ok || id < 2 {
			continue
		}
		r := d.recs[id]
		res[id] = r
		st = append(st, r.low, r.high)
	}
	return res
}

// roots picks nodes, mostly near the top, and holds them.
func (d *bigDAG) roots(k int) ([]rudd.Node, []int) {
	ns, ids := []rudd.Node{}, []int{}
	for i := 0; i < k; i++ {
		at := len(d.ids) - 1 - d.Intn(min(len(d.ids), 50))
		if i > 0 && d.Chance(30) {
			at = d.Intn(len(d.ids))
		}
		id := d.ids[at]
		n := d.b.Retnode(id)
		if n == nil {
			d.Failf("Retnode(%d) returned nil: %s", id, d.b.Error())
		}
		ns, ids = append(ns, n), append(ids, id)
	}
	return ns, ids
}

func bigC07(c *Ctx) {
	n := c.Pick(3000, 9000, 20000, 70000, 140000)
	if c.thorough() && c.Chance(30) {
		n = c.Pick(300000, 600000)
	}
	d := c.newBigDAG(n, c.Pick(36, 60, 300))
	b := d.b
	held := []rudd.Node{}
	for round := 0; round < 3; round++ {
		ns, ids := d.roots(1 + c.Intn(c.Pick(2, 6, 400)))
		orig := append([]rudd.Node{}, ns...)
		want := d.reach(ids)
		what := fmt.Sprintf("Allnodes from %d roots of a diagram of %d nodes", len(ids), len(d.ids))
		c.Step("%s", what)
		var got []rec
		visit := func(id, level, low, high int) error {
			got = append(got, rec{id, level, low, high})
			return nil
		}
		if err := b.Allnodes(visit, ns...); err != nil {
			c.Failf("%s returned %v", what, err)
		}
		c.compareVisit(what, want, got)
		c.Max("nodes in one traversal", int64(len(got)))
		c.Count("nodes visited", int64(len(got)))
		c.Eval(mix(uint64(len(want)), uint64(ids[0])*31+uint64(len(ids))))
		k := 1 + c.Intn(len(got))
		cnt := 0
		err := b.Allnodes(func(id, level, low, high int) error {
			if cnt++; cnt >= k {
				return errCallback
			}
			return nil
		}, ns...)
		if cnt != k || !errors.Is(err, errCallback) {
			c.Failf("%s: f returned an error at call %d of %d, %d calls were made and %v was returned", what, k, len(got), cnt, err)
		}
		got = nil
		if err := b.Allnodes(visit); err != nil {
			c.Failf("Allnodes without roots returned %v", err)
		}
		c.checkAll(got, want)
		for i := range ns {
			if ns[i] != orig[i] {
				c.Failf("Allnodes changed its slice of roots")
			}
		}
		// what is still on the stack of references, or held, is kept
		if round == 1 {
			b.Initref()
		}
		if round < 2 {
			c.churnKernel(b, d.nv)
		}
		held = append(held, ns...)
		if round > 0 { // only what is held remains valid
			d.keepOnly(want, ids)
		}
	}
	runtime.KeepAlive(held)
	if b.Errored() {
		c.Failf("error status set after traversals: %s", b.Error())
	}
}

// keepOnly forgets the nodes that are no longer protected.
func (d *bigDAG) keepOnly(want map[int]rec, ids []int) {
	kept := []int{}
	for _, id := range d.ids {
		if _, ok := want[id]; ok {
			kept = append(kept, id)
		}
	}
	d.ids, d.recs = kept, want
}

// churnKernel makes garbage nodes, a few hundreds.
func (c *Ctx) churnKernel(b *Bdd, nv int) {
	for i := 0; i < 300; i++ {
		v := c.Intn(nv - 1)
		n := b.Makenode(int32(v+1), 0, 1)
		if n >= 0 {
			n = b.Makenode(int32(v), n, c.Intn(2))
		}
		if n < 0 {
			c.Failf("Makenode failed: %s", b.Error())
		}
	}
}

func bigC08(c *Ctx) {
	n := c.Pick(2000, 5000, 9000, 20000)
	if c.thorough() && c.Chance(30) {
		n = c.Pick(70000, 140000)
	}
	d := c.newBigDAG(n, c.Pick(36, 60, 300))
	b := d.b
	ns, ids := d.roots(1 + c.Intn(c.Pick(2, 6, 300)))
	orig := append([]rudd.Node{}, ns...)
	want := d.reach(ids)
	what := fmt.Sprintf("%d roots of a diagram of %d nodes", len(ids), len(d.ids))
	var out bytes.Buffer
	c.Step("Print %s", what)
	b.Print(&out, ns...)
	rows := parsePrint(c, out.String())
	c.compareVisit("Print "+what, want, rows)
	c.Count("Print rows compared", int64(len(rows)))
	c.Max("rows in one Print", int64(len(rows)))
	c.Eval(mix(uint64(len(want)), uint64(ids[0])*31+uint64(len(ids))))
	out.Reset()
	c.Step("Dot %s", what)
	if err := b.Dot(&out, ns...); err != nil {
		c.Failf("Dot %s returned %v", what, err)
	}
	rows = parseDot(c, out.String())
	c.compareVisit("Dot "+what, want, rows)
	c.Count("Dot nodes compared", int64(len(rows)))
	c.Max("nodes in one Dot", int64(len(rows)))
	for i := range ns {
		if ns[i] != orig[i] {
			c.Failf("Print or Dot changed its slice of roots")
		}
	}
	out.Reset()
	b.Print(&out)
	c.checkAll(parsePrint(c, out.String()), want)
	out.Reset()
	if err := b.Dot(&out); err != nil {
		c.Failf("Dot without roots returned %v", err)
	}
	rows = parseDot(c, out.String())
	c.checkAll(rows, want)
	runtime.KeepAlive(ns)
}

// bigC06: a function with very many assignments in Allsat.
func bigC06(c *Ctx) {
	limit := c.Pick(5000, 140000, 300000, 600000)
	if c.thorough() && c.Chance(30) {
		limit = 1200000
	}
	nv := 20 + c.Intn(30)
	d := c.newBigDAG(c.Pick(300, 1500, 6000), nv)
	b := d.b
	// the node with the most paths within the limit
	paths := map[int]int{0: 0, 1: 1}
	best := -1
	for _, id := range d.ids {
		r := d.recs[id]
		p := min(paths[r.low]+paths[r.high], 1<<30)
		paths[id] = p
		if p <= limit && (best < 0 || p >= paths[best]) {
			best = id
		}
	}
	if best < 0 {
		c.Inconclusive("no node with a suitable number of paths")
	}
	n := b.Retnode(best)
	np := paths[best]
	// sum of hashes of the expected assignments
	cur := make([]int, nv)
	for i := range cur {
		cur[i] = -1
	}
	hash := func(p []int) uint64 {
		h := uint64(7)
		for i := 0; i < len(p); i += 8 {
			w := uint64(0)
			for _, v := range p[i:min(i+8, len(p))] {
				w = w<<2 | uint64(v+1)&3
			}
			h = mix(h, w)
		}
		return h
	}
	var want uint64
	var walk func(id int)
	walk = func(id int) {
		if id == 0 {
			return
		}
		if id == 1 {
			want += hash(cur)
			return
		}
		r := d.recs[id]
		cur[r.level] = 0
		walk(r.low)
		cur[r.level] = 1
		walk(r.high)
		cur[r.level] = -1
	}
	walk(best)
	for round := 0; round < 2; round++ {
		c.Step("Allsat(%d), %d paths", best, np)
		var got uint64
		calls := 0
		err := b.Allsat(func(p []int) error {
			if calls++; calls&1023 == 0 {
				progress.Add(1)
			}
			if len(p) != nv {
				c.Failf("callback of Allsat called with %d values, Varnum is %d", len(p), nv)
			}
			got += hash(p)
			return nil
		}, n)
		if err != nil || calls != np {
			c.Failf("Allsat(%d) called f %d times and returned %v, the diagram has %d paths to True", best, calls, err, np)
		}
		if got != want {
			c.Failf("Allsat(%d): the %d assignments are not those of the diagram", best, calls)
		}
		c.Count("assignments enumerated", int64(calls))
		c.Max("assignments in one Allsat", int64(calls))
		c.Eval(mix(want, uint64(np)))
		k := np - c.Intn(min(np, 5000))
		calls = 0
		err = b.Allsat(func(p []int) error {
			if calls++; calls >= k {
				return errCallback
			}
			return nil
		}, n)
		if calls != k || !errors.Is(err, errCallback) {
			c.Failf("Allsat(%d): f returned an error at call %d of %d, %d calls were made and %v was returned", best, k, np, calls, err)
		}
		b.Initref()
		c.churnKernel(b, nv)
	}
	if b.Errored() {
		c.Failf("error status set after Allsat: %s", b.Error())
	}
}
