package main

// C09 C10 C17 C18 C19 C20: life of nodes, reclamation, kernel functions,
// statistics, sizing, callbacks.

import (
	"fmt"
	"math"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"

	"github.com/dalzilio/rudd"
)

func init() {
	register("C09", Prop{quick: 700, thorough: 7000, run: runC09})
	register("C10", Prop{quick: 260, thorough: 2600, run: runC10})
	register("C17", Prop{quick: 2000, thorough: 20000, run: runC17})
	register("C18", Prop{quick: 1600, thorough: 16000, run: runC18})
	register("C19", Prop{quick: 1200, thorough: 12000, run: runC19})
	register("C20", Prop{quick: 900, thorough: 9000, run: runC20})
}

// flood makes single unreferenced nodes until the node table was collected n
// more times. Right after, the table has only referenced nodes, and the one
// just made. It gives up (false) when there are too few distinct nodes.
func flood(c *Ctx, b *Bdd, n int) bool {
	nv := b.Varnum()
	st := c.Stats(b)
	until := st.GC + n
	lits := make([][]int, nv+1) // literals at or after a level
	lits[nv] = []int{0, 1}
	for v := nv - 1; v >= 0; v-- {
		lits[v] = append(append([]int{}, lits[v+1]...), *b.Ithvar(v), *b.NIthvar(v))
	}
	used := st.Free
	gc := st.GC
	tries := 0
	start := c.Intn(nv)
	for k := 0; k < nv; k++ {
		v := (start + k) % nv
		l := lits[v+1]
		for _, lo := range l {
			for _, hi := range l {
				if lo == hi {
					continue
				}
				b.Initref()
				progress.Add(1)
				if b.Makenode(int32(v), lo, hi) < 0 {
					return false
				}
				used--
				tries++
				if used < 0 || tries%64 == 0 {
					s := c.Stats(b)
					if s.GC > gc {
						gc, used = s.GC, s.Free
						if gc >= until {
							c.Count("table floods that led to a collection", 1)
							return true
						}
					} else {
						used = s.Free
					}
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------------------

func (m *M) verifyHeld(why string) {
	progress.Add(1)
	if len(m.pool) == 0 {
		return
	}
	ns := make([]rudd.Node, len(m.pool))
	for i, h := range m.pool {
		ns[i] = h.n
	}
	got := m.Fn(m.b, m.s, ns...)
	h := uint64(11)
	for i := range ns {
		if !eqLanes(got[i], m.pool[i].fn) {
			m.Failf("held node %d denoted %s when it was obtained, it denotes %s %s", *ns[i], laneStr(m.pool[i].fn), laneStr(got[i]), why)
		}
		h = hashLanes(mix(h, uint64(*ns[i])), got[i])
	}
	m.Count("held nodes verified", int64(len(ns)))
	m.Max("nodes held at once", int64(len(ns)))
	m.Eval(h)
	runtime.KeepAlive(ns)
}

func runC09(c *Ctx) {
	if c.idx%35 == 7 {
		temporaries(c, 8, stNot, stApply, stIte, stExist, stAppEx, stReplace)
		return
	}
	switch c.idx % 5 {
	case 0:
		saturation(c)
		return
	case 1:
		orphans(c)
		return
	}
	s := exactSpace(4 + c.Intn(4))
	if c.Chance(25) {
		s = sampledSpace(c.Rand, 13+c.Intn(30), 2)
	}
	g := c.RandCfg(s.nv)
	m := c.NewMachine(g, s)
	for k := range m.weights {
		m.weights[k] = 5
	}
	m.max = c.Pick(3, 10, 40, 120)
	m.ObserveGC(m.b, &m.stats)
	var stop chan struct{}
	if c.Chance(40) {
		stop = make(chan struct{})
		done := make(chan struct{})
		go func() {
			defer close(done)
			for {
				select {
				case <-stop:
					return
				default:
					runtime.GC()
				}
			}
		}()
		defer func() { close(stop); <-done }()
		c.Count("histories with a concurrent Go collector", 1)
	}
	steps := 300
	for i := 0; i < steps; i++ {
		m.Do()
		if c.Intn(1000) < 6 {
			m.GC()
		}
		if c.Intn(1000) < 15 && s.nv < 20 {
			m.Churn(1 + c.Intn(2))
			m.verifyHeld("after collections")
		}
		if i%20 == 19 {
			m.verifyHeld("after more operations")
		}
	}
	m.verifyHeld("at the end")
	m.ObserveGC(m.b, &m.stats)
	c.Sample("%d operations with up to %d nodes held, %s", steps, m.max, g)
}

// saturation takes many references to the same nodes, then releases all of
// them but one.
func saturation(c *Ctx) {
	nv := 6 + c.Intn(25)
	g := c.RandCfg(nv)
	s := sampledSpace(c.Rand, nv, 2)
	if nv < 9 {
		s = exactSpace(nv)
	}
	m := c.NewMachine(g, s)
	b := m.b
	total := c.Pick(2, 30, 64, 127, 128, 129, 255, 256, 256, 257, 511, 512, 512, 513, 1000, 1021, 1022, 1022, 1023, 1023, 1024, 1024, 1025, 1030, 1500, 2048, 2100, 2500, 4096, 5000)
	c.Count("histories with many references to a node", 1)
	c.Max("references to one node", int64(total))
	for round := 0; round < 2; round++ {
		n := kernelDAG(c, b, nv, 3, 30)
		if *n < 2 {
			continue
		}
		fn := m.Fn(b, s, n)[0]
		nn := b.Not(n)
		refs := make([]rudd.Node, 0, total)
		refs = append(refs, n)
		for len(refs) < total {
			var r rudd.Node
			switch c.Intn(6) {
			case 0:
				r = b.Not(nn)
			case 1:
				r = b.Apply(n, b.True(), rudd.OPand)
			case 2:
				r = b.Apply(n, n, rudd.OPor)
			case 3:
				r = b.Ite(b.True(), n, nn)
			default:
				r = b.Retnode(*n)
			}
			if r == nil || *r != *n {
				c.Failf("another reference to node %d cannot be obtained", *n)
			}
			refs = append(refs, r)
			progress.Add(1)
		}
		c.Step("%d references to node %d", total, *n)
		// keep one, anywhere
		k := c.Pick(0, len(refs)-1, c.Intn(len(refs)))
		keep := refs[k]
		id := *keep
		n, nn = nil, nil
		// how many references are left when the table is collected
		left := c.Pick(1, 1, 1, 1, total, total, 2, 64, 128, 256, 512, 1+c.Intn(total))
		if left > total {
			left = total
		}
		refs[k], refs[0] = refs[0], refs[k]
		refs = append([]rudd.Node{}, refs[:left]...)
		for i := 0; i < 3; i++ {
			if i == 2 { // the last collections find one reference
				refs = nil
				left = 1
			}
			Collect()
			if c.Chance(50) {
				m.Churn(1)
			} else {
				flood(c, b, 1)
			}
			got := m.Fn(b, s, keep)[0]
			c.Eval(hashLanes(mix(uint64(total), uint64(k)), got))
			if !eqLanes(got, fn) {
				c.Failf("node %d was referenced %d times and all references but %d were dropped; it denotes %s, formerly %s", id, total, left, laneStr(got), laneStr(fn))
			}
			x := b.Not(b.Not(keep))
			if x == nil || *x != id {
				c.Failf("node %d was referenced %d times and all references but %d were dropped; Not(Not(n)) is not n any more", id, total, left)
			}
			runtime.KeepAlive(refs)
		}
		m.hold(keep, fn)
		m.verifyHeld("after the release of other references")
	}
	m.verifyHeld("at the end")
	c.Sample("%d references to a node taken and dropped but one, %s", total, g)
}

// orphans keeps nodes whose parents were dropped.
func orphans(c *Ctx) {
	nv := 8 + c.Intn(30)
	s := sampledSpace(c.Rand, nv, 2)
	m := c.NewMachine(c.RandCfg(nv), s)
	b := m.b
	m.max = 60
	for round := 0; round < 6; round++ {
		n := kernelDAG(c, b, nv, 3, 40)
		for *n > 1 {
			if c.Chance(50) {
				n = b.Low(n)
			} else {
				n = b.High(n)
			}
			if n == nil {
				c.Failf("Low or High of a held node is nil: %s", b.Error())
			}
			if c.Chance(40) {
				m.hold(n, m.Fn(b, s, n)[0])
			}
			if c.Chance(10) {
				Collect()
				flood(c, b, 1)
				m.verifyHeld("after its parents were dropped")
			}
		}
		Collect()
		flood(c, b, 1)
		m.verifyHeld("after its parents were dropped")
		for i := 0; i < 10; i++ {
			m.weights = [nKinds]int{kNot: 1, kApply: 3, kIte: 1, kAppEx: 1, kExist: 1, kReplace: 1}
			m.Do()
		}
	}
	m.verifyHeld("at the end")
}

// ---------------------------------------------------------------------------

// extraRoots returns the active nodes that nothing accounts for: not below a
// node of known, not a variable, and without an unaccounted parent.
func extraRoots(c *Ctx, b *Bdd, known []rudd.Node) (roots, nodes int) {
	d := c.DumpAll(b)
	ids := []int{}
	for _, n := range known {
		ids = append(ids, *n)
	}
	for v := 0; v < d.nv; v++ {
		ids = append(ids, *b.Ithvar(v), *b.NIthvar(v))
	}
	ok := d.Reach(ids...)
	child := map[int]bool{}
	for _, r := range d.nodes {
		if !ok[r.id] {
			nodes++
			child[r.low], child[r.high] = true, true
		}
	}
	for _, r := range d.nodes {
		if !ok[r.id] && !child[r.id] {
			roots++
		}
	}
	return roots, nodes
}

func runC10(c *Ctx) {
	if c.idx%5 == 0 {
		intermediates(c)
		return
	}
	if c.idx%10 == 3 {
		counted(c)
		return
	}
	nv := 24 + c.Intn(14)
	s := sampledSpace(c.Rand, nv, 1)
	g := c.RandCfg(nv)
	if g.MinFree > 50 {
		g.MinFree = 50
	}
	if g.MaxInc > 0 && g.MaxInc < 50 {
		g.MaxInc = 50
	}
	g.Cache, g.Ratio = 2000, c.Pick(0, 20)
	m := c.NewMachine(g, s)
	b := m.b
	kind := c.Intn(6)
	rounds := 50
	if c.thorough() {
		rounds = 150
	}
	base := c.Stats(b)
	maxProd, prev, maxAlloc := 0, base.Produced, 0
	kept := []rudd.Node{kernelDAG(c, b, nv, 2, 50), kernelDAG(c, b, nv, 2, 50)}
	keptFn := m.Fn(b, s, kept...)
	for r := 0; r < rounds; r++ {
		m.pool, m.sets, m.reps = nil, nil, nil
		m.max = 20
		c.Step("round %d of kind %d", r, kind)
		one := func() {
			switch kind {
			case 0: // any operations
				for k := range m.weights {
					m.weights[k] = 2
				}
				for i := 0; i < 25; i++ {
					m.Do()
				}
			case 1: // boolean operations on fresh diagrams
				for i := 0; i < 4; i++ {
					m.hold(kernelDAG(c, b, nv, 2, 30), nil)
				}
				for i := 0; i < 6; i++ {
					x, y := m.operand(), m.operand()
					m.hold(b.Apply(x, y, rops[c.Intn(10)]), nil)
					m.hold(b.Ite(x, y, m.operand()), nil)
					m.hold(b.Not(y), nil)
				}
			case 2: // traversals, some stopped
				n := kernelDAG(c, b, nv, 3, 20)
				cnt := 0
				stop := 1 + c.Intn(10)
				b.Allnodes(func(id, l, lo, hi int) error {
					cnt++
					if cnt >= stop {
						return errCallback
					}
					return nil
				}, n)
				cnt = 0
				b.Allsat(func([]int) error {
					cnt++
					if cnt >= stop {
						return errCallback
					}
					return nil
				}, n)
				b.Satcount(n)
				m.hold(n, nil)
			case 3: // descents
				n := kernelDAG(c, b, nv, 2, 20)
				for *n > 1 {
					if c.Chance(50) {
						n = b.Low(n)
					} else {
						n = b.High(n)
					}
					m.hold(n, nil)
				}
			case 4: // many references to a few nodes
				for k := 0; k < 3; k++ {
					n := kernelDAG(c, b, nv, 2, 40)
					for i := c.Pick(5, 100, 500, 1000); i > 0; i-- {
						m.hold(b.Retnode(*n), nil)
					}
				}
			case 5: // quantifications and substitutions
				for i := 0; i < 3; i++ {
					m.hold(kernelDAG(c, b, nv, 2, 40), nil)
				}
				m.weights = [nKinds]int{kExist: 2, kAppEx: 3, kReplace: 2, kMakeset: 1, kMakecube: 1}
				for i := 0; i < 12; i++ {
					m.Do()
				}
			}
		}
		one()
		m.pool, m.sets = nil, nil
		Collect()
		st := c.Stats(b)
		if p := st.Produced - prev; p > maxProd {
			maxProd = p
		}
		prev = st.Produced
		if st.Alloc > maxAlloc {
			maxAlloc = st.Alloc
		}
		live := 2*maxProd + 4*nv + 200
		bound := 4*live*100/(100-g.MinFree) + 1000
		if base.Alloc > bound {
			bound = base.Alloc
		}
		if st.Alloc > bound {
			c.Failf("after %d rounds that each produce at most %d nodes and drop all their references, the table has %d nodes (%d used); expected at most %d; %s", r+1, maxProd, st.Alloc, st.Used, bound, g)
		}
	}
	// what is left after a collection
	Collect()
	if !flood(c, b, 1) {
		c.Count("floods that did not lead to a collection", 1)
		return
	}
	// references dropped before this point are released, the next collection
	// frees their nodes
	roots, nodes := extraRoots(c, b, kept)
	c.Max("active nodes that nothing holds after the last collection", int64(nodes))
	c.Eval(mix(uint64(kind), mix(uint64(maxProd), uint64(maxAlloc))))
	c.Count("rounds of building and dropping", int64(rounds))
	c.Max("largest node table", int64(maxAlloc))
	if roots > 20 {
		c.Failf("after %d rounds, the release of all references and a collection of the node table, %d nodes with %d distinct roots are still active; %s", rounds, nodes, roots, g)
	}
	got := m.Fn(b, s, kept...)
	for i := range got {
		if !eqLanes(got[i], keptFn[i]) {
			c.Failf("a node held during the rounds changed its meaning")
		}
	}
	m.ObserveGC(b, &m.stats)
	c.Count("node-table collections observed", int64(c.Stats(b).GC))
	c.Sample("%d rounds of kind %d, at most %d nodes produced in a round, largest table %d, %d unexplained nodes at the end, %s", rounds, kind, maxProd, maxAlloc, nodes, g)
}

// counted: nodes that were held by a given number of references are reclaimed
// once all of them are dropped.
func counted(c *Ctx) {
	nv := 24 + c.Intn(14)
	g := defCfg(nv)
	g.MinFree, g.Cache, g.Ratio = c.Pick(0, 20), 2000, c.Pick(0, 20)
	b := c.New(g)
	kept := []rudd.Node{kernelDAG(c, b, nv, 2, 50)}
	counts := []int{1, 2, 3, 63, 127, 128, 255, 256, 511, 512, 513, 900, 1000, 1020, 1021, 1022}
	// several nodes with each number of references, since a reference that
	// shares its memory with one that is held is not released
	one := counts[c.Intn(len(counts))]
	if c.Chance(50) {
		one = 1022 - c.Intn(3)
	}
	for i := 0; i < 12; i++ {
		counts = append(counts, one)
	}
	var ids []int
	func() {
		for r := 0; r < 2; r++ {
			for _, k := range counts {
				n := kernelDAG(c, b, nv, 3, 40)
				for *n < 2 {
					n = kernelDAG(c, b, nv, 3, 40)
				}
				ids = append(ids, *n)
				refs := []rudd.Node{n}
				for len(refs) < k {
					refs = append(refs, b.Retnode(*n))
				}
				if r == 1 && k > 2 {
					// the references are dropped in two steps
					refs = refs[:k/2]
					Collect()
				}
				runtime.KeepAlive(refs)
				c.Eval(mix(uint64(k), uint64(*n)))
			}
		}
	}()
	c.Step("nodes held by up to 1022 references, all of them dropped")
	Collect()
	if !flood(c, b, 1) {
		c.Count("floods that did not lead to a collection", 1)
		return
	}
	Collect()
	if !flood(c, b, 1) {
		c.Count("floods that did not lead to a collection", 1)
		return
	}
	roots, nodes := extraRoots(c, b, kept)
	c.Count("nodes held by a given number of references, then dropped", int64(len(ids)))
	c.Max("active nodes that nothing holds after the last collection", int64(nodes))
	if roots > 8 {
		c.Failf("after all the references to %d nodes (from 1 to 1022 for each of them) were released and the node table collected, %d nodes with %d distinct roots are still active; %s", len(ids), nodes, roots, g)
	}
	runtime.KeepAlive(kept)
}

// intermediates: with the Go collector switched off, the intermediate results
// of operations are reclaimed.
func intermediates(c *Ctx) {
	nv := 16 + c.Intn(10)
	g := defCfg(nv)
	g.Cache, g.Ratio = 1000, 0
	g.MinFree = c.Pick(5, 20, 40)
	g.MaxInc = c.Pick(100, 1000, 1<<20)
	b := c.New(g)
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	s := sampledSpace(c.Rand, nv, 1)
	p := kernelDAG(c, b, nv, 6, 0)
	q := kernelDAG(c, b, nv, 6, 0)
	results := []rudd.Node{p, q}
	prev := c.Stats(b)
	maxProd, total := 0, 0
	var st Stats
	rounds := 80
	for i := 0; i < rounds; i++ {
		keepv := c.Perm(nv)[:2]
		set := []int{}
		for v := 0; v < nv; v++ {
			if v != keepv[0] && (v != keepv[1] || i%2 == 0) {
				set = append(set, v)
			}
		}
		vs := b.Makeset(set)
		var r rudd.Node
		switch c.Intn(3) {
		case 0:
			r = b.AppEx(p, q, rops[c.Intn(4)], vs)
		case 1:
			r = b.Exist(p, vs)
		case 2:
			// garbage from user-level operations
			for k := 0; k < 30; k++ {
				randomGarbage(c, b, nv)
			}
			r = b.Exist(q, vs)
		}
		if r == nil {
			c.Failf("quantification returned nil: %s", b.Error())
		}
		results = append(results, vs, r)
		st = c.Stats(b)
		if d := st.Produced - prev.Produced; d > maxProd {
			maxProd = d
		}
		prev = st
		c.Step("quantification %d", i)
	}
	total = st.Produced
	reach := c.DumpRoots(b, results...)
	live := len(reach.nodes) + 2*nv + 2 + maxProd
	bound := 4*live*100/(100-g.MinFree) + 200
	c.Eval(mix(uint64(total), uint64(live)))
	c.Count("nodes produced without Go collection", int64(total))
	if st.Alloc > bound {
		c.Failf("operations whose results and operands have %d nodes, and that produce at most %d nodes each, made the table grow to %d nodes (bound %d, %d produced)", len(reach.nodes), maxProd, st.Alloc, bound, total)
	}
	c.Max("ratio produced/allocated (percent)", int64(total*100/st.Alloc))
	c.Sample("%d quantifications without Go collection: %d nodes produced, table of %d", rounds, total, st.Alloc)
	_ = s
	runtime.KeepAlive(results)
}

// ---------------------------------------------------------------------------

func runC17(c *Ctx) {
	switch c.idx % 4 {
	case 0:
		hashConsing(c)
	case 1:
		stackProtection(c)
	case 2:
		userOperation(c)
	default:
		s := exactSpace(2 + c.Intn(6))
		m := c.NewMachine(c.RandCfg(s.nv), s)
		for k := range m.weights {
			m.weights[k] = 1
		}
		m.check[kBuild] = true
		m.weights[kBuild] = 20
		m.run(80, 5)
	}
}

// hashConsing: Makenode returns the unique node asked for.
func hashConsing(c *Ctx) {
	nv := 3 + c.Intn(30)
	g := c.RandCfg(nv)
	b := c.New(g)
	type key struct{ v, lo, hi int }
	ids := map[key]int{}
	lvl := map[int]int{0: nv, 1: nv}
	back := map[int]key{}
	pool := []int{0, 1}
	for v := 0; v < nv; v++ {
		for k, id := range []int{*b.Ithvar(v), *b.NIthvar(v)} {
			kk := key{v, k, 1 - k}
			ids[kk], lvl[id], back[id] = id, v, kk
			pool = append(pool, id)
		}
	}
	b.Initref()
	for i := 0; i < 400; i++ {
		lo, hi := pool[c.Intn(len(pool))], pool[c.Intn(len(pool))]
		top := min(lvl[lo], lvl[hi])
		if top == 0 {
			continue
		}
		v := c.Intn(top)
		if c.Chance(5) {
			hi = lo
		}
		k := key{v, lo, hi}
		want, known := ids[k]
		st := c.Stats(b)
		id := b.Makenode(int32(v), lo, hi)
		c.Step("Makenode(%d, %d, %d) = %d", v, lo, hi, id)
		c.Eval(mix(mix(uint64(v), uint64(lo)), uint64(hi)))
		switch {
		case lo == hi:
			if id != lo {
				c.Failf("Makenode(%d, %d, %d) = %d, expected the common branch", v, lo, hi, id)
			}
			continue
		case known:
			if id != want {
				c.Failf("Makenode(%d, %d, %d) = %d, formerly node %d, that is still on the stack", v, lo, hi, id, want)
			}
			if st2 := c.Stats(b); st2.Produced != st.Produced {
				c.Failf("Makenode(%d, %d, %d) produced a node although node %d exists", v, lo, hi, id)
			}
			c.Count("existing nodes found again", 1)
			continue
		}
		if o, ok := back[id]; ok {
			c.Failf("Makenode(%d, %d, %d) = %d, which is the node for (%d, %d, %d), still on the stack", v, lo, hi, id, o.v, o.lo, o.hi)
		}
		if id < 2 {
			c.Failf("Makenode(%d, %d, %d) = %d", v, lo, hi, id)
		}
		b.Pushref(id)
		ids[k], back[id], lvl[id] = id, k, v
		pool = append(pool, id)
		c.Count("nodes made", 1)
	}
	// all of them are as asked for
	d := c.DumpAll(b)
	for id, k := range back {
		r := d.get(id)
		if r.level != k.v || r.low != k.lo || r.high != k.hi {
			c.Failf("node %d was made as (%d, %d, %d) and is shown as (%d, %d, %d)", id, k.v, k.lo, k.hi, r.level, r.low, r.high)
		}
	}
	d.WellFormed()
	// and survive once they have a Node
	held := []rudd.Node{}
	for i := 0; i < 20; i++ {
		id := pool[c.Intn(len(pool))]
		n := b.Retnode(id)
		if n == nil || *n != id {
			c.Failf("Retnode(%d) = %v", id, n)
		}
		held = append(held, n)
	}
	if b.Retnode(0) != b.False() || b.Retnode(1) != b.True() {
		c.Failf("Retnode on constants is not False or True")
	}
	b.Initref()
	want := d
	Collect()
	flood(c, b, 1)
	for _, n := range held {
		d2 := c.DumpRoots(b, n)
		for id := range want.Reach(*n) {
			if d2.get(id) != want.get(id) {
				c.Failf("node %d below the result of Retnode changed from %v to %v", id, want.get(id), d2.get(id))
			}
		}
		c.Eval(mix(uint64(*n), 9))
	}
	runtime.KeepAlive(held)
}

// stackProtection: nodes on the reference stack survive, with everything
// below them, until they are popped.
func stackProtection(c *Ctx) {
	nv := 10 + c.Intn(25)
	g := c.RandCfg(nv)
	b := c.New(g)
	var st Stats
	c.ObserveGC(b, &st)
	type held struct {
		id int
		d  map[int]rec
	}
	stack := []held{}
	b.Initref()
	// chain builds nodes, protected while they are built, and leaves the last
	// one on the stack.
	chain := func() {
		n := 0
		lo, hi := 0, 1
		for v := nv - 1; v >= 0; v-- {
			if c.Chance(30) {
				continue
			}
			x, y := lo, hi
			if c.Chance(50) {
				x, y = hi, c.Intn(2)
			}
			if x == y {
				continue
			}
			id := b.Pushref(b.Makenode(int32(v), x, y))
			n++
			if c.Chance(60) {
				lo = id
			} else {
				hi = id
			}
		}
		top := lo
		if hi > 1 && c.Chance(50) {
			top = hi
		}
		b.Popref(n)
		if top < 2 {
			return
		}
		b.Pushref(top)
		d := c.DumpAll(b)
		sub := map[int]rec{}
		for id := range d.Reach(top) {
			sub[id] = d.get(id)
		}
		stack = append(stack, held{top, sub})
	}
	garbage := func(n int) {
		for i := 0; i < n; i++ {
			v := c.Intn(nv - 1)
			pick := func() int {
				if c.Chance(10) {
					return c.Intn(2)
				}
				w := v + 1 + c.Intn(nv-v-1)
				if c.Chance(50) {
					return *b.Ithvar(w)
				}
				return *b.NIthvar(w)
			}
			lo, hi := pick(), pick()
			id := b.Makenode(int32(v), lo, hi)
			if id < 0 {
				c.Failf("Makenode(%d, %d, %d) = %d", v, lo, hi, id)
			}
			progress.Add(1)
		}
	}
	for round := 0; round < 30; round++ {
		for k := c.Intn(3); k >= 0; k-- {
			chain()
		}
		gc0 := c.Stats(b).GC
		garbage(c.Pick(5, 50, 200))
		gc1 := c.Stats(b).GC
		d := c.DumpAll(b)
		h := uint64(gc1 - gc0)
		for _, s := range stack {
			for id, r := range s.d {
				p, ok := d.pos[id]
				if !ok {
					c.Failf("node %d, below node %d on the reference stack, was reclaimed (%d collections since)", id, s.id, gc1-gc0)
				}
				if d.nodes[p] != r {
					c.Failf("node %d, below node %d on the reference stack, changed from %v to %v", id, s.id, r, d.nodes[p])
				}
			}
			h = mix(h, uint64(s.id))
			c.Count("protected nodes verified", int64(len(s.d)))
		}
		c.Eval(h)
		if gc1 > gc0 {
			c.Count("rounds with a collection while nodes were only on the stack", 1)
		}
		if n := len(stack); n > 0 && c.Chance(40) {
			k := 1 + c.Intn(n)
			b.Popref(k)
			stack = stack[:n-k]
		}
	}
	c.ObserveGC(b, &st)
	c.Sample("stack of protected nodes over %d variables, %s", nv, g)
}

// userOperation: a binary operation written with the kernel functions, with
// or without memoisation.
func userOperation(c *Ctx) {
	s := exactSpace(4 + c.Intn(5))
	g := c.RandCfg(s.nv)
	m := c.NewMachine(g, s)
	b := m.b
	var st Stats
	c.ObserveGC(b, &st)
	for k := range m.weights {
		m.weights[k] = 1
	}
	m.seedPool(6)
	for i := 0; i < 25; i++ {
		n1, n2 := m.operand(), m.operand()
		if c.Chance(50) {
			n1 = b.Retnode(BuildTT(b, m.somevars(min(5, s.nv)), c.Uint64()))
		}
		op := c.Intn(10)
		f := m.Fn(b, s, n1, n2)
		want := lanesOp(op, f[0], f[1])
		d := c.DumpRoots(b, n1, n2)
		lv := func(id int) int {
			if id < 2 {
				return s.nv
			}
			return d.get(id).level
		}
		memoized := c.Chance(50)
		memo := map[[2]int]int{}
		b.Initref()
		b.Pushref(*n1)
		b.Pushref(*n2)
		var rec func(x, y int) int
		rec = func(x, y int) int {
			if x < 2 && y < 2 {
				return opTable[op][2*x+y]
			}
			if r, ok := memo[[2]int{x, y}]; ok && memoized {
				return r
			}
			lx, ly := lv(x), lv(y)
			v := min(lx, ly)
			x0, x1, y0, y1 := x, x, y, y
			if lx == v {
				x0, x1 = d.get(x).low, d.get(x).high
			}
			if ly == v {
				y0, y1 = d.get(y).low, d.get(y).high
			}
			lo := b.Pushref(rec(x0, y0))
			hi := b.Pushref(rec(x1, y1))
			r := b.Makenode(int32(v), lo, hi)
			if memoized {
				b.Pushref(r)
				memo[[2]int{x, y}] = r
			} else {
				b.Popref(2)
			}
			return r
		}
		c.Step("user-written %s on nodes %d and %d", ropNames[op], *n1, *n2)
		res := b.Retnode(rec(*n1, *n2))
		b.Initref()
		if res == nil {
			c.Failf("user-written operation returned nil")
		}
		got := m.Fn(b, s, res)[0]
		c.Eval(hashLanes(hashLanes(mix(uint64(op), 17), f[0]), f[1]))
		c.Count("user-written operations judged", 1)
		if !eqLanes(got, want) {
			c.Failf("user-written %s of %s and %s gives %s, expected %s", ropNames[op], laneStr(f[0]), laneStr(f[1]), laneStr(got), laneStr(want))
		}
		m.hold(res, got)
		runtime.KeepAlive(n1)
		runtime.KeepAlive(n2)
		m.Do()
	}
	c.ObserveGC(b, &st)
}

func (m *M) somevars(max int) []int {
	k := 1 + m.Intn(max)
	p := m.Perm(m.nv)[:k]
	sort.Ints(p)
	return p
}

// ---------------------------------------------------------------------------

// fullTable18: a table at its limit, in which everything is referenced.
func fullTable18(c *Ctx) {
	nv := 8 + c.Intn(30)
	g := c.RandCfg(nv)
	g.Node = 0
	g.MaxNode = 2*nv + 3 + c.Intn(nv*(nv-1)/2-5)
	g.Cache += 100
	b := c.New(g)
	keep := []rudd.Node{}
	judged := 0
	for _, p := range c.Perm(nv * nv) {
		i, j := p/nv, p%nv
		if i >= j {
			continue
		}
		pol := []bool{c.Chance(50), c.Chance(50)}
		c.Step("Makecube(%v, %v)", []int{i, j}, pol)
		s0 := c.Stats(b)
		n := b.Makecube([]int{i, j}, pol)
		if n != nil {
			// at most one node did not exist
			s1 := c.Stats(b)
			if d := s1.Produced - s0.Produced; d > 1 || d < 0 || s1.GC == s0.GC && d != s1.Used-s0.Used {
				c.Failf("a cube of two variables, that needs at most one new node, produced %d nodes, and the used nodes went from %d to %d", d, s0.Used, s1.Used)
			}
			keep = append(keep, n)
			continue
		}
		if judged > 5 {
			break
		}
		judged++
		for k := 0; k < 3; k++ {
			s0 := c.Stats(b)
			if b.Makecube([]int{i, j}, pol) != nil {
				c.Failf("the same call failed, then succeeded, with %d references to different nodes held", len(keep))
			}
			s1 := c.Stats(b)
			if s1.Produced != s0.Produced || s1.Used != s0.Used || s1.Free != s0.Free {
				c.Failf("a call that failed, in a table in which all the nodes are referenced, changed the statistics from\n%s\nto\n%s", s0.raw, s1.raw)
			}
			if s1.Used+s1.Free != s1.Alloc {
				c.Failf("used and free nodes do not add up after a failure:\n%s", s1.raw)
			}
			c.Eval(mix(mix(uint64(s1.Used), uint64(s1.Produced)), uint64(s1.GC)))
			c.Count("failed calls judged", 1)
		}
	}
	runtime.KeepAlive(keep)
}

func runC18(c *Ctx) {
	if c.idx%25 == 6 {
		fullTable18(c)
		return
	}
	s := exactSpace(3 + c.Intn(5))
	if c.Chance(20) {
		s = sampledSpace(c.Rand, 12+c.Intn(40), 1)
	}
	m := c.NewMachine(c.RandCfg(s.nv), s)
	b := m.b
	for k := range m.weights {
		m.weights[k] = 3
	}
	m.max = c.Pick(5, 20)
	last := c.Stats(b)
	if last.GC != 0 {
		c.Failf("a new BDD reports %d collections", last.GC)
	}
	balance := func(st Stats) {
		if st.Used+st.Free != st.Alloc {
			c.Failf("used (%d) plus free (%d) is not allocated (%d)", st.Used, st.Free, st.Alloc)
		}
		cnt, consts := 0, 0
		err := b.Allnodes(func(id, l, lo, hi int) error {
			cnt++
			if id < 2 {
				consts++
			}
			return nil
		})
		if err != nil {
			c.Failf("Allnodes returned %v", err)
		}
		if cnt-consts+2 != st.Used {
			c.Failf("%d nodes are reported as used, Allnodes visits %d (and the 2 constants)", st.Used, cnt-consts)
		}
	}
	balance(last)
	work0 := m.Work(b)
	if last.Produced != last.Used-2 {
		c.Failf("a new BDD reports %d nodes produced and %d used", last.Produced, last.Used)
	}
	for i := 0; i < 60; i++ {
		m.Do()
		if c.Intn(100) < 3 {
			m.GC()
		}
		if c.Intn(100) < 4 {
			m.Churn(1)
		}
		if c.Intn(100) < 4 {
			flood(c, b, 1)
		}
		st := c.Stats(b)
		balance(st)
		c.Eval(mix(mix(mix(uint64(st.Used), uint64(st.Free)), uint64(st.Produced)), uint64(st.GC)))
		if st.Produced < last.Produced || st.GC < last.GC || st.Alloc < last.Alloc {
			c.Failf("a statistic decreased:\n%s\nthen\n%s", last.raw, st.raw)
		}
		if st.GC == last.GC && st.Produced-last.Produced != st.Used-last.Used {
			c.Failf("without a collection, %d nodes were produced but the number of used nodes changed by %d", st.Produced-last.Produced, st.Used-last.Used)
		}
		if st.Produced-last.Produced < st.Used-last.Used {
			c.Failf("%d nodes were produced but the number of used nodes grew by %d", st.Produced-last.Produced, st.Used-last.Used)
		}
		if st.Debug {
			if st.Reclaimed > st.Ext || st.Reclaimed < 0 {
				c.Failf("%d references reclaimed of %d created", st.Reclaimed, st.Ext)
			}
			if st.Ext < last.Ext || st.Reclaimed < last.Reclaimed {
				c.Failf("the number of references created or reclaimed decreased:\n%s\nthen\n%s", last.raw, st.raw)
			}
			if st.UHit+st.UMiss > st.UAccess || st.UHit < last.UHit || st.UMiss < last.UMiss || st.UAccess < last.UAccess {
				c.Failf("unique-table statistics do not add up: %d accesses, %d hits, %d misses", st.UAccess, st.UHit, st.UMiss)
			}
			if st.UMiss != st.Produced {
				c.Failf("%d misses in the unique table but %d nodes produced", st.UMiss, st.Produced)
			}
			c.Count("debug statistics judged", 1)
		}
		m.percents(st)
		w := m.Work(b)
		for sec := range w.hit {
			if w.hit[sec] < work0.hit[sec] || w.miss[sec] < work0.miss[sec] {
				c.Failf("the hits or misses of the %s cache decreased:\n%s\nthen\n%s", sec, last.raw, st.raw)
			}
		}
		work0 = w
		last = st
		if i%3 == 0 {
			last = m.makenodeStats(last)
		}
		if i%5 == 0 && len(m.pool) > 0 {
			// operations that only find existing nodes
			n := m.pool[c.Intn(len(m.pool))].n
			st0 := c.Stats(b)
			b.Satcount(n)
			b.Apply(n, n, rudd.OPand)
			b.Apply(n, b.True(), rudd.OPand)
			b.Apply(n, b.False(), rudd.OPor)
			b.Ite(n, b.True(), b.False())
			b.Ithvar(c.Intn(s.nv))
			if *n > 1 {
				b.Low(n)
				b.High(n)
			}
			st1 := c.Stats(b)
			if st1.Produced != st0.Produced || st1.Used != st0.Used {
				c.Failf("operations whose results are existing nodes changed the statistics from\n%s\nto\n%s", st0.raw, st1.raw)
			}
			last = st1
		}
	}
	m.ObserveGC(b, &m.stats)
	c.Count("node-table collections observed", int64(last.GC))
	c.Sample("allocated %d, produced %d, used %d, %d collections", last.Alloc, last.Produced, last.Used, last.GC)
}

var rePercent = regexp.MustCompile(`(?m)^ *(Free|Used|Operator Hits|Unique Hit): +(\d+) \(([-+0-9.eInfaN]+) ?%`)
var reMisses = regexp.MustCompile(`^\n *Operator Miss: +(\d+)`)

// percents judges the percentages, when they are written.
func (c *Ctx) percents(st Stats) {
	for _, ix := range rePercent.FindAllStringSubmatchIndex(st.raw, -1) {
		name := st.raw[ix[2]:ix[3]]
		n, _ := strconv.Atoi(st.raw[ix[4]:ix[5]])
		p, err := strconv.ParseFloat(st.raw[ix[6]:ix[7]], 64)
		total := 0
		switch name {
		case "Free", "Used":
			total = st.Alloc
		case "Unique Hit":
			total = st.UAccess
		case "Operator Hits":
			rest := st.raw[ix[1]:]
			for i := range rest {
				if rest[i] == '\n' {
					if m := reMisses.FindStringSubmatch(rest[i:]); m != nil {
						k, _ := strconv.Atoi(m[1])
						total = n + k
					}
					break
				}
			}
		}
		if err != nil || total <= 0 {
			continue
		}
		want := 100 * float64(n) / float64(total)
		c.Count("percentages judged", 1)
		if p < want-0.51 || p > want+0.51 {
			c.Failf("%s: %d of %d is written as %v %%", name, n, total, p)
		}
	}
}

// makenodeStats: a single Makenode produces one node exactly when the node
// did not exist.
func (m *M) makenodeStats(last Stats) Stats {
	b := m.b
	for k := 0; k < 5; k++ {
		v := m.Intn(m.nv)
		pick := func() int {
			if v == m.nv-1 || m.Chance(30) {
				return m.Intn(2)
			}
			w := v + 1 + m.Intn(m.nv-v-1)
			if m.Chance(50) {
				return *b.Ithvar(w)
			}
			return *b.NIthvar(w)
		}
		lo, hi := pick(), pick()
		d := m.DumpAll(b)
		exists := lo == hi
		for _, r := range d.nodes {
			if r.level == v && r.low == lo && r.high == hi {
				exists = true
			}
		}
		st0 := m.Stats(b)
		b.Initref()
		id := b.Makenode(int32(v), lo, hi)
		m.Step("Makenode(%d, %d, %d) = %d", v, lo, hi, id)
		st := m.Stats(b)
		want := 1
		if exists {
			want = 0
		}
		if st.Produced-st0.Produced != want {
			m.Failf("Makenode(%d, %d, %d) on a table where this node exists=%v changed the number of produced nodes by %d", v, lo, hi, exists, st.Produced-st0.Produced)
		}
		if exists && (st.GC != st0.GC || st.Used != st0.Used) {
			m.Failf("Makenode(%d, %d, %d) of an existing node changed the table", v, lo, hi)
		}
		m.Count("single Makenode calls judged", 1)
		m.Eval(mix(uint64(st.Produced), uint64(id)))
		last = st
	}
	return last
}

// ---------------------------------------------------------------------------

var reCaches = regexp.MustCompile(`(?m)^== (\w+)[^\d\n]*\s(\d+) \(`)

// cacheSizes reads the sizes of the caches (debug builds only).
func cacheSizes(raw string) map[string]int {
	res := map[string]int{}
	for _, f := range reCaches.FindAllStringSubmatch(raw, -1) {
		res[f[1]] = atoi(f[2])
	}
	return res
}

func runC19(c *Ctx) {
	nv := 8 + c.Intn(40)
	g := c.RandCfg(nv)
	g.Node = c.Pick(0, 1, 2*nv+1, 2*nv+2, 2*nv+3, 100, 200, 500, 1000)
	g.MaxInc = c.Pick(0, 1, 2, 3, 5, 10, 50, 200, 1<<20)
	g.MinFree = c.Pick(0, 1, 5, 20, 25, 50, 75, 99)
	g.Cache = c.Pick(0, 1, 10, 100, 1000)
	g.Ratio = c.Pick(0, 1, 10, 25, 100, 300)
	if c.Chance(15) {
		// an increase that is close to the size of the table
		g.Node = max(g.Node, 2*nv+2)
		g.MaxInc = g.Node + c.Intn(9) - 4
	} else if c.Chance(10) {
		// limits that are not met
		g.MaxInc = c.Pick(math.MaxInt, math.MaxInt-1, math.MaxInt/2, math.MaxInt32)
	}
	if c.Chance(10) {
		g.MaxNode = c.Pick(math.MaxInt, math.MaxInt-1, math.MaxInt/2, math.MaxInt32)
	}
	b := c.New(g)
	st := c.Stats(b)
	init := max(g.Node, 2*nv+2)
	if st.Alloc < init {
		c.Failf("%s: %d nodes allocated", g, st.Alloc)
	}
	if st.Alloc > 2*init+50 {
		c.Failf("%s: %d nodes allocated, far more than asked for", g, st.Alloc)
	}
	wantCache := g.Cache
	if wantCache == 0 {
		wantCache = 10000
	}
	initial := cacheSizes(st.raw)
	if st.Debug {
		if len(initial) < 5 {
			c.Inconclusive("no cache sizes in the statistics:\n%s", st.raw)
		}
		for k, v := range initial {
			if v < wantCache {
				c.Failf("%s: the %s cache has %d entries initially", g, k, v)
			}
		}
		c.Count("initial cache sizes judged", int64(len(initial)))
	}
	checkCaches := func(st Stats, resized bool) {
		if !st.Debug {
			return
		}
		for k, v := range cacheSizes(st.raw) {
			if g.Ratio == 0 && v != initial[k] {
				c.Failf("%s: the size of the %s cache changed from %d to %d", g, k, initial[k], v)
			}
			if g.Ratio > 0 && resized && v < st.Alloc*g.Ratio/100 {
				c.Failf("%s: the %s cache has %d entries after a resize to %d nodes", g, k, v, st.Alloc)
			}
			c.Count("cache sizes judged", 1)
		}
	}
	target := 150 + c.Intn(1500)
	resizes, collections := 0, 0
	hold := c.Pick(0, 1, 3, 10, 30) // percentage of nodes kept, by the stack
	b.Initref()
	pool := []int{0, 1}
	lvl := map[int]int{0: nv, 1: nv}
	for v := nv - 1; v > 0; v-- {
		x, y := *b.Ithvar(v), *b.NIthvar(v)
		pool = append(pool, x, y)
		lvl[x], lvl[y] = v, v
	}
	for i := 0; i < 6*target; i++ {
		progress.Add(1)
		lo, hi := pool[c.Intn(len(pool))], pool[c.Intn(len(pool))]
		top := min(lvl[lo], lvl[hi])
		if lo == hi || top == 0 {
			continue
		}
		v := c.Intn(top)
		id := b.Makenode(int32(v), lo, hi)
		if id < 0 {
			c.Failf("%s: Makenode failed with a table of %d nodes, no limit is set (%s)", g, st.Alloc, b.Error())
		}
		if c.Chance(hold) || i < target/4 {
			b.Pushref(id)
			if _, ok := lvl[id]; !ok {
				pool = append(pool, id)
				lvl[id] = v
			}
		}
		n := c.Stats(b)
		if n.Alloc < st.Alloc {
			c.Failf("%s: the table shrank from %d to %d", g, st.Alloc, n.Alloc)
		}
		if n.GC == st.GC && n.Alloc != st.Alloc {
			c.Failf("%s: the table grew from %d to %d without a collection", g, st.Alloc, n.Alloc)
		}
		if n.GC > st.GC {
			collections++
			if n.GC != st.GC+1 {
				c.Failf("%s: %d collections during one Makenode", g, n.GC-st.GC)
			}
			if st.Free != 0 {
				c.Failf("%s: a collection occurred while %d of %d nodes were free", g, st.Free, st.Alloc)
			}
			free := n.Free - (n.Alloc - st.Alloc) + 1 // after the collection
			pct := free * 100 / st.Alloc
			grew := n.Alloc > st.Alloc
			c.Eval(mix(mix(uint64(st.Alloc), uint64(free)), uint64(g.MinFree*1000+g.MaxInc)))
			if grew && pct > g.MinFree {
				c.Failf("%s: the table grew from %d to %d although %d%% of it was free after a collection", g, st.Alloc, n.Alloc, pct)
			}
			if !grew && pct < g.MinFree {
				c.Failf("%s: the table of %d nodes did not grow although only %d%% of it was free after a collection", g, st.Alloc, pct)
			}
			if grew {
				resizes++
				inc := n.Alloc - st.Alloc
				if g.MaxInc > 0 && inc > g.MaxInc {
					c.Failf("%s: a resize added %d nodes (from %d to %d)", g, inc, st.Alloc, n.Alloc)
				}
				if inc > st.Alloc {
					c.Failf("%s: a resize from %d to %d more than doubles the table", g, st.Alloc, n.Alloc)
				}
				if (g.MaxInc == 0 || g.MaxInc >= st.Alloc) && 2*inc < st.Alloc {
					c.Failf("%s: a resize from %d to %d does not double the table", g, st.Alloc, n.Alloc)
				}
			}
			checkCaches(n, grew)
		}
		st = n
		if st.Alloc > 8*target {
			break
		}
		if i > 200 && resizes > 40 && collections > 60 {
			break
		}
	}
	c.Count("collections observed", int64(collections))
	c.Count("resizes observed", int64(resizes))
	c.Sample("%s: %d collections, %d resizes, final size %d", g, collections, resizes, st.Alloc)
}

// ---------------------------------------------------------------------------

func runC20(c *Ctx) {
	s := exactSpace(3 + c.Intn(4))
	g := c.RandCfg(s.nv)
	g.Node = c.Pick(0, 50, 200)
	m := c.NewMachine(g, s)
	for k := range m.weights {
		m.weights[k] = 3
		m.check[k] = true
	}
	m.max = 12
	m.ObserveGC(m.b, &m.stats)
	m.seedPool(6)
	for i := 0; i < 8; i++ {
		m.Do()
		m.iterate(0)
		m.verifyHeld("after an iteration whose callback uses the BDD")
	}
	m.ObserveGC(m.b, &m.stats)
}

// temp makes a node that nothing but the caller holds.
//
//go:noinline
func (m *M) temp() rudd.Node {
	b := m.b
	switch m.Intn(3) {
	case 0:
		return b.Retnode(BuildTT(b, m.somevars(min(5, m.nv)), m.Uint64()))
	case 1:
		x := b.Retnode(BuildTT(b, m.somevars(min(5, m.nv)), m.Uint64()))
		return b.Apply(x, m.operand(), rops[m.Intn(10)])
	}
	return kernelDAG(m.Ctx, b, m.nv, 3, 10)
}

func (m *M) inCallback(depth int) {
	old := m.out.Samples
	for k := 1 + m.Intn(2); k > 0; k-- {
		m.Do()
	}
	if m.Chance(8) {
		m.GC()
		m.Churn(1)
	} else if m.Chance(15) {
		m.Churn(1)
	}
	if depth < 2 && m.Chance(5) {
		m.iterate(depth + 1)
	}
	m.Count("callbacks that used the BDD", 1)
	m.out.Samples = old
}

//go:noinline
func (m *M) iterate(depth int) {
	b := m.b
	n := m.temp()
	if n == nil {
		m.Failf("cannot make a node: %s", b.Error())
	}
	d := m.DumpRoots(b, n)
	id := *n
	gc0 := m.Stats(b).GC
	calls := 0
	budget := 12
	work := func() {
		calls++
		if calls > 2000 {
			m.Failf("an iteration over node %d, with %d nodes, made more than 2000 calls", id, len(d.nodes))
		}
		if budget > 0 && m.Chance(60) {
			budget--
			m.inCallback(depth)
		}
	}
	if m.Chance(50) {
		want := d.cubes(id)
		got := map[string]int{}
		m.Step("Allsat(%d), depth %d, callback uses the BDD", id, depth)
		err := b.Allsat(func(p []int) error {
			got[profString(m.Ctx, p, m.nv)]++
			work()
			return nil
		}, n)
		n = nil
		if err != nil {
			m.Failf("Allsat with a callback that uses the BDD returned %v", err)
		}
		for k, v := range want {
			if got[k] != v {
				m.Failf("Allsat(%d) with a callback that uses the BDD gives assignment %s %d times, expected %d", id, k, got[k], v)
			}
		}
		for k := range got {
			if want[k] == 0 {
				m.Failf("Allsat(%d) with a callback that uses the BDD gives unexpected assignment %s", id, k)
			}
		}
	} else {
		want := map[int]rec{}
		for _, r := range d.nodes {
			want[r.id] = r
		}
		var got []rec
		m.Step("Allnodes from %d, depth %d, callback uses the BDD", id, depth)
		stop := -1
		if m.Chance(20) {
			stop = 1 + m.Intn(len(want)+1)
		}
		err := b.Allnodes(func(id, level, low, high int) error {
			got = append(got, rec{id, level, low, high})
			work()
			if len(got) == stop {
				return errCallback
			}
			return nil
		}, n)
		n = nil
		if err != nil && stop < 0 {
			m.Failf("Allnodes with a callback that uses the BDD returned %v", err)
		}
		if stop < 0 {
			m.compareVisit(fmt.Sprintf("Allnodes from %d with a callback that uses the BDD", id), want, got)
		}
	}
	h := uint64(depth)
	for _, r := range d.nodes {
		h = mix(mix(mix(h, uint64(r.level)), uint64(r.low)), uint64(r.high))
	}
	m.Eval(mix(h, 20))
	m.Count("iterations with a callback that uses the BDD", 1)
	if m.Stats(b).GC > gc0 {
		m.Count("iterations with a collection in the callback", 1)
	}
}
