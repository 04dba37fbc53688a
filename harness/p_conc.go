package main

// C14: finalizers run by the Go runtime against the goroutine that uses a BDD.

import (
	"bytes"
	"runtime"
	"sync/atomic"

	"github.com/dalzilio/rudd"
)

func init() {
	register("C14", Prop{quick: 64, thorough: 800, run: runC14, rssMB: 6000})
}

// background runs the Go collector until stopped.
type background struct {
	stop, done chan struct{}
	n          atomic.Int64
}

func startGC() *background {
	bg := &background{stop: make(chan struct{}), done: make(chan struct{})}
	go func() {
		defer close(bg.done)
		for {
			select {
			case <-bg.stop:
				return
			default:
				runtime.GC()
				bg.n.Add(1)
			}
		}
	}()
	return bg
}

func (bg *background) end() { close(bg.stop); <-bg.done }

// released counts the finalizer-like events seen: one sentinel is dropped with
// each batch of nodes, and its finalizer runs in the same goroutine and about
// the same time as the ones of the nodes.
var released atomic.Int64

func sentinel() {
	s := &fence{}
	runtime.SetFinalizer(s, func(*fence) { released.Add(1) })
}

func runC14(c *Ctx) {
	rel0 := released.Load()
	switch c.idx % 4 {
	case 0:
		conservation(c)
	case 1:
		storm(c)
	case 2:
		if c.idx%8 == 2 {
			temporaries(c, 4, stNot, stApply, stIte, stExist, stAppEx, stReplace)
			break
		}
		mixed(c)
	default:
		mixed(c)
	}
	c.Count("batches of references released while the BDD was in use", released.Load()-rel0)
}

// mixed: any operation, with many references dropped.
func mixed(c *Ctx) {
	s := exactSpace(5 + c.Intn(3))
	g := c.RandCfg(s.nv)
	if c.Chance(60) { // frequent collections and resizes
		g.Node, g.MaxInc, g.MinFree = 0, c.Pick(1, 3, 10, 50), c.Pick(5, 20, 50)
	}
	m := c.NewMachine(g, s)
	b := m.b
	for k := range m.weights {
		m.weights[k] = 3
	}
	m.max = c.Pick(2, 8, 30)
	var st Stats
	c.ObserveGC(b, &st)
	bg := startGC()
	for i := 0; i < 250; i++ {
		m.Do()
		if i%4 == 0 {
			sentinel()
			runtime.Gosched()
		}
		switch c.Intn(30) {
		case 0:
			c.Stats(b)
		case 1:
			var w bytes.Buffer
			b.Print(&w)
		case 2:
			var w bytes.Buffer
			b.Dot(&w)
		case 3:
			b.Satcount(m.operand())
		case 4:
			b.Allsat(func([]int) error { return nil }, m.operand())
		case 5:
			x, y := m.operand(), m.operand()
			b.Equal(x, y)
			if *x > 1 {
				b.Label(x)
			}
			b.Scanset(x)
		case 6:
			m.Churn(1)
		case 7:
			c.DumpAll(b)
		case 8:
			m.verifyHeld("while references to other nodes were released")
		}
	}
	m.verifyHeld("at the end")
	bg.end()
	c.ObserveGC(b, &st)
	c.Count("Go collections in the background", bg.n.Load())
	c.Sample("250 operations during %d Go collections, %d node-table collections, %s", bg.n.Load(), st.GC, g)
}

// storm: references created and dropped as fast as possible while the node
// table is collected and resized.
func storm(c *Ctx) {
	nv := 10 + c.Intn(10)
	g := c.RandCfg(nv)
	g.Node, g.MaxInc, g.MinFree = 0, c.Pick(1, 5, 30, 200), c.Pick(5, 20, 60)
	b := c.New(g)
	s := sampledSpace(c.Rand, nv, 1)
	keep := []Held{}
	bg := startGC()
	for i := 0; i < 60; i++ {
		randomGarbage(c, b, nv)
		n := kernelDAG(c, b, nv, 2, 40)
		for j := c.Pick(1, 10, 100, 400); j > 0; j-- {
			r := b.Retnode(*n)
			if r == nil {
				c.Failf("Retnode on a held node is nil")
			}
			if j%50 == 0 {
				sentinel()
			}
		}
		if c.Chance(20) {
			keep = append(keep, Held{n, c.Fn(b, s, n)[0]})
		}
		x := b.Not(n)
		b.Apply(x, b.Ithvar(c.Intn(nv)), rops[c.Intn(10)])
		if *n > 1 {
			b.Low(n)
			b.High(n)
		}
		for _, h := range keep {
			if h.n != nil && c.Chance(20) {
				if got := c.Fn(b, s, h.n)[0]; !eqLanes(got, h.fn) {
					c.Failf("held node %d denotes %s, formerly %s, after the release of other references to it and to other nodes", *h.n, laneStr(got), laneStr(h.fn))
				}
				c.Eval(hashLanes(mix(uint64(i), uint64(*h.n)), h.fn))
			}
		}
		progress.Add(1)
	}
	for _, h := range keep {
		if got := c.Fn(b, s, h.n)[0]; !eqLanes(got, h.fn) {
			c.Failf("held node %d denotes %s, formerly %s", *h.n, laneStr(got), laneStr(h.fn))
		}
	}
	bg.end()
	c.Count("Go collections in the background", bg.n.Load())
	c.Count("node-table collections observed", int64(c.Stats(b).GC))
}

// conservation: references taken and dropped in arbitrary numbers; afterwards
// a node is alive exactly when a reference to it is left.
func conservation(c *Ctx) {
	nv := 12 + c.Intn(12)
	g := c.RandCfg(nv)
	g.MinFree = c.Pick(5, 20, 40)
	b := c.New(g)
	s := sampledSpace(c.Rand, nv, 1)
	kept := []Held{}
	total := 0
	bg := startGC()
	for round := 0; round < 12; round++ {
		type grp struct{ refs []rudd.Node }
		grps := []grp{}
		for i := 0; i < 6; i++ {
			n := kernelDAG(c, b, nv, 2, 40)
			gr := grp{[]rudd.Node{n}}
			for k := c.Pick(0, 1, 5, 60, 300); k > 0; k-- {
				gr.refs = append(gr.refs, b.Retnode(*n))
				total++
			}
			grps = append(grps, gr)
		}
		// drop them in pieces, between operations that collect
		for len(grps) > 0 {
			i := c.Intn(len(grps))
			gr := &grps[i]
			k := 1 + c.Intn(1+len(gr.refs)/2)
			for ; k > 0 && len(gr.refs) > 1; k-- {
				j := c.Intn(len(gr.refs))
				gr.refs[j] = gr.refs[len(gr.refs)-1]
				gr.refs[len(gr.refs)-1] = nil
				gr.refs = gr.refs[:len(gr.refs)-1]
			}
			sentinel()
			randomGarbage(c, b, nv)
			if len(gr.refs) == 1 {
				if c.Chance(15) && len(kept) < 20 {
					kept = append(kept, Held{gr.refs[0], c.Fn(b, s, gr.refs[0])[0]})
				}
				gr.refs = nil
				grps[i] = grps[len(grps)-1]
				grps[len(grps)-1] = grp{}
				grps = grps[:len(grps)-1]
			}
			progress.Add(1)
		}
	}
	bg.end()
	Collect()
	Collect()
	st := c.Stats(b)
	if st.Debug {
		// the references that are left are the kept ones (the runtime may
		// still see a few dead ones on the stack)
		left := st.Ext - st.Reclaimed
		counted := 0
		vars := map[int]bool{0: true, 1: true} // not counted
		for v := 0; v < nv; v++ {
			vars[*b.Ithvar(v)], vars[*b.NIthvar(v)] = true, true
		}
		for _, h := range kept {
			if !vars[*h.n] {
				counted++
			}
		}
		if left < counted || left > counted+25 {
			c.Failf("%d references created and %d reclaimed, when %d are held", st.Ext, st.Reclaimed, counted)
		}
		c.Count("debug reference counts judged", 1)
	}
	if flood(c, b, 2) {
		nodes := []rudd.Node{}
		for _, h := range kept {
			nodes = append(nodes, h.n)
		}
		roots, n := extraRoots(c, b, nodes)
		if roots > 20 {
			c.Failf("%d references to nodes were created and released, except for %d, and %d nodes with %d roots that nothing holds are still active after a collection", total, len(kept), n, roots)
		}
		c.Count("histories after which only held nodes were left", 1)
	}
	for _, h := range kept {
		if got := c.Fn(b, s, h.n)[0]; !eqLanes(got, h.fn) {
			c.Failf("node %d had many references, all of them but one were dropped, it denotes %s, formerly %s", *h.n, laneStr(got), laneStr(h.fn))
		}
		c.Eval(hashLanes(uint64(*h.n), h.fn))
	}
	c.Count("references taken", int64(total))
	c.Count("Go collections in the background", bg.n.Load())
	c.Sample("%d references taken and dropped during %d Go collections, %d kept, %s", total, bg.n.Load(), len(kept), g)
}
