package main

// C24: the same guarantees on 32-bit machines.

import (
	"runtime"
	"strconv"
	"strings"

	"github.com/dalzilio/rudd"
)

func init() {
	register("C24", Prop{quick: 600, thorough: 6000, run: runC24, cpu: 240})
}

// The monitors that run in the 32-bit programs. C11 comes often since it also
// compares its outcomes with those of a 64-bit program.
var portable = []string{"C11", "C01", "C13", "C02", "C11", "C03", "C12", "C04", "C11", "C05", "C18", "C06", "C11", "C07", "C19", "C08", "C11", "C09", "C17", "C16", "C11", "C20", "C23", "C10", "C21", "C22"}

func runC24(c *Ctx) {
	if c.idx == 3 && strconv.IntSize == 32 && !strings.Contains(theBuild, "debug") {
		manyFree(c)
		return
	}
	id := portable[c.idx%len(portable)]
	if strconv.IntSize == 64 && id != "C11" {
		return // only there for the comparison
	}
	c.idx /= len(portable)
	if id == "C11" {
		c.idx = c.no // its cases are selected by number
	}
	if id == "C22" && c.idx < 2 {
		large32(c)
		return
	}
	c.spread = spreadCase(id, c.idx)
	c.Count("cases of "+id, 1)
	props[id].run(c)
}

// large32 fills a table as large as the memory of a 32-bit program permits.
func large32(c *Ctx) {
	c.Count("cases of C22", 1)
	if c.idx == 1 {
		c.wide(1<<18 + 1)
		return
	}
	g := defCfg(32)
	total := 3000000
	if c.thorough() && !strings.Contains(theBuild, "debug") {
		total = 12000000
	}
	g.Node, g.Cache = total+200000, 20000
	c.fill(c.New(g), total, g, true)
}

// manyFree: the part of a huge table that is free is still exact.
func manyFree(c *Ctx) {
	const nv = 64
	g := defCfg(nv)
	g.Node, g.MaxInc, g.Cache = 22000000, 1000, 1000
	b := c.New(g)
	st := c.Stats(b)
	for i := uint64(0); c.Stats(b).GC == 0 && i < 1<<20; i++ {
		for j := 0; j < 64; j++ {
			b.Initref()
			n := 1
			h := mix(i*64+uint64(j), 24)
			for v := nv - 1; v >= 0; v-- {
				if h>>uint(v)&1 == 1 {
					n = b.Pushref(b.Makenode(int32(v), n, 0))
				} else {
					n = b.Pushref(b.Makenode(int32(v), 0, n))
				}
			}
			b.Popref(nv)
		}
		progress.Add(1)
	}
	now := c.Stats(b)
	if now.GC == 0 {
		c.Failf("no collection although the table was filled: %s", now.raw)
	}
	if now.Alloc != st.Alloc {
		c.Failf("a table of %d nodes grew to %d although a collection left nearly all of it free, with Minfreenodes(%d)", st.Alloc, now.Alloc, g.MinFree)
	}
	c.Eval(mix(uint64(now.Alloc), uint64(now.Free)))
	c.Max("free nodes after a collection", int64(now.Free))
	var x rudd.Node = b.Ithvar(3)
	if b.Label(x) != 3 {
		c.Failf("Ithvar(3) is not the variable 3")
	}
	runtime.GC()
}
