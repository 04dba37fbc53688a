package main

// What the library remembers between two calls must not survive collections:
// the same call again after a chosen number of collections, with nothing else
// in between, and calls on a node that has the id of one that was reclaimed.

import (
	"fmt"
	"runtime"

	"github.com/dalzilio/rudd"
)

type ager struct {
	*Ctx
	b       *Bdd
	nv      int
	full    uint64
	ids     []int // held nodes
	tts     []uint64
	lev     []int
	held    []rudd.Node
	base    []int // indices in ids of the operands
	old, nw int   // replaced variable, and the new one
	rp      rudd.Replacer
	sets    []int // indices in ids of variable sets
	masks   map[int]int
}

func (a *ager) keep(id int, tt uint64) int {
	n := a.b.Retnode(id)
	if n == nil {
		a.Failf("Retnode(%d) returned nil: %s", id, a.b.Error())
	}
	if got := a.ttOf(a.b, n); got != tt {
		a.Failf("node %d has truth table %x, expected %x (%d variables)", id, got, tt, a.nv)
	}
	a.ids, a.tts, a.held = append(a.ids, id), append(a.tts, tt), append(a.held, n)
	a.lev = append(a.lev, a.level(tt))
	return len(a.ids) - 1
}

// level of a function is the first variable it depends on.
func (a *ager) level(tt uint64) int {
	for v := 0; v < a.nv; v++ {
		if dependsTT(tt, v, a.nv) {
			return v
		}
	}
	return a.nv
}

// node makes (v ? hi : lo) for two held nodes.
func (a *ager) node(v, lo, hi int) (int, uint64) {
	a.b.Initref()
	id := a.b.Makenode(int32(v), a.ids[lo], a.ids[hi])
	if id < 0 {
		a.Failf("Makenode(%d, %d, %d) failed: %s", v, a.ids[lo], a.ids[hi], a.b.Error())
	}
	m := lowMasks[v]
	return id, (a.tts[lo]&^m | a.tts[hi]&m) & a.full
}

// one makes some node with the first n held nodes, or finds it.
func (a *ager) one(n int) (int, uint64) {
	for {
		lo, hi := a.Intn(n), a.Intn(n)
		top := min(a.lev[lo], a.lev[hi])
		if lo == hi || top == 0 {
			continue
		}
		return a.node(a.Intn(min(top, a.nv-1)), lo, hi)
	}
}

func (c *Ctx) newAger() *ager {
	nv := 5 + c.Intn(2)
	g := defCfg(nv)
	g.Node = c.Pick(0, 70, 90, 120)
	g.MinFree = c.Pick(0, 0, 5)
	g.MaxInc = c.Pick(5, 20)
	g.Cache = c.Pick(5, 20, 100, 500)
	g.Ratio = c.Pick(0, 0, 20)
	a := &ager{Ctx: c, b: c.New(g), nv: nv, full: 1<<(1<<nv) - 1, masks: map[int]int{}}
	if nv == 6 {
		a.full = ^uint64(0)
	}
	a.keep(0, 0)
	a.keep(1, a.full)
	for v := 0; v < nv; v++ {
		a.keep(*a.b.Ithvar(v), lowMasks[v]&a.full)
		a.keep(*a.b.NIthvar(v), ^lowMasks[v]&a.full)
	}
	p := c.Perm(nv)
	a.old, a.nw = p[0], p[1]
	all := make([]int, nv)
	for i := range all {
		all[i] = i
	}
	for i := 0; i < 3; i++ {
		tt := c.Uint64() & a.full
		tt = existTT(tt&c.Uint64(), 1<<a.nw, nv, a.full) // without the new variable
		if i > 0 {
			tt = existTT(tt&c.Uint64(), 1<<p[1+i], nv, a.full)
		}
		a.base = append(a.base, a.keep(BuildTT(a.b, all, tt), tt))
	}
	var err error
	if a.rp, err = a.b.NewReplacer([]int{a.old}, []int{a.nw}); err != nil {
		c.Failf("NewReplacer([%d], [%d]) returned %v", a.old, a.nw, err)
	}
	for i := 0; i < 2; i++ {
		mask := 1 + c.Intn(1<<nv-1)
		a.sets = append(a.sets, a.cube(mask))
	}
	return a
}

// cube makes the node of a set of variables with Makenode.
func (a *ager) cube(mask int) int {
	a.b.Initref()
	id, tt := 1, a.full
	for v := a.nv - 1; v >= 0; v-- {
		if mask>>v&1 == 1 {
			id = a.b.Pushref(a.b.Makenode(int32(v), 0, id))
			tt &= lowMasks[v]
		}
	}
	k := a.keep(id, tt)
	a.masks[k] = mask
	return k
}

// call runs an operation on held nodes (by index) and judges its result.
func (a *ager) call(kind, op, x, y, z int) rudd.Node {
	b, h, t := a.b, a.held, a.tts
	var r rudd.Node
	var want uint64
	var desc string
	switch kind {
	case stNot:
		desc = fmt.Sprintf("Not(%d)", a.ids[x])
		r, want = b.Not(h[x]), ^t[x]
	case stApply:
		desc = fmt.Sprintf("Apply(%d, %d, OP%s)", a.ids[x], a.ids[y], ropNames[op])
		r, want = b.Apply(h[x], h[y], rops[op]), ttOp(op, t[x], t[y])
	case stIte:
		desc = fmt.Sprintf("Ite(%d, %d, %d)", a.ids[x], a.ids[y], a.ids[z])
		r, want = b.Ite(h[x], h[y], h[z]), t[x]&t[y]|^t[x]&t[z]
	case stExist:
		desc = fmt.Sprintf("Exist(%d, %d)", a.ids[x], a.ids[z])
		r, want = b.Exist(h[x], h[z]), existTT(t[x], a.masks[z], a.nv, a.full)
	case stAppEx:
		op &= 3
		desc = fmt.Sprintf("AppEx(%d, %d, OP%s, %d)", a.ids[x], a.ids[y], ropNames[op], a.ids[z])
		r, want = b.AppEx(h[x], h[y], rops[op], h[z]), existTT(ttOp(op, t[x], t[y])&a.full, a.masks[z], a.nv, a.full)
	case stReplace:
		if dependsTT(t[x], a.nw, a.nv) {
			return nil
		}
		desc = fmt.Sprintf("Replace(%d, [%d] -> [%d])", a.ids[x], a.old, a.nw)
		img := make([]int, a.nv)
		for i := range img {
			img[i] = i
		}
		img[a.old] = a.nw
		r, want = b.Replace(h[x], a.rp), substTT(t[x], img, a.nv)
	}
	want &= a.full
	a.Step("%s", desc)
	if r == nil {
		a.Failf("%s returned nil; error: %s", desc, b.Error())
	}
	if got := a.ttOf(b, r); got != want {
		a.Failf("%s = node %d with truth table %x (%d variables), expected %x", desc, *r, got, a.nv, want)
	}
	a.Eval(mix(mix(t[x], t[y]+t[z]), mix(want, uint64(kind))))
	return r
}

// collections fills the table with garbage until n more collections.
func (a *ager) collections(n, from int) {
	st := a.Stats(a.b)
	end := st.GC + n
	made, start := 0, st.GC
	for tries := 0; st.GC < end; tries++ {
		k := max(1, st.Free-1)
		if left := end - st.GC; left > 20 && st.GC > start+20 {
			// statistics can take time linear in the number of collections
			k = max(k, made/(st.GC-start)*left/2)
		}
		k = min(k, 200000)
		made += k
		for ; k > 0; k-- {
			a.one(from)
		}
		progress.Add(1)
		gc := st.GC
		if st = a.Stats(a.b); st.GC > gc {
			tries = 0
		}
		if tries > 3000 {
			a.Inconclusive("no collection after filling the table again and again")
		}
	}
}

// ballast holds nodes until few are free, so that collections are frequent.
func (a *ager) ballast(free int) {
	n0 := len(a.ids)
	for i := 0; i < 2000 && a.Stats(a.b).Free > free; i++ {
		a.keep(a.one(n0))
	}
}

// ageing: the same calls before and after a given number of collections.
func ageing(c *Ctx, dist []int, kinds ...int) {
	c.spread = false
	a := c.newAger()
	a.ballast(c.Pick(20, 40))
	var st Stats
	c.ObserveGC(a.b, &st)
	op := c.Intn(10)
	round := func() {
		for _, k := range kinds {
			x, y, z := a.base[0], a.base[1], a.base[2]
			if k == stExist || k == stAppEx {
				z = a.sets[0]
			}
			a.call(k, op, x, y, z)
		}
	}
	for _, d := range dist {
		round()
		Collect()
		c.Step("%d collections", d)
		a.collections(d, len(a.ids))
	}
	round()
	c.ObserveGC(a.b, &st)
	c.Max("collections between two calls", int64(maxOf(dist)))
	c.Count("calls repeated after a given number of collections", int64(len(dist)*len(kinds)))
	runtime.KeepAlive(a)
}

func maxOf(l []int) int {
	m := 0
	for _, v := range l {
		m = max(m, v)
	}
	return m
}

func ageDistances(c *Ctx, far bool) []int {
	d := []int{1, 1 + c.Intn(8), 16, 32, 127, 128, 255, 256, 257, 512, 1024}
	if far {
		d = append(d, 65535, 65536)
	}
	c.Shuffle(len(d), func(i, j int) { d[i], d[j] = d[j], d[i] })
	return d
}

// reborn: an operand, a set or a result is reclaimed, and its id is given to a
// node held by the user; then the next call, on the same ids.
func reborn(c *Ctx, trials int, kinds ...int) {
	c.spread = false
	a := c.newAger()
	b := a.b
	var st Stats
	c.ObserveGC(b, &st)
	n0 := len(a.ids)
	hits := 0
	for i := 0; i < trials; i++ {
		kind, op := kinds[c.Intn(len(kinds))], c.Intn(10)
		isSet := kind == stExist || kind == stAppEx
		arg := [3]int{a.base[c.Intn(3)], a.base[c.Intn(3)], a.base[c.Intn(3)]}
		if isSet {
			arg[2] = a.sets[c.Intn(2)]
		}
		pos := c.Intn(4) // 3: the result
		target := -1
		switch {
		case pos == 2 && isSet:
			arg[2] = a.cube(1 + c.Intn(1<<a.nv-1))
			target = a.ids[arg[2]]
		case pos < 3:
			id, tt := a.one(n0)
			for j := c.Intn(3); j > 0; j-- {
				id, tt = a.one(n0)
			}
			arg[pos] = a.keep(id, tt)
			target = id
		}
		r := a.call(kind, op, arg[0], arg[1], arg[2])
		if pos == 3 && r != nil {
			target = *r
		}
		r = nil
		drop := func() {
			for k := n0; k < len(a.held); k++ {
				a.held[k] = nil
				delete(a.masks, k)
			}
			a.ids, a.tts, a.lev, a.held = a.ids[:n0], a.tts[:n0], a.lev[:n0], a.held[:n0]
		}
		drop()
		Collect()
		c.Step("collection; then other nodes, until id %d is used again", target)
		a.collections(1, n0)
		found := -1
		for j := 0; j < 200 && found < 0; j++ {
			if st := c.Stats(b); st.Free < 2 {
				break
			}
			var k int
			if pos == 2 && isSet {
				k = a.cube(1 + c.Intn(1<<a.nv-1))
			} else {
				k = a.keep(a.one(n0))
			}
			if a.ids[k] == target {
				found = k
			}
		}
		if found >= 0 {
			hits++
			if pos < 3 {
				arg[pos] = found
			}
			a.call(kind, op, arg[0], arg[1], arg[2])
		}
		drop()
	}
	c.ObserveGC(b, &st)
	c.Count("calls on an id given to another function by a collection", int64(hits))
	runtime.KeepAlive(a)
}
