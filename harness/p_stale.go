package main

// Workloads around collections of the node table: ids given again to other
// functions between operations (what the caches remember must not survive),
// and operands that nothing but the running call holds.

import (
	"fmt"
	"sort"

	"github.com/dalzilio/rudd"
)

const (
	stNot = iota
	stApply
	stIte
	stExist
	stAppEx
	stReplace
	stAll
)

// substTT is f with each variable v replaced by img[v].
func substTT(f uint64, img []int, nv int) uint64 {
	var r uint64
	for x := 0; x < 1<<nv; x++ {
		y := 0
		for v := 0; v < nv; v++ {
			if x>>img[v]&1 == 1 {
				y |= 1 << v
			}
		}
		r |= f >> y & 1 << x
	}
	return r
}

// dependsTT tells whether f depends on variable v.
func dependsTT(f uint64, v, nv int) bool {
	var full uint64 = 1<<(1<<nv) - 1
	if nv == 6 {
		full = ^uint64(0)
	}
	m := lowMasks[v]
	return (f&m)>>(1<<v) != f&^m&full
}

// ttOf reads the truth table of a node (over variables 0..nv-1).
func (c *Ctx) ttOf(b *Bdd, n rudd.Node) uint64 {
	nv := b.Varnum()
	t := c.Fn(b, exactSpace(nv), n)[0][0]
	if nv < 6 {
		t &= 1<<(1<<nv) - 1
	}
	return t
}

// reuse: rounds of a few operations on fresh functions; between rounds all of
// them are released and the node table is collected, so that in the next round
// the same ids denote other functions. A result is judged by building the
// expected function with Makenode. Sets and replacers are held all along.
func reuse(c *Ctx, rounds int, kinds ...int) {
	nv := 3 + c.Intn(4)
	g := c.RandCfg(nv)
	g.MinFree = c.Pick(0, 0, 0, 1, 20)
	g.MaxInc = c.Pick(1, 5, 20, 200)
	g.Node = c.Pick(0, 40, 80, 150, 300)
	g.Cache = c.Pick(1, 2, 3, 5, 11, 30, 100, 1000, 10000)
	g.Ratio = c.Pick(0, 0, 0, 5, 50, 200)
	b := c.New(g)
	var full uint64 = 1<<(1<<nv) - 1
	if nv == 6 {
		full = ^uint64(0)
	}
	all := make([]int, nv)
	for i := range all {
		all[i] = i
	}
	var st Stats
	c.ObserveGC(b, &st)
	type vset struct {
		mask int
		l    []int
		n    rudd.Node
	}
	sets := []vset{}
	for k := 0; k < 3; k++ {
		s := vset{mask: 1 + c.Intn(1<<nv-1)}
		for v := 0; v < nv; v++ {
			if s.mask>>v&1 == 1 {
				s.l = append(s.l, v)
			}
		}
		s.n = b.Makeset(s.l)
		sets = append(sets, s)
	}
	type rep struct {
		r       rudd.Replacer
		old, nw []int
		img     []int
	}
	reps := []rep{}
	for k := 0; k < 3; k++ {
		p := c.Perm(nv)
		cnt := 1 + c.Intn(nv/2)
		r := rep{old: append([]int{}, p[:cnt]...), nw: append([]int{}, p[cnt:2*cnt]...), img: append([]int{}, all...)}
		for i := range r.old {
			r.img[r.old[i]] = r.nw[i]
		}
		var err error
		if r.r, err = b.NewReplacer(r.old, r.nw); err != nil {
			c.Failf("NewReplacer(%v, %v) returned %v", r.old, r.nw, err)
		}
		reps = append(reps, r)
	}
	type fn struct {
		n  rudd.Node
		tt uint64
	}
	build := func(t uint64) fn {
		id := BuildTT(b, all, t)
		n := b.Retnode(id)
		if n == nil {
			c.Failf("building a function of %d variables with Makenode failed: %s", nv, b.Error())
		}
		return fn{n, t}
	}
	random := func() uint64 {
		t := c.Uint64() & full
		switch c.Intn(4) {
		case 0: // fewer variables
			v := c.Intn(nv)
			t = existTT(t&c.Uint64(), 1<<v, nv, full)
		case 1:
			t = lowMasks[c.Intn(nv)] & (lowMasks[c.Intn(nv)] ^ lowMasks[c.Intn(nv)]) & full
			if c.Chance(50) {
				t = ^t & full
			}
		}
		return t
	}
	stale, reused := map[int]uint64{}, 0
	for round := 0; round < rounds; round++ {
		fs := []fn{}
		for k := 2 + c.Intn(6); k > 0; k-- {
			f := build(random())
			if o, ok := stale[*f.n]; ok && o != f.tt {
				reused++
			}
			stale[*f.n] = f.tt
			fs = append(fs, f)
		}
		set := sets[c.Intn(3)] // mostly one per round
		rp := reps[c.Intn(3)]
		for k := 1 + c.Intn(10); k > 0; k-- {
			x, y, z := fs[c.Intn(len(fs))], fs[c.Intn(len(fs))], fs[c.Intn(len(fs))]
			if c.Chance(10) {
				set, rp = sets[c.Intn(3)], reps[c.Intn(3)]
			}
			var r rudd.Node
			var want uint64
			var desc string
			kind := kinds[c.Intn(len(kinds))]
			switch kind {
			case stNot:
				desc = fmt.Sprintf("Not(%d)", *x.n)
				r, want = b.Not(x.n), ^x.tt
			case stApply:
				op := c.Intn(10)
				desc = fmt.Sprintf("Apply(%d, %d, OP%s)", *x.n, *y.n, ropNames[op])
				r, want = b.Apply(x.n, y.n, rops[op]), ttOp(op, x.tt, y.tt)
			case stIte:
				desc = fmt.Sprintf("Ite(%d, %d, %d)", *x.n, *y.n, *z.n)
				r, want = b.Ite(x.n, y.n, z.n), x.tt&y.tt|^x.tt&z.tt
			case stExist:
				desc = fmt.Sprintf("Exist(%d, Makeset%v)", *x.n, set.l)
				r, want = b.Exist(x.n, set.n), existTT(x.tt, set.mask, nv, full)
			case stAppEx:
				op := c.Intn(4)
				desc = fmt.Sprintf("AppEx(%d, %d, OP%s, Makeset%v)", *x.n, *y.n, ropNames[op], set.l)
				r, want = b.AppEx(x.n, y.n, rops[op], set.n), existTT(ttOp(op, x.tt, y.tt)&full, set.mask, nv, full)
			case stReplace:
				conflict := false
				for i := range rp.old {
					conflict = conflict || dependsTT(x.tt, rp.old[i], nv) && dependsTT(x.tt, rp.nw[i], nv)
				}
				if conflict { // build a function without the new variables
					t := x.tt
					for _, v := range rp.nw {
						t = existTT(t, 1<<v, nv, full)
					}
					x = build(t)
					fs[c.Intn(len(fs))] = x
				}
				desc = fmt.Sprintf("Replace(%d, %v -> %v)", *x.n, rp.old, rp.nw)
				r, want = b.Replace(x.n, rp.r), substTT(x.tt, rp.img, nv)
			}
			c.Step("round %d: %s", round, desc)
			want &= full
			if r == nil {
				c.Failf("%s returned nil; error: %s", desc, b.Error())
			}
			if e := build(want); *e.n != *r {
				c.Failf("%s = node %d with truth table %x (%d variables), expected %x (node %d)", desc, *r, c.ttOf(b, r), nv, want, *e.n)
			}
			c.Eval(mix(mix(x.tt, y.tt), mix(want, uint64(kind))))
			if c.Chance(30) {
				fs[c.Intn(len(fs))] = fn{r, want}
			}
		}
		for i := range fs {
			fs[i] = fn{}
		}
		fs = nil
		if c.Chance(80) {
			c.Step("all the functions are released, and the table collected")
			Collect()
			flood(c, b, 1)
		}
	}
	c.Count("ids seen again for another function", int64(reused))
	c.ObserveGC(b, &st)
}

// temporaries: long operations on operands that only the call holds, while the
// Go collector runs all the time and the node table gets full.
func temporaries(c *Ctx, trials int, kinds ...int) {
	nv := 22 + c.Intn(3)
	p := c.Perm(nv)
	free := append([]int{}, p[:2]...) // variables used by no function
	used := append([]int{}, p[2:]...)
	sort.Ints(used)
	var even, odd []int
	for i, v := range used {
		if i%2 == 0 {
			even = append(even, v)
		} else {
			odd = append(odd, v)
		}
	}
	g := defCfg(nv)
	g.Node = c.Pick(20000, 50000, 100000)
	g.MinFree = c.Pick(0, 5, 20)
	g.MaxInc = c.Pick(500, 3000, 10000)
	g.Cache = c.Pick(500, 5000, 30000)
	b := c.New(g)
	s := sampledSpace(c.Rand, nv, 4)
	var st Stats
	c.ObserveGC(b, &st)
	// random function of the variables in l, as a tree of Ite over functions of 4 variables
	base := func(l []int, k int) rudd.Node {
		n := b.False()
		for i := 0; i < k; i++ {
			q := c.Perm(len(l))[:4]
			sort.Ints(q)
			x := b.Retnode(BuildTT(b, []int{l[q[0]], l[q[1]], l[q[2]], l[q[3]]}, c.Uint64()&0xFFFF))
			n = b.Apply(n, x, c.pickOp(rudd.OPxor, rudd.OPor, rudd.OPbiimp, rudd.OPxor))
		}
		return n
	}
	bg := startGC()
	defer bg.end()
	for i := 0; i < trials; i++ {
		f, h, k := base(even, 9), base(odd, 9), base(used, 1)

		d := c.DumpRoots(b, f, h, k)
		val := func(vars [][]uint64) (x, y, z []uint64) {
			r := d.Eval(s, vars, *f, *h, *k)
			return r[0], r[1], r[2]
		}
		// the operands: the first one is large
		mk := func(i int) rudd.Node {
			switch i {
			case 1:
				return b.Apply(f, h, rudd.OPxor)
			case 2:
				return b.Apply(f, k, rudd.OPor)
			}
			return b.Apply(k, h, rudd.OPand)
		}
		// They are kept in hold until they are taken, then nothing holds them
		// but the call. The table is left with less free nodes than needed.
		var hold [4]rudd.Node
		for i := 1; i < 4; i++ {
			hold[i] = mk(i)
		}
		take := func(i int) rudd.Node {
			n := hold[i]
			hold[i] = nil
			return n
		}
		t1 := func() rudd.Node { return take(1) }
		t2 := func() rudd.Node { return take(2) }
		t3 := func() rudd.Node { return take(3) }
		size := len(c.DumpRoots(b, hold[1]).nodes)
		c.Max("largest temporary operand (nodes)", int64(size))
		leaveFree(c, b, size*c.Pick(20, 50, 50, 80, 80)/100)
		v1 := func(x, y, z []uint64) []uint64 { return lanesOp(1, x, y) }
		v2 := func(x, y, z []uint64) []uint64 { return lanesOp(2, x, z) }
		v3 := func(x, y, z []uint64) []uint64 { return lanesOp(0, z, y) }
		set := append([]int{}, c.Perm(nv)[:1+c.Intn(3)]...)
		sort.Ints(set)
		exist := func(of func(x, y, z []uint64) []uint64) []uint64 {
			r := s.constant(false)
			for a := 0; a < 1<<len(set); a++ {
				o := map[int][]uint64{}
				for i, v := range set {
					o[v] = s.constant(a>>i&1 == 1)
				}
				orInto(r, of(val(s.with(o))))
			}
			return r
		}
		var r rudd.Node
		var want []uint64
		var desc string
		kind := kinds[c.Intn(len(kinds))]
		switch kind {
		case stNot:
			desc = "Not(t1)"
			c.Step("%s", desc)
			r = b.Not(t1())
			want = lanesNot(v1(val(s.vars)))
		case stApply:
			op := c.Intn(10)
			desc = "Apply(t1, t2, OP" + ropNames[op] + ")"
			swap := c.Chance(50)
			c.Step("%s, operands swapped: %v", desc, swap)
			x, y, z := val(s.vars)
			if swap {
				r = b.Apply(t2(), t1(), rops[op])
				want = lanesOp(op, v2(x, y, z), v1(x, y, z))
			} else {
				r = b.Apply(t1(), t2(), rops[op])
				want = lanesOp(op, v1(x, y, z), v2(x, y, z))
			}
		case stIte:
			desc = "Ite(t1, t2, t3)"
			rot := c.Intn(3)
			c.Step("%s, operands rotated by %d", desc, rot)
			x, y, z := val(s.vars)
			a1, a2, a3 := v1(x, y, z), v2(x, y, z), v3(x, y, z)
			switch rot {
			case 0:
				r, want = b.Ite(t1(), t2(), t3()), lanesIte(a1, a2, a3)
			case 1:
				r, want = b.Ite(t3(), t1(), t2()), lanesIte(a3, a1, a2)
			case 2:
				r, want = b.Ite(t2(), t3(), t1()), lanesIte(a2, a3, a1)
			}
		case stExist:
			desc = fmt.Sprintf("Exist(t1, Makeset%v)", set)
			c.Step("%s", desc)
			r = b.Exist(t1(), b.Makeset(set))
			want = exist(v1)
		case stAppEx:
			op := c.Intn(4)
			desc = fmt.Sprintf("AppEx(t1, t2, OP%s, Makeset%v)", ropNames[op], set)
			c.Step("%s", desc)
			if c.Chance(50) {
				r = b.AppEx(t1(), t2(), rops[op], b.Makeset(set))
				want = exist(func(x, y, z []uint64) []uint64 { return lanesOp(op, v1(x, y, z), v2(x, y, z)) })
			} else {
				r = b.AppEx(t2(), t1(), rops[op], b.Makeset(set))
				want = exist(func(x, y, z []uint64) []uint64 { return lanesOp(op, v2(x, y, z), v1(x, y, z)) })
			}
		case stReplace:
			old := even[c.Intn(len(even))]
			desc = fmt.Sprintf("Replace(t1, [%d] -> [%d])", old, free[0])
			c.Step("%s", desc)
			rp, err := b.NewReplacer([]int{old}, []int{free[0]})
			if err != nil {
				c.Failf("NewReplacer([%d], [%d]) returned %v", old, free[0], err)
			}
			r = b.Replace(t1(), rp)
			want = v1(val(s.with(map[int][]uint64{old: s.vars[free[0]]})))
		}
		c.tick()
		if r == nil {
			c.Failf("%s returned nil; error: %s", desc, b.Error())
		}
		if got := c.Fn(b, s, r)[0]; !eqLanes(got, want) {
			c.Failf("%s, on operands that only the call holds, = node %d with values %s, expected %s", desc, *r, laneStr(got), laneStr(want))
		}
		c.Eval(hashLanes(uint64(kind), want))
		// other sets, whose nodes may have taken the ids of the former ones
		if kind == stExist || kind == stAppEx {
			for j := 0; j < 3; j++ {
				set = append([]int{}, c.Perm(nv)[:1+c.Intn(3)]...)
				sort.Ints(set)
				c.Step("Exist(f, Makeset%v)", set)
				var w []uint64
				if j == 0 {
					r = b.Exist(mk(1), b.Makeset(set))
					w = exist(v1)
				} else {
					r = b.Exist(f, b.Makeset(set))
					w = exist(func(x, y, z []uint64) []uint64 { return x })
				}
				if r == nil {
					c.Failf("Exist returned nil; error: %s", b.Error())
				}
				if got := c.Fn(b, s, r)[0]; !eqLanes(got, w) {
					c.Failf("Exist over %v, after an operation with a temporary set, = node %d with values %s, expected %s", set, *r, laneStr(got), laneStr(w))
				}
			}
		}
		if got := c.Fn(b, s, f)[0]; !eqLanes(got, d.Eval(s, s.vars, *f)[0]) {
			c.Failf("held node %d changed", *f)
		}
	}
	c.ObserveGC(b, &st)
	c.Count("operations on operands that only the call holds", int64(trials))
	c.Count("Go collections in the background", bg.n.Load())
}

// leaveFree makes unreferenced nodes until there are at most n free nodes.
func leaveFree(c *Ctx, b *Bdd, n int) {
	st := c.Stats(b)
	todo := st.Free - n
	nv := b.Varnum()
	prev := []int{*b.Ithvar(nv - 1), *b.NIthvar(nv - 1), 0, 1}
	for v := nv - 2; v >= 0 && todo > 0; v-- {
		next := []int{}
		for k := 0; k < 10000 && todo > 0; k++ {
			lo, hi := prev[c.Intn(len(prev))], prev[c.Intn(len(prev))]
			if lo == hi {
				continue
			}
			b.Initref()
			x := b.Makenode(int32(v), lo, hi)
			if x < 0 {
				c.Failf("Makenode(%d, %d, %d) failed with free nodes left", v, lo, hi)
			}
			c.tick()
			todo--
			next = append(next, x)
			if k%500 == 0 {
				now := c.Stats(b)
				if now.GC != st.GC { // all of it was collected
					return
				}
				todo = now.Free - n
			}
		}
		prev = append(next, 0, 1)
	}
}

func (c *Ctx) pickOp(v ...rudd.Operator) rudd.Operator { return v[c.Intn(len(v))] }
