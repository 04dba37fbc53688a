package main

// C21: work is bounded by the size of diagrams. C22: limits and large tables.
// C23: symbolic reachability.

import (
	"errors"
	"fmt"
	"io"
	"math/big"
	"regexp"
	"runtime"
	"strconv"
	"strings"

	"github.com/dalzilio/rudd"
)

func init() {
	register("C21", Prop{quick: 320, thorough: 9600, run: runC21, cpu: 40})
	register("C23", Prop{quick: 2400, thorough: 40000, run: runC23})
	register("C22", Prop{quick: 32, thorough: 400, run: runC22, rssMB: 14000, cpu: 400})
}

// ---------------------------------------------------------------------------
// C21

// work is what the statistics of debug builds tell about the steps done.
type work struct {
	hit, miss map[string]int
	unique    int
	ok        bool
}

var reSection = regexp.MustCompile(`^== ([A-Za-z]+)`)
var reHits = regexp.MustCompile(`^\s*Operator Hits:\s+(-?\d+)`)
var reMiss = regexp.MustCompile(`^\s*Operator Miss:\s+(-?\d+)`)

func (c *Ctx) Work(b *Bdd) work {
	st := c.Stats(b)
	w := work{hit: map[string]int{}, miss: map[string]int{}, unique: st.UAccess, ok: st.Debug}
	sec := ""
	for _, l := range strings.Split(st.raw, "\n") {
		if m := reSection.FindStringSubmatch(l); m != nil {
			sec = m[1]
		}
		if m := reHits.FindStringSubmatch(l); m != nil {
			w.hit[sec], _ = strconv.Atoi(m[1])
		}
		if m := reMiss.FindStringSubmatch(l); m != nil {
			w.miss[sec], _ = strconv.Atoi(m[1])
		}
	}
	return w
}

func (w work) sub(o work) (miss, hit, unique int) {
	for k, v := range w.miss {
		miss += v - o.miss[k]
	}
	for k, v := range w.hit {
		hit += v - o.hit[k]
	}
	return miss, hit, w.unique - o.unique
}

// nodecount is the number of nodes of a diagram, constants included.
func (c *Ctx) nodecount(b *Bdd, ns ...rudd.Node) int {
	return len(c.DumpRoots(b, ns...).nodes) + 2
}

// bounded runs an operation and judges the number of steps it took.
func (c *Ctx) bounded(b *Bdd, what string, bound int, repeat bool, f func() rudd.Node) rudd.Node {
	c.Step("%s, at most %d steps", what, bound)
	s0 := c.Stats(b)
	w0 := c.Work(b)
	res := f()
	progress.Add(1)
	w1 := c.Work(b)
	s1 := c.Stats(b)
	if res == nil {
		c.Failf("%s returned nil (%s)", what, b.Error())
	}
	if s1.GC != s0.GC {
		c.Count("operations with a collection, not judged", 1)
		return res
	}
	miss, hit, unique := w1.sub(w0)
	c.Eval(mix(mix(hashStr(what), uint64(bound)), uint64(c.idx)))
	c.Count("operations completed", 1)
	if w1.ok {
		c.Count("operations with steps counted", 1)
		c.Count("steps counted", int64(miss))
		k := what
		if i := strings.IndexByte(k, ' '); i > 0 {
			k = k[:i]
		}
		c.Max("thousandths of the bound reached by "+k, int64(1000*max(miss, unique)/bound))
		if miss > bound || unique > 2*bound {
			c.Failf("%s took %d recursive steps and %d node lookups, the bound from the sizes of diagrams is %d", what, miss, unique, bound)
		}
		if hit > 4*bound {
			c.Failf("%s looked up %d results in the caches, the bound from the sizes of diagrams is %d steps", what, hit, bound)
		}
	}
	if repeat {
		c.Step("again: %s", what)
		r2 := f()
		w2 := c.Work(b)
		s2 := c.Stats(b)
		if r2 == nil || *r2 != *res {
			c.Failf("%s, done twice, gives different nodes", what)
		}
		if s2.Produced != s1.Produced {
			c.Failf("%s, done again at once, produced %d nodes", what, s2.Produced-s1.Produced)
		}
		if w2.ok {
			miss, hit, unique := w2.sub(w1)
			c.Count("immediate repetitions judged", 1)
			if miss > 0 || unique > 0 || hit > 6 {
				c.Failf("%s, done again at once, took %d recursive steps, %d node lookups and %d cache lookups", what, miss, unique, hit)
			}
		}
	}
	return res
}

func hashStr(s string) uint64 {
	h := uint64(77)
	for i := 0; i < len(s); i++ {
		h = mix(h, uint64(s[i]))
	}
	return h
}

// layered builds a random function over the levels given, with at most w
// nodes per level and (nearly) as many paths as possible.
func (c *Ctx) layered(b *Bdd, levels []int, w int) rudd.Node {
	b.Initref()
	below := []int{0, 1}
	for k := len(levels) - 1; k >= 0; k-- {
		n := w
		if k == 0 {
			n = 1
		}
		// every node of the layer below is used when possible, to keep the
		// number of paths high
		perm := c.Perm(len(below))
		layer := []int{}
		for i := 0; i < n; i++ {
			lo := below[perm[(2*i)%len(below)]]
			hi := below[perm[(2*i+1)%len(below)]]
			if c.Chance(50) {
				hi = below[c.Intn(len(below))]
			}
			for t := 0; lo == hi && t < 20; t++ {
				hi = below[c.Intn(len(below))]
			}
			if lo == hi {
				continue
			}
			x := b.Makenode(int32(levels[k]), lo, hi)
			if x < 0 {
				c.Failf("Makenode returned %d", x)
			}
			dup := false
			for _, y := range layer {
				dup = dup || y == x
			}
			if dup {
				continue
			}
			b.Pushref(x)
			layer = append(layer, x)
		}
		if len(layer) == 1 && k > 0 {
			// keep two nodes so that the layer above exists
			x := b.Pushref(b.Makenode(int32(levels[k]), below[1], below[0]))
			if x == layer[0] {
				x = b.Pushref(b.Makenode(int32(levels[k]), below[0], below[1]))
			}
			layer = append(layer, x)
		}
		below = layer
	}
	n := b.Retnode(below[0])
	b.Initref()
	if n == nil {
		c.Failf("Retnode returned nil")
	}
	return n
}

// symmetric builds the function with value vec[k] when k variables of the
// levels given are true; it has about n*n/2 nodes.
func (c *Ctx) symmetric(b *Bdd, levels []int, vec []bool) rudd.Node {
	b.Initref()
	n := len(levels)
	cur := make([]int, n+1)
	for k := range cur {
		if vec[k] {
			cur[k] = 1
		}
	}
	for l := n - 1; l >= 0; l-- {
		next := make([]int, l+1)
		for k := 0; k <= l; k++ {
			next[k] = b.Pushref(b.Makenode(int32(levels[l]), cur[k], cur[k+1]))
			if next[k] < 0 {
				c.Failf("Makenode returned %d", next[k])
			}
		}
		cur = next
	}
	r := b.Retnode(cur[0])
	b.Initref()
	if r == nil {
		c.Failf("Retnode returned nil")
	}
	return r
}

// supports draws the levels on which k functions depend: the same levels,
// alternating ones, blocks one above the other, random ones.
func (c *Ctx) supports(n, k int) [][]int {
	r := make([][]int, k)
	switch c.Intn(4) {
	case 0:
		for i := range r {
			r[i] = seq(0, n, 1)
		}
	case 1:
		for i := range r {
			r[i] = seq(i, n, k)
		}
	case 2:
		p := c.Perm(k)
		for i := range r {
			r[i] = seq(p[i]*n/k, (p[i]+1)*n/k, 1)
		}
	case 3:
		for i := range r {
			from, to := c.Intn(n/2), n/2+1+c.Intn(n/2)
			for l := from; l < to; l++ {
				if c.Chance(70) || l == from {
					r[i] = append(r[i], l)
				}
			}
		}
	}
	return r
}

// tuples counts the tuples of nodes met when several diagrams are traversed
// together, each tuple once: what an operation with a cache has to visit.
func (c *Ctx) tuples(b *Bdd, ns ...rudd.Node) int {
	d := c.DumpRoots(b, ns...)
	type tup [3]int
	var first tup
	for k, n := range ns {
		first[k] = *n
	}
	seen := map[tup]bool{first: true}
	todo := []tup{first}
	for len(todo) > 0 {
		t := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		lv := d.nv
		for _, x := range t {
			if x > 1 {
				lv = min(lv, d.get(x).level)
			}
		}
		if lv == d.nv {
			continue
		}
		lo, hi := t, t
		for k, x := range t {
			if x > 1 {
				if r := d.get(x); r.level == lv {
					lo[k], hi[k] = r.low, r.high
				}
			}
		}
		for _, u := range []tup{lo, hi} {
			if !seen[u] {
				seen[u] = true
				todo = append(todo, u)
			}
		}
	}
	return len(seen)
}

func (c *Ctx) randVec(n int) []bool {
	v := make([]bool, n+1)
	switch c.Intn(4) {
	case 0: // threshold
		t := n/3 + c.Intn(n/3+1)
		for k := range v {
			v[k] = k >= t
		}
	case 1: // modulo
		m := 2 + c.Intn(3)
		for k := range v {
			v[k] = k%m == 0
		}
	default:
		for k := range v {
			v[k] = c.Chance(50)
		}
	}
	return v
}

func seq(from, to, step int) []int {
	r := []int{}
	for i := from; i < to; i += step {
		r = append(r, i)
	}
	return r
}

func runC21(c *Ctx) {
	n := 40 + c.Intn(60)
	switch (c.idx + c.idx/8) % 8 {
	case 0, 1: // Not and binary operators on random layered diagrams
		b := c.bigBDD(n, 0)
		ls := c.supports(n, 2)
		f := c.layered(b, ls[0], 2+c.Intn(7))
		g := c.layered(b, ls[1], 2+c.Intn(7))
		sf, sg := c.nodecount(b, f), c.nodecount(b, g)
		pairs := 3*c.tuples(b, f, g) + 50
		c.bounded(b, "Not", 2*sf+20, true, func() rudd.Node { return b.Not(f) })
		for op := 0; op < 10; op++ {
			c.bounded(b, "Apply "+ropNames[op], pairs, true, func() rudd.Node { return b.Apply(f, g, rops[op]) })
		}
		c.bounded(b, "And", pairs, true, func() rudd.Node { return b.And(f, g) })
		c.bounded(b, "Or", pairs, true, func() rudd.Node { return b.Or(f, g) })
		c.bounded(b, "Imp", pairs, true, func() rudd.Node { return b.Imp(f, g) })
		c.bounded(b, "Equiv", pairs, true, func() rudd.Node { return b.Equiv(f, g) })
		if c.Chance(20) {
			c.Sample("operators on layered diagrams of %d and %d nodes over %d variables", sf, sg, n)
		}
		runtime.KeepAlive(f)
		runtime.KeepAlive(g)
	case 2: // Ite
		b := c.bigBDD(n, 0)
		ls := c.supports(n, 3)
		f := c.layered(b, ls[0], 2+c.Intn(3))
		g := c.layered(b, ls[1], 2+c.Intn(3))
		h := c.layered(b, ls[2], 2+c.Intn(3))
		sf := c.nodecount(b, f)
		bound := 3*c.tuples(b, f, g, h) + 50
		pairs := 3*c.tuples(b, f, g) + 50
		c.bounded(b, "Ite", bound, true, func() rudd.Node { return b.Ite(f, g, h) })
		c.bounded(b, "Ite ghf", bound, true, func() rudd.Node { return b.Ite(g, h, f) })
		c.bounded(b, "Ite fgf", pairs, true, func() rudd.Node { return b.Ite(f, g, f) })
		c.bounded(b, "Ite ffg", pairs, true, func() rudd.Node { return b.Ite(f, f, g) })
		c.bounded(b, "Ite f1g", pairs, true, func() rudd.Node { return b.Ite(f, b.True(), g) })
		c.bounded(b, "Ite f0g", pairs, true, func() rudd.Node { return b.Ite(f, b.False(), g) })
		c.bounded(b, "Ite fg0", pairs, true, func() rudd.Node { return b.Ite(f, g, b.False()) })
		c.bounded(b, "Ite fg1", pairs, true, func() rudd.Node { return b.Ite(f, g, b.True()) })
		c.bounded(b, "Ite f01", 3*sf+50, true, func() rudd.Node { return b.Ite(f, b.False(), b.True()) })
		runtime.KeepAlive(f)
		runtime.KeepAlive(g)
		runtime.KeepAlive(h)
	case 3, 4: // quantification
		b := c.bigBDD(n, 0)
		ls := c.supports(n, 2)
		f := c.layered(b, ls[0], 2+c.Intn(5))
		g := c.layered(b, ls[1], 2+c.Intn(5))
		sf, sg := c.nodecount(b, f), c.nodecount(b, g)
		pairs := 3*c.tuples(b, f, g) + 50
		one := b.Makeset([]int{c.Intn(n)})
		c.bounded(b, "Exist over one variable", 2*sf+2*sf*sf+100, true, func() rudd.Node { return b.Exist(f, one) })
		k := n/2 + c.Intn(n/2)
		low := b.Makeset(seq(k, n, 1))
		c.bounded(b, "Exist over the last variables", 3*sf+100, true, func() rudd.Node { return b.Exist(f, low) })
		for op := 0; op < 4; op++ {
			c.bounded(b, "AppEx over the last variables "+ropNames[op], pairs, true, func() rudd.Node { return b.AppEx(f, g, rops[op], low) })
		}
		c.bounded(b, "AndExist over the last variables", pairs, true, func() rudd.Node { return b.AndExist(f, g, low) })
		if last := b.Makeset([]int{n - 1 - c.Intn(3)}); last != nil {
			for op := 0; op < 4; op++ {
				c.bounded(b, "AppEx over one variable "+ropNames[op], 10*sf*sg+100, true, func() rudd.Node { return b.AppEx(f, g, rops[op], last) })
			}
		}
		// symmetric functions, with any set of variables
		m := 22 + c.Intn(14)
		vs := []int{}
		for v := 0; v < m; v++ {
			if c.Chance(50) {
				vs = append(vs, v)
			}
		}
		if len(vs) == 0 {
			vs = []int{0}
		}
		x := c.symmetric(b, seq(0, m, 1), c.randVec(m))
		y := c.symmetric(b, seq(0, m, 1), c.randVec(m))
		set := b.Makeset(vs)
		c.bounded(b, "Exist on symmetric functions", 2*m*m*m+1000, true, func() rudd.Node { return b.Exist(x, set) })
		for op := 0; op < 4; op++ {
			c.bounded(b, "AppEx on symmetric functions "+ropNames[op], 12*m*m*m+1000, true, func() rudd.Node { return b.AppEx(x, y, rops[op], set) })
		}
		runtime.KeepAlive(one)
		runtime.KeepAlive(low)
	case 5: // Replace
		c.boundedReplace(n)
	case 6: // diagrams with 2^200 paths
		c.manyPaths()
	case 7: // diagrams with many nodes
		c.manyNodes()
	}
}

// bigBDD returns a BDD with large tables, so that there is no collection and
// few collisions in the caches.
func (c *Ctx) bigBDD(n, nodes int) *Bdd {
	g := defCfg(n)
	if nodes == 0 {
		nodes = 300000
	}
	g.Node = nodes
	g.Cache = c.Pick(200000, 300000, 400000)
	return c.New(g)
}

// counting is a user-written replacer that counts the queries.
type counting struct {
	r rudd.Replacer
	n int
}

func (r *counting) Replace(l int32) (int32, bool) { r.n++; return r.r.Replace(l) }
func (r *counting) Id() int                       { return r.r.Id() }

func (c *Ctx) boundedReplace(n int) {
	b := c.bigBDD(2*n, 0)
	replacer := func(o, w []int) rudd.Replacer {
		r, err := b.NewReplacer(o, w)
		if err != nil {
			c.Failf("NewReplacer(%v, %v) returned %v", o, w, err)
		}
		return r
	}
	// variables keep their order
	f := c.layered(b, seq(0, 2*n, 2), 2+c.Intn(7))
	sf := c.nodecount(b, f)
	r := replacer(seq(0, 2*n, 2), seq(1, 2*n, 2))
	res := c.bounded(b, "Replace without change of order", 3*sf+100, true, func() rudd.Node { return b.Replace(f, r) })
	if k := c.nodecount(b, res); k != sf {
		c.Failf("Replace without change of order on a diagram of %d nodes gives %d nodes", sf, k)
	}
	cr := &counting{r: replacer(seq(0, 2*n, 2), seq(1, 2*n, 2))}
	r2 := c.bounded(b, "Replace with a user-defined replacer", 3*sf+100, false, func() rudd.Node { return b.Replace(f, cr) })
	if *r2 != *res {
		c.Failf("Replace with a user-defined replacer gives another node")
	}
	if cr.n > 8*sf+100 {
		c.Failf("Replace on a diagram of %d nodes asked the replacer %d times", sf, cr.n)
	}
	c.Max("thousandths of the bound of queries to the replacer", int64(1000*cr.n/(8*sf+100)))
	// one variable moves
	w := 2 + c.Intn(3)
	h := c.layered(b, seq(0, 2*n, 2), w)
	sh := c.nodecount(b, h)
	from, to := 2*c.Intn(n), 1+2*c.Intn(n)
	mv := replacer([]int{from}, []int{to})
	res = c.bounded(b, "Replace moving one variable", 20*sh*sh+100, true, func() rudd.Node { return b.Replace(h, mv) })
	// symmetric functions: every permutation of the variables is small
	m := 22 + c.Intn(10)
	vec := c.randVec(m)
	x := c.symmetric(b, seq(0, 2*m, 2), vec)
	y := c.symmetric(b, seq(1, 2*m, 2), vec)
	perm := c.Perm(m)
	news := make([]int, m)
	for k := range news {
		news[k] = 2*perm[k] + 1
		if c.idx%3 == 0 { // reverse
			news[k] = 2*(m-1-k) + 1
		}
	}
	rp := replacer(seq(0, 2*m, 2), news)
	sx := c.nodecount(b, x)
	res = c.bounded(b, "Replace with a permutation", 50*sx*sx+1000, true, func() rudd.Node { return b.Replace(x, rp) })
	if *res != *y {
		c.Failf("renaming the variables of a symmetric function gives node %d, expected %d", *res, *y)
	}
	c.Count("permutations of symmetric functions judged", 1)
	runtime.KeepAlive(y)
	runtime.KeepAlive(f)
	runtime.KeepAlive(h)
}

// manyPaths runs everything on diagrams with more paths than could be visited.
func (c *Ctx) manyPaths() {
	n := 150 + c.Intn(150)
	g := defCfg(n)
	g.Node = c.Pick(0, 20000, 50000)
	g.Cache = 100000
	b := c.New(g)
	f := c.layered(b, seq(0, n, 1), 2+c.Intn(6))
	h := c.layered(b, seq(0, n, 1), 2+c.Intn(6))
	c.Step("Satcount on a diagram with about 2^%d paths", n)
	k := b.Satcount(f)
	c.Step("Satcount of the negation")
	sum := new(big.Int).Add(k, b.Satcount(b.Not(f)))
	if sum.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(n))) != 0 {
		c.Failf("Satcount of a function and its negation over %d variables do not add up to 2^%d", n, n)
	}
	c.Eval(mix(uint64(c.idx), 61))
	c.Step("Allnodes")
	d := c.DumpRoots(b, f, h)
	d.WellFormed()
	c.Eval(mix(uint64(c.idx), 62))
	c.Step("Allnodes on the whole table")
	c.DumpAll(b).WellFormed()
	c.Step("Print and Dot")
	b.Print(io.Discard, f)
	b.Dot(io.Discard, f, h)
	c.Step("a traversal stopped early")
	stop := errors.New("stop")
	cnt := 0
	b.Allnodes(func(id, level, low, high int) error {
		if cnt++; cnt > 20 {
			return stop
		}
		return nil
	}, f)
	cnt = 0
	c.Step("an enumeration stopped early")
	if err := b.Allsat(func([]int) error {
		if cnt++; cnt > 1000 {
			return stop
		}
		return nil
	}, f); err != stop || cnt != 1001 {
		c.Failf("Allsat stopped at the 1001st call returned %v after %d calls", err, cnt)
	}
	c.Step("collections of the node table with deep diagrams of many paths")
	gc := c.Stats(b).GC
	churn(c, b, gc+2)
	c.Count("collections with many paths", int64(c.Stats(b).GC-gc))
	c.Eval(mix(uint64(c.idx), 63))
	if k2 := b.Satcount(f); k2.Cmp(k) != 0 {
		c.Failf("Satcount changed from %v to %v after collections", k, k2)
	}
	c.Step("operations on diagrams with many paths")
	x := b.And(f, h)
	c.Step("or")
	y := b.Or(f, h)
	c.Step("count")
	s1 := new(big.Int).Add(b.Satcount(x), b.Satcount(y))
	s2 := new(big.Int).Add(b.Satcount(f), b.Satcount(h))
	if s1.Cmp(s2) != 0 {
		c.Failf("|f and g| + |f or g| is %v, |f| + |g| is %v", s1, s2)
	}
	c.Step("equality, labels and cofactors")
	b.Equal(x, y)
	b.Low(f)
	b.High(f)
	b.Scanset(b.Makeset(seq(0, n, 1)))
	c.Count("diagrams with more than 2^150 paths", 2)
	runtime.KeepAlive(h)
}

// manyNodes runs the traversals on a diagram with many nodes: a quadratic
// algorithm would not come back.
func (c *Ctx) manyNodes() {
	m := 1000
	if c.thorough() {
		m = 1400
	}
	b := c.bigBDD(m, m*m/2+10000)
	vec := make([]bool, m+1)
	for k := range vec {
		vec[k] = c.Chance(50)
	}
	f := c.symmetric(b, seq(0, m, 1), vec)
	c.Step("Allnodes on about %d nodes", m*m/2)
	cnt := 0
	b.Allnodes(func(id, level, low, high int) error { cnt++; return nil }, f)
	cnt2 := 0
	c.Step("Allnodes on all the nodes")
	b.Allnodes(func(id, level, low, high int) error { cnt2++; return nil })
	if cnt < m*m/4 || cnt2 < cnt {
		c.Failf("Allnodes visited %d nodes below a function with about %d nodes, and %d in the table", cnt, m*m/2, cnt2)
	}
	c.Count("nodes visited in large diagrams", int64(cnt+cnt2))
	c.Max("nodes in one diagram", int64(cnt))
	if m <= 1000 {
		c.Step("Satcount on about %d nodes", m*m/2)
		k := b.Satcount(f)
		want := new(big.Int)
		bin := big.NewInt(1)
		for i := 0; i <= m; i++ {
			if vec[i] {
				want.Add(want, bin)
			}
			bin = new(big.Int).Mul(bin, big.NewInt(int64(m-i)))
			bin.Div(bin, big.NewInt(int64(i+1)))
		}
		if k.Cmp(want) != 0 {
			c.Failf("Satcount of a symmetric function over %d variables gives %v, expected %v", m, k, want)
		}
	}
	c.Step("Not on about %d nodes", m*m/2)
	r := c.bounded(b, "Not", 2*(cnt+2)+20, true, func() rudd.Node { return b.Not(f) })
	c.Step("Dot on about %d nodes", m*m/2)
	b.Dot(io.Discard, f)
	c.Step("apply on about %d nodes", m*m/2)
	if x := b.Apply(f, r, rudd.OPxor); x == nil || *x != 1 {
		c.Failf("f xor not f is not True")
	}
	c.Eval(mix(uint64(c.idx), 64))
}

// ---------------------------------------------------------------------------
// C22

func runC22(c *Ctx) {
	switch {
	case c.idx == 0 || (c.thorough() && c.idx%100 == 0):
		c.hugeTable()
	case c.idx == 1 || (c.thorough() && c.idx%50 == 1):
		c.wide(1<<21 - 1)
	case c.idx%8 == 2:
		c.growing()
	case c.idx%8 == 3:
		c.queens()
	default:
		n := 0
		switch c.Intn(4) {
		case 0:
			n = 1 + c.Intn(12)
		case 1:
			n = 1<<uint(4+c.Intn(14)) + c.Intn(5) - 2
		case 2:
			n = 1 + c.Intn(1<<uint(1+c.Intn(17)))
		case 3:
			n = 1<<uint(14+c.Intn(6)) + c.Intn(5) - 2
		}
		c.wide(n)
	}
}

// wide judges operations over a few variables scattered among n, some of them
// with indices that differ by one bit. Functions are 64-bit truth tables.
func (c *Ctx) wide(n int) {
	g := defCfg(n)
	if n < 1000 && c.Chance(50) {
		g = c.RandCfg(n)
		g.Cache += 500
	}
	b := c.New(g)
	c.Max("number of variables", int64(n))
	if b.Varnum() != n {
		c.Failf("Varnum is %d after New(%d)", b.Varnum(), n)
	}
	// interesting levels
	lset := map[int]bool{}
	add := func(l int) {
		if l >= 0 && l < n {
			lset[l] = true
		}
	}
	for j := 0; j < 22; j++ {
		add(1 << uint(j))
		add(1<<uint(j) - 1)
		add(n - 1 - 1<<uint(j))
	}
	r := c.Intn(n)
	add(r)
	for j := 0; j < 22; j++ {
		add(r ^ 1<<uint(j))
	}
	add(0)
	add(1)
	add(n - 1)
	add(n - 2)
	levels := []int{}
	for l := range lset {
		levels = append(levels, l)
	}
	sortInts(levels)
	// variables are distinct and have the right level
	ids := map[int]int{}
	for _, l := range levels {
		for k, v := range []rudd.Node{b.Ithvar(l), b.NIthvar(l)} {
			if v == nil {
				c.Failf("variable %d of %d is nil", l, n)
			}
			if o, ok := ids[*v]; ok {
				c.Failf("literals of variables %d and %d are the same node %d", o, l, *v)
			}
			ids[*v] = l
			if b.Label(v) != l || *b.Low(v) != k || *b.High(v) != 1-k {
				c.Failf("variable %d has label %d, low %d, high %d", l, b.Label(v), *b.Low(v), *b.High(v))
			}
		}
		c.Eval(mix(uint64(n), uint64(l)))
	}
	// nodes that differ only by their level
	if m := len(levels); m > 3 {
		x, y := *b.Ithvar(levels[m-1]), *b.Ithvar(levels[m-2])
		seen := map[int]int{}
		b.Initref()
		for _, l := range levels[:m-2] {
			id := b.Pushref(b.Makenode(int32(l), x, y))
			if o, ok := seen[id]; ok {
				c.Failf("the nodes with the same branches at levels %d and %d are the same node %d", o, l, id)
			}
			seen[id] = l
		}
		for id, l := range seen {
			nd := b.Retnode(id)
			if b.Label(nd) != l || *b.Low(nd) != x || *b.High(nd) != y {
				c.Failf("Makenode(%d, %d, %d) has label %d, low %d and high %d", l, x, y, b.Label(nd), *b.Low(nd), *b.High(nd))
			}
		}
		b.Initref()
		c.Count("levels that differ by one bit, kept distinct", int64(len(seen)))
	}
	// operations over at most 6 of them
	for round := 0; round < 3; round++ {
		k := min(6, len(levels))
		p := c.Perm(len(levels))[:k]
		vs := []int{}
		for _, i := range p {
			vs = append(vs, levels[i])
		}
		sortInts(vs)
		ops := 60
		if n > 300000 {
			ops = 30
		}
		c.ttOps(b, vs, ops)
	}
	c.Count("numbers of variables tried", 1)
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// tt reads a function over at most 6 variables as a truth table.
func (c *Ctx) tt(b *Bdd, vs []int, n rudd.Node) uint64 {
	if n == nil {
		c.Failf("unexpected nil node (%s)", b.Error())
	}
	d := c.DumpRoots(b, n)
	d.WellFormed()
	idx := map[int]int{}
	for k, v := range vs {
		idx[v] = k
	}
	memo := map[int]uint64{0: 0, 1: ^uint64(0)}
	var rec func(id int) uint64
	rec = func(id int) uint64 {
		if r, ok := memo[id]; ok {
			return r
		}
		x := d.get(id)
		k, ok := idx[x.level]
		if !ok {
			c.Failf("the result depends on variable %d, its operands depend on %v", x.level, vs)
		}
		r := lowMasks[k]&rec(x.high) | ^lowMasks[k]&rec(x.low)
		memo[id] = r
		return r
	}
	return rec(*n)
}

func ttExist(f uint64, k int) uint64 {
	m := lowMasks[k]
	s := uint(1) << uint(k)
	f1 := f & m
	f0 := f & ^m
	return f1 | f1>>s | f0 | f0<<s
}

// ttOps runs operations on functions over the variables given (at most 6).
func (c *Ctx) ttOps(b *Bdd, vs []int, ops int) {
	n := b.Varnum()
	nodes := []rudd.Node{b.True(), b.False()}
	tts := []uint64{^uint64(0), 0}
	for k, v := range vs {
		nodes = append(nodes, b.Ithvar(v), b.NIthvar(v))
		tts = append(tts, lowMasks[k], ^lowMasks[k])
	}
	all := uint64(1)<<(1<<uint(len(vs))) - 1
	if len(vs) == 6 {
		all = ^uint64(0)
	}
	subset := func() ([]int, []int) {
		ks, s := []int{}, []int{}
		for k, v := range vs {
			if c.Chance(40) {
				ks = append(ks, k)
				s = append(s, v)
			}
		}
		return ks, s
	}
	for i := 0; i < ops; i++ {
		x, y, z := c.Intn(len(nodes)), c.Intn(len(nodes)), c.Intn(len(nodes))
		var res rudd.Node
		var want uint64
		what := ""
		switch c.Intn(9) {
		case 0:
			res, want, what = b.Not(nodes[x]), ^tts[x], "Not"
		case 1, 2, 3:
			op := c.Intn(10)
			what = ropNames[op]
			res, want = b.Apply(nodes[x], nodes[y], rops[op]), lanesOp(op, []uint64{tts[x]}, []uint64{tts[y]})[0]
		case 4:
			res, want, what = b.Ite(nodes[x], nodes[y], nodes[z]), tts[x]&tts[y]|^tts[x]&tts[z], "Ite"
		case 5:
			ks, s := subset()
			res, want, what = b.Exist(nodes[x], b.Makeset(s)), tts[x], fmt.Sprint("Exist over ", s)
			for _, k := range ks {
				want = ttExist(want, k)
			}
		case 6:
			ks, s := subset()
			op := c.Intn(4)
			res, want = b.AppEx(nodes[x], nodes[y], rops[op], b.Makeset(s)), lanesOp(op, []uint64{tts[x]}, []uint64{tts[y]})[0]
			what = fmt.Sprint("AppEx ", ropNames[op], " over ", s)
			for _, k := range ks {
				want = ttExist(want, k)
			}
		case 7: // swap the meaning of variables: only those x does not depend on can be new ones
			k1, k2 := c.Intn(len(vs)), c.Intn(len(vs))
			if k1 == k2 {
				continue
			}
			f := ttExist(tts[x], k2)
			src := b.Exist(nodes[x], b.Makeset([]int{vs[k2]}))
			r, err := b.NewReplacer([]int{vs[k1]}, []int{vs[k2]})
			if err != nil {
				c.Failf("NewReplacer([%d], [%d]) with %d variables returned %v", vs[k1], vs[k2], n, err)
			}
			what = fmt.Sprintf("Replace %d by %d", vs[k1], vs[k2])
			res = b.Replace(src, r)
			f1 := f & lowMasks[k1]
			f1 |= f1 >> (uint(1) << uint(k1))
			f0 := f & ^lowMasks[k1]
			f0 |= f0 << (uint(1) << uint(k1))
			want = lowMasks[k2]&f1 | ^lowMasks[k2]&f0
		case 8:
			ks, s := subset()
			pol := []bool{}
			want = ^uint64(0)
			for _, k := range ks {
				p := c.Chance(50)
				pol = append(pol, p)
				if p {
					want &= lowMasks[k]
				} else {
					want &= ^lowMasks[k]
				}
			}
			if len(s) == 0 {
				continue
			}
			what = fmt.Sprint("Makecube ", s, pol)
			res = b.Makecube(s, pol)
		}
		c.Step("%s, with %d variables", what, n)
		got := c.tt(b, vs, res)
		c.Eval(mix(mix(uint64(n), want), hashStr(what)))
		c.Count("results judged over scattered variables", 1)
		if got != want {
			c.Failf("%s over %d variables, functions of %v: %016x, expected %016x", what, n, vs, got, want)
		}
		for j, o := range nodes {
			if (tts[j] == want) != (*o == *res) {
				c.Failf("nodes %d and %d over %d variables: same function is %v, same node is %v", *o, *res, n, tts[j] == want, *o == *res)
			}
		}
		nodes, tts = append(nodes, res), append(tts, want)
		if i%12 == 0 {
			k := b.Satcount(res)
			cnt := 0
			for w := want & all; w != 0; w &= w - 1 {
				cnt++
			}
			e := new(big.Int).Lsh(big.NewInt(int64(cnt)), uint(n-len(vs)))
			if k.Cmp(e) != 0 {
				c.Failf("Satcount over %d variables has %d bits, expected %d * 2^%d", n, k.BitLen(), cnt, n-len(vs))
			}
			c.Count("counts judged over scattered variables", 1)
		}
		if i%20 == 7 && n < 300000 || i == 7 {
			c.satOver(b, vs, res, want&all)
		}
	}
}

// satOver checks an enumeration against a truth table.
func (c *Ctx) satOver(b *Bdd, vs []int, n rudd.Node, want uint64) {
	idx := map[int]int{}
	for k, v := range vs {
		idx[v] = k
	}
	var got uint64
	err := b.Allsat(func(p []int) error {
		progress.Add(1)
		if len(p) != b.Varnum() {
			c.Failf("Allsat gives %d values for %d variables", len(p), b.Varnum())
		}
		cube := ^uint64(0)
		for l, v := range p {
			if v == -1 {
				continue
			}
			k, ok := idx[l]
			if !ok {
				c.Failf("Allsat gives value %d to variable %d, the function depends on %v", v, l, vs)
			}
			if v == 1 {
				cube &= lowMasks[k]
			} else {
				cube &= ^lowMasks[k]
			}
		}
		if len(vs) < 6 {
			cube &= 1<<(1<<uint(len(vs))) - 1
		}
		if got&cube != 0 {
			c.Failf("Allsat gives overlapping assignments")
		}
		got |= cube
		return nil
	}, n)
	if err != nil || got != want {
		c.Failf("Allsat over %d variables gives %016x (error %v), expected %016x", b.Varnum(), got, err, want)
	}
	c.Count("enumerations judged over scattered variables", 1)
}

// bank holds nodes with known functions on 64 assignments.
type bank struct {
	c    *Ctx
	b    *Bdd
	nv   int
	vars []uint64
	pool []int    // ids of the base functions
	fn   []uint64 // and their values
	low  int      // level of the pool
}

// newBank makes k base functions over the levels [from, nv). They stay on the
// reference stack.
func (c *Ctx) newBank(b *Bdd, from, k int) *bank {
	x := &bank{c: c, b: b, nv: b.Varnum(), low: from}
	for i := 0; i < x.nv; i++ {
		x.vars = append(x.vars, c.Uint64())
	}
	byLevel := make([][]int, x.nv+1)
	x.pool, x.fn = []int{0, 1}, []uint64{0, ^uint64(0)}
	byLevel[x.nv] = []int{0, 1}
	known := map[int]bool{0: true, 1: true}
	b.Initref()
	per := k/(x.nv-from) + 1
	for l := x.nv - 1; l >= from; l-- {
		m := len(x.pool)
		for i := 0; i < per; i++ {
			p, q := c.Intn(m), c.Intn(m)
			if p == q {
				continue
			}
			id := b.Makenode(int32(l), x.pool[p], x.pool[q])
			if id < 0 {
				c.Failf("Makenode failed: %s", b.Error())
			}
			b.Pushref(id)
			if !known[id] {
				known[id] = true
				x.pool = append(x.pool, id)
				x.fn = append(x.fn, x.vars[l]&x.fn[q]|^x.vars[l]&x.fn[p])
			}
		}
	}
	return x
}

// value reads the function of a node on the 64 assignments with Label, Low
// and High.
func (x *bank) value(n rudd.Node) uint64 {
	memo := map[int]uint64{0: 0, 1: ^uint64(0)}
	var rec func(n rudd.Node) uint64
	rec = func(n rudd.Node) uint64 {
		if n == nil {
			x.c.Failf("nil node inside a diagram: %s", x.b.Error())
		}
		if r, ok := memo[*n]; ok {
			return r
		}
		v := x.vars[x.b.Label(n)]
		r := v&rec(x.b.High(n)) | ^v&rec(x.b.Low(n))
		memo[*n] = r
		return r
	}
	progress.Add(1)
	return rec(n)
}

type triple struct {
	id, low, high int32 // low and high are positions in the pool
	level         int8
}

// hugeTable fills a table with more than 2^24 nodes, among them many whose
// branches differ by one bit, all known to be distinct.
func (c *Ctx) hugeTable() {
	g := defCfg(32)
	total := 17500000
	g.Node = total + 400000
	g.Cache = 100000
	b := c.New(g)
	c.fill(b, total, g, true)
}

func (c *Ctx) fill(b *Bdd, total int, g Cfg, atonce bool) {
	const from = 16
	x := c.newBank(b, from, 5000)
	np := len(x.pool)
	pos := make(map[int]int, np)
	for i, id := range x.pool {
		pos[id] = i
	}
	seen := make([]uint64, (total*3)/64+100000)
	for _, id := range x.pool {
		seen[id/64] |= 1 << uint(id%64)
	}
	var rows []triple
	rows = make([]triple, 0, total)
	made := func(l, p, q int) {
		id := b.Makenode(int32(l), x.pool[p], x.pool[q])
		if id < 0 {
			c.Failf("Makenode(%d, %d, %d) failed with %d nodes: %s", l, x.pool[p], x.pool[q], len(rows), b.Error())
		}
		if id/64 >= len(seen) {
			seen = append(seen, make([]uint64, id/64-len(seen)+1000)...)
		}
		if seen[id/64]>>uint(id%64)&1 == 1 {
			c.Failf("Makenode(%d, %d, %d) returned node %d, that was returned for another triplet", l, x.pool[p], x.pool[q], id)
		}
		seen[id/64] |= 1 << uint(id%64)
		b.Pushref(id)
		rows = append(rows, triple{int32(id), int32(p), int32(q), int8(l)})
		if len(rows)%4096 == 0 {
			progress.Add(1)
		}
	}
	// each level uses every pair of a random subset of rows and columns, that
	// contains both (p, q) and (q, p), and ids that differ by one bit
	s0 := c.Stats(b)
	c.Step("fill the table with %d distinct nodes", total)
	start, stride := c.Intn(np), 1
	for l := from - 1; l >= 0 && len(rows) < total; l-- {
		want := total/from + 1
		k := 0
		for i := 0; i < np && k < want; i++ {
			p := (start + i*stride) % np
			for q := 0; q < np && k < want; q++ {
				if p != q && (p > 1 || q > 1) { // variables exist already
					made(l, p, q)
					k++
				}
			}
		}
		if c.Chance(50) {
			start = c.Intn(np)
		}
	}
	s1 := c.Stats(b)
	c.Count("nodes produced", int64(len(rows)))
	c.Count("node-table collections observed", int64(s1.GC-s0.GC))
	if s1.Alloc > s0.Alloc {
		c.Count("tables that grew while holding all their nodes", 1)
	}
	c.Max("nodes alive at once", int64(s1.Used))
	if s1.Produced-s0.Produced != len(rows) || s1.Used < len(rows) {
		c.Failf("%d distinct nodes were made and are referenced, but %d were produced and %d are in use", len(rows), s1.Produced-s0.Produced, s1.Used)
	}
	// they are all found again
	c.Step("look up the %d nodes again", len(rows))
	for i, r := range rows {
		if i%4096 == 0 {
			progress.Add(1)
		}
		id := b.Makenode(int32(r.level), x.pool[r.low], x.pool[r.high])
		if id != int(r.id) {
			c.Failf("Makenode(%d, %d, %d) returned %d, and %d before", r.level, x.pool[r.low], x.pool[r.high], id, r.id)
		}
	}
	if s := c.Stats(b); s.Produced != s1.Produced {
		c.Failf("looking up existing nodes produced %d nodes", s.Produced-s1.Produced)
	}
	c.Count("nodes found again", int64(len(rows)))
	c.out.Evaluations += int64(2 * len(rows))
	c.Eval(mix(uint64(total), uint64(g.MaxInc)))
	// operations on pairs of nodes whose ids differ by one bit
	byID := make(map[int32]int32, 4000)
	top := len(rows)
	sample := []triple{}
	for i := 0; i < 60; i++ {
		sample = append(sample, rows[c.Intn(top)])
	}
	wanted := map[int32]bool{}
	for _, r := range sample {
		for j := uint(0); j < 25; j++ {
			wanted[r.id^1<<j] = true
		}
	}
	for i, r := range rows {
		if wanted[r.id] {
			byID[r.id] = int32(i)
		}
	}
	val := func(r triple) uint64 {
		v := x.vars[r.level]
		return v&x.fn[r.high] | ^v&x.fn[r.low]
	}
	// keep the nodes of the sample as Nodes before other operations reuse the
	// reference stack
	type hn struct {
		n rudd.Node
		f uint64
	}
	var pairs [][2]hn
	for _, r := range sample {
		n1 := hn{b.Retnode(int(r.id)), val(r)}
		for j := uint(0); j < 25; j++ {
			if k, ok := byID[r.id^1<<j]; ok {
				pairs = append(pairs, [2]hn{n1, {b.Retnode(int(rows[k].id)), val(rows[k])}})
			}
		}
	}
	other := hn{b.Retnode(int(rows[c.Intn(top)].id)), 0}
	other.f = x.value(other.n)
	cheap := b.Makeset([]int{from + 1, from + 4, x.nv - 1})
	_ = cheap
	for i, p := range pairs {
		c.Step("operations on nodes %d and %d", *p[0].n, *p[1].n)
		for _, h := range p {
			if got := x.value(h.n); got != h.f {
				c.Failf("node %d denotes %016x, expected %016x", *h.n, got, h.f)
			}
			if got := x.value(b.Not(h.n)); got != ^h.f {
				c.Failf("Not of node %d denotes %016x, expected %016x", *h.n, got, ^h.f)
			}
			c.Eval(mix(h.f, uint64(i)))
			if i%4 == 0 {
				if got := x.value(b.And(h.n, other.n)); got != h.f&other.f {
					c.Failf("And of nodes %d and %d denotes %016x, expected %016x", *h.n, *other.n, got, h.f&other.f)
				}
				if got := x.value(b.Apply(other.n, h.n, rudd.OPxor)); got != h.f^other.f {
					c.Failf("Xor of nodes %d and %d denotes %016x, expected %016x", *other.n, *h.n, got, h.f^other.f)
				}
			}
		}
		if got := x.value(b.Ite(other.n, p[0].n, p[1].n)); i%4 == 1 && got != other.f&p[0].f|^other.f&p[1].f {
			c.Failf("Ite of nodes %d, %d and %d denotes %016x", *other.n, *p[0].n, *p[1].n, got)
		}
	}
	c.Count("pairs of nodes with ids that differ by one bit", int64(len(pairs)))
	// a collection leaves the nodes held and what they need
	rows = nil
	b.Initref()
	c.Step("collections of the large table")
	gc := c.Stats(b).GC
	free := c.Stats(b).Free
	c.consume(b, x, free+2)
	s2 := c.Stats(b)
	c.Count("collections of a large table", int64(s2.GC-gc))
	for _, p := range pairs {
		for _, h := range p {
			if got := x.value(h.n); got != h.f {
				c.Failf("node %d denotes %016x after a collection, expected %016x", *h.n, got, h.f)
			}
		}
	}
	runtime.KeepAlive(pairs)
}

// consume makes k unreferenced nodes.
func (c *Ctx) consume(b *Bdd, x *bank, k int) {
	gc := c.Stats(b).GC
	lits := []int{}
	for v := 8; v < x.nv; v++ {
		lits = append(lits, *b.Ithvar(v), *b.NIthvar(v))
	}
	for i := 0; i < k; i++ {
		b.Initref()
		cur := c.Intn(2)
		for l := 7; l >= 0; l-- {
			o := lits[c.Intn(len(lits))]
			if o == cur {
				continue
			}
			cur = b.Pushref(b.Makenode(int32(l), o, cur))
			if cur < 0 {
				c.Failf("Makenode failed: %s", b.Error())
			}
		}
		progress.Add(1)
		if i%100 == 0 && c.Stats(b).GC > gc {
			break
		}
	}
	b.Initref()
}

// growing makes a large number of referenced nodes in a table that starts
// small.
func (c *Ctx) growing() {
	g := defCfg(32)
	g.Node = c.Pick(0, 100, 1000, 100000)
	g.Cache = 5000
	g.Ratio = c.Pick(0, 0, 1, 20)
	total := 50000 + c.Intn(200000)
	g.MaxInc = c.Pick(0, 1<<20, total/10, total/40, 5003)
	if c.idx == 2 {
		total = 3000000
		g.MaxInc = 1 << 20
	}
	if c.thorough() && c.Chance(10) {
		total = 6000000
		g.MaxInc = c.Pick(0, 1<<20)
	}
	g.MinFree = c.Pick(1, 20, 20, 40)
	b := c.New(g)
	c.fill(b, total, g, false)
}

// queens counts the solutions of the n-queens problem.
func (c *Ctx) queens() {
	known := []int64{1, 1, 0, 0, 2, 10, 4, 40, 92, 352}
	n := 4 + c.Intn(5)
	if c.thorough() && c.Chance(20) {
		n = 9
	}
	g := defCfg(n * n)
	g.Node = c.Pick(0, 1000, 100000)
	g.Cache = c.Pick(5000, 10000, 50000)
	g.Ratio = c.Pick(0, 10, 25)
	g.MinFree = c.Pick(5, 20, 50)
	g.MaxInc = c.Pick(0, 1<<20, 50000)
	b := c.New(g)
	q := b.True()
	v := func(i, j int) rudd.Node { return b.Ithvar(i*n + j) }
	for i := 0; i < n; i++ {
		row := b.False()
		for j := 0; j < n; j++ {
			row = b.Or(row, v(i, j))
		}
		q = b.And(q, row)
	}
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			a := b.True()
			for k := 0; k < n; k++ {
				for l := 0; l < n; l++ {
					if (k != i || l != j) && (k == i || l == j || k-i == l-j || k-i == j-l) {
						a = b.And(a, b.NIthvar(k*n+l))
					}
				}
			}
			q = b.And(q, b.Imp(v(i, j), a))
			c.Step("queen (%d, %d) of %d", i, j, n)
		}
	}
	got := b.Satcount(q)
	c.Eval(mix(uint64(n), uint64(g.Node)))
	c.Count("n-queens problems counted", 1)
	if got.Cmp(big.NewInt(known[n])) != 0 {
		c.Failf("%d-queens has %v solutions, expected %d", n, got, known[n])
	}
}

// ---------------------------------------------------------------------------
// C23

// explicit is a finite transition system over k state bits.
type explicit struct {
	k    int
	succ [][]int
}

// system is its encoding: variables of the current and of the next state.
type system struct {
	c      *Ctx
	m      explicit
	b      *Bdd
	x, y   []int // variables of bit i of the current and next state
	xs, ys rudd.Node
	xy, yx rudd.Replacer
	rel    rudd.Node
	parts  []rudd.Node // conjunctive partition, nil if none
	z      []int       // third copy of the state, for compositions, nil if none
	zs     rudd.Node
	xz, yz rudd.Replacer
	zx, zy rudd.Replacer
	space  *Space // assignment i is state i (modulo 2^k), other variables random
}

func (c *Ctx) layout(k int) (nv int, x, y []int) {
	switch c.Intn(5) {
	case 0: // interleaved
		x, y = seq(0, 2*k, 2), seq(1, 2*k, 2)
		nv = 2 * k
	case 1: // interleaved, next state first
		y, x = seq(0, 2*k, 2), seq(1, 2*k, 2)
		nv = 2 * k
	case 2: // grouped
		x, y = seq(0, k, 1), seq(k, 2*k, 1)
		nv = 2 * k
		if c.Chance(50) {
			x, y = y, x
		}
	case 3: // grouped, opposite orders
		x = seq(0, k, 1)
		for i := 0; i < k; i++ {
			y = append(y, 2*k-1-i)
		}
		nv = 2 * k
	case 4: // scattered, with unused variables
		nv = 2*k + 1 + c.Intn(2*k)
		p := c.Perm(nv)
		x, y = p[:k], p[k:2*k]
	}
	if c.Chance(20) {
		nv += c.Intn(3)
	}
	return nv, x, y
}

// third inserts a third copy of the state bits in a layout.
func (c *Ctx) third(nv int, x, y []int) (int, []int, []int, []int) {
	k := len(x)
	keys := make([]float64, nv+k)
	for v := 0; v < nv; v++ {
		keys[v] = float64(v)
	}
	style := c.Intn(4)
	for i := 0; i < k; i++ {
		switch style {
		case 0:
			keys[nv+i] = float64(nv + i)
		case 1:
			keys[nv+i] = float64(x[i]) + 0.5
		case 2:
			keys[nv+i] = float64(nv)*c.Float64() - 0.5
		case 3:
			keys[nv+i] = float64(i - k)
		}
	}
	rank := func(v int) int {
		r := 0
		for w, kw := range keys {
			if kw < keys[v] || kw == keys[v] && w < v {
				r++
			}
		}
		return r
	}
	var nx, ny, nz []int
	for i := 0; i < k; i++ {
		nx, ny, nz = append(nx, rank(x[i])), append(ny, rank(y[i])), append(nz, rank(nv+i))
	}
	return nv + k, nx, ny, nz
}

// compose gives the pairs of states linked by p then q.
func (s *system) compose(p, q rudd.Node) rudd.Node {
	b := s.b
	p1 := b.Replace(p, s.yz)
	s.disturb()
	q1 := b.Replace(q, s.xz)
	s.disturb()
	switch s.c.Intn(3) {
	case 0:
		return b.AndExist(p1, q1, s.zs)
	case 1:
		return b.AndExist(q1, p1, s.zs)
	}
	return b.Exist(b.And(p1, q1), s.zs)
}

// closure checks the relations of the systems composed with themselves.
func (s *system) closure() {
	c, b := s.c, s.b
	ns := len(s.m.succ)
	step := make([][]bool, ns)
	for x, l := range s.m.succ {
		step[x] = make([]bool, ns)
		for _, y := range l {
			step[x][y] = true
		}
	}
	// images of some sets of states by a relation
	verify := func(rel rudd.Node, m [][]bool, what string) {
		if rel == nil {
			c.Failf("%s is nil: %s", what, b.Error())
		}
		for i := 0; i < 2; i++ {
			set, in := b.False(), make([]bool, ns)
			for j := 1 + c.Intn(2); j > 0; j-- {
				x := c.Intn(ns)
				in[x] = true
				set = b.Or(set, c.cubeOf(b, s.x, x))
			}
			post := make([]bool, ns)
			pre := make([]bool, ns)
			for x := range m {
				for y, ok := range m[x] {
					post[y] = post[y] || ok && in[x]
					pre[x] = pre[x] || ok && in[y]
				}
			}
			img := b.AndExist(rel, set, s.xs)
			// the same node renamed in two ways
			i1, i2 := b.Replace(img, s.yx), b.Replace(img, s.yz)
			s.judge(i1, post, "image by "+what)
			s.judge(b.Replace(i2, s.zx), post, "image, moved to other variables, by "+what)
			s1, s2 := b.Replace(set, s.xz), b.Replace(set, s.xy)
			s.disturb()
			s.judge(b.AndExist(rel, s2, s.ys), pre, "backward image by "+what)
			s.judge(b.AndExist(b.Replace(s1, s.zy), rel, s.ys), pre, "backward image, moved from other variables, by "+what)
			c.Count("images by composed relations", 1)
		}
	}
	rel, m := s.rel, step
	n := 1
	for {
		c.Step("relation composed, %d steps at most", n)
		verify(rel, m, fmt.Sprintf("the relation in up to %d steps", n))
		m2 := make([][]bool, ns)
		changed := false
		for x := range m {
			m2[x] = append([]bool{}, m[x]...)
			for y, ok := range m[x] {
				if ok {
					for w, ok2 := range m[y] {
						m2[x][w] = m2[x][w] || ok2
					}
				}
			}
			for y := range m2[x] {
				changed = changed || m2[x][y] != m[x][y]
			}
		}
		next := b.Or(rel, s.compose(rel, rel))
		if next == nil {
			c.Failf("the composition of relations is nil: %s", b.Error())
		}
		if b.Equal(next, rel) == changed {
			c.Failf("the closure of the relation changes from %d to %d steps: %v, and pairs were found: %v", n, 2*n, !b.Equal(next, rel), changed)
		}
		rel, m, n = next, m2, 2*n
		if !changed {
			break
		}
	}
	c.Count("closures computed", 1)
}

func (c *Ctx) cubeOf(b *Bdd, vs []int, state int) rudd.Node {
	if c.Chance(50) {
		r := b.True()
		for i, v := range vs {
			if state>>i&1 == 1 {
				r = b.And(r, b.Ithvar(v))
			} else {
				r = b.And(r, b.NIthvar(v))
			}
		}
		return r
	}
	// Makecube wants increasing variables
	o := append([]int{}, vs...)
	sortInts(o)
	pol := make([]bool, len(o))
	for i, v := range vs {
		for j, w := range o {
			if v == w {
				pol[j] = state>>i&1 == 1
			}
		}
	}
	return b.Makecube(o, pol)
}

func (c *Ctx) newSystem() *system {
	k := 2 + c.Intn(4)
	if c.thorough() && c.Chance(30) {
		k = 6 + c.Intn(2)
	}
	nv, x, y := c.layout(k)
	var z []int
	if k < 5 && c.Chance(40) {
		nv, x, y, z = c.third(nv, x, y)
	}
	s := &system{c: c, x: x, y: y, z: z, m: explicit{k: k, succ: make([][]int, 1<<k)}}
	g := c.RandCfg(nv)
	if g.Cache < 30 && k > 3 {
		g.Cache += 30
	}
	if k <= 3 && c.Chance(50) { // many collisions
		g.Cache, g.Ratio = 1+c.Intn(40), c.Pick(0, 0, 1)
	}
	s.b = c.New(g)
	b := s.b
	w := (1<<k + 63) / 64 * 4
	s.space = sampledSpace(c.Rand, nv, w)
	for i, v := range x {
		l := make([]uint64, w)
		for a := 0; a < w*64; a++ {
			if a>>i&1 == 1 {
				l[a/64] |= 1 << (a % 64)
			}
		}
		s.space.vars[v] = l
	}
	s.xs, s.ys = b.Makeset(x), b.Makeset(y)
	var err error
	if s.xy, err = b.NewReplacer(x, y); err != nil {
		c.Failf("NewReplacer(%v, %v) returned %v", x, y, err)
	}
	if s.yx, err = b.NewReplacer(y, x); err != nil {
		c.Failf("NewReplacer(%v, %v) returned %v", y, x, err)
	}
	if z != nil {
		s.zs = b.Makeset(z)
		for _, r := range []struct {
			rep  *rudd.Replacer
			o, n []int
		}{{&s.xz, x, z}, {&s.yz, y, z}, {&s.zx, z, x}, {&s.zy, z, y}} {
			if *r.rep, err = b.NewReplacer(r.o, r.n); err != nil {
				c.Failf("NewReplacer(%v, %v) returned %v", r.o, r.n, err)
			}
		}
	}
	switch c.Intn(3) {
	case 0:
		s.randomGraph()
	case 1:
		s.network()
	case 2:
		s.guarded()
	}
	return s
}

// randomGraph is a relation given by its edges.
func (s *system) randomGraph() {
	c, b := s.c, s.b
	deg := c.Intn(4)
	ring := 0 // a long cycle, for deep fixpoints
	if c.Chance(40) {
		ring = 1 + 2*c.Intn(4)
		deg = 0
	}
	rel := b.False()
	for st := range s.m.succ {
		for d := c.Intn(deg + 1); d >= 0; d-- {
			if c.Chance(15) && ring == 0 {
				continue
			}
			to := c.Intn(len(s.m.succ))
			switch {
			case ring > 0:
				to = (st + ring) % len(s.m.succ)
			case c.Chance(50):
				to = (st + 1 + c.Intn(3)) % len(s.m.succ)
			}
			s.m.succ[st] = append(s.m.succ[st], to)
			e := b.And(c.cubeOf(b, s.x, st), c.cubeOf(b, s.y, to))
			rel = b.Or(rel, e)
		}
	}
	s.rel = rel
	c.Count("systems given by their edges", 1)
}

// network is a synchronous network: bit i of the next state is a function of
// two or three bits, or is not constrained.
func (s *system) network() {
	c, b := s.c, s.b
	k := s.m.k
	type gate struct {
		free    bool
		a, d, e int
		op, op2 int
	}
	gates := make([]gate, k)
	frees := 0
	rel := b.True()
	for i := range gates {
		gt := gate{c.Chance(15) && frees < 2, c.Intn(k), c.Intn(k), c.Intn(k), c.Intn(10), c.Intn(10)}
		if gt.free {
			frees++
		}
		gates[i] = gt
		if gt.free {
			s.parts = append(s.parts, b.True())
			continue
		}
		f := b.Apply(b.Apply(b.Ithvar(s.x[gt.a]), b.Ithvar(s.x[gt.d]), rops[gt.op]), b.Ithvar(s.x[gt.e]), rops[gt.op2])
		p := b.Equiv(b.Ithvar(s.y[i]), f)
		s.parts = append(s.parts, p)
		rel = b.And(rel, p)
	}
	s.rel = rel
	for st := range s.m.succ {
		tos := []int{0}
		for i, gt := range gates {
			next := []int{}
			for _, t := range tos {
				if gt.free {
					next = append(next, t, t|1<<i)
					continue
				}
				bit := func(j int) int { return st >> j & 1 }
				v := opTable[gt.op2][2*opTable[gt.op][2*bit(gt.a)+bit(gt.d)]+bit(gt.e)]
				next = append(next, t|v<<i)
			}
			tos = next
		}
		s.m.succ[st] = tos
	}
	c.Count("synchronous networks", 1)
}

// guarded is an asynchronous system: guarded assignments of one or two bits.
func (s *system) guarded() {
	c, b := s.c, s.b
	k := s.m.k
	rel := b.False()
	for t := 1 + c.Intn(2*k); t > 0; t-- {
		g1, g2, i, j := c.Intn(k), c.Intn(k), c.Intn(k), c.Intn(k)
		v1, v2, w1, w2 := c.Intn(2), c.Intn(2), c.Intn(2), c.Intn(2)
		if i == j {
			w2 = w1
		}
		lit := func(v, val int) rudd.Node {
			if val == 1 {
				return b.Ithvar(v)
			}
			return b.NIthvar(v)
		}
		tr := b.And(lit(s.x[g1], v1), lit(s.x[g2], v2), lit(s.y[i], w1), lit(s.y[j], w2))
		for l := 0; l < k; l++ {
			if l != i && l != j {
				tr = b.And(tr, b.Equiv(b.Ithvar(s.x[l]), b.Ithvar(s.y[l])))
			}
		}
		rel = b.Or(rel, tr)
		for st := range s.m.succ {
			if st>>g1&1 == v1 && st>>g2&1 == v2 {
				to := st&^(1<<i)&^(1<<j) | w1<<i | w2<<j
				s.m.succ[st] = append(s.m.succ[st], to)
			}
		}
	}
	s.rel = rel
	c.Count("asynchronous systems", 1)
}

// judge compares a set of states with the explicit one.
func (s *system) judge(n rudd.Node, want []bool, what string) {
	c := s.c
	if n == nil {
		c.Failf("%s is nil: %s", what, s.b.Error())
	}
	got := c.Fn(s.b, s.space, n)[0]
	h := uint64(0)
	mask := len(want) - 1
	for a := 0; a < len(got)*64; a++ {
		v := got[a/64]>>(a%64)&1 == 1
		if v != want[a&mask] {
			c.Failf("%s: state %0*b is in the symbolic set: %v, in the explicit one: %v (current-state variables %v, next-state variables %v of %d)",
				what, s.m.k, a&mask, v, want[a&mask], s.x, s.y, s.b.Varnum())
		}
		if a <= mask && v {
			h = mix(h, uint64(a))
		}
	}
	if h != 0 {
		h = mix(h, uint64(len(want)))
	}
	c.Eval(h)
	c.Count("sets of states compared", 1)
}

func (s *system) disturb() {
	c := s.c
	switch c.Intn(12) {
	case 0:
		Collect()
		c.Count("Go collections between steps", 1)
	case 1:
		churn(c, s.b, c.Stats(s.b).GC+1)
	case 2, 3:
		progress.Add(1)
		randomGarbage(c, s.b, s.b.Varnum())
	}
}

// image computes the successors of a set of states.
func (s *system) image(set rudd.Node, way int) rudd.Node {
	b := s.b
	if s.c.Chance(50) {
		return s.imageSwapped(set, way)
	}
	switch {
	case way == 0:
		return b.Replace(b.AndExist(s.rel, set, s.xs), s.yx)
	case way == 1:
		n := b.And(s.rel, set)
		s.disturb()
		n = b.Exist(n, s.xs)
		s.disturb()
		return b.Replace(n, s.yx)
	case way == 2 && s.parts != nil: // the relation is a conjunction
		n := set
		for i, p := range s.parts {
			if i == len(s.parts)-1 {
				n = b.AndExist(n, p, s.xs)
			} else {
				n = b.And(n, p)
			}
		}
		return b.Replace(n, s.yx)
	case way == 3: // one variable after the other
		n := b.And(set, s.rel)
		for _, v := range s.x {
			n = b.Exist(n, b.Makeset([]int{v}))
		}
		return b.Replace(n, s.yx)
	}
	return b.Replace(b.AppEx(set, s.rel, rudd.OPand, s.xs), s.yx)
}

// imageSwapped is image with the operands of conjunctions exchanged.
func (s *system) imageSwapped(set rudd.Node, way int) rudd.Node {
	b := s.b
	switch way {
	case 1, 3:
		n := b.And(set, s.rel)
		s.disturb()
		return b.Replace(b.Exist(n, s.xs), s.yx)
	case 2: // rename first
		n := b.Replace(b.AndExist(set, s.rel, s.xs), s.yx)
		return b.And(n, b.Or(b.True(), n))
	}
	return b.Replace(b.AndExist(set, s.rel, s.xs), s.yx)
}

// preimage computes the predecessors.
func (s *system) preimage(set rudd.Node, way int) rudd.Node {
	b := s.b
	next := b.Replace(set, s.xy)
	s.disturb()
	switch way {
	case 0:
		if s.c.Chance(50) {
			return b.AndExist(next, s.rel, s.ys)
		}
		return b.AndExist(s.rel, next, s.ys)
	case 1:
		n := b.And(next, s.rel)
		s.disturb()
		return b.Exist(n, s.ys)
	}
	return b.AppEx(next, s.rel, rudd.OPand, s.ys)
}

func runC23(c *Ctx) {
	s := c.newSystem()
	b := s.b
	var st Stats
	c.ObserveGC(b, &st)
	c.Step("%d state bits, current %v, next %v, %d variables", s.m.k, s.x, s.y, b.Varnum())
	ns := len(s.m.succ)
	if s.z != nil {
		s.closure()
	}
	if c.Chance(4) {
		c.Sample("system with %d bits, current %v, next %v, %d variables", s.m.k, s.x, s.y, b.Varnum())
	}
	pred := make([][]int, ns)
	for x, l := range s.m.succ {
		for _, y := range l {
			pred[y] = append(pred[y], x)
		}
	}
	for run := 0; run < 4; run++ {
		backward := run%2 == 1
		edges := s.m.succ
		if backward {
			edges = pred
		}
		way := c.Intn(5)
		if backward {
			way = c.Intn(3)
		}
		mixed := c.Chance(30) // change the way at each step
		cur := make([]bool, ns)
		reach := b.False()
		for i := 1 + c.Intn(2); i > 0; i-- {
			x := c.Intn(ns)
			cur[x] = true
			reach = b.Or(reach, c.cubeOf(b, s.x, x))
		}
		frontier := reach
		fexp := append([]bool{}, cur...)
		useFrontier := c.Chance(50)
		steps := 0
		for {
			steps++
			c.Step("run %d, step %d, backward %v, way %d, frontier %v", run, steps, backward, way, useFrontier)
			from, fromExp := reach, cur
			if useFrontier {
				from, fromExp = frontier, fexp
			}
			var img rudd.Node
			if backward {
				img = s.preimage(from, way)
			} else {
				img = s.image(from, way)
			}
			s.disturb()
			want := make([]bool, ns)
			for x, in := range fromExp {
				if in {
					for _, y := range edges[x] {
						want[y] = true
					}
				}
			}
			s.judge(img, want, fmt.Sprintf("image (way %d, backward %v) at step %d", way, backward, steps))
			frontier = b.Apply(img, reach, rudd.OPdiff)
			fexp = make([]bool, ns)
			next := make([]bool, ns)
			changed := false
			for x := range next {
				next[x] = cur[x] || want[x]
				fexp[x] = want[x] && !cur[x]
				changed = changed || fexp[x]
			}
			nr := b.Or(reach, img)
			s.disturb()
			s.judge(frontier, fexp, "new states")
			s.judge(nr, next, "states reached")
			if b.Equal(nr, reach) == changed {
				c.Failf("step %d: Equal says %v, and new states were found: %v", steps, b.Equal(nr, reach), changed)
			}
			if b.Equal(frontier, b.False()) == changed {
				c.Failf("step %d: the set of new states is False: %v, and new states were found: %v", steps, b.Equal(frontier, b.False()), changed)
			}
			reach, cur = nr, next
			if !changed {
				break
			}
			if mixed {
				way = c.Intn(5)
				if backward {
					way = c.Intn(3)
				}
			}
		}
		n := 0
		for _, v := range cur {
			if v {
				n++
			}
		}
		want := new(big.Int).Lsh(big.NewInt(int64(n)), uint(b.Varnum()-s.m.k))
		if k := b.Satcount(reach); k.Cmp(want) != 0 {
			c.Failf("Satcount of %d states over %d variables is %v", n, b.Varnum(), k)
		}
		c.Count("fixpoints reached", 1)
		c.Count("steps", int64(steps))
		c.Max("steps to a fixpoint", int64(steps))
		if b.Errored() {
			c.Failf("the BDD is in an error state: %s", b.Error())
		}
	}
	c.ObserveGC(b, &st)
	runtime.KeepAlive(s)
}
