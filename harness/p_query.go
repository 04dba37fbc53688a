package main

// C05 C06 C07 C08: counting, enumeration, traversal, output.

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"math/bits"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"github.com/dalzilio/rudd"
)

func init() {
	register("C05", Prop{quick: 2400, thorough: 24000, run: runC05})
	register("C06", Prop{quick: 2400, thorough: 24000, run: runC06})
	register("C07", Prop{quick: 2000, thorough: 20000, run: runC07})
	register("C08", Prop{quick: 1600, thorough: 16000, run: runC08})
}

// kernelDAG makes a random diagram over nv variables with the kernel
// functions: levels are skipped with the given probability, and each level
// holds at most width nodes.
func kernelDAG(c *Ctx, b *Bdd, nv, width, skipPct int) rudd.Node {
	b.Initref()
	pool := []int{0, 1}
	pick := func() int {
		if c.Chance(70) && len(pool) > 2 {
			k := len(pool) - 1 - c.Intn(min(len(pool), 2*width))
			return pool[k]
		}
		return pool[c.Intn(len(pool))]
	}
	last := 1
	for v := nv - 1; v >= 0; v-- {
		if c.Chance(skipPct) {
			continue
		}
		progress.Add(1)
		lvl := []int{}
		for i := 1 + c.Intn(width); i > 0; i-- {
			lo, hi := pick(), pick()
			if i == 1 && c.Chance(50) {
				lo = last
			}
			if lo == hi {
				continue
			}
			n := b.Makenode(int32(v), lo, hi)
			if n < 0 {
				c.Failf("Makenode(%d, %d, %d) = %d", v, lo, hi, n)
			}
			b.Pushref(n)
			lvl = append(lvl, n)
		}
		for _, n := range lvl {
			pool = append(pool, n)
			last = n
		}
	}
	r := b.Retnode(last)
	b.Initref()
	if r == nil {
		c.Failf("Retnode(%d) returned nil", last)
	}
	return r
}

// countTopDown counts the satisfying assignments by pushing the number of
// assignments that reach each node down the diagram.
func (d *Dump) countTopDown(root int) *big.Int {
	res := new(big.Int)
	full := new(big.Int).Lsh(big.NewInt(1), uint(d.nv))
	if root < 2 {
		if root == 1 {
			return full
		}
		return res
	}
	ids := []int{}
	for id := range d.Reach(root) {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return d.get(ids[i]).level < d.get(ids[j]).level })
	w := map[int]*big.Int{root: full}
	add := func(id int, v *big.Int) {
		if id == 0 {
			return
		}
		if id == 1 {
			res.Add(res, v)
			return
		}
		if w[id] == nil {
			w[id] = new(big.Int)
		}
		w[id].Add(w[id], v)
	}
	for _, id := range ids {
		n := d.get(id)
		h := new(big.Int).Rsh(w[id], 1)
		add(n.low, h)
		add(n.high, h)
		delete(w, id)
	}
	return res
}

func (c *Ctx) satcount(b *Bdd, n rudd.Node) *big.Int {
	r := b.Satcount(n)
	if r == nil {
		c.Failf("Satcount(%d) returned nil", *n)
	}
	return r
}

func short(x *big.Int) string {
	s := x.String()
	if len(s) > 60 {
		return s[:25] + "..." + s[len(s)-25:] + fmt.Sprintf(" (%d digits)", len(s))
	}
	return s
}

func runC05(c *Ctx) {
	switch {
	case c.idx%150 == 17:
		hugeC05(c)
		return
	case c.idx%6 == 0:
		wideC05(c)
		return
	case c.idx%6 == 1:
		familiesC05(c)
		return
	}
	s := exactSpace(1 + c.Intn(9))
	if c.idx%6 == 2 {
		s = sampledSpace(c.Rand, 10+c.Intn(100), 1)
	}
	m := c.NewMachine(c.RandCfg(s.nv), s)
	for k := range m.weights {
		m.weights[k] = 3
	}
	m.seedPool(6)
	full := new(big.Int).Lsh(big.NewInt(1), uint(s.nv))
	for i := 0; i < 60; i++ {
		m.Do()
		n := m.operand()
		var want *big.Int
		cnt := uint64(0)
		d := c.DumpRoots(m.b, n)
		if s.exact {
			f := d.Eval(s, s.vars, *n)[0]
			pc := 0
			for _, w := range f {
				pc += bits.OnesCount64(w)
			}
			cnt = uint64(pc)
			if s.nv < 6 {
				pc >>= 6 - s.nv
			}
			want = big.NewInt(int64(pc))
		} else {
			want = d.countTopDown(*n)
			cnt = want.Uint64() ^ uint64(*n)<<40
		}
		st := c.Stats(m.b)
		c.Step("Satcount(%d)", *n)
		got := c.satcount(m.b, n)
		h := mix(cnt, uint64(s.nv))
		if *n < 2 {
			h = 0
		}
		c.Eval(h)
		if got.Cmp(want) != 0 {
			c.Failf("Satcount(%d) = %v on %d variables, expected %v", *n, short(got), s.nv, short(want))
		}
		// the result belongs to the caller
		got.Add(got, full)
		got.Neg(got)
		again := c.satcount(m.b, n)
		if again.Cmp(want) != 0 {
			c.Failf("second Satcount(%d) = %v, expected %v", *n, short(again), short(want))
		}
		if st2 := c.Stats(m.b); st2.Produced != st.Produced || st2.Used != st.Used {
			c.Failf("Satcount changed the node table: %s\n%s", st.raw, st2.raw)
		}
		if c.Chance(20) {
			neg := m.b.Not(n)
			if neg != nil && eqLanes(lanesNot(m.Fn(m.b, s, n)[0]), m.Fn(m.b, s, neg)[0]) {
				sum := new(big.Int).Add(c.satcount(m.b, neg), want)
				if sum.Cmp(full) != 0 {
					c.Failf("Satcount(n) + Satcount(!n) = %v on %d variables", short(sum), s.nv)
				}
			}
		}
	}
	c.ObserveGC(m.b, &m.stats)
}

func wideC05(c *Ctx) {
	nv := c.Pick(20, 63, 64, 65, 100, 127, 128, 129, 300, 700, 1500)
	if c.thorough() && c.Chance(10) {
		nv = 6000
	}
	g := defCfg(nv)
	g.Node = 4*nv + 100
	b := c.New(g)
	for i := 0; i < 4; i++ {
		n := kernelDAG(c, b, nv, c.Pick(1, 2, 4, 8), c.Pick(0, 10, 50, 90, 98))
		d := c.DumpRoots(b, n)
		want := d.countTopDown(*n)
		c.Step("Satcount of a diagram with %d nodes on %d variables", len(d.nodes), nv)
		got := c.satcount(b, n)
		h := uint64(0)
		for _, w := range want.Bits() {
			h = mix(h, uint64(w))
		}
		c.Eval(mix(h, uint64(nv)))
		c.Max("bits of the largest count", int64(want.BitLen()))
		if got.Cmp(want) != 0 {
			c.Failf("Satcount = %v, expected %v (%d variables, %d nodes)", short(got), short(want), nv, len(d.nodes))
		}
		if i == 0 {
			c.Sample("diagram with %d nodes on %d variables has %s satisfying assignments", len(d.nodes), nv, short(got))
		}
		progress.Add(1)
	}
}

// hugeC05: few levels scattered among very many variables, so that branches
// skip tens of thousands of levels.
func hugeC05(c *Ctx) {
	nv := c.Pick(33000, 70000, 140000)
	if c.thorough() && c.Chance(20) {
		nv = c.Pick(600000, 2097151)
	}
	g := defCfg(nv)
	g.Node, g.Cache, g.Ratio = 3*nv, 1000, 0
	b := c.New(g)
	for i := 0; i < 6; i++ {
		k := 2 + c.Intn(6)
		if i == 0 {
			k = 1 + c.Intn(2)
		}
		at := map[int]bool{}
		for len(at) < k {
			v := c.Intn(nv)
			switch c.Intn(5) {
			case 0:
				v = c.Intn(20)
			case 1:
				v = nv - 1 - c.Intn(20)
			}
			at[v] = true
		}
		lv := []int{}
		for v := range at {
			lv = append(lv, v)
		}
		sort.Sort(sort.Reverse(sort.IntSlice(lv)))
		b.Initref()
		pool := []int{0, 1}
		for _, v := range lv {
			lo, hi := pool[c.Intn(len(pool))], pool[len(pool)-1]
			if lo == hi {
				lo = pool[c.Intn(2)]
			}
			if lo == hi {
				lo = 1 - hi&1
			}
			if c.Chance(50) {
				lo, hi = hi, lo
			}
			pool = append(pool, b.Pushref(b.Makenode(int32(v), lo, hi)))
		}
		n := b.Retnode(pool[len(pool)-1])
		b.Initref()
		if n == nil {
			c.Failf("Retnode returned nil")
		}
		d := c.DumpRoots(b, n)
		want := d.countTopDown(*n)
		c.Step("Satcount with levels %v out of %d", lv, nv)
		got := c.satcount(b, n)
		c.Eval(mix(uint64(nv), mix(uint64(want.BitLen()), uint64(lv[0]))))
		c.Max("bits of the largest count", int64(want.BitLen()))
		if got.Cmp(want) != 0 {
			c.Failf("Satcount is a number of %d bits, expected one of %d bits (%d variables, levels %v)", got.BitLen(), want.BitLen(), nv, lv)
		}
		progress.Add(1)
	}
}

// familiesC05: functions whose count is known in closed form.
func familiesC05(c *Ctx) {
	nv := 1 + c.Intn(c.Pick(10, 70, 200))
	g := c.RandCfg(nv)
	if nv > 12 {
		g.Cache, g.Ratio = 10000, 0
	}
	b := c.New(g)
	pow := func(k int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }
	check := func(what string, n rudd.Node, want *big.Int) {
		if n == nil {
			c.Failf("%s returned nil", what)
		}
		c.Step("Satcount of %s", what)
		got := c.satcount(b, n)
		h := mix(uint64(nv), uint64(len(what)))
		for _, ch := range what {
			h = mix(h, uint64(ch))
		}
		c.Eval(h)
		if got.Cmp(want) != 0 {
			c.Failf("Satcount of %s is %s, expected %s (%d variables)", what, short(got), short(want), nv)
		}
	}
	check("True", b.True(), pow(nv))
	check("False", b.False(), big.NewInt(0))
	v := c.Intn(nv)
	check(fmt.Sprintf("variable %d", v), b.Ithvar(v), pow(nv-1))
	check(fmt.Sprintf("negated variable %d", v), b.NIthvar(v), pow(nv-1))
	k := 1 + c.Intn(nv)
	set := c.Perm(nv)[:k]
	sort.Ints(set)
	pol := make([]bool, k)
	for i := range pol {
		pol[i] = c.Chance(50)
	}
	check(fmt.Sprintf("a cube of %d literals", k), b.Makecube(set, pol), pow(nv-k))
	check(fmt.Sprintf("a set of %d variables", k), b.Makeset(set), pow(nv-k))
	// parity
	p := b.False()
	for _, v := range set {
		p = b.Apply(p, b.Ithvar(v), rudd.OPxor)
	}
	check(fmt.Sprintf("parity of %d variables", k), p, pow(nv-1))
	// at least t among k, by symmetric construction
	if k <= 40 {
		t := c.Intn(k + 2)
		row := make([]int, k+2)
		b.Initref()
		// row[j]: at least t reached given j ones so far
		for j := range row {
			if j >= t {
				row[j] = 1
			}
		}
		for i := k - 1; i >= 0; i-- {
			next := make([]int, k+2)
			for j := 0; j <= i; j++ {
				next[j] = b.Pushref(b.Makenode(int32(set[i]), row[j], row[j+1]))
			}
			row = next
		}
		n := b.Retnode(row[0])
		want := new(big.Int)
		for j := t; j <= k; j++ {
			want.Add(want, new(big.Int).Binomial(int64(k), int64(j)))
		}
		want.Mul(want, pow(nv-k))
		check(fmt.Sprintf("at least %d of %d variables", t, k), n, want)
	}
	// product of functions with disjoint supports
	n, cnt, used := b.True(), big.NewInt(1), 0
	for used+2 <= nv && used < 60 {
		x, y := b.Ithvar(used), b.Ithvar(used+1)
		switch c.Intn(3) {
		case 0:
			n, cnt = b.And(n, b.Or(x, y)), cnt.Mul(cnt, big.NewInt(3))
		case 1:
			n, cnt = b.And(n, b.Equiv(x, y)), cnt.Mul(cnt, big.NewInt(2))
		case 2:
			n, cnt = b.And(n, b.Imp(x, y)), cnt.Mul(cnt, big.NewInt(3))
		}
		used += 2
	}
	check(fmt.Sprintf("a product of %d pairs", used/2), n, cnt.Mul(cnt, pow(nv-used)))
}

// ---------------------------------------------------------------------------

// paths counts the paths to True, up to a limit.
func (d *Dump) paths(root int, limit int) int {
	memo := map[int]int{}
	var rec func(id int) int
	rec = func(id int) int {
		if id < 2 {
			return id
		}
		if r, ok := memo[id]; ok {
			return r
		}
		n := d.get(id)
		r := rec(n.low) + rec(n.high)
		if r > limit {
			r = limit + 1
		}
		memo[id] = r
		return r
	}
	return rec(root)
}

func (d *Dump) cubes(root int) map[string]int {
	res := map[string]int{}
	cur := bytes.Repeat([]byte{'-'}, d.nv)
	var rec func(id int)
	rec = func(id int) {
		if id == 0 {
			return
		}
		if id == 1 {
			res[string(cur)]++
			return
		}
		n := d.get(id)
		cur[n.level] = '0'
		rec(n.low)
		cur[n.level] = '1'
		rec(n.high)
		cur[n.level] = '-'
	}
	rec(root)
	return res
}

var errCallback = errors.New("callback error")

func profString(c *Ctx, prof []int, nv int) string {
	if len(prof) != nv {
		c.Failf("callback of Allsat called with %d values, Varnum is %d", len(prof), nv)
	}
	b := make([]byte, nv)
	for i, v := range prof {
		switch v {
		case 0:
			b[i] = '0'
		case 1:
			b[i] = '1'
		case -1:
			b[i] = '-'
		default:
			c.Failf("callback of Allsat called with value %d for variable %d", v, i)
		}
	}
	return string(b)
}

func runC06(c *Ctx) {
	if c.idx%200 == 31 {
		bigC06(c)
		return
	}
	var m *M
	wide := c.idx%4 == 0
	s := exactSpace(1 + c.Intn(8))
	if wide {
		s = sampledSpace(c.Rand, 10+c.Intn(200), 1)
	}
	m = c.NewMachine(c.RandCfg(s.nv), s)
	for k := range m.weights {
		m.weights[k] = 3
	}
	m.seedPool(5)
	b := m.b
	for i := 0; i < 40; i++ {
		m.Do()
		n := m.operand()
		if wide && c.Chance(40) {
			n = kernelDAG(c, b, s.nv, 2, c.Pick(50, 90, 96))
		}
		d := c.DumpRoots(b, n)
		const limit = 3000
		np := d.paths(*n, limit)
		if np > limit {
			continue
		}
		want := d.cubes(*n)
		got := map[string]int{}
		calls := 0
		st := c.Stats(b)
		c.Step("Allsat(%d)", *n)
		err := b.Allsat(func(p []int) error {
			calls++
			progress.Add(1)
			if calls > np+5 {
				return errCallback
			}
			got[profString(c, p, s.nv)]++
			return nil
		}, n)
		var h uint64 = uint64(s.nv)
		for _, r := range d.nodes {
			h = mix(mix(mix(h, uint64(r.level)), uint64(r.low)), uint64(r.high))
		}
		if *n < 2 {
			h = 0
		}
		c.Eval(h)
		c.Count("assignments enumerated", int64(calls))
		if calls != np {
			c.Failf("Allsat(%d) called f %d times, the diagram has %d paths to True", *n, calls, np)
		}
		if err != nil {
			c.Failf("Allsat(%d) returned %v with a callback that returns nil", *n, err)
		}
		for k, v := range want {
			if got[k] != v {
				c.Failf("Allsat(%d): assignment %s given %d times, expected %d", *n, k, got[k], v)
			}
		}
		for k := range got {
			if want[k] == 0 {
				c.Failf("Allsat(%d): unexpected assignment %s", *n, k)
			}
		}
		if s.exact {
			m.coverCheck(n, d, got)
		}
		// an error at the k-th call
		if np > 0 {
			for rep := 0; rep < 3; rep++ {
				k := 1 + c.Intn(np)
				if rep == 0 {
					k = c.Pick(1, np)
				}
				cnt, after := 0, 0
				c.Step("Allsat(%d) with an error at call %d of %d", *n, k, np)
				err := b.Allsat(func(p []int) error {
					cnt++
					if cnt > k {
						after++
					}
					if cnt >= k {
						return errCallback
					}
					return nil
				}, n)
				c.Count("callback errors injected", 1)
				c.Eval(mix(h, uint64(k)))
				if after > 0 {
					c.Failf("Allsat(%d): f called %d more times after it returned an error at call %d of %d", *n, after, k, np)
				}
				if !errors.Is(err, errCallback) {
					c.Failf("Allsat(%d): f returned an error at call %d of %d, Allsat returned %v", *n, k, np, err)
				}
			}
		}
		if st2 := c.Stats(b); st2.Produced != st.Produced || st2.Used != st.Used {
			c.Failf("Allsat changed the node table")
		}
		if b.Errored() && calls >= 0 && !m.hadError() {
			c.Failf("error status set after Allsat on a valid node: %s", b.Error())
		}
		if i == 3 {
			ex := ""
			for k := range got {
				ex = k
				break
			}
			c.Sample("node %d on %d variables: %d assignments enumerated, one is %s", *n, s.nv, np, ex)
		}
	}
}

// hadError tells whether a documented error (conflict in Replace) was seen.
func (m *M) hadError() bool {
	return strings.Contains(m.b.Error(), "replace") || m.out.Counters["documented errors observed"] > 0
}

// coverCheck: the assignments are disjoint and cover the function.
func (m *M) coverCheck(n rudd.Node, d *Dump, got map[string]int) {
	s := m.s
	f := d.Eval(s, s.vars, *n)[0]
	acc := s.constant(false)
	for k := range got {
		cube := s.constant(true)
		for i, ch := range k {
			switch ch {
			case '1':
				cube = lanesOp(0, cube, s.vars[i])
			case '0':
				cube = lanesOp(0, cube, lanesNot(s.vars[i]))
			}
		}
		for i := range acc {
			if acc[i]&cube[i] != 0 {
				m.Failf("Allsat(%d): assignment %s overlaps another one", *n, k)
			}
			acc[i] |= cube[i]
		}
	}
	if !eqLanes(acc, f) {
		m.Failf("Allsat(%d): the assignments denote %s, the node %s", *n, laneStr(acc), laneStr(f))
	}
}

// ---------------------------------------------------------------------------

// walk explores a diagram with Label, Low and High.
func walk(c *Ctx, b *Bdd, roots []rudd.Node, limit int) map[int]rec {
	res := map[int]rec{}
	st := append([]rudd.Node{}, roots...)
	for len(st) > 0 {
		n := st[len(st)-1]
		st = st[:len(st)-1]
		if *n < 2 {
			continue
		}
		if _, ok := res[*n]; ok {
			continue
		}
		if len(res) > limit {
			return nil
		}
		lo, hi := b.Low(n), b.High(n)
		if lo == nil || hi == nil {
			c.Failf("Low or High returned nil on node %d: %s", *n, b.Error())
		}
		res[*n] = rec{*n, b.Label(n), *lo, *hi}
		st = append(st, lo, hi)
		runtime.KeepAlive(n)
	}
	return res
}

func (c *Ctx) compareVisit(what string, want map[int]rec, got []rec) {
	seen := map[int]bool{}
	for _, r := range got {
		if r.id < 2 {
			continue
		}
		if seen[r.id] {
			c.Failf("%s: node %d visited twice", what, r.id)
		}
		seen[r.id] = true
		w, ok := want[r.id]
		if !ok {
			c.Failf("%s: node %d visited, but it is not reachable from the roots", what, r.id)
		}
		if w != r {
			c.Failf("%s: node %d visited as (level %d, low %d, high %d), Label, Low and High give (%d, %d, %d)", what, r.id, r.level, r.low, r.high, w.level, w.low, w.high)
		}
	}
	for id := range want {
		if !seen[id] {
			c.Failf("%s: node %d is reachable from the roots but not visited (%d of %d visited)", what, id, len(seen), len(want))
		}
	}
}

func runC07(c *Ctx) {
	if c.idx%200 == 33 {
		bigC07(c)
		return
	}
	s := exactSpace(2 + c.Intn(6))
	if c.idx%4 == 0 {
		s = sampledSpace(c.Rand, 10+c.Intn(60), 2)
	}
	m := c.NewMachine(c.RandCfg(s.nv), s)
	for k := range m.weights {
		m.weights[k] = 3
	}
	m.seedPool(8)
	b := m.b
	collect := func(out *[]rec) func(id, level, low, high int) error {
		return func(id, level, low, high int) error {
			*out = append(*out, rec{id, level, low, high})
			return nil
		}
	}
	for i := 0; i < 35; i++ {
		m.Do()
		roots := []rudd.Node{}
		for k := 1 + c.Intn(c.Pick(5, 5, 5, 20, 200)); k > 0; k-- {
			roots = append(roots, m.operand())
		}
		if c.Chance(20) {
			roots = append(roots, roots[0])
		}
		want := walk(c, b, roots, 3000)
		if want == nil {
			continue
		}
		ids := []int{}
		h := uint64(s.nv)
		for _, r := range roots {
			ids = append(ids, *r)
		}
		for id, r := range want {
			h += mix(uint64(id), uint64(r.low)*77777+uint64(r.high)*31+uint64(r.level))
		}
		if len(want) == 0 {
			h = 0
		}
		var got []rec
		c.Step("Allnodes from %v", ids)
		if err := b.Allnodes(collect(&got), roots...); err != nil {
			c.Failf("Allnodes from %v returned %v", ids, err)
		}
		c.Eval(h)
		c.Count("nodes visited", int64(len(got)))
		c.compareVisit(fmt.Sprintf("Allnodes from %v", ids), want, got)
		if i == 5 {
			c.Sample("Allnodes from %v visited %d nodes", ids, len(got))
		}
		// early stop
		if len(got) > 0 {
			k := 1 + c.Intn(len(got))
			if c.Chance(20) {
				k = c.Pick(1, len(got))
			}
			cnt, after := 0, 0
			c.Step("Allnodes from %v with an error at call %d of %d", ids, k, len(got))
			err := b.Allnodes(func(id, level, low, high int) error {
				cnt++
				if cnt > k {
					after++
				}
				if cnt >= k {
					return errCallback
				}
				return nil
			}, roots...)
			c.Count("callback errors injected", 1)
			c.Eval(mix(h, uint64(k)))
			if after > 0 {
				c.Failf("Allnodes from %v: f called %d times after it returned an error at call %d", ids, after, k)
			}
			if !errors.Is(err, errCallback) {
				c.Failf("Allnodes from %v: f returned an error at call %d of %d, Allnodes returned %v", ids, k, len(got), err)
			}
			// what follows is unaffected: other roots
			other := []rudd.Node{m.operand()}
			wo := walk(c, b, other, 3000)
			if wo != nil {
				var g2 []rec
				c.Step("Allnodes from %d", *other[0])
				if err := b.Allnodes(collect(&g2), other...); err != nil {
					c.Failf("Allnodes returned %v", err)
				}
				c.compareVisit(fmt.Sprintf("Allnodes from %d after a traversal that was stopped", *other[0]), wo, g2)
			}
		}
		// all the nodes
		if c.Chance(40) {
			var all []rec
			c.Step("Allnodes without roots")
			if err := b.Allnodes(collect(&all)); err != nil {
				c.Failf("Allnodes without roots returned %v", err)
			}
			c.checkAll(all, want)
			if len(all) > 0 {
				k := 1 + c.Intn(len(all))
				cnt := 0
				err := b.Allnodes(func(id, level, low, high int) error {
					cnt++
					if cnt >= k {
						return errCallback
					}
					return nil
				})
				if cnt != k || !errors.Is(err, errCallback) {
					c.Failf("Allnodes without roots: f returned an error at call %d, %d calls were made and %v was returned", k, cnt, err)
				}
			}
			c.Eval(mix(h, 555))
		}
		if c.Chance(30) {
			// later operations are exact, collections harmless
			old := m.check
			for k := range m.check {
				m.check[k] = true
			}
			ev := c.out.Evaluations
			for j := 0; j < 4; j++ {
				m.DoKind(Kind(c.Pick(int(kApply), int(kNot), int(kIte), int(kBuild))))
			}
			c.out.Evaluations = ev
			m.check = old
			if c.Chance(20) && s.nv < 20 {
				before := make([][]uint64, len(m.pool))
				for k, p := range m.pool {
					before[k] = p.fn
				}
				m.Churn(1)
				for k, p := range m.pool {
					if !eqLanes(m.Fn(b, s, p.n)[0], before[k]) {
						c.Failf("node %d denotes another function after traversals and a collection", *p.n)
					}
				}
			}
		}
		runtime.KeepAlive(roots)
	}
	c.ObserveGC(b, &m.stats)
}

// checkAll: a traversal of all nodes visits each once, is closed under
// branches and has what is reachable from held nodes.
func (c *Ctx) checkAll(all []rec, want map[int]rec) {
	seen := map[int]rec{}
	for _, r := range all {
		if _, ok := seen[r.id]; ok {
			c.Failf("Allnodes without roots visits node %d twice", r.id)
		}
		seen[r.id] = r
	}
	for id, w := range want {
		if g, ok := seen[id]; !ok || g != w {
			c.Failf("Allnodes without roots does not show node %d as (level %d, low %d, high %d): visited %v, %v", id, w.level, w.low, w.high, ok, g)
		}
	}
	for _, r := range all {
		if r.id < 2 {
			continue
		}
		for _, k := range [2]int{r.low, r.high} {
			if _, ok := seen[k]; !ok && k > 1 {
				c.Failf("Allnodes without roots visits node %d but not its branch %d", r.id, k)
			}
		}
	}
}

// ---------------------------------------------------------------------------

var rePrint = regexp.MustCompile(`^\s*(\d+)\s*\[\s*(\d+)\s*\]\s*\?\s*(\d+)\s*:\s*(\d+)\s*$`)
var reDotNode = regexp.MustCompile(`(?m)^\s*(\d+)\s*\[label=<\s*<FONT[^>]*>\s*(\d+)\s*</FONT>\s*<FONT[^>]*>\s*\[(\d+)\]\s*</FONT>\s*>\];?`)
var reDotEdge = regexp.MustCompile(`(?m)^\s*(\d+)\s*->\s*(\d+)\s*\[style=(\w+)\];?\s*$`)
var reDotNodeAny = regexp.MustCompile(`(?m)^\s*(\d+)\s*\[`)

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func parsePrint(c *Ctx, text string) []rec {
	res := []rec{}
	for _, l := range strings.Split(text, "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		f := rePrint.FindStringSubmatch(l)
		if f == nil {
			c.Failf("unexpected line in the output of Print: %q", l)
		}
		res = append(res, rec{atoi(f[1]), atoi(f[2]), atoi(f[3]), atoi(f[4])})
	}
	return res
}

func parseDot(c *Ctx, text string) []rec {
	if !strings.HasPrefix(strings.TrimSpace(text), "digraph") || !strings.HasSuffix(strings.TrimSpace(text), "}") {
		c.Failf("the output of Dot is not a graph: %q", head(text))
	}
	nodes := map[int]*rec{}
	order := []int{}
	for _, f := range reDotNode.FindAllStringSubmatch(text, -1) {
		id := atoi(f[1])
		if atoi(f[3]) != id {
			c.Failf("node %d has label [%s] in the output of Dot", id, f[3])
		}
		if nodes[id] != nil {
			c.Failf("node %d declared twice in the output of Dot", id)
		}
		nodes[id] = &rec{id: id, level: atoi(f[2]), low: 0, high: 0}
		order = append(order, id)
	}
	decl := 0
	for _, f := range reDotNodeAny.FindAllStringSubmatch(text, -1) {
		id := atoi(f[1])
		if id == 1 {
			continue
		}
		decl++
		if nodes[id] == nil {
			c.Failf("the declaration of node %d in the output of Dot has no level", id)
		}
	}
	if decl != len(nodes) {
		c.Failf("%d declarations for %d nodes in the output of Dot", decl, len(nodes))
	}
	seen := map[string]bool{}
	for _, f := range reDotEdge.FindAllStringSubmatch(text, -1) {
		a, b := atoi(f[1]), atoi(f[2])
		if nodes[a] == nil {
			c.Failf("edge from unknown node %d in the output of Dot", a)
		}
		if b == 0 {
			c.Failf("edge to False in the output of Dot")
		}
		if b != 1 && nodes[b] == nil {
			c.Failf("edge to node %d, that is not declared, in the output of Dot", b)
		}
		k := f[1] + f[3]
		if seen[k] {
			c.Failf("two %s edges from node %d in the output of Dot", f[3], a)
		}
		seen[k] = true
		switch f[3] {
		case "dotted":
			nodes[a].low = b
		case "filled", "solid":
			nodes[a].high = b
		default:
			c.Failf("edge with style %s in the output of Dot", f[3])
		}
	}
	res := []rec{}
	for _, id := range order {
		res = append(res, *nodes[id])
	}
	return res
}

func head(s string) string {
	if len(s) > 200 {
		return s[:200]
	}
	return s
}

func runC08(c *Ctx) {
	if c.idx%200 == 35 {
		bigC08(c)
		return
	}
	s := exactSpace(1 + c.Intn(7))
	if c.idx%4 == 0 {
		s = sampledSpace(c.Rand, 10+c.Intn(c.Pick(50, 300)), 2)
	}
	m := c.NewMachine(c.RandCfg(s.nv), s)
	for k := range m.weights {
		m.weights[k] = 3
	}
	m.weights[kReplace] = 0 // may set the error status
	if s.nv > 100 {
		m.weights = [nKinds]int{}
		m.weights[kBuild], m.weights[kMakecube], m.weights[kShannon] = 1, 0, 2
	}
	m.seedPool(5)
	b := m.b
	for i := 0; i < 15; i++ {
		m.Do()
		roots := []rudd.Node{}
		for k := 1 + c.Intn(c.Pick(3, 3, 3, 40)); k > 0; k-- {
			roots = append(roots, m.operand())
		}
		if c.Chance(15) {
			roots = roots[:0]
		}
		ids := []int{}
		var d *Dump
		for _, r := range roots {
			ids = append(ids, *r)
		}
		if len(roots) == 0 {
			d = c.DumpAll(b)
		} else {
			d = c.DumpRoots(b, roots...)
		}
		want := map[int]rec{}
		h := uint64(s.nv)
		for _, r := range d.nodes {
			want[r.id] = r
			h += mix(uint64(r.id), uint64(r.low)*77777+uint64(r.high)*31+uint64(r.level))
		}
		if len(want) == 0 {
			h = mix(h, uint64(len(ids)))
		}
		var out bytes.Buffer
		c.Step("Print %v", ids)
		b.Print(&out, roots...)
		c.Eval(h)
		if len(roots) == 1 && ids[0] < 2 {
			w := [2]string{"False", "True"}[ids[0]]
			if strings.TrimSpace(out.String()) != w {
				c.Failf("Print of %s wrote %q", w, head(out.String()))
			}
		} else {
			rows := b.rows(parsePrint(c, out.String()))
			c.compareVisit(fmt.Sprintf("Print %v", ids), want, rows)
			c.Count("Print rows compared", int64(len(rows)))
			m.rebuild("Print", rows, roots)
		}
		out.Reset()
		c.Step("Dot %v", ids)
		err := b.Dot(&out, roots...)
		if err != nil {
			c.Failf("Dot %v returned %v", ids, err)
		}
		c.Eval(mix(h, 1))
		rows := b.rows(parseDot(c, out.String()))
		c.compareVisit(fmt.Sprintf("Dot %v", ids), want, rows)
		c.Count("Dot nodes compared", int64(len(rows)))
		m.rebuild("Dot", rows, roots)
		if i == 2 && len(rows) > 0 {
			c.Sample("Dot and Print of %v on %d variables: %d nodes", ids, s.nv, len(rows))
		}
	}
	// error state
	n := m.operand()
	c.Step("error state")
	b.Ithvar(-1)
	if !b.Errored() {
		c.Failf("Ithvar(-1) did not set the error status")
	}
	var out bytes.Buffer
	b.Print(&out, n)
	if !strings.Contains(out.String(), b.Error()) {
		c.Failf("Print in the error state %q wrote %q", b.Error(), head(out.String()))
	}
	out.Reset()
	err := b.Dot(&out, n)
	if err == nil || strings.Contains(out.String(), "->") {
		c.Failf("Dot in the error state returned %v and wrote %q", err, head(out.String()))
	}
	c.Eval(mix(uint64(*n), 3))
}

// rebuild evaluates the functions of the roots from the text alone.
func (m *M) rebuild(what string, rows []rec, roots []rudd.Node) {
	if len(roots) == 0 {
		return
	}
	d := &Dump{c: m.Ctx, nv: m.nv, pos: map[int]int{}}
	for _, r := range rows {
		d.add(r.id, r.level, r.low, r.high)
	}
	ids := []int{}
	for _, r := range roots {
		ids = append(ids, *r)
	}
	got := d.Eval(m.s, m.s.vars, ids...)
	want := m.Fn(m.b, m.s, roots...)
	for i := range got {
		if !eqLanes(got[i], want[i]) {
			m.Failf("%s: the function of node %d read from the text is %s, the node denotes %s", what, ids[i], laneStr(got[i]), laneStr(want[i]))
		}
	}
}
