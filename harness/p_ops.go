package main

// C01 C02 C03 C04 C16: exactness of operations and canonicity.

import (
	"fmt"
	"math"
	"sort"

	"github.com/dalzilio/rudd"
)

func init() {
	register("C01", Prop{quick: 2400, thorough: 24000, run: runC01})
	register("C02", Prop{quick: 1300, thorough: 13000, run: runC02})
	register("C03", Prop{quick: 2200, thorough: 22000, run: runC03})
	register("C04", Prop{quick: 2400, thorough: 24000, run: runC04})
	register("C16", Prop{quick: 2000, thorough: 20000, run: runC16})
}

// randSpace draws the number of variables and the assignments compared.
func (c *Ctx) randSpace() *Space {
	switch r := c.Intn(100); {
	case r < 5:
		return exactSpace(1 + c.Intn(2))
	case r < 70:
		return exactSpace(3 + c.Intn(4))
	case r < 85:
		return exactSpace(7 + c.Intn(2))
	default:
		return sampledSpace(c.Rand, 12+c.Intn(50), 4)
	}
}

// seedPool fills the pool with random functions.
func (m *M) seedPool(n int) {
	for i := 0; i < n; i++ {
		k := m.Pick(int(kBuild), int(kBuild), int(kMakecube), int(kShannon))
		old := m.check
		m.check = [nKinds]bool{}
		m.DoKind(Kind(k))
		m.check = old
	}
}

func (m *M) run(steps int, gcPct int) {
	for i := 0; i < steps; i++ {
		m.Do()
		if gcPct > 0 && m.Intn(1000) < gcPct {
			m.GC()
		}
	}
	m.ObserveGC(m.b, &m.stats)
}

func (c *Ctx) opsMachine() *M {
	s := c.randSpace()
	g := c.RandCfg(s.nv)
	m := c.NewMachine(g, s)
	m.ObserveGC(m.b, &m.stats)
	for k := range m.weights {
		m.weights[k] = 3
	}
	m.weights[kConst] = 1
	m.max = c.Pick(6, 12, 24, 40)
	m.seedPool(6)
	return m
}

// allFunctions holds every function of nv variables (nv <= 3) and the map
// from ids to truth tables.
type allFns struct {
	nodes []rudd.Node
	tt    map[int]uint64
	nv    int
	full  uint64
}

func (c *Ctx) allFunctions(b *Bdd, nv int) *allFns {
	a := &allFns{tt: map[int]uint64{}, nv: nv}
	set := make([]int, nv)
	for i := range set {
		set[i] = i
	}
	nf := 1 << (1 << nv)
	a.full = uint64(nf - 1)
	for f := 0; f < nf; f++ {
		id := BuildTT(b, set, uint64(f))
		n := b.Retnode(id)
		if n == nil {
			c.Failf("Retnode(%d) returned nil", id)
		}
		if o, ok := a.tt[id]; ok {
			c.Failf("functions %x and %x of %d variables are both node %d", o, f, nv, id)
		}
		a.tt[id] = uint64(f)
		a.nodes = append(a.nodes, n)
	}
	return a
}

func (a *allFns) expect(c *Ctx, n rudd.Node, want uint64, desc func() string) {
	progress.Add(1)
	if n == nil {
		c.Failf("%s returned nil", desc())
	}
	got, ok := a.tt[*n]
	if !ok {
		c.Failf("%s = node %d, that is none of the nodes of the functions of %d variables (expected truth table %x)", desc(), *n, a.nv, want)
	}
	if got != want&a.full {
		c.Failf("%s denotes truth table %x, expected %x (%d variables)", desc(), got, want&a.full, a.nv)
	}
}

func ttOp(op int, f, g uint64) uint64 { return lanesOp(op, []uint64{f}, []uint64{g})[0] }

func runC01(c *Ctx) {
	switch {
	case c.idx%40 == 0:
		exhaustiveC01(c, 2)
	case c.idx%40 == 1:
		exhaustiveC01(c, 3)
	case c.idx%24 == 5:
		reuse(c, 60, stNot, stApply, stApply, stIte)
	case c.idx%60 == 30:
		temporaries(c, 8, stNot, stApply, stIte)
	case c.idx%40 == 7:
		ageing(c, ageDistances(c, c.idx%400 == 7), stNot, stApply, stIte)
	case c.idx%40 == 8:
		reborn(c, 120, stNot, stApply, stIte)
	default:
		m := c.opsMachine()
		for _, k := range []Kind{kNot, kApply, kAndOr, kImpEq, kIte, kShannon} {
			m.check[k] = true
			m.weights[k] = 12
		}
		m.weights[kApply] = 40
		m.run(220, 3)
	}
}

func exhaustiveC01(c *Ctx, nv int) {
	g := c.RandCfg(nv)
	b := c.New(g)
	a := c.allFunctions(b, nv)
	nf := len(a.nodes)
	var st Stats
	c.ObserveGC(b, &st)
	for f := 0; f < nf; f++ {
		a.expect(c, b.Not(a.nodes[f]), ^uint64(f), func() string { return fmt.Sprintf("Not(%x)", f) })
		c.Eval(mix(1, uint64(f*8+nv)))
	}
	ops := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
	if nv == 3 {
		ops = c.Perm(10)[:2]
		if c.thorough() {
			ops = c.Perm(10)
		}
	}
	for _, op := range ops {
		for _, f := range c.Perm(nf) {
			for g := 0; g < nf; g++ {
				r := b.Apply(a.nodes[f], a.nodes[g], rops[op])
				a.expect(c, r, ttOp(op, uint64(f), uint64(g)), func() string {
					return fmt.Sprintf("Apply(%x, %x, OP%s)", f, g, ropNames[op])
				})
			}
			c.out.Evaluations += int64(nf)
		}
		c.out.Distinct[mix(uint64(op*10+nv), 99)] = struct{}{}
		c.Count("exhaustive operator tables checked", 1)
	}
	n := nf * nf * nf
	if nv == 3 {
		n = 60000
	}
	for i := 0; i < n; i++ {
		var x, y, z int
		if nv == 2 {
			x, y, z = i%nf, i/nf%nf, i/nf/nf
		} else {
			x, y, z = c.Intn(nf), c.Intn(nf), c.Intn(nf)
		}
		r := b.Ite(a.nodes[x], a.nodes[y], a.nodes[z])
		a.expect(c, r, uint64(x)&uint64(y)|^uint64(x)&uint64(z), func() string { return fmt.Sprintf("Ite(%x, %x, %x)", x, y, z) })
	}
	c.out.Evaluations += int64(n)
	c.ObserveGC(b, &st)
	c.Sample("every pair of the %d functions of %d variables, operators %v, and %d Ite triples, %s", nf, nv, ops, n, g)
}

// ---------------------------------------------------------------------------

func runC02(c *Ctx) {
	m := c.opsMachine()
	if m.nv > 20 && !m.s.exact {
		m.max = 12
	}
	for k := range m.weights {
		m.weights[k] = 6
	}
	every := c.Pick(1, 3, 10)
	for i := 0; i < 120; i++ {
		n, _ := m.DoAny()
		if i%every == 0 {
			d := c.DumpAll(m.b)
			d.WellFormed()
			m.canonicalPool(d)
			c.Count("whole-table scans", 1)
			c.Count("nodes scanned", int64(len(d.nodes)))
			c.Max("largest table scanned", int64(len(d.nodes)))
			var h uint64 = 7
			for _, p := range m.pool {
				h = mix(h, uint64(*p.n))
				h = hashLanes(h, p.fn)
			}
			c.Eval(h)
		}
		if n != nil && m.s.exact && m.Chance(25) {
			m.rebuildCheck()
		}
		if m.Chance(1) {
			m.GC()
		}
		if m.Chance(1) && m.nv <= 20 {
			m.Churn(1)
		}
	}
	m.ObserveGC(m.b, &m.stats)
}

// DoAny is Do, returning the result.
func (m *M) DoAny() (rudd.Node, []uint64) {
	tot := 0
	for _, w := range m.weights {
		tot += w
	}
	x := m.Intn(tot)
	k := Kind(0)
	for x >= m.weights[k] {
		x -= m.weights[k]
		k++
	}
	return m.DoKind(k)
}

// canonicalPool: held nodes have the same id exactly if they denote the same
// function now.
func (m *M) canonicalPool(d *Dump) {
	ids := []int{}
	for _, h := range m.pool {
		ids = append(ids, *h.n)
	}
	fns := d.Eval(m.s, m.s.vars, ids...)
	for i := range ids {
		if isConst(fns[i]) && m.s.exact && ids[i] > 1 {
			m.Failf("node %d denotes a constant but is not the constant node", ids[i])
		}
		for j := 0; j < i; j++ {
			same := eqLanes(fns[i], fns[j])
			if ids[i] == ids[j] != m.b.Equal(m.pool[i].n, m.pool[j].n) {
				m.Failf("Equal(%d, %d) = %v", ids[i], ids[j], m.b.Equal(m.pool[i].n, m.pool[j].n))
			}
			if same && ids[i] != ids[j] && m.s.exact {
				m.Failf("nodes %d and %d denote the same function %s", ids[i], ids[j], laneStr(fns[i]))
			}
			if same && ids[i] != ids[j] && !m.s.exact {
				// the values agree on the sample: compare structurally
				if d.sameFunction(ids[i], ids[j]) {
					m.Failf("nodes %d and %d denote the same function", ids[i], ids[j])
				}
			}
		}
	}
}

// sameFunction compares two diagrams by unfolding both.
func (d *Dump) sameFunction(a, b int) bool {
	type pair struct{ a, b int }
	memo := map[pair]bool{}
	var rec func(a, b int) bool
	rec = func(a, b int) bool {
		if a == b {
			return true
		}
		if a < 2 && b < 2 {
			return false
		}
		p := pair{a, b}
		if r, ok := memo[p]; ok {
			return r
		}
		la, lb := d.nv, d.nv
		a0, a1, b0, b1 := a, a, b, b
		if a > 1 {
			la = d.get(a).level
		}
		if b > 1 {
			lb = d.get(b).level
		}
		if la <= lb {
			a0, a1 = d.get(a).low, d.get(a).high
		}
		if lb <= la {
			b0, b1 = d.get(b).low, d.get(b).high
		}
		memo[p] = false
		r := rec(a0, b0) && rec(a1, b1)
		memo[p] = r
		return r
	}
	return rec(a, b)
}

// rebuildCheck builds the function of a held node in another way and expects
// the same node.
func (m *M) rebuildCheck() {
	if len(m.pool) == 0 {
		return
	}
	h := m.pool[m.Intn(len(m.pool))]
	b := m.b
	cur := m.Fn(b, m.s, h.n)[0]
	var r rudd.Node
	how := ""
	switch m.Intn(6) {
	case 0: // minterms
		if m.nv > 6 {
			return
		}
		how = "sum of minterms"
		r = b.False()
		for a := 0; a < 1<<m.nv; a++ {
			if cur[a/64]>>(a%64)&1 == 1 {
				pol := make([]bool, m.nv)
				for i := range pol {
					pol[i] = a>>i&1 == 1
				}
				r = b.Or(r, b.Makecube(nil, pol))
			}
		}
	case 1:
		how = "kernel construction"
		r = b.Retnode(m.buildLanes(cur, 0))
	case 2:
		how = "double negation"
		r = b.Not(b.Not(h.n))
	case 3:
		how = "Shannon expansion"
		v := m.Intn(m.nv)
		f0 := b.Exist(b.And(h.n, b.NIthvar(v)), b.Ithvar(v))
		f1 := b.Exist(b.And(h.n, b.Ithvar(v)), b.Ithvar(v))
		r = b.Ite(b.Ithvar(v), f1, f0)
	case 4:
		how = "difference and union with another function"
		g := m.operand()
		r = b.Or(b.And(h.n, g), b.Apply(h.n, g, rudd.OPdiff))
		if r != nil && !eqLanes(m.Fn(b, m.s, r)[0], cur) {
			return // wrong result of an operation: not judged here
		}
	case 5:
		how = "tautology and contradiction"
		t := b.Or(h.n, b.Not(h.n))
		if t != b.True() {
			m.Failf("%d or not %d is not the node returned by True", *h.n, *h.n)
		}
		f := b.And(h.n, b.Not(h.n))
		if f != b.False() {
			m.Failf("%d and not %d is not the node returned by False", *h.n, *h.n)
		}
		m.Count("constants compared", 2)
		return
	}
	m.Step("rebuild %d by %s", *h.n, how)
	if r == nil {
		m.Failf("rebuilding node %d by %s returned nil (%s)", *h.n, how, b.Error())
	}
	if !eqLanes(m.Fn(b, m.s, r)[0], cur) {
		return
	}
	m.Count("functions rebuilt", 1)
	if *r != *h.n || !b.Equal(r, h.n) {
		m.Failf("function of node %d rebuilt by %s is node %d (Equal: %v)", *h.n, how, *r, b.Equal(r, h.n))
	}
}

// buildLanes builds a function from its values on all assignments.
func (m *M) buildLanes(l []uint64, v int) int {
	m.b.Initref()
	idx := func(a int) int { return int(l[a/64] >> (a % 64) & 1) }
	var rec func(v, a int) int
	rec = func(v, a int) int {
		if v == m.nv {
			return idx(a)
		}
		lo := m.b.Pushref(rec(v+1, a))
		hi := m.b.Pushref(rec(v+1, a|1<<v))
		r := m.b.Makenode(int32(v), lo, hi)
		m.b.Popref(2)
		return r
	}
	return rec(v, 0)
}

// ---------------------------------------------------------------------------

func runC03(c *Ctx) {
	if c.idx == 5 || c.idx == 10 {
		longQuant(c, 90000, 0)
		return
	}
	if c.thorough() && c.idx == 11 {
		longQuant(c, 90000, wrapIdle())
		return
	}
	if c.idx%30 == 0 {
		exhaustiveC03(c)
		return
	}
	if c.idx%24 == 7 {
		reuse(c, 60, stExist, stAppEx)
		return
	}
	if c.idx%60 == 32 {
		temporaries(c, 8, stExist, stAppEx)
		return
	}
	if c.idx%40 == 8 {
		ageing(c, ageDistances(c, c.idx%400 == 8), stExist, stAppEx)
		return
	}
	if c.idx%40 == 11 {
		reborn(c, 120, stExist, stAppEx)
		return
	}
	m := c.opsMachine()
	m.check[kExist], m.check[kAppEx] = true, true
	m.weights[kExist], m.weights[kAppEx] = 25, 35
	m.run(150, 3)
}

func exhaustiveC03(c *Ctx) {
	nv := 3
	b := c.New(c.RandCfg(nv))
	a := c.allFunctions(b, nv)
	nf := len(a.nodes)
	exist := func(f uint64, set int) uint64 {
		for v := 0; v < nv; v++ {
			if set>>v&1 == 1 {
				m := lowMasks[v]
				f = f&m | (f&m)>>(1<<v) | f&^m | (f&^m)<<(1<<v)
				f &= a.full
			}
		}
		return f
	}
	vs := make([]rudd.Node, 8)
	for s := 0; s < 8; s++ {
		l := []int{}
		for v := 0; v < nv; v++ {
			if s>>v&1 == 1 {
				l = append(l, v)
			}
		}
		vs[s] = b.Makeset(l)
	}
	for i := 0; i < nf*8; i++ {
		f, s := i/8, i%8
		r := b.Exist(a.nodes[f], vs[s])
		a.expect(c, r, exist(uint64(f), s), func() string {
			return fmt.Sprintf("Exist(%x, variables %03b)", f, s)
		})
		c.Eval(mix(uint64(i), 3))
	}
	n := 60000
	if c.thorough() {
		n = 400000
	}
	for i := 0; i < n; i++ {
		f, g, op, s := c.Intn(nf), c.Intn(nf), c.Intn(4), c.Intn(8)
		r := b.AppEx(a.nodes[f], a.nodes[g], rops[op], vs[s])
		a.expect(c, r, exist(ttOp(op, uint64(f), uint64(g))&a.full, s), func() string {
			return fmt.Sprintf("AppEx(%x, %x, OP%s, variables %03b)", f, g, ropNames[op], s)
		})
		c.Eval(mix(uint64(f*256+g), uint64(op*8+s)))
	}
	c.Sample("Exist on all 256 functions of 3 variables and all 8 sets, %d random AppEx", n)
}

// ---------------------------------------------------------------------------

func runC04(c *Ctx) {
	switch {
	case c.idx == 5:
		longReplace(c, 70000)
		return
	case c.idx == 10 && c.thorough():
		longReplace(c, 3000000)
		return
	case c.idx%8 == 0:
		replacerArgs(c)
		return
	case c.idx%8 == 1:
		manyReplacers(c)
		return
	case c.idx%24 == 6:
		reuse(c, 60, stReplace)
		return
	case c.idx%60 == 34:
		temporaries(c, 8, stReplace)
		return
	case c.idx%40 == 11:
		ageing(c, ageDistances(c, c.idx%400 == 11), stReplace)
		return
	case c.idx%40 == 12:
		reborn(c, 120, stReplace)
		return
	}
	m := c.opsMachine()
	m.check[kReplace] = true
	m.weights[kReplace] = 60
	m.run(150, 3)
}

// replacerArgs: NewReplacer on valid and invalid slices.
func replacerArgs(c *Ctx) {
	s := exactSpace(2 + c.Intn(5))
	m := c.NewMachine(c.RandCfg(s.nv), s)
	nv := s.nv
	m.seedPool(5)
	for i := 0; i < 120; i++ {
		k := c.Intn(nv + 1)
		p := c.Perm(nv)
		q := c.Perm(nv)
		old, nw := append([]int{}, p[:k]...), append([]int{}, q[:k]...)
		must := "" // reason why it must be an error
		switch c.Intn(10) {
		case 0:
			if c.Chance(50) {
				nw = append(nw, c.Intn(nv))
			} else {
				old = append(old, c.Intn(nv))
			}
			must = "different lengths"
		case 1:
			bad := c.Pick(fitting(-1, int64(nv), int64(nv)+1, 1000, -1000, 1<<32, 1<<32+1, -1<<32, math.MaxInt64, math.MinInt64)...)
			if k == 0 {
				continue
			}
			if c.Chance(50) {
				old[c.Intn(k)] = bad
			} else {
				nw[c.Intn(k)] = bad
			}
			must = "variable out of range"
		case 2:
			if k < 2 {
				continue
			}
			i, j := c.Intn(k), c.Intn(k)
			if i == j {
				continue
			}
			if c.Chance(50) {
				old[i] = old[j]
				must = "variable twice in oldvars"
			} else {
				nw[i] = nw[j]
				must = "variable twice in newvars"
			}
		case 3: // duplicate of an identity
			if k < 2 {
				continue
			}
			i, j := c.Intn(k), c.Intn(k)
			if i == j {
				continue
			}
			nw[i] = old[i]
			nw[j] = old[i]
			must = "variable twice in newvars"
		case 4, 5: // identity
			nw = append([]int{}, old...)
		default:
		}
		c.Step("NewReplacer(%v, %v)", old, nw)
		argo, argn := append([]int{}, old...), append([]int{}, nw...)
		r, err := m.b.NewReplacer(argo, argn)
		if fmt.Sprint(argo, argn) != fmt.Sprint(old, nw) {
			c.Failf("NewReplacer(%v, %v) changed its arguments to %v and %v", old, nw, argo, argn)
		}
		for i := range argo { // they belong to the caller
			argo[i] = c.Intn(nv)
		}
		for i := range argn {
			argn[i] = c.Intn(nv)
		}
		h := uint64(nv)
		for i := range old {
			h = mix(h, uint64(old[i]))
		}
		for i := range nw {
			h = mix(h, uint64(nw[i])+999)
		}
		c.Eval(h)
		if must != "" {
			c.Count("invalid NewReplacer calls judged", 1)
			if err == nil {
				c.Failf("NewReplacer(%v, %v) on %d variables accepted: %s", old, nw, nv, must)
			}
			continue
		}
		disjoint := true
		for i, o := range old {
			for j, n := range nw {
				if o == n && i != j {
					disjoint = false
				}
			}
		}
		if err != nil {
			if disjoint {
				c.Failf("NewReplacer(%v, %v) on %d variables: error %v", old, nw, nv, err)
			}
			continue
		}
		if r == nil {
			c.Failf("NewReplacer(%v, %v) returned nil and no error", old, nw)
		}
		img := map[int]int{}
		for i := range old {
			img[old[i]] = nw[i]
		}
		for v := 0; v < nv; v++ {
			want, isOld := img[v]
			if !isOld {
				want = v
			}
			got, ok := r.Replace(int32(v))
			if int(got) != want || (!ok && want != v) {
				c.Failf("replacer %v -> %v maps variable %d to (%d, %v), expected %d", old, nw, v, got, ok, want)
			}
		}
		m.reps = []Rep{{r, old, nw}}
		m.check[kReplace] = true
		m.DoKind(kReplace)
		m.DoKind(Kind(c.Pick(int(kApply), int(kBuild), int(kNot), int(kShannon))))
	}
}

// manyReplacers uses many replacers on the same few nodes in turn.
func manyReplacers(c *Ctx) {
	s := exactSpace(4 + c.Intn(3))
	g := c.RandCfg(s.nv)
	g.Node = 2000
	m := c.NewMachine(g, s)
	m.check[kReplace] = true
	m.seedPool(4)
	all := []Rep{}
	for i := 0; i < 12; i++ {
		m.reps = nil
		all = append(all, m.NewRep())
	}
	for i := 0; i < 150; i++ {
		m.reps = []Rep{all[c.Intn(len(all))]}
		m.max = 4
		m.DoKind(kReplace)
		if c.Chance(5) {
			m.reps = nil
			all[c.Intn(len(all))] = m.NewRep()
		}
	}
}

// ---------------------------------------------------------------------------

func runC16(c *Ctx) {
	if c.idx%10 == 0 {
		wideC16(c)
		return
	}
	if c.idx%100 == 3 {
		hugeC16(c)
		return
	}
	m := c.opsMachine()
	for _, k := range []Kind{kMakeset, kMakecube, kLowHigh, kVar, kConst} {
		m.check[k] = true
		m.weights[k] = 18
	}
	m.weights[kConst] = 2
	for i := 0; i < 120; i++ {
		m.Do()
		if c.Chance(10) {
			m.scanset()
		}
		if c.Intn(1000) < 3 {
			m.GC()
		}
	}
	m.ObserveGC(m.b, &m.stats)
}

func (m *M) scanset() {
	set := append([]int{}, m.varsubset(m.nv)...)
	m.Shuffle(len(set), func(i, j int) { set[i], set[j] = set[j], set[i] })
	arg := append([]int{}, set...)
	if m.Chance(20) && len(set) > 0 { // a set listed with repetitions
		arg = append(arg, set[m.Intn(len(set))])
	}
	keep := append([]int{}, arg...)
	m.Step("Scanset(Makeset(%v))", arg)
	n := m.b.Makeset(arg)
	if n == nil {
		m.Failf("Makeset(%v) returned nil: %s", arg, m.b.Error())
	}
	if fmt.Sprint(arg) != fmt.Sprint(keep) {
		m.Failf("Makeset changed its argument from %v to %v", keep, arg)
	}
	got := m.b.Scanset(n)
	sort.Ints(set)
	if len(got) != len(set) {
		m.Failf("Scanset(Makeset(%v)) = %v", arg, got)
	}
	var h uint64 = 5
	for i := range set {
		h = mix(h, uint64(set[i]))
		if got[i] != set[i] {
			m.Failf("Scanset(Makeset(%v)) = %v", arg, got)
		}
	}
	m.Count("set round trips", 1)
	m.Eval(h)
	// and the set denotes the conjunction
	want := m.s.constant(true)
	for _, v := range set {
		want = lanesOp(0, want, m.s.vars[v])
	}
	if f := m.Fn(m.b, m.s, n)[0]; !eqLanes(f, want) {
		m.Failf("Makeset(%v) denotes %s, expected %s", arg, laneStr(f), laneStr(want))
	}
	// of any node, it lists the variables along the high branches
	x := m.operand()
	path := []int{}
	for y := x; *y > 1; y = m.b.High(y) {
		path = append(path, m.b.Label(y))
	}
	if got := m.b.Scanset(x); fmt.Sprint(got) != fmt.Sprint(path) {
		m.Failf("Scanset(%d) = %v, but the high branches follow %v", *x, got, path)
	}
	m.Count("high branches listed", 1)
	if !m.b.Equal(nil, nil) || !m.b.Equal(x, x) || m.b.Equal(x, nil) || m.b.Equal(nil, x) {
		m.Failf("Equal is wrong about node %d and nil", *x)
	}
	if y := m.operand(); m.b.Equal(x, y) != (*x == *y) {
		m.Failf("Equal(%d, %d) = %v", *x, *y, *x != *y)
	}
}

// wideC16 builds sets and cubes over many variables, so that the construction
// itself triggers collections and resizes.
func wideC16(c *Ctx) {
	nv := 50 + c.Intn(400)
	s := sampledSpace(c.Rand, nv, 1)
	g := c.RandCfg(nv)
	g.Node = 0
	m := c.NewMachine(g, s)
	m.ObserveGC(m.b, &m.stats)
	b := m.b
	m.max = 5
	for i := 0; i < 25; i++ {
		k := c.Intn(nv + 1)
		set := c.Perm(nv)[:k]
		sort.Ints(set)
		pol := make([]bool, k)
		for j := range pol {
			pol[j] = c.Chance(50)
		}
		cube := c.Chance(50)
		var n rudd.Node
		c.Step("wide set/cube over %d of %d variables", k, nv)
		if cube {
			if k == 0 {
				continue
			}
			n = b.Makecube(set, pol)
		} else {
			n = b.Makeset(set)
			if got := b.Scanset(n); fmt.Sprint(got) != fmt.Sprint(set) {
				c.Failf("Scanset(Makeset(%v)) = %v", set, got)
			}
		}
		if n == nil {
			c.Failf("set or cube over %v is nil: %s", set, b.Error())
		}
		c.walkCube(b, n, set, pol, cube)
		m.hold(n, nil)
		c.Eval(mix(uint64(k), uint64(nv)))
		c.Count("wide cubes walked", 1)
	}
	for v := 0; v < nv; v++ {
		x, nx := b.Ithvar(v), b.NIthvar(v)
		if b.Label(x) != v || b.Label(nx) != v || b.High(x) != b.True() || b.Low(x) != b.False() || b.High(nx) != b.False() || b.Low(nx) != b.True() {
			c.Failf("Ithvar(%d)/NIthvar(%d) do not denote the variable and its negation", v, v)
		}
	}
	if b.From(true) != b.True() || b.From(false) != b.False() || *b.True() != 1 || *b.False() != 0 {
		c.Failf("From, True and False disagree")
	}
	m.ObserveGC(b, &m.stats)
}

// walkCube follows a set (or a cube, with the polarities given) with the
// accessors.
func (c *Ctx) walkCube(b *Bdd, n rudd.Node, set []int, pol []bool, cube bool) {
	cur := n
	for j, v := range set {
		if l := b.Label(cur); l != v {
			c.Failf("Label at depth %d of the cube over %s is %d, expected %d", j, head(fmt.Sprint(set)), l, v)
		}
		on, off := b.High(cur), b.Low(cur)
		if cube && !pol[j] {
			on, off = off, on
		}
		if off != b.False() {
			c.Failf("the excluded branch at variable %d of a cube is not False", v)
		}
		cur = on
	}
	if cur != b.True() {
		c.Failf("a cube does not end in True")
	}
}

// hugeC16: sets and cubes over tens of thousands of variables.
func hugeC16(c *Ctx) {
	g := defCfg(c.Pick(40000, 70000, 70000, 140000))
	if c.thorough() && c.Chance(20) {
		g.Vars = 600000
	}
	nv := g.Vars
	g.Node = 2*nv + 2 + c.Pick(0, 1000, 2*nv)
	b := c.New(g)
	var st Stats
	c.ObserveGC(b, &st)
	for i := 0; i < 5; i++ {
		k := c.Pick(nv, nv-1, 1+c.Intn(nv), 1+c.Intn(nv))
		set := c.Perm(nv)[:k]
		sort.Ints(set)
		pol := make([]bool, k)
		pct := c.Pick(0, 2, 50, 98, 100)
		for j := range pol {
			pol[j] = c.Chance(pct)
		}
		cube := c.Chance(65)
		var n rudd.Node
		c.Step("set or cube (%v) over %d of %d variables", cube, k, nv)
		switch {
		case cube && k == nv:
			n = b.Makecube(nil, pol)
		case cube:
			n = b.Makecube(set, pol)
		default:
			arg := append([]int{}, set...)
			c.Shuffle(k, func(i, j int) { arg[i], arg[j] = arg[j], arg[i] })
			n = b.Makeset(arg)
		}
		if n == nil {
			c.Failf("set or cube over %d of %d variables is nil: %s", k, nv, b.Error())
		}
		if !cube {
			got := b.Scanset(n)
			if len(got) != k {
				c.Failf("Scanset(Makeset of %d variables) has %d variables", k, len(got))
			}
			for j := range got {
				if got[j] != set[j] {
					c.Failf("Scanset(Makeset of %d variables) has %d at position %d, expected %d", k, got[j], j, set[j])
				}
			}
		}
		c.walkCube(b, n, set, pol, cube)
		c.Eval(mix(uint64(k), uint64(nv)))
		c.Count("huge sets and cubes walked", 1)
		c.Max("variables in a set or a cube", int64(k))
		progress.Add(1)
	}
	for i := 0; i < 2000; i++ {
		v := c.Intn(nv)
		x, nx := b.Ithvar(v), b.NIthvar(v)
		if b.Label(x) != v || b.Label(nx) != v || b.High(x) != b.True() || b.Low(x) != b.False() || b.High(nx) != b.False() || b.Low(nx) != b.True() {
			c.Failf("Ithvar(%d)/NIthvar(%d) do not denote the variable and its negation", v, v)
		}
	}
	c.ObserveGC(b, &st)
}
