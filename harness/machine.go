package main

// The history machine: random sequences of API calls on one BDD, every result
// compared with a reference model. Operands are read back just before the
// call, so that the verdict on an operation concerns that operation only.

import (
	"fmt"
	"runtime"
	"sort"

	"github.com/dalzilio/rudd"
)

type Kind int

const (
	kNot Kind = iota
	kApply
	kAndOr // variadic
	kImpEq
	kIte
	kExist
	kAppEx
	kReplace
	kMakeset
	kMakecube
	kLowHigh
	kVar
	kConst
	kBuild // bottom-up construction with the kernel functions
	kShannon
	nKinds
)

var kindNames = [nKinds]string{"Not", "Apply", "And/Or", "Imp/Equiv", "Ite", "Exist", "AppEx", "Replace", "Makeset", "Makecube", "Low/High", "Ithvar", "Const", "Kernel", "Shannon"}

// Held is a node held by user code, with the function it denoted at first.
type Held struct {
	n  rudd.Node
	fn []uint64
}

type Rep struct {
	r        rudd.Replacer
	old, new []int
}

type M struct {
	*Ctx
	b       *Bdd
	s       *Space
	nv      int
	pool    []Held
	reps    []Rep
	sets    [][]int // recent variable sets, reused to provoke cache hits
	max     int
	weights [nKinds]int
	check   [nKinds]bool // kinds whose results are judged
	stats   Stats
	maxQ    int
	nilOK   bool // nil results allowed (limited tables)
	lastB   int  // operand reused from the previous step
}

func (c *Ctx) NewMachine(g Cfg, s *Space) *M {
	m := &M{Ctx: c, b: c.New(g), s: s, nv: g.Vars, max: 24, maxQ: 6}
	if s.exact {
		m.maxQ = s.nv
	}
	return m
}

// operand draws a held node, with a bias for recently used ones.
func (m *M) operand() rudd.Node {
	r := m.Intn(20)
	switch {
	case r == 0:
		return m.b.True()
	case r == 1:
		return m.b.False()
	case r < 5 || len(m.pool) == 0:
		if m.Chance(50) {
			return m.b.Ithvar(m.Intn(m.nv))
		}
		return m.b.NIthvar(m.Intn(m.nv))
	case r < 8:
		return m.pool[m.lastB%len(m.pool)].n
	}
	m.lastB = m.Intn(len(m.pool))
	return m.pool[m.lastB].n
}

func (m *M) hold(n rudd.Node, fn []uint64) {
	if n == nil {
		return
	}
	h := Held{n, fn}
	if len(m.pool) < m.max {
		m.pool = append(m.pool, h)
		return
	}
	m.pool[m.Intn(len(m.pool))] = h
}

// varsubset draws a set of variables of size at most max.
func (m *M) varsubset(max int) []int {
	if len(m.sets) > 0 && m.Chance(50) {
		s := m.sets[m.Intn(len(m.sets))]
		if len(s) <= max {
			return s
		}
	}
	k := m.Intn(max + 1)
	if m.nv < k {
		k = m.nv
	}
	p := m.Perm(m.nv)[:k]
	if m.Chance(10) && k > 0 { // a contiguous range
		lo := m.Intn(m.nv - k + 1)
		for i := range p {
			p[i] = lo + i
		}
	}
	sort.Ints(p)
	if len(m.sets) < 6 {
		m.sets = append(m.sets, p)
	} else {
		m.sets[m.Intn(6)] = p
	}
	return p
}

// completions enumerates the overrides of the variables in set.
func (m *M) completions(set []int) [][][]uint64 {
	r := [][][]uint64{}
	for a := 0; a < 1<<len(set); a++ {
		o := map[int][]uint64{}
		for k, v := range set {
			o[v] = m.s.constant(a>>k&1 == 1)
		}
		r = append(r, m.s.with(o))
	}
	return r
}

// NewRep draws a replacer: injective, new variables disjoint from the old
// ones except for identities.
func (m *M) NewRep() Rep {
	if len(m.reps) > 0 && m.Chance(60) {
		return m.reps[m.Intn(len(m.reps))]
	}
	k := 0
	if m.nv >= 2 {
		k = m.Intn(m.nv/2 + 1)
	}
	p := m.Perm(m.nv)
	old, nw := append([]int{}, p[:k]...), append([]int{}, p[k:2*k]...)
	if m.Chance(50) { // order preserving
		sort.Ints(old)
		sort.Ints(nw)
	}
	if i, j := m.b.twins(m.Rand); i >= 0 && m.Chance(50) && m.nv >= 6 {
		nw, old = []int{i, j}, nil
		for _, v := range p {
			if v != i && v != j && len(old) < 2 && (v < i || m.Chance(30)) {
				old = append(old, v)
			}
		}
		k = len(old)
		nw = nw[:k]
	} else if m.Chance(15) && 2*k < m.nv { // an identity
		old, nw = append(old, p[2*k]), append(nw, p[2*k])
	}
	r, err := m.b.NewReplacer(old, nw)
	if err != nil {
		m.Failf("NewReplacer(%v, %v) returned error %v", old, nw, err)
	}
	rp := Rep{r, old, nw}
	if len(m.reps) < 4 {
		m.reps = append(m.reps, rp)
	} else {
		m.reps[m.Intn(4)] = rp
	}
	return rp
}

// twin builds a function with two variables that the replacer moves over the
// same functions: Ite(z, Ite(x, g, h), Ite(y, g, h)).
func (m *M) twin(rep Rep) rudd.Node {
	moved := []int{}
	used := map[int]bool{}
	for i := range rep.old {
		used[rep.old[i]], used[rep.new[i]] = true, true
		if rep.old[i] != rep.new[i] {
			moved = append(moved, rep.old[i])
		}
	}
	rest := []int{}
	for v := 0; v < m.nv; v++ {
		if !used[v] {
			rest = append(rest, v)
		}
	}
	if len(moved) < 2 || len(rest) < 2 {
		return nil
	}
	m.Shuffle(len(moved), func(i, j int) { moved[i], moved[j] = moved[j], moved[i] })
	m.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	b := m.b
	set := append([]int{}, rest[1:min(len(rest), 1+1+m.Intn(3))]...)
	sort.Ints(set)
	m.Step("functions over %v, selected by %d and %d, below %d", set, moved[0], moved[1], rest[0])
	id := BuildTT(b, set, m.Uint64())
	if id < 0 {
		return nil
	}
	g := b.Retnode(id)
	if id = BuildTT(b, set, m.Uint64()); id < 0 {
		return nil
	}
	h := b.Retnode(id)
	return b.Ite(b.Ithvar(rest[0]), b.Ite(b.Ithvar(moved[0]), g, h), b.Ite(b.Ithvar(moved[1]), g, h))
}

// evalAt evaluates node under overridden variables.
func evalAt(d *Dump, s *Space, vars [][]uint64, n rudd.Node) []uint64 {
	return d.Eval(s, vars, *n)[0]
}

func orInto(acc, a []uint64) {
	for i := range acc {
		acc[i] |= a[i]
	}
}

// support returns the variables (among all) the nodes of the dump test.
func (d *Dump) support(root int) map[int]bool {
	r := map[int]bool{}
	for id := range d.Reach(root) {
		r[d.get(id).level] = true
	}
	return r
}

// Do performs one random step.
func (m *M) Do() {
	tot := 0
	for _, w := range m.weights {
		tot += w
	}
	x := m.Intn(tot)
	k := Kind(0)
	for x >= m.weights[k] {
		x -= m.weights[k]
		k++
	}
	m.DoKind(k)
}

func (m *M) DoKind(k Kind) (rudd.Node, []uint64) {
	var desc string
	var ops []rudd.Node
	var call func() rudd.Node
	var model func(d *Dump, f [][]uint64) []uint64
	b, s := m.b, m.s
	salt := uint64(k)
	errOK := false
	mayErr := false
	var rep Rep
	switch k {
	case kNot:
		n := m.operand()
		ops = []rudd.Node{n}
		desc = fmt.Sprintf("Not(%d)", *n)
		call = func() rudd.Node { return b.Not(n) }
		model = func(d *Dump, f [][]uint64) []uint64 { return lanesNot(f[0]) }
	case kApply:
		op := m.Intn(10)
		n1, n2 := m.operand(), m.operand()
		ops = []rudd.Node{n1, n2}
		desc = fmt.Sprintf("Apply(%d, %d, OP%s)", *n1, *n2, ropNames[op])
		salt = mix(salt, uint64(op))
		call = func() rudd.Node { return b.Apply(n1, n2, rops[op]) }
		model = func(d *Dump, f [][]uint64) []uint64 { return lanesOp(op, f[0], f[1]) }
	case kAndOr:
		cnt := m.Pick(0, 1, 2, 2, 3, 3, 4, 6, 2, 3, 3, 5, 5, 9, 17, 40)
		ids := []int{}
		for i := 0; i < cnt; i++ {
			n := m.operand()
			ops = append(ops, n)
			ids = append(ids, *n)
		}
		or := m.Chance(50)
		name := "And"
		if or {
			name = "Or"
			salt = mix(salt, 1)
		}
		desc = fmt.Sprintf("%s%v", name, ids)
		call = func() rudd.Node {
			arg := append([]rudd.Node{}, ops...)
			var r rudd.Node
			if or {
				r = b.Or(arg...)
			} else {
				r = b.And(arg...)
			}
			for i := range arg {
				if arg[i] != ops[i] {
					m.Failf("%s changed the slice of its operands, at index %d", desc, i)
				}
			}
			return r
		}
		model = func(d *Dump, f [][]uint64) []uint64 {
			r := s.constant(!or)
			for i := range f {
				if or {
					r = lanesOp(2, r, f[i])
				} else {
					r = lanesOp(0, r, f[i])
				}
			}
			return r
		}
	case kImpEq:
		n1, n2 := m.operand(), m.operand()
		ops = []rudd.Node{n1, n2}
		if m.Chance(50) {
			desc = fmt.Sprintf("Imp(%d, %d)", *n1, *n2)
			call = func() rudd.Node { return b.Imp(n1, n2) }
			model = func(d *Dump, f [][]uint64) []uint64 { return lanesOp(5, f[0], f[1]) }
		} else {
			salt = mix(salt, 1)
			desc = fmt.Sprintf("Equiv(%d, %d)", *n1, *n2)
			call = func() rudd.Node { return b.Equiv(n1, n2) }
			model = func(d *Dump, f [][]uint64) []uint64 { return lanesOp(6, f[0], f[1]) }
		}
	case kIte:
		n1, n2, n3 := m.operand(), m.operand(), m.operand()
		ops = []rudd.Node{n1, n2, n3}
		desc = fmt.Sprintf("Ite(%d, %d, %d)", *n1, *n2, *n3)
		call = func() rudd.Node { return b.Ite(n1, n2, n3) }
		model = func(d *Dump, f [][]uint64) []uint64 { return lanesIte(f[0], f[1], f[2]) }
	case kShannon:
		v := m.Intn(m.nv)
		n2, n3 := m.operand(), m.operand()
		ops = []rudd.Node{n2, n3}
		desc = fmt.Sprintf("Ite(x%d, %d, %d)", v, *n2, *n3)
		call = func() rudd.Node { return b.Ite(b.Ithvar(v), n2, n3) }
		model = func(d *Dump, f [][]uint64) []uint64 { return lanesIte(s.vars[v], f[0], f[1]) }
	case kExist:
		n := m.operand()
		set := m.varsubset(m.maxQ)
		vs := b.Makeset(set)
		if vs == nil {
			if m.nilOK {
				return nil, nil
			}
			m.Failf("Makeset(%v) returned nil; error: %s", set, b.Error())
		}
		ops = []rudd.Node{n, vs}
		desc = fmt.Sprintf("Exist(%d, Makeset%v)", *n, set)
		for _, v := range set {
			salt = mix(salt, uint64(v))
		}
		call = func() rudd.Node { return b.Exist(n, vs) }
		model = func(d *Dump, f [][]uint64) []uint64 {
			r := s.constant(false)
			for _, o := range m.completions(set) {
				orInto(r, evalAt(d, s, o, n))
			}
			return r
		}
	case kAppEx:
		op := m.Intn(4)
		n1, n2 := m.operand(), m.operand()
		set := m.varsubset(m.maxQ)
		vs := b.Makeset(set)
		if vs == nil {
			if m.nilOK {
				return nil, nil
			}
			m.Failf("Makeset(%v) returned nil; error: %s", set, b.Error())
		}
		ops = []rudd.Node{n1, n2, vs}
		for _, v := range set {
			salt = mix(salt, uint64(v))
		}
		salt = mix(salt, uint64(op))
		if op == 0 && m.Chance(50) {
			desc = fmt.Sprintf("AndExist(%d, %d, Makeset%v)", *n1, *n2, set)
			call = func() rudd.Node { return b.AndExist(n1, n2, vs) }
		} else {
			desc = fmt.Sprintf("AppEx(%d, %d, OP%s, Makeset%v)", *n1, *n2, ropNames[op], set)
			call = func() rudd.Node { return b.AppEx(n1, n2, rops[op], vs) }
		}
		model = func(d *Dump, f [][]uint64) []uint64 {
			r := s.constant(false)
			for _, o := range m.completions(set) {
				orInto(r, lanesOp(op, evalAt(d, s, o, n1), evalAt(d, s, o, n2)))
			}
			return r
		}
	case kReplace:
		n := m.operand()
		rep = m.NewRep()
		if m.check[kReplace] && m.Chance(25) {
			if t := m.twin(rep); t != nil {
				n = t
			}
		}
		ops = []rudd.Node{n}
		desc = fmt.Sprintf("Replace(%d, %v -> %v)", *n, rep.old, rep.new)
		for i := range rep.old {
			salt = mix(salt, uint64(rep.old[i]*1000+rep.new[i]))
		}
		mayErr = true
		call = func() rudd.Node { return b.Replace(n, rep.r) }
		model = func(d *Dump, f [][]uint64) []uint64 {
			o := map[int][]uint64{}
			sup := d.support(*n)
			newIn, oldIn := false, false
			for i := range rep.old {
				o[rep.old[i]] = s.vars[rep.new[i]]
				if rep.old[i] == rep.new[i] {
					continue
				}
				if sup[rep.new[i]] && sup[rep.old[i]] {
					newIn, oldIn = true, true
				}
			}
			errOK = newIn && oldIn
			return evalAt(d, s, s.with(o), n)
		}
	case kMakeset:
		set := append([]int{}, m.varsubset(m.nv)...)
		m.Shuffle(len(set), func(i, j int) { set[i], set[j] = set[j], set[i] })
		if m.Chance(60) {
			sort.Ints(set)
		}
		desc = fmt.Sprintf("Makeset(%v)", set)
		for _, v := range set {
			salt = mix(salt, uint64(v))
		}
		call = func() rudd.Node {
			arg := append([]int{}, set...)
			r := b.Makeset(arg)
			if fmt.Sprint(arg) != fmt.Sprint(set) {
				m.Failf("%s changed its argument to %v", desc, arg)
			}
			return r
		}
		model = func(d *Dump, f [][]uint64) []uint64 {
			r := s.constant(true)
			for _, v := range set {
				r = lanesOp(0, r, s.vars[v])
			}
			return r
		}
	case kMakecube:
		set := m.varsubset(m.nv)
		all := m.Chance(20)
		var arg []int
		if all || len(set) == 0 {
			set = make([]int, m.nv)
			for i := range set {
				set[i] = i
			}
			arg = nil
		} else {
			arg = set
		}
		pol := make([]bool, len(set))
		for i := range pol {
			pol[i] = m.Chance(50)
			if pol[i] {
				salt = mix(salt, uint64(set[i]))
			} else {
				salt = mix(salt, uint64(set[i]+100000))
			}
		}
		desc = fmt.Sprintf("Makecube(%v, %v)", arg, pol)
		call = func() rudd.Node {
			a2, p2 := append([]int{}, arg...), append([]bool{}, pol...)
			r := b.Makecube(a2, p2)
			if fmt.Sprint(a2, p2) != fmt.Sprint(arg, pol) && fmt.Sprint(a2, p2) != fmt.Sprint([]int{}, pol) {
				m.Failf("%s changed its arguments to %v and %v", desc, a2, p2)
			}
			return r
		}
		model = func(d *Dump, f [][]uint64) []uint64 {
			r := s.constant(true)
			for i, v := range set {
				if pol[i] {
					r = lanesOp(0, r, s.vars[v])
				} else {
					r = lanesOp(0, r, lanesNot(s.vars[v]))
				}
			}
			return r
		}
	case kLowHigh:
		n := m.operand()
		if *n < 2 {
			return nil, nil
		}
		ops = []rudd.Node{n}
		high := m.Chance(50)
		if high {
			salt = mix(salt, 1)
			desc = fmt.Sprintf("High(%d)", *n)
			call = func() rudd.Node { return b.High(n) }
		} else {
			desc = fmt.Sprintf("Low(%d)", *n)
			call = func() rudd.Node { return b.Low(n) }
		}
		model = func(d *Dump, f [][]uint64) []uint64 {
			// the variable must be the first one the function depends on
			v := -1
			if s.exact {
				for v = 0; v < m.nv; v++ {
					c0 := evalAt(d, s, s.with(map[int][]uint64{v: s.constant(false)}), n)
					c1 := evalAt(d, s, s.with(map[int][]uint64{v: s.constant(true)}), n)
					if !eqLanes(c0, c1) {
						break
					}
				}
			} else {
				v = d.get(*n).level
			}
			if v >= m.nv {
				m.Failf("node %d denotes a constant function but is not a constant", *n)
			}
			if m.check[kLowHigh] {
				if l := b.Label(n); l != v {
					m.Failf("Label(%d) = %d, but the first variable the node depends on is %d", *n, l, v)
				}
			}
			return evalAt(d, s, s.with(map[int][]uint64{v: s.constant(high)}), n)
		}
	case kVar:
		v := m.Intn(m.nv)
		salt = mix(salt, uint64(v))
		if m.Chance(50) {
			desc = fmt.Sprintf("Ithvar(%d)", v)
			call = func() rudd.Node { return b.Ithvar(v) }
			model = func(d *Dump, f [][]uint64) []uint64 { return s.vars[v] }
		} else {
			salt = mix(salt, 77)
			desc = fmt.Sprintf("NIthvar(%d)", v)
			call = func() rudd.Node { return b.NIthvar(v) }
			model = func(d *Dump, f [][]uint64) []uint64 { return lanesNot(s.vars[v]) }
		}
	case kConst:
		v := m.Chance(50)
		desc = fmt.Sprintf("From(%v)", v)
		call = func() rudd.Node { return b.From(v) }
		model = func(d *Dump, f [][]uint64) []uint64 { return s.constant(v) }
	case kBuild:
		// a random function over a few variables, built bottom-up
		set := m.varsubset(min(m.nv, 5))
		if len(set) > 5 {
			set = set[:5]
		}
		tt := m.Uint64()
		desc = fmt.Sprintf("kernel build of truth table %x over %v", tt&(1<<(1<<len(set))-1), set)
		salt = mix(salt, tt)
		call = func() rudd.Node {
			id := BuildTT(b, set, tt)
			if id < 0 {
				return nil
			}
			return b.Retnode(id)
		}
		model = func(d *Dump, f [][]uint64) []uint64 { return ttLanes(s, set, tt) }
	}
	m.Step("%s", desc)
	judge := m.check[k]
	var want []uint64
	// the operands are read before the call
	errored := b.Errored()
	if judge || mayErr {
		d := m.DumpRoots(b, ops...)
		ids := make([]int, len(ops))
		for i, o := range ops {
			ids[i] = *o
		}
		f := d.Eval(s, s.vars, ids...)
		want = model(d, f)
		for i := range f {
			salt = hashLanes(salt, f[i])
		}
	}
	res := call()
	if res == nil {
		if mayErr && errOK && b.Errored() {
			m.Count("documented errors observed", 1)
			return nil, nil
		}
		if m.nilOK && b.Errored() {
			return nil, nil
		}
		if !judge {
			return nil, nil
		}
		m.Failf("%s returned nil on valid operands (error status: %q)", desc, b.Error())
	}
	if !judge && mayErr && errOK {
		return nil, nil
	}
	got := m.Fn(b, s, res)[0]
	if judge {
		h := salt
		if isConst(want) && len(ops) > 0 {
			allc := true
			for _, o := range ops {
				if *o > 1 {
					allc = false
				}
			}
			if allc {
				h = 0
			}
		}
		m.Eval(h)
		m.Count("results judged: "+kindNames[k], 1)
		if !eqLanes(got, want) {
			m.Failf("%s = node %d denotes %s, expected %s (%d variables, values on %d assignments)", desc, *res, laneStr(got), laneStr(want), m.nv, 64*s.w)
		}
		if b.Errored() && !errored && !(mayErr && errOK) {
			m.Failf("%s succeeded but the error status was set: %q", desc, b.Error())
		}
		if h != 0 && m.out.Evaluations%997 == 1 {
			m.Sample("%s on %d variables = node %d denoting %s", desc, m.nv, *res, laneStr(got))
		}
	}
	m.hold(res, got)
	if len(m.pool) > 0 && m.Chance(3) {
		// drop some references
		for i := m.Intn(4); i >= 0 && len(m.pool) > 0; i-- {
			j := m.Intn(len(m.pool))
			m.pool[j] = m.pool[len(m.pool)-1]
			m.pool[len(m.pool)-1] = Held{}
			m.pool = m.pool[:len(m.pool)-1]
		}
		m.Step("drop references")
	}
	runtime.KeepAlive(ops)
	return res, got
}

// GC lets the runtime release dropped nodes.
func (m *M) GC() {
	m.Step("runtime.GC")
	Collect()
	m.Count("Go collections forced", 1)
}

// Churn fills the node table with garbage until at least n collections of the
// node table were observed.
func (m *M) Churn(n int) {
	start := m.Stats(m.b).GC
	m.Step("churn until %d collections", n)
	churn(m.Ctx, m.b, start+n)
}

// churn creates unreferenced nodes with the kernel functions until a number of
// collections were observed. It gives up (false) when there are too few
// functions to fill the table.
func churn(c *Ctx, b *Bdd, until int) bool {
	nv := b.Varnum()
	if nv < 4 {
		return false
	}
	st := c.Stats(b)
	max := 1000 + 2*st.Alloc*(1+until-st.GC)
	for i := 0; i < max; i++ {
		if i%8 == 0 && c.Stats(b).GC >= until {
			c.Count("garbage floods", 1)
			return true
		}
		progress.Add(1)
		randomGarbage(c, b, nv)
	}
	return false
}

// randomGarbage makes a chain of random nodes and forgets it.
func randomGarbage(c *Ctx, b *Bdd, nv int) {
	b.Initref()
	lo, hi := c.Intn(2), c.Intn(2)
	x := lo
	y := hi
	for v := nv - 1; v >= 0; v-- {
		if nv > 12 && v > 12 && c.Chance(60) {
			continue
		}
		p, q := x, y
		switch c.Intn(4) {
		case 0:
			p, q = y, x
		case 1:
			p = c.Intn(2)
		case 2:
			q = c.Intn(2)
		}
		n := b.Makenode(int32(v), p, q)
		if n < 0 {
			break
		}
		b.Pushref(n)
		if c.Chance(50) {
			x = n
		} else {
			y = n
		}
	}
	b.Initref()
}

// BuildTT builds a function with the kernel functions, as user code would.
// Variables must be increasing; bit a of tt is the value for assignment a.
func BuildTT(b *Bdd, set []int, tt uint64) int {
	b.Initref()
	return buildRec(b, set, tt, 0)
}

func buildRec(b *Bdd, set []int, tt uint64, k int) int {
	if k == len(set) {
		return int(tt & 1)
	}
	// split on bit k of the assignment index
	half := 1 << (len(set) - k - 1)
	var t0, t1 uint64
	for i := 0; i < half; i++ {
		t0 |= (tt >> (2 * i) & 1) << i
		t1 |= (tt >> (2*i + 1) & 1) << i
	}
	low := b.Pushref(buildRec(b, set, t0, k+1))
	high := b.Pushref(buildRec(b, set, t1, k+1))
	if low < 0 || high < 0 {
		b.Popref(2)
		return -1
	}
	res := b.Makenode(int32(set[k]), low, high)
	b.Popref(2)
	return res
}

func ttLanes(s *Space, set []int, tt uint64) []uint64 {
	r := s.constant(false)
	for a := 0; a < 1<<len(set); a++ {
		if tt>>a&1 == 0 {
			continue
		}
		cube := s.constant(true)
		for k, v := range set {
			if a>>k&1 == 1 {
				cube = lanesOp(0, cube, s.vars[v])
			} else {
				cube = lanesOp(0, cube, lanesNot(s.vars[v]))
			}
		}
		orInto(r, cube)
	}
	return r
}
