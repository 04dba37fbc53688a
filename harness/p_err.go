package main

// C12: invalid requests. C13: exhaustion of a bounded node table.

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"runtime"
	"strings"

	"github.com/dalzilio/rudd"
)

func init() {
	register("C12", Prop{quick: 1600, thorough: 24000, run: runC12})
	register("C13", Prop{quick: 320, thorough: 4800, run: runC13})
}

// outcome of a call that must be rejected.
type outcome struct {
	name string
	node rudd.Node // when the call returns a node
	isn  bool
	ok   bool // other kinds of results are as documented
	got  string
	err  bool // the error status of the BDD must be set
}

// badCall is a request that must be rejected.
type badCall struct {
	name string
	call func() outcome
}

func fab(x int) rudd.Node { return rudd.Node(&x) }

// badNodes lists invalid nodes: nil, out of the table, or an unused slot.
func (c *Ctx) badNodes(b *Bdd) (ns []rudd.Node, names []string) {
	st := c.Stats(b)
	add := func(n rudd.Node, name string) { ns, names = append(ns, n), append(names, name) }
	add(nil, "nil")
	for _, v := range fitting(-1, -2, math.MinInt32, math.MinInt64, int64(st.Alloc), int64(st.Alloc)+1, int64(2*st.Alloc), math.MaxInt32, 1<<32, 1<<32+3, math.MaxInt64) {
		add(fab(v), fmt.Sprintf("&%d", v))
	}
	d := c.DumpAll(b)
	for k := 0; k < 20; k++ {
		id := 2 + c.Intn(st.Alloc-2)
		if _, ok := d.pos[id]; !ok {
			add(fab(id), fmt.Sprintf("&%d(unused)", id))
			break
		}
	}
	return
}

func badVars(nv int) []int {
	return fitting(-1, -2, int64(nv), int64(nv)+1, int64(2*nv), math.MaxInt32, 1<<32, 1<<32+int64(nv)-1, -(1 << 32), math.MaxInt64, math.MinInt64, 1<<21+1)
}

// randomBad draws an invalid request. good() gives valid nodes.
func (m *M) randomBad() badCall {
	c, b, nv := m.Ctx, m.b, m.nv
	g := m.operand
	set := b.Makeset(m.varsubset(nv))
	// no node is created from here on
	bads, names := c.badNodes(b)
	k := c.Intn(len(bads))
	bad, bn := bads[k], names[k]
	if x := g(); b.Equal(x, bad) || b.Equal(bad, x) || !b.Equal(x, x) {
		c.Failf("Equal says that node %d is the invalid node %s (or is not itself)", *x, bn)
	}
	node := func(name string, f func() rudd.Node) badCall {
		return badCall{name, func() outcome { return outcome{name: name, node: f(), isn: true, err: true} }}
	}
	v := c.Pick(badVars(nv)...)
	op := rops[c.Intn(10)]
	op4 := rops[c.Intn(4)]
	pos := func(n int) []rudd.Node { // n nodes, one of them at least is bad
		r := make([]rudd.Node, n)
		for i := range r {
			r[i] = g()
		}
		r[c.Intn(n)] = bad
		if c.Chance(20) {
			r[c.Intn(n)] = bads[c.Intn(len(bads))]
		}
		return r
	}
	many := func() []rudd.Node { // at least two, for variadic calls
		// the call may create nodes, hence make use of unused slots
		for bad != nil && *bad >= 0 && *bad <= math.MaxInt32 {
			bad = bads[c.Intn(len(bads))]
		}
		r := make([]rudd.Node, 2+c.Intn(4))
		for i := range r {
			r[i] = g()
		}
		r[c.Intn(len(r))] = bad
		return r
	}
	show := func(r []rudd.Node) string {
		s := []string{}
		for _, n := range r {
			if n == nil {
				s = append(s, "nil")
			} else {
				s = append(s, fmt.Sprint(*n))
			}
		}
		return strings.Join(s, ", ")
	}
	switch c.Intn(26) {
	case 0:
		return node("Not("+bn+")", func() rudd.Node { return b.Not(bad) })
	case 1:
		r := pos(2)
		return node(fmt.Sprintf("Apply(%s, %s)", show(r), op), func() rudd.Node { return b.Apply(r[0], r[1], op) })
	case 2:
		r := pos(3)
		return node(fmt.Sprintf("Ite(%s)", show(r)), func() rudd.Node { return b.Ite(r[0], r[1], r[2]) })
	case 3:
		r := many()
		if c.Chance(25) {
			r = []rudd.Node{bad}
		}
		return node(fmt.Sprintf("And(%s)", show(r)), func() rudd.Node { return b.And(r...) })
	case 4:
		r := many()
		if c.Chance(25) {
			r = []rudd.Node{bad}
		}
		return node(fmt.Sprintf("Or(%s)", show(r)), func() rudd.Node { return b.Or(r...) })
	case 5:
		r := pos(2)
		if c.Chance(50) {
			return node(fmt.Sprintf("Imp(%s)", show(r)), func() rudd.Node { return b.Imp(r[0], r[1]) })
		}
		return node(fmt.Sprintf("Equiv(%s)", show(r)), func() rudd.Node { return b.Equiv(r[0], r[1]) })
	case 6:
		r := []rudd.Node{g(), set}
		r[c.Intn(2)] = bad
		return node(fmt.Sprintf("Exist(%s)", show(r)), func() rudd.Node { return b.Exist(r[0], r[1]) })
	case 7:
		r := []rudd.Node{g(), g(), set}
		r[c.Intn(3)] = bad
		return node(fmt.Sprintf("AppEx(%s, %s)", show(r), op4), func() rudd.Node { return b.AppEx(r[0], r[1], op4, r[2]) })
	case 8:
		r := []rudd.Node{g(), g(), set}
		r[c.Intn(3)] = bad
		return node(fmt.Sprintf("AndExist(%s)", show(r)), func() rudd.Node { return b.AndExist(r[0], r[1], r[2]) })
	case 9:
		rep, err := b.NewReplacer([]int{0}, []int{nv - 1})
		if err != nil {
			c.Failf("NewReplacer([0], [%d]) returned %v", nv-1, err)
		}
		if c.Chance(30) {
			x := g()
			return node(fmt.Sprintf("Replace(%d, nil)", *x), func() rudd.Node { return b.Replace(x, nil) })
		}
		return node("Replace("+bn+")", func() rudd.Node { return b.Replace(bad, rep) })
	case 10:
		name := "Satcount(" + bn + ")"
		return badCall{name, func() outcome {
			r := b.Satcount(bad)
			return outcome{name: name, ok: r != nil && r.Cmp(big.NewInt(0)) == 0, got: fmt.Sprint(r), err: true}
		}}
	case 11:
		name := "Allsat(" + bn + ")"
		return badCall{name, func() outcome {
			calls := 0
			err := b.Allsat(func([]int) error { calls++; return nil }, bad)
			return outcome{name: name, ok: err != nil && calls == 0, got: fmt.Sprint(err, " after ", calls, " calls"), err: true}
		}}
	case 12:
		r := pos(1 + c.Intn(3))
		name := fmt.Sprintf("Allnodes(%s)", show(r))
		return badCall{name, func() outcome {
			calls := 0
			err := b.Allnodes(func(int, int, int, int) error { calls++; return nil }, r...)
			return outcome{name: name, ok: err != nil && calls == 0, got: fmt.Sprint(err, " after ", calls, " calls"), err: true}
		}}
	case 13:
		if c.Chance(50) {
			return node("Low("+bn+")", func() rudd.Node { return b.Low(bad) })
		}
		return node("High("+bn+")", func() rudd.Node { return b.High(bad) })
	case 14:
		if c.Chance(30) {
			bad, bn = b.From(c.Chance(50)), "constant"
		}
		name := "Label(" + bn + ")"
		return badCall{name, func() outcome {
			l := b.Label(bad)
			return outcome{name: name, ok: l == -1, got: fmt.Sprint(l), err: true}
		}}
	case 15:
		name := "Scanset(" + bn + ")"
		return badCall{name, func() outcome {
			l := b.Scanset(bad)
			return outcome{name: name, ok: len(l) == 0, got: fmt.Sprint(l), err: true}
		}}
	case 16:
		name := "Print(" + bn + ")"
		return badCall{name, func() outcome {
			var w bytes.Buffer
			b.Print(&w, bad)
			return outcome{name: name, ok: w.Len() > 0 && !strings.Contains(w.String(), "?"), got: w.String(), err: true}
		}}
	case 17:
		name := "Dot(" + bn + ")"
		return badCall{name, func() outcome {
			var w bytes.Buffer
			err := b.Dot(&w, bad)
			return outcome{name: name, ok: err != nil, got: fmt.Sprint(err), err: true}
		}}
	case 18:
		if c.Chance(50) {
			return node(fmt.Sprintf("Ithvar(%d)", v), func() rudd.Node { return b.Ithvar(v) })
		}
		return node(fmt.Sprintf("NIthvar(%d)", v), func() rudd.Node { return b.NIthvar(v) })
	case 19:
		s := append([]int{}, m.varsubset(nv)...)
		s = append(s, v)
		c.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
		name := fmt.Sprintf("Makeset(%v)", s)
		return badCall{name, func() outcome {
			r := b.Makeset(s) // documented to return False
			return outcome{name: name, ok: r == nil || *r == 0, got: fmt.Sprint(r), err: true}
		}}
	case 20:
		s := append([]int{}, m.varsubset(nv)...)
		at := c.Intn(len(s) + 1)
		s = append(s[:at], append([]int{v}, s[at:]...)...)
		pol := make([]bool, len(s))
		for i := range pol {
			pol[i] = c.Chance(50)
		}
		return node(fmt.Sprintf("Makecube(%v, %v)", s, pol), func() rudd.Node { return b.Makecube(s, pol) })
	case 21:
		s := m.varsubset(nv)
		p := c.Intn(nv + 3)
		if p == len(s) || (len(s) == 0 && p == nv) {
			p++
		}
		if len(s) == 0 && p == nv {
			p++
		}
		return node(fmt.Sprintf("Makecube(%v, %d values)", s, p), func() rudd.Node { return b.Makecube(s, make([]bool, p)) })
	case 22:
		x, y := g(), g()
		bo := rudd.Operator(c.Pick(fitting(10, 11, 12, 13, 100, -1, -2, math.MaxInt32, 1<<32)...))
		return node(fmt.Sprintf("Apply(%d, %d, Operator(%d))", *x, *y, int(bo)), func() rudd.Node { return b.Apply(x, y, bo) })
	case 23:
		x, y := g(), g()
		bo := rudd.Operator(c.Pick(fitting(4, 5, 6, 7, 8, 9, 10, 11, 12, 100, -1, 1<<32)...))
		return node(fmt.Sprintf("AppEx(%d, %d, Operator(%d), %d)", *x, *y, int(bo), *set), func() rudd.Node { return b.AppEx(x, y, bo, set) })
	case 24:
		o := append([]int{}, m.varsubset(nv)...)
		n := append([]int{}, o...)
		p := c.Perm(nv)
		last := p[len(p)-1]
		switch c.Intn(7) {
		case 4: // twice the same
			o, n = []int{p[0], p[0]}, []int{p[1], last}
		case 5:
			o, n = []int{p[0], last}, []int{p[1], p[1]}
		case 6: // on both sides
			o, n = []int{p[0], p[1]}, []int{p[1], p[0]}
		case 0:
			o = append(o, 0)
		case 1:
			n = append(n, 0)
		case 2:
			o, n = append(o, v), append(n, 0)
			for i := range n[:len(n)-1] {
				n[i] = o[i]
			}
		case 3:
			o, n = append(o, 0), append(n, v)
		}
		name := fmt.Sprintf("NewReplacer(%v, %v)", o, n)
		return badCall{name, func() outcome {
			r, err := b.NewReplacer(o, n)
			return outcome{name: name, ok: err != nil && r == nil, got: fmt.Sprint(r, err)}
		}}
	default:
		id := c.Pick(fitting(-1, -2, int64(m.Stats(b).Alloc), int64(m.Stats(b).Alloc)+1, math.MaxInt64, math.MinInt64)...)
		name := fmt.Sprintf("Retnode(%d)", id)
		return badCall{name, func() outcome {
			r := b.Retnode(id)
			return outcome{name: name, ok: r == nil, got: fmt.Sprint(r)}
		}}
	}
}

func (m *M) judgeBad(o outcome, msg bool) {
	c, b := m.Ctx, m.b
	if o.isn {
		if o.node != nil {
			c.Failf("%s returned node %d instead of nil", o.name, *o.node)
		}
	} else if !o.ok {
		c.Failf("%s returned %s", o.name, o.got)
	}
	if o.err || msg {
		if !b.Errored() {
			c.Failf("%s did not set the error status", o.name)
		}
		if b.Error() == "" {
			c.Failf("%s: Errored is true but Error is empty", o.name)
		}
		if strings.Contains(b.Error(), "%!") {
			c.Failf("%s: malformed error message %q", o.name, b.Error())
		}
	}
	c.Count("rejected requests: "+strings.SplitN(o.name, "(", 2)[0], 1)
}

func runC12(c *Ctx) {
	if c.idx%16 == 0 {
		badNew(c)
		return
	}
	s := exactSpace(2 + c.Intn(6))
	g := c.RandCfg(s.nv)
	m := c.NewMachine(g, s)
	b := m.b
	for k := range m.weights {
		m.weights[k] = 2
		m.check[k] = true
	}
	m.weights[kReplace] = 0
	m.max = 10
	m.seedPool(4)
	for i := c.Intn(20); i > 0; i-- {
		m.Do()
	}
	if b.Errored() || b.Error() != "" {
		c.Failf("error status %q without an invalid request", b.Error())
	}
	// a result is nil if and only if there is an error, also on constants
	for i := 0; i < 4; i++ {
		x, name := b.From(i&1 == 0), "Low"
		was := b.Errored()
		var r rudd.Node
		if i < 2 {
			r = b.Low(x)
		} else {
			r, name = b.High(x), "High"
		}
		if was = b.Errored() && !was; was != (r == nil) && !b.Errored() || was && r != nil {
			c.Failf("%s(%d) returned node %v and Errored = %v", name, *x, r, b.Errored())
		}
	}
	set := b.Errored()
	d0 := c.DumpAll(b)
	for k := 0; k < 4; k++ {
		bc := m.randomBad()
		c.Step("%s", bc.name)
		h := uint64(k)
		for _, ch := range []byte(bc.name) {
			h = mix(h, uint64(ch))
		}
		o := bc.call()
		set = set || o.err
		m.judgeBad(o, set)
		c.Eval(h)
		if !set && b.Errored() {
			set = true
		}
		// an error makes the operations that depend on it fail
		if o.isn {
			n := m.operand()
			for _, r := range []rudd.Node{b.Not(o.node), b.And(n, o.node), b.Ite(n, o.node, n), b.Or(o.node, n)} {
				if r != nil {
					c.Failf("an operation on the nil result of %s returned node %d", o.name, *r)
				}
			}
			m.verifyHeld("after " + bc.name)
		}
		if set {
			var w bytes.Buffer
			b.Print(&w, m.operand())
			if !strings.Contains(w.String(), b.Error()) || strings.Contains(w.String(), "?") {
				c.Failf("after an error, Print wrote %q", w.String())
			}
			if err := b.Dot(&w); err == nil {
				c.Failf("after an error, Dot returned no error")
			}
		}
		// valid requests are still right
		for i := 0; i < 6; i++ {
			m.Do()
		}
		if set && (!b.Errored() || b.Error() == "") {
			c.Failf("the error status was cleared by valid operations")
		}
		if c.Chance(20) {
			m.GC()
			m.Churn(1)
		}
		m.verifyHeld("after " + bc.name)
		if k == 0 {
			c.Sample("%s on %s: rejected, error %q", bc.name, g, b.Error())
		}
	}
	// nothing was broken
	d := c.DumpAll(b)
	d.WellFormed()
	for _, r := range d0.nodes {
		if r.low == 0 && r.high == 1 || r.low == 1 && r.high == 0 {
			if p, ok := d.pos[r.id]; ok && d.nodes[p] != r {
				c.Failf("variable node %d changed from %v to %v", r.id, r, d.nodes[p])
			}
		}
	}
}

func badNew(c *Ctx) {
	for _, n := range fitting(0, -1, -2, math.MinInt32, math.MinInt64, 1<<21+1, 1<<21, 1<<22, math.MaxInt32, 1<<32, 1<<32+5, math.MaxInt64) {
		c.Step("New(%d)", n)
		var b *rudd.BDD
		var err error
		switch c.Intn(3) {
		case 0:
			b, err = rudd.New(n)
		case 1:
			b, err = rudd.New(n, rudd.Nodesize(100), rudd.Cachesize(100))
		case 2:
			b, err = rudd.New(n, rudd.Maxnodesize(1000), rudd.Cacheratio(10))
		}
		if b != nil || err == nil || err.Error() == "" {
			c.Failf("New(%d) returned (%v, %v)", n, b, err)
		}
		c.Eval(mix(uint64(n), 12))
		c.Count("rejected requests: New", 1)
	}
	// and the smallest legal ones
	for n := 1; n < 5; n++ {
		b := c.New(c.RandCfg(n))
		if b.Errored() {
			c.Failf("New(%d) returns a BDD with error %q", n, b.Error())
		}
	}
}

// ---------------------------------------------------------------------------

// step13 is an operation of a script; operands are indices of former results.
type step13 struct {
	kind    int
	a, b, c int
	op      int
	set     []int
	pol     []bool
	rep     int
	old, nw []int
}

func (s step13) String() string {
	return fmt.Sprintf("%s(%d, %d, %d, %s, %v, %v->%v)", []string{"Not", "Apply", "Ite", "Exist", "AppEx", "Replace", "Makeset", "Makecube"}[s.kind], s.a, s.b, s.c, ropNames[s.op], s.set, s.old, s.nw)
}

func (c *Ctx) script13(nv, n int) []step13 {
	r := []step13{}
	half := nv / 2
	for i := 0; i < n; i++ {
		s := step13{kind: c.Pick(0, 1, 1, 1, 1, 1, 1, 2, 2, 3, 4, 4, 5, 6, 7), op: c.Intn(10)}
		pick := func() int { // bias to recent results
			if c.Chance(30) {
				return c.Intn(nv*2 + i)
			}
			return nv*2 + i - 1 - c.Intn(min(i+1, 6))
		}
		s.a, s.b, s.c = pick(), pick(), pick()
		if s.a < 0 || s.b < 0 || s.c < 0 {
			s.a, s.b, s.c = 0, 1, 2
		}
		for v := 0; v < nv; v++ {
			if c.Chance(35) {
				s.set = append(s.set, v)
				s.pol = append(s.pol, c.Chance(50))
			}
		}
		if s.kind == 4 {
			s.op = c.Intn(4)
		}
		if s.kind == 7 && len(s.set) == 0 {
			s.kind = 6
		}
		if s.kind == 5 {
			// quantify the targets first, so that Replace is legal
			p := c.Perm(nv)
			k := 1 + c.Intn(max(1, half-1))
			s.old, s.nw = p[:k], p[k:2*k]
		}
		r = append(r, s)
	}
	return r
}

// exec runs a step on a BDD.
func (s step13) exec(c *Ctx, b *Bdd, ns []rudd.Node) (res rudd.Node, extra []rudd.Node) {
	a, x, y := ns[s.a], ns[s.b], ns[s.c]
	switch s.kind {
	case 0:
		return b.Not(a), nil
	case 1:
		return b.Apply(a, x, rops[s.op]), nil
	case 2:
		return b.Ite(a, x, y), nil
	case 3:
		vs := b.Makeset(s.set)
		if vs == nil {
			return nil, nil
		}
		return b.Exist(a, vs), []rudd.Node{vs}
	case 4:
		vs := b.Makeset(s.set)
		if vs == nil {
			return nil, nil
		}
		return b.AppEx(a, x, rops[s.op], vs), []rudd.Node{vs}
	case 5:
		vs := b.Makeset(s.nw)
		if vs == nil {
			return nil, nil
		}
		t := b.Exist(a, vs)
		if t == nil {
			return nil, []rudd.Node{vs}
		}
		r, err := b.NewReplacer(s.old, s.nw)
		if err != nil {
			c.Failf("NewReplacer(%v, %v) returned %v", s.old, s.nw, err)
		}
		return b.Replace(t, r), []rudd.Node{vs, t}
	case 6:
		return b.Makeset(s.set), nil
	}
	return b.Makecube(s.set, s.pol), nil
}

// expect computes the function of a step from the lanes of its operands.
func (s step13) expect(sp *Space, f [][]uint64) []uint64 {
	ex := func(l []uint64, set []int) []uint64 {
		for _, v := range set {
			l = lanesExist(sp, l, v)
		}
		return l
	}
	switch s.kind {
	case 0:
		return lanesNot(f[s.a])
	case 1:
		return lanesOp(s.op, f[s.a], f[s.b])
	case 2:
		return lanesIte(f[s.a], f[s.b], f[s.c])
	case 3:
		return ex(f[s.a], s.set)
	case 4:
		return ex(lanesOp(s.op, f[s.a], f[s.b]), s.set)
	case 5:
		t := ex(f[s.a], s.nw)
		for i := range s.old {
			t = lanesRename(sp, t, s.old[i], s.nw[i])
		}
		return t
	case 6:
		r := sp.constant(true)
		for _, v := range s.set {
			r = lanesOp(0, r, sp.vars[v])
		}
		return r
	}
	r := sp.constant(true)
	for i, v := range s.set {
		if s.pol[i] {
			r = lanesOp(0, r, sp.vars[v])
		} else {
			r = lanesOp(0, r, lanesNot(sp.vars[v]))
		}
	}
	return r
}

// lanesCof is the cofactor of l for variable v, on an exact space.
func lanesCof(sp *Space, l []uint64, v int, val bool) []uint64 {
	r := make([]uint64, len(l))
	for i := range l {
		if v < 6 {
			sh := uint(1) << v
			if val {
				x := l[i] & lowMasks[v]
				r[i] = x | x>>sh
			} else {
				x := l[i] &^ lowMasks[v]
				r[i] = x | x<<sh
			}
		} else if val {
			r[i] = l[i|1<<(v-6)]
		} else {
			r[i] = l[i&^(1<<(v-6))]
		}
	}
	return r
}

func lanesExist(sp *Space, l []uint64, v int) []uint64 {
	r := lanesCof(sp, l, v, false)
	orInto(r, lanesCof(sp, l, v, true))
	return r
}

// lanesRename replaces variable o by n in l, that does not depend on n.
func lanesRename(sp *Space, l []uint64, o, n int) []uint64 {
	return lanesIte(sp.vars[n], lanesCof(sp, l, o, true), lanesCof(sp, l, o, false))
}

func runC13(c *Ctx) {
	nv := 4 + c.Intn(5)
	sp := exactSpace(nv)
	script := c.script13(nv, 25+c.Intn(25))
	initial := func(b *Bdd) []rudd.Node {
		ns := []rudd.Node{}
		for v := 0; v < nv; v++ {
			ns = append(ns, b.Ithvar(v), b.NIthvar(v))
		}
		return ns
	}
	// reference: no limit and never a collection
	ref := c.New(Cfg{Vars: nv, Node: 60000, Cache: 5000, MinFree: 20, MaxInc: 1 << 20})
	rn := initial(ref)
	fns := [][]uint64{}
	for v := 0; v < nv; v++ {
		fns = append(fns, sp.vars[v], lanesNot(sp.vars[v]))
	}
	usedAfter := []int{}
	refEx := [][]rudd.Node{}
	for i, s := range script {
		c.Step("reference: %s", s)
		r, ex := s.exec(c, ref, rn)
		if r == nil {
			c.Failf("step %d (%s) of a valid script failed without a limit: %s", i, s, ref.Error())
		}
		want := s.expect(sp, fns)
		if got := c.Fn(ref, sp, r)[0]; !eqLanes(got, want) {
			c.Failf("step %d (%s) gives %s, expected %s", i, s, laneStr(got), laneStr(want))
		}
		rn, fns, refEx = append(rn, r), append(fns, want), append(refEx, ex)
		usedAfter = append(usedAfter, c.Stats(ref).Used)
	}
	rst := c.Stats(ref)
	if rst.GC > 0 {
		c.Inconclusive("the reference BDD was collected")
	}
	// distinct nodes of a set of results, from the reference
	all := append([]rudd.Node{}, rn...)
	for _, e := range refEx {
		all = append(all, e...)
	}
	rd := c.DumpRoots(ref, all...)
	peak := len(rd.nodes) + 2
	base := 2*nv + 2
	limits := []int{base, base + 1, base + 2, peak, peak + 1, peak - 1, rst.Used, rst.Used - 1, rst.Used + 1}
	for k := 0; k < 10; k++ {
		limits = append(limits, base+c.Intn(max(1, rst.Used-base)))
	}
	for _, M := range limits {
		if M < 3 {
			continue
		}
		c.bounded13(nv, sp, script, M, rn, refEx, rd, fns, usedAfter, initial)
	}
	runtime.KeepAlive(all)
}

func (c *Ctx) bounded13(nv int, sp *Space, script []step13, M int, rn []rudd.Node, refEx [][]rudd.Node, rd *Dump, fns [][]uint64, usedAfter []int, initial func(*Bdd) []rudd.Node) {
	g := c.RandCfg(nv)
	g.MaxNode = M
	base := 2*nv + 2
	if c.Chance(50) {
		g.Node = 0
	} else {
		g.Node = c.Intn(M + 20)
	}
	b := c.New(g)
	st := c.Stats(b)
	limit := max(M, st.Alloc)
	c.Count("bounded tables tried", 1)
	ns := initial(b)
	held := []int{} // indices of the steps whose result is held
	type extraHeld struct {
		n  rudd.Node
		fn []uint64
		id int // of the same function in the reference
	}
	extras := []extraHeld{}
	failures, successes := 0, 0
	checkAll := func(why string) {
		all := []rudd.Node{}
		for _, i := range held {
			all = append(all, ns[i])
		}
		for _, e := range extras {
			all = append(all, e.n)
		}
		got := c.Fn(b, sp, all...)
		for k := range all {
			var want []uint64
			if k < len(held) {
				want = fns[held[k]]
			} else {
				want = extras[k-len(held)].fn
			}
			if !eqLanes(got[k], want) {
				c.Failf("%s: held node %d denotes %s, formerly %s, %s", g, *all[k], laneStr(got[k]), laneStr(want), why)
			}
		}
		c.DumpAll(b).WellFormed()
		for v := 0; v < nv; v++ {
			f := c.Fn(b, sp, b.Ithvar(v), b.NIthvar(v))
			if !eqLanes(f[0], sp.vars[v]) || !eqLanes(f[1], lanesNot(sp.vars[v])) {
				c.Failf("%s: variable %d is broken %s", g, v, why)
			}
		}
		c.Eval(mix(mix(uint64(M), uint64(len(all))), hashLanes(1, got[0])))
	}
	// live counts the nodes needed to hold the roots (reference ids) and
	// everything held.
	live := func(plus ...int) int {
		ids := append([]int{}, plus...)
		for _, i := range held {
			ids = append(ids, *rn[i])
		}
		for v := 0; v < 2*nv; v++ {
			ids = append(ids, *rn[v])
		}
		for _, e := range extras {
			ids = append(ids, e.id)
		}
		return len(rd.Reach(ids...)) + 2
	}
	for i := 0; i < 2*nv; i++ {
		held = append(held, i)
	}
	for i, s := range script {
		idx := 2*nv + i
		if (ns[s.a] == nil) || (ns[s.b] == nil) || (ns[s.c] == nil) {
			ns = append(ns, nil)
			continue
		}
		errored := b.Errored()
		c.Step("limit %d, step %d: %s", M, i, s)
		before := c.Stats(b)
		r, ex := s.exec(c, b, ns)
		for k, e := range ex {
			if e != nil {
				// auxiliary results stay held as well
				extras = append(extras, extraHeld{e, c.Fn(b, sp, e)[0], *refEx[i][k]})
			}
		}
		st := c.Stats(b)
		if st.Alloc > limit {
			c.Failf("%s: the table has %d nodes", g, st.Alloc)
		}
		if st.Alloc < before.Alloc {
			c.Failf("%s: the table shrank", g)
		}
		// could it succeed, or fail?
		capacity := limit
		need := live(*rn[idx])
		mustFail := need > capacity
		mustPass := ""
		switch {
		case usedAfter[i] <= capacity:
			// even without any reclamation there is room for everything
			mustPass = fmt.Sprintf("the %d nodes produced since the beginning fit", usedAfter[i])
		case need <= capacity && (s.kind < 3 || s.kind > 5):
			// the intermediate results of these operations are nodes of the
			// result
			mustPass = fmt.Sprintf("its result and all the nodes held fit (%d)", need)
			c.Count("operations judged that fit only after a collection", 1)
		}
		ns = append(ns, nil)
		if r == nil {
			failures++
			if !b.Errored() || b.Error() == "" {
				c.Failf("%s: step %d (%s) returned nil without an error", g, i, s)
			}
			if mustPass != "" {
				c.Failf("%s: step %d (%s) failed (%s) although %s in a table of %d", g, i, s, b.Error(), mustPass, capacity)
			}
			c.Count("operations that failed for lack of nodes", 1)
			if failures < 4 || c.Chance(10) {
				checkAll("after the failure of " + s.String())
			}
			// operations without new nodes still work
			if x := b.Apply(ns[0], b.True(), rudd.OPand); x == nil || *x != *ns[0] {
				c.Failf("%s: after a failure, x and true is not x", g)
			}
			continue
		}
		successes++
		if mustFail {
			c.Failf("%s: step %d (%s) succeeded although the nodes held need a table of %d", g, i, s, need)
		}
		ns[idx] = r
		if b.Errored() && !errored {
			c.Failf("%s: step %d (%s) succeeded but the error status was set to %q", g, i, s, b.Error())
		}
		held = append(held, idx)
		got := c.Fn(b, sp, r)[0]
		if !eqLanes(got, fns[idx]) {
			c.Failf("%s: step %d (%s) gives %s, expected %s (after %d failures)", g, i, s, laneStr(got), laneStr(fns[idx]), failures)
		}
		c.Count("operations that succeeded under a limit", 1)
		if failures > 0 {
			c.Count("operations that succeeded after a failure", 1)
		}
		c.Eval(hashLanes(mix(uint64(M), uint64(failures)), got))
		// fitting operations at the brink: what is held with its result fits
		if c.Chance(5) {
			c.brink13(b, sp, g, ns, held, limit)
		}
	}
	checkAll("at the end")
	if failures > 0 && successes > 0 {
		c.Sample("%s: %d operations failed, %d succeeded, %d nodes held", g, failures, successes, len(held))
	}
	runtime.KeepAlive(ns)
	runtime.KeepAlive(extras)
	_ = base
}

// brink13 makes nodes one at a time until the table is full, to check that
// the whole capacity can be used.
func (c *Ctx) brink13(b *Bdd, sp *Space, g Cfg, ns []rudd.Node, held []int, limit int) {
	c.Count("tables filled up to their limit", 1)
	b.Initref()
	defer b.Initref()
	pool := []int{}
	for _, i := range held {
		pool = append(pool, *ns[i])
	}
	lvl := func(id int) int {
		if id < 2 {
			return sp.nv
		}
		return b.Label(fab(id))
	}
	for k := 0; k < 20*limit && k < 4000; k++ {
		lo, hi := pool[c.Intn(len(pool))], pool[c.Intn(len(pool))]
		top := min(lvl(lo), lvl(hi))
		if lo == hi || top == 0 {
			continue
		}
		v := c.Intn(top)
		progress.Add(1)
		id := b.Makenode(int32(v), lo, hi)
		st := c.Stats(b)
		if st.Alloc > limit {
			c.Failf("%s: the table has %d nodes", g, st.Alloc)
		}
		if id < 0 {
			if st.Free > 0 {
				c.Failf("%s: Makenode failed with %d free nodes", g, st.Free)
			}
			if st.Used < st.Alloc || st.Alloc != limit {
				c.Failf("%s: Makenode failed with %d nodes used, %d allocated, for a limit of %d", g, st.Used, st.Alloc, limit)
			}
			c.Count("tables full", 1)
			return
		}
		b.Pushref(id)
		pool = append(pool, id)
	}
}
