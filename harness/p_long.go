package main

// Long-lived BDDs: the number of operations of one kind goes far beyond any
// counter that the library could use to tell them apart. The BDD holds all the
// functions of a few variables, so that each result is judged by its id alone.

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/dalzilio/rudd"
)

// longSetup holds all the functions of 4 variables (or of 3 among many other
// nodes) in a table large enough to work for a long time between collections.
func (c *Ctx) longSetup(nv int) (*Bdd, *allFns) {
	g := defCfg(nv)
	g.Node = c.Pick(100, 70000, 200000)
	g.Cache = c.Pick(500, 5000, 100000)
	g.Ratio = c.Pick(0, 0, 20)
	b := c.New(g)
	return b, c.allFunctions(b, nv)
}

func existTT(f uint64, set, nv int, full uint64) uint64 {
	for v := 0; v < nv; v++ {
		if set>>v&1 == 1 {
			m := lowMasks[v]
			f = f&m | (f&m)>>(1<<v) | f&^m | (f&^m)<<(1<<v)
			f &= full
		}
	}
	return f
}

// longQuant: more than 2^16 quantifications (and relational products) over
// changing sets of variables.
func longQuant(c *Ctx, rounds int, idle int64) {
	nv := 4
	b, a := c.longSetup(nv)
	nf := len(a.nodes)
	var st Stats
	c.ObserveGC(b, &st)
	vs := make([]rudd.Node, 1<<nv)
	for s := range vs {
		l := []int{}
		for v := 0; v < nv; v++ {
			if s>>v&1 == 1 {
				l = append(l, v)
			}
		}
		vs[s] = b.Makeset(l)
	}
	done := 0
	judge := func(n, only int) {
		for ; n > 0; n-- {
			done++
			i := done
			f, g, op, s := c.Intn(nf), c.Intn(nf), c.Intn(4), 1+c.Intn(1<<nv-1)
			if only >= 0 {
				s = 1 << only
			}
			if c.Chance(70) {
				r := b.Exist(a.nodes[f], vs[s])
				a.expect(c, r, existTT(uint64(f), s, nv, a.full), func() string {
					return fmt.Sprintf("Exist(%04x, variables %04b), after %d other quantifications", f, s, i)
				})
				c.Eval(mix(uint64(f), uint64(s)))
			} else {
				r := b.AppEx(a.nodes[f], a.nodes[g], rops[op], vs[s])
				a.expect(c, r, existTT(ttOp(op, uint64(f), uint64(g))&a.full, s, nv, a.full), func() string {
					return fmt.Sprintf("AppEx(%04x, %04x, OP%s, variables %04b), after %d other quantifications", f, g, ropNames[op], s, i)
				})
				c.Eval(mix(uint64(f*65536+g), uint64(op*16+s)))
			}
		}
	}
	// few calls that mark many variables, then many calls that mark few, so that
	// what the first calls left is still there when a counter comes back
	phase := func(n int) {
		judge(1+c.Intn(20), -1)
		judge(n, c.Pick(3, 3, 3, 2, 1))
		judge(c.Intn(20), -1)
		c.Count("phases", 1)
	}
	judge(1+c.Intn(20), -1)
	began := time.Now()
	for i := int64(0); i < idle; i++ {
		b.Exist(b.True(), vs[8])
		if i%4096 == 0 {
			progress.Add(1)
			if time.Since(began) > 450*time.Second {
				c.Count("counters not exhausted for lack of time", 1)
				idle = i
			}
		}
	}
	judge(100, 3)
	if idle == 0 {
		phase(70000)
	}
	for done < rounds {
		phase(c.Pick(100, 300, 700, 1200, 2500, 5000))
	}
	c.ObserveGC(b, &st)
	c.Max("quantifications on one BDD", idle+int64(done))
	c.Count("long-lived BDDs", 1)
	c.Sample("%d quantifications on one BDD that holds all the functions of %d variables", idle+int64(done), nv)
}

// longReplace: more than 2^16 replacers, each of them used once or more, on a
// BDD whose cached results of earlier replacers are not dropped.
func longReplace(c *Ctx, rounds int) {
	nv := 4
	b, a := c.longSetup(nv)
	nf := len(a.nodes)
	type repl struct {
		r    rudd.Replacer
		img  [4]int
		desc string
	}
	keep := []repl{}
	all := make([]repl, 1<<17+1)
	subst := func(f uint64, img [4]int) (uint64, bool) {
		var r uint64
		dep := func(v int) bool {
			m := lowMasks[v]
			return (f&m)>>(1<<v) != f&^m&a.full
		}
		conflict := false
		for v := 0; v < nv; v++ {
			if img[v] != v && dep(v) && dep(img[v]) {
				conflict = true
			}
		}
		for x := 0; x < 1<<nv; x++ {
			y := 0
			for v := 0; v < nv; v++ {
				if x>>img[v]&1 == 1 {
					y |= 1 << v
				}
			}
			r |= f >> y & 1 << x
		}
		return r, conflict
	}
	pick := func() int { // a function that does not depend on one or two of the variables
		for {
			f := c.Intn(nf)
			f = int(existTT(uint64(f), 1<<c.Intn(nv), nv, a.full))
			if c.Chance(50) {
				f = int(a.full &^ existTT(a.full&^uint64(f), 1<<c.Intn(nv), nv, a.full))
			}
			if uint64(f) != 0 && uint64(f) != a.full {
				return f
			}
		}
	}
	focus := []int{}
	for i := 0; i < 6; i++ {
		focus = append(focus, pick())
	}
	cur := 0
	use := func(p repl, i int) {
		f := focus[cur]
		want, conflict := subst(uint64(f), p.img)
		if conflict {
			return
		}
		r := b.Replace(a.nodes[f], p.r)
		a.expect(c, r, want, func() string {
			return fmt.Sprintf("Replace(%04x, %s), after %d other replacers", f, p.desc, i)
		})
		c.Eval(mix(uint64(f), uint64(p.img[0]*64+p.img[1]*16+p.img[2]*4+p.img[3])))
	}
	for i := 0; i < rounds; i++ {
		// one or two variables, replaced with others
		p := repl{img: [4]int{0, 1, 2, 3}}
		q := c.Perm(nv)
		old, nw := []int{q[0]}, []int{q[1]}
		if c.Chance(30) {
			old, nw = append(old, q[2]), append(nw, q[3])
		}
		for k := range old {
			p.img[old[k]] = nw[k]
		}
		p.desc = fmt.Sprintf("%v -> %v", old, nw)
		r, err := b.NewReplacer(old, nw)
		if err != nil {
			c.Failf("NewReplacer(%v, %v) returned %v", old, nw, err)
		}
		p.r = r
		cur = c.Intn(len(focus))
		use(p, i)
		// the same function with a replacer created some power of two before
		if i > 0 && c.Chance(40) {
			if d := 1 << uint(c.Intn(18)); d <= i {
				use(all[(i-d)%len(all)], i)
			}
		}
		all[i%len(all)] = p
		if len(keep) < 100 {
			keep = append(keep, p)
		} else {
			if c.Chance(20) {
				use(keep[c.Intn(100)], i)
			}
			if i&(i-1) == 0 { // keep some of all ages
				keep[c.Intn(100)] = p
			}
		}
		if c.Intn(1000) == 0 {
			focus[c.Intn(len(focus))] = pick()
		}
	}
	c.Max("replacers used on one BDD", int64(rounds))
	c.Count("long-lived BDDs", 1)
	c.Sample("%d replacers used on one BDD that holds all the functions of %d variables", rounds, nv)
}

// wrapIdle is enough quantifications to exhaust a 32-bit counter (a signed one
// for the default implementation, that is slower).
func wrapIdle() int64 {
	if strings.HasPrefix(theBuild, "buddy") {
		return math.MaxUint32 + 1000
	}
	return math.MaxInt32 + 1000
}
