package main

// A view of a BDD through a few of its variables: the same workloads run on
// variables scattered over tens of thousands of levels.

import (
	"math/big"
	"math/rand"
	"sort"

	"github.com/dalzilio/rudd"
)

// Bdd is a BDD; when lv is set, variable i of the workload is variable lv[i]
// of the BDD, and the workload does not see the others.
type Bdd struct {
	*rudd.BDD
	c  *Ctx
	lv []int
	un map[int]int
}

// spreadCase tells if the variables of a case are scattered over many levels.
func spreadCase(id string, idx int) bool {
	switch id {
	case "C16", "C06", "C04":
		return idx%20 == 17
	case "C01", "C02", "C03", "C07", "C08", "C20", "C23":
		return idx%50 == 17
	}
	return false
}

// spreadVars is a choice of variables among nv.
type spreadVars struct {
	nv int
	lv []int
}

// spreadOver draws the variables used in a BDD with many variables.
func (c *Ctx) spreadOver(k int) (int, []int) {
	nv := c.Pick(300, 1000, 33000, 66000, 70000, 70000, 140000)
	if c.thorough() && c.Chance(20) {
		nv = c.Pick(270000, 1100000)
	}
	special := []int{0, 1, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 32767, 32768, 32769, 65535, 65536, 65537, 65791, 65792,
		131071, 131072, 131073, 262144, 1 << 20, nv - 65537, nv - 65536, nv - 257, nv - 256, nv - 3, nv - 2, nv - 1}
	in := map[int]bool{}
	folded := c.Chance(30) // variables that are equal modulo a power of 2
	first := 0
	if step := c.Pick(1<<8, 1<<15, 1<<16, 1<<16, 1<<16); folded && k >= 2 && step+k <= nv && c.Chance(50) { // two copies
		for len(in) < k {
			v := c.Intn(nv - step)
			if c.Chance(50) {
				v = c.Intn(min(nv-step, 4*k))
			}
			in[v], in[v+step] = true, true
		}
		for v := range in {
			first = max(first, v)
		}
		if len(in) > k {
			delete(in, first)
		}
	}
	for len(in) < k {
		v := c.Intn(nv)
		if folded && c.Chance(70) {
			if len(in) == 0 {
				first = special[c.Intn(len(special))]
			}
			v = first + c.Pick(-1, 1)*c.Pick(1<<7, 1<<8, 1<<15, 1<<16, 1<<16, 1<<16, 1<<17) + c.Pick(0, 0, 1)
			if c.Chance(50) {
				first = v
			}
			if len(in) == 0 || c.Chance(15) {
				v = first
			}
			if first < 0 || first >= nv {
				first = c.Intn(nv)
			}
		} else if c.Chance(75) {
			v = special[c.Intn(len(special))]
		} else if c.Chance(30) && len(in) > 0 { // next to another one, or 2^i apart
			for w := range in {
				v = max(v, w) // the order of a map is not reproducible
			}
			v -= 1 << c.Intn(17)
		}
		if v >= 0 && v < nv {
			in[v] = true
		}
	}
	l := []int{}
	for v := range in {
		l = append(l, v)
	}
	sort.Ints(l)
	return nv, l
}

// view makes the wrapper of a BDD with nv variables.
func (c *Ctx) view(b *rudd.BDD, lv []int) *Bdd {
	v := &Bdd{BDD: b, c: c, lv: lv}
	if lv != nil {
		v.un = map[int]int{}
		for i, l := range lv {
			v.un[l] = i
		}
	}
	return v
}

// twins draws two variables whose levels differ by a power of 2, if any.
func (b *Bdd) twins(r *rand.Rand) (int, int) {
	best := [][2]int{}
	for i, l := range b.lv {
		for _, d := range []int{8, 15, 16, 16, 16} {
			if j, ok := b.un[l+1<<d]; ok {
				best = append(best, [2]int{i, j})
			}
		}
	}
	if len(best) == 0 {
		return -1, -1
	}
	t := best[r.Intn(len(best))]
	return t[0], t[1]
}

func (b *Bdd) out(v int) int {
	if b.lv == nil {
		return v
	}
	if v >= 0 && v < len(b.lv) {
		return b.lv[v]
	}
	if v >= len(b.lv) {
		return v - len(b.lv) + b.BDD.Varnum()
	}
	return v
}

func (b *Bdd) outs(l []int) []int {
	if b.lv == nil || l == nil {
		return l
	}
	r := make([]int, len(l))
	for i, v := range l {
		r[i] = b.out(v)
	}
	return r
}

func (b *Bdd) in(level int) int {
	if b.lv == nil {
		return level
	}
	k, ok := b.un[level]
	if !ok {
		b.c.Failf("variable %d of %d appears in a diagram, but only variables %v are used", level, b.BDD.Varnum(), b.lv)
	}
	return k
}

func (b *Bdd) Varnum() int {
	if b.lv == nil {
		return b.BDD.Varnum()
	}
	return len(b.lv)
}

func (b *Bdd) Ithvar(v int) rudd.Node  { return b.BDD.Ithvar(b.out(v)) }
func (b *Bdd) NIthvar(v int) rudd.Node { return b.BDD.NIthvar(b.out(v)) }

func (b *Bdd) Makenode(v int32, lo, hi int) int { return b.BDD.Makenode(int32(b.out(int(v))), lo, hi) }

func (b *Bdd) Makeset(l []int) rudd.Node {
	if b.lv == nil {
		return b.BDD.Makeset(l)
	}
	return b.BDD.Makeset(b.outs(l))
}

func (b *Bdd) Makecube(l []int, p []bool) rudd.Node {
	if b.lv == nil {
		return b.BDD.Makecube(l, p)
	}
	if len(l) == 0 {
		return b.BDD.Makecube(b.lv, p)
	}
	return b.BDD.Makecube(b.outs(l), p)
}

func (b *Bdd) NewReplacer(o, n []int) (rudd.Replacer, error) {
	if b.lv == nil {
		return b.BDD.NewReplacer(o, n)
	}
	return b.BDD.NewReplacer(b.outs(o), b.outs(n))
}

func (b *Bdd) Label(n rudd.Node) int {
	l := b.BDD.Label(n)
	if b.lv == nil || l == -1 {
		return l
	}
	return b.in(l)
}

func (b *Bdd) Scanset(n rudd.Node) []int {
	l := b.BDD.Scanset(n)
	if b.lv == nil {
		return l
	}
	r := make([]int, len(l))
	for i := range l {
		r[i] = b.in(l[i])
	}
	return r
}

func (b *Bdd) Allnodes(f func(id, level, low, high int) error, n ...rudd.Node) error {
	if b.lv == nil {
		return b.BDD.Allnodes(f, n...)
	}
	return b.BDD.Allnodes(func(id, level, low, high int) error {
		if id < 2 {
			return f(id, len(b.lv), low, high)
		}
		if len(n) == 0 && b.hidden(level, low, high) {
			return nil
		}
		return f(id, b.in(level), low, high)
	}, n...)
}

// hidden tells the nodes of the variables that are not used.
func (b *Bdd) hidden(level, low, high int) bool {
	_, ok := b.un[level]
	return !ok && (low == 0 && high == 1 || low == 1 && high == 0)
}

func (b *Bdd) Allsat(f func([]int) error, n rudd.Node) error {
	if b.lv == nil {
		return b.BDD.Allsat(f, n)
	}
	return b.BDD.Allsat(func(p []int) error {
		if len(p) != b.BDD.Varnum() {
			b.c.Failf("callback of Allsat called with %d values, Varnum is %d", len(p), b.BDD.Varnum())
		}
		r := make([]int, len(b.lv))
		set := 0
		for i, v := range b.lv {
			r[i] = p[v]
			if p[v] != -1 {
				set++
			}
		}
		for _, v := range p {
			if v != -1 {
				set--
			}
		}
		if set != 0 {
			b.c.Failf("the profile given by Allsat has a value for variables that are not used (only %v are)", b.lv)
		}
		return f(r)
	}, n)
}

// Satcount is the count over the variables that are used.
func (b *Bdd) Satcount(n rudd.Node) *big.Int {
	r := b.BDD.Satcount(n)
	if b.lv == nil || r == nil {
		return r
	}
	rest := uint(b.BDD.Varnum() - len(b.lv))
	if new(big.Int).Lsh(new(big.Int).Rsh(r, rest), rest).Cmp(r) != 0 {
		b.c.Failf("Satcount(%d) is not a multiple of 2^%d, although %d variables do not occur", *n, rest, rest)
	}
	return r.Rsh(r, rest)
}

// rows translates what was read from a text.
func (b *Bdd) rows(l []rec) []rec {
	if b.lv == nil {
		return l
	}
	r := []rec{}
	for _, n := range l {
		if b.hidden(n.level, n.low, n.high) {
			continue
		}
		n.level = b.in(n.level)
		r = append(r, n)
	}
	return r
}
