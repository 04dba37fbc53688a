package main

// C25: memory follows what is live. BDDs that are dropped are reclaimed with
// all that they use, and calls whose results are dropped leave nothing behind
// in the memory of the program.

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sort"
	"time"
	"weak"

	"github.com/dalzilio/rudd"
)

func init() {
	register("C25", Prop{quick: 360, thorough: 5000, run: runC25, cpu: 150})
}

func runC25(c *Ctx) {
	switch c.idx % 4 {
	case 0:
		droppedBDDs(c)
	case 1:
		if c.idx%8 == 5 {
			streaming(c)
			return
		}
		steadyHeap(c)
	case 2:
		if c.idx%24 == 2 {
			rejections(c)
			return
		}
		steadyHeap(c)
	default:
		steadyHeap(c)
	}
}

// rejections: a program that goes on after an error keeps nothing more for each
// call that is rejected.
func rejections(c *Ctx) {
	u := c.newUser(hCfg(c, 4+c.Intn(16)))
	bad := []struct {
		name string
		do   func()
	}{
		{"Not(nil)", func() { u.b.Not(nil) }},
		{"Apply(nil, n)", func() { u.b.Apply(nil, u.any(), rops[u.Intn(10)]) }},
		{"And(n, nil)", func() { u.b.And(u.any(), nil) }},
		{"Ite(n, nil, n)", func() { u.b.Ite(u.any(), nil, u.any()) }},
		{"Exist(nil, n)", func() { u.b.Exist(nil, u.set()) }},
		{"AppEx(n, nil)", func() { u.b.AppEx(u.any(), nil, rops[u.Intn(4)], u.set()) }},
		{"Replace(nil)", func() { u.b.Replace(nil, u.reps[0]) }},
		{"Replace(n, nil)", func() { u.b.Replace(u.any(), nil) }},
		{"Ithvar(-1)", func() { u.b.Ithvar(-1 - u.Intn(9)) }},
		{"Makeset([n])", func() { u.b.Makeset([]int{u.nv + u.Intn(9)}) }},
		{"Makecube", func() { u.b.Makecube([]int{0}, nil) }},
		{"Satcount(nil)", func() { u.sink += u.b.Satcount(nil).BitLen() }},
		{"Allsat(nil)", func() { u.b.Allsat(func([]int) error { return nil }, nil) }},
		{"Allnodes(nil)", func() { u.b.Allnodes(func(_, _, _, _ int) error { return nil }, nil) }},
		{"Label(nil)", func() { u.b.Label(nil) }},
		{"Low(nil)", func() { u.b.Low(nil) }},
		{"Print and Dot", func() { u.b.Print(io.Discard, u.any()); u.b.Dot(io.Discard, u.any()) }},
		{"NewReplacer", func() { u.b.NewReplacer([]int{0}, []int{u.nv}) }},
	}
	k := c.Pick(1, 1, 3, len(bad))
	which := c.Perm(len(bad))[:k]
	names := []string{}
	for _, i := range which {
		names = append(names, bad[i].name)
	}
	u.b.Not(nil)
	const calls = 3000
	what := fmt.Sprintf("%d calls of %v, all rejected", calls, names)
	var all []int64
	for round := 0; round < 8; round++ {
		h := heap()
		c.Step("%s", what)
		for i := 0; i < calls; i++ {
			if i%16 == 0 {
				progress.Add(1)
			}
			bad[which[c.Intn(k)]].do()
		}
		all = append(all, heap()-h)
		if !u.b.Errored() || u.b.Error() == "" {
			c.Failf("no error after %s", what)
		}
		if round > 0 && all[round] < 20000 {
			c.Count("rejected calls that left no memory behind", calls)
			c.Max("length of an error message", int64(len(u.b.Error())))
			c.Eval(mix(hashStr(what), uint64(c.idx)))
			runtime.KeepAlive(u)
			return
		}
	}
	c.Failf("the memory of the program grows by %v bytes in as many rounds of %s", all, what)
}

// heap returns the size of the objects that are live.
func heap() int64 {
	var ms runtime.MemStats
	best := int64(1) << 62
	for i := 0; i < 2; i++ {
		Collect()
		runtime.ReadMemStats(&ms)
		if h := int64(ms.HeapAlloc); h < best {
			best = h
		}
	}
	return best
}

// hUser calls the operations of a BDD at random and keeps nearly nothing.
type hUser struct {
	*Ctx
	b     *rudd.BDD
	nv    int
	pool  [10]rudd.Node
	reps  [2]rudd.Replacer
	sink  int
	limit bool // calls may fail
}

func (u *hUser) fresh() rudd.Node {
	set := u.Perm(u.nv)[:min(u.nv, 6)]
	sort.Ints(set)
	w := Bdd{BDD: u.b, c: u.Ctx}
	id := BuildTT(&w, set, u.Uint64())
	if id < 0 {
		return u.b.True()
	}
	return u.b.Retnode(id)
}

func (u *hUser) any() rudd.Node {
	if u.Chance(15) {
		u.pool[u.Intn(len(u.pool))] = u.fresh()
	}
	n := u.pool[u.Intn(len(u.pool))]
	if n == nil {
		return u.b.True()
	}
	return n
}

func (u *hUser) set() rudd.Node {
	s := u.Perm(u.nv)[:1+u.Intn(min(u.nv, 5))]
	n := u.b.Makeset(s)
	if n == nil {
		return u.b.True()
	}
	return n
}

func (u *hUser) replacer() rudd.Replacer {
	k := 1 + u.Intn(max(1, u.nv/2-1))
	p := u.Perm(u.nv)
	r, err := u.b.NewReplacer(p[:k], p[k:2*k])
	if err != nil {
		u.Failf("NewReplacer(%v, %v) returned error %v", p[:k], p[k:2*k], err)
	}
	return r
}

var errStop = errors.New("stop")

// the calls that are repeated
var hCalls = []struct {
	name string
	cost int
	do   func(u *hUser)
}{
	{"Not", 1, func(u *hUser) { u.b.Not(u.any()) }},
	{"Apply", 1, func(u *hUser) { u.b.Apply(u.any(), u.any(), rops[u.Intn(10)]) }},
	{"And", 1, func(u *hUser) { u.b.And(u.any(), u.any(), u.any()) }},
	{"Or", 1, func(u *hUser) { u.b.Or(u.any(), u.any()) }},
	{"Imp", 1, func(u *hUser) { u.b.Imp(u.any(), u.any()) }},
	{"Equiv", 1, func(u *hUser) { u.b.Equiv(u.any(), u.any()) }},
	{"Ite", 1, func(u *hUser) { u.b.Ite(u.any(), u.any(), u.any()) }},
	{"Exist", 2, func(u *hUser) { u.b.Exist(u.any(), u.set()) }},
	{"AppEx", 2, func(u *hUser) { u.b.AppEx(u.any(), u.any(), rops[u.Intn(4)], u.set()) }},
	{"AndExist", 2, func(u *hUser) { u.b.AndExist(u.set(), u.any(), u.any()) }},
	{"Makeset", 1, func(u *hUser) { u.set() }},
	{"Makecube", 1, func(u *hUser) {
		s := u.Perm(u.nv)[:1+u.Intn(u.nv)]
		sort.Ints(s)
		p := make([]bool, len(s))
		for i := range p {
			p[i] = u.Chance(50)
		}
		u.b.Makecube(s, p)
	}},
	{"Scanset", 1, func(u *hUser) { u.sink += len(u.b.Scanset(u.set())) }},
	{"Ithvar", 1, func(u *hUser) { u.b.Ithvar(u.Intn(u.nv)); u.b.NIthvar(u.Intn(u.nv)) }},
	{"From", 1, func(u *hUser) { u.b.From(u.Chance(50)); u.b.True(); u.b.False() }},
	{"Low/High", 1, func(u *hUser) {
		if n := u.any(); *n > 1 {
			u.b.Low(n)
			u.b.High(n)
			u.b.Label(n)
		}
	}},
	{"NewReplacer", 1, func(u *hUser) { u.replacer() }},
	{"Replace with new replacers", 2, func(u *hUser) { u.replace(u.replacer()) }},
	{"Replace", 1, func(u *hUser) { u.replace(u.reps[u.Intn(len(u.reps))]) }},
	{"Satcount", 2, func(u *hUser) { u.sink += u.b.Satcount(u.any()).BitLen() }},
	{"Allsat", 4, func(u *hUser) {
		stop := u.Intn(40)
		u.b.Allsat(func(p []int) error {
			if stop--; stop == 0 {
				return errStop
			}
			return nil
		}, u.any())
	}},
	{"Allnodes", 4, func(u *hUser) {
		stop := u.Intn(80)
		u.b.Allnodes(func(id, level, low, high int) error {
			if stop--; stop == 0 {
				return errStop
			}
			return nil
		}, u.any(), u.any())
	}},
	{"Allnodes of everything", 40, func(u *hUser) {
		u.b.Allnodes(func(id, level, low, high int) error { u.sink += id; return nil })
	}},
	{"Print", 6, func(u *hUser) { u.b.Print(io.Discard, u.any(), u.any()) }},
	{"Dot", 6, func(u *hUser) { u.b.Dot(io.Discard, u.any()) }},
	{"Stats", 10, func(u *hUser) { u.sink += len(u.b.Stats()) }},
	{"Equal", 1, func(u *hUser) { u.b.Equal(u.any(), u.any()); u.b.Errored(); u.b.Error(); u.b.Varnum() }},
	{"degenerate calls", 1, func(u *hUser) {
		u.b.And()
		u.b.Or()
		u.b.And(u.any())
		u.b.Or(u.any())
		u.b.Makeset(nil)
		p := make([]bool, u.nv)
		for i := range p {
			p[i] = u.Chance(50)
		}
		u.b.Makecube(nil, p)
		u.sink += len(u.b.Scanset(u.b.True()))
		n := u.any()
		u.b.Exist(n, u.b.True())
		u.b.AppEx(n, n, rops[u.Intn(4)], u.b.True())
	}},
	{"kernel functions", 1, func(u *hUser) { u.fresh() }},
	{"garbage", 1, func(u *hUser) {
		w := Bdd{BDD: u.b, c: u.Ctx}
		randomGarbage(u.Ctx, &w, u.nv)
	}},
	{"Pushref", 1, func(u *hUser) {
		u.b.Initref()
		for i := u.Intn(50); i >= 0; i-- {
			u.b.Pushref(*u.any())
		}
	}},
}

// replace fails when a variable meets its image, which would leave the BDD in
// an error state: operands are made of variables that are not images.
func (u *hUser) replace(r rudd.Replacer) {
	n := u.any()
	for i := 0; i < u.nv; i++ {
		if u.Chance(50) {
			n = u.b.Ite(u.b.Ithvar(u.Intn(u.nv)), n, u.any())
		}
		break
	}
	if n == nil || u.b.Errored() {
		return
	}
	x := u.keep(n, r)
	if x != nil {
		u.b.Replace(x, r)
	}
}

// keep removes from n the variables that r writes.
func (u *hUser) keep(n rudd.Node, r rudd.Replacer) rudd.Node {
	img := []int{}
	for v := 0; v < u.nv; v++ {
		if w, ok := r.Replace(int32(v)); ok && int(w) != v {
			img = append(img, int(w))
		}
	}
	s := u.b.Makeset(img)
	if s == nil {
		return nil
	}
	return u.b.Exist(n, s)
}

func hCfg(c *Ctx, nv int) Cfg {
	g := defCfg(nv)
	g.Node, g.Cache = c.Pick(500, 1000, 2000, 5000), c.Pick(100, 1000, 3000)
	if c.Chance(30) {
		g.Ratio = c.Pick(10, 25, 50)
	}
	g.MinFree = c.Pick(10, 20, 30)
	g.MaxInc = c.Pick(1000, 5000, 1<<20)
	return g
}

// newRaw makes a BDD that is not kept by anything else.
func (c *Ctx) newRaw(g Cfg) *rudd.BDD {
	c.Step("%s", g)
	b, err := rudd.New(g.Vars, rudd.Nodesize(g.Node), rudd.Cachesize(g.Cache), rudd.Cacheratio(g.Ratio),
		rudd.Minfreenodes(g.MinFree), rudd.Maxnodeincrease(g.MaxInc), rudd.Maxnodesize(g.MaxNode))
	if err != nil {
		c.Failf("%s returned error %v", g, err)
	}
	return b
}

func (c *Ctx) newUser(g Cfg) *hUser {
	u := &hUser{Ctx: c, b: c.newRaw(g), nv: g.Vars}
	for i := range u.reps {
		u.reps[i] = u.replacer()
	}
	for i := range u.pool {
		u.pool[i] = u.fresh()
	}
	return u
}

func steadyHeap(c *Ctx) {
	u := c.newUser(hCfg(c, 4+c.Intn(16)))
	k := c.Pick(1, 1, 1, 2, 3, 6)
	mixd := c.Perm(len(hCalls))[:k]
	if k == 1 {
		mixd[0] = c.idx / 4 % len(hCalls) // each of them sometimes comes alone
	}
	names := []string{}
	cost := 0
	for _, i := range mixd {
		names = append(names, hCalls[i].name)
		cost += hCalls[i].cost
	}
	calls := 24000 * len(mixd) / (cost + 5*len(mixd))
	if c.thorough() {
		calls *= 3
	}
	what := fmt.Sprintf("%d calls of %v", calls, names)
	window := func() (grown int64, gc int, same bool) {
		w := Bdd{BDD: u.b, c: c}
		before := c.Stats(&w)
		h := heap()
		c.Step("%s", what)
		for i := 0; i < calls; i++ {
			if i%16 == 0 {
				progress.Add(1)
			}
			if i%400 == 399 {
				Collect() // so that the table need not grow
			}
			hCalls[mixd[c.Intn(len(mixd))]].do(u)
		}
		after := c.Stats(&w)
		h = heap() - h
		return h, after.GC, after.Alloc == before.Alloc
	}
	w := Bdd{BDD: u.b, c: c}
	for i := 0; i < 12; i++ {
		if _, _, same := window(); same && i > 0 {
			break
		}
	}
	least := int64(1) << 62
	var all []int64
	var gcs int
	for len(all) < 8 {
		grown, gc, same := window()
		if u.b.Errored() {
			c.Failf("a valid call was reported as an error: %s", u.b.Error())
		}
		if !same {
			c.Count("windows where the table grew", 1)
			if gcs++; gcs > 4 {
				return
			}
			continue
		}
		allowed := int64(20000) + 64*int64(gc)
		all = append(all, grown)
		if grown-allowed < least {
			least = grown - allowed
		}
		c.Max("bytes that a window may leave", allowed)
		if least <= 0 {
			break
		}
	}
	st := c.Stats(&w)
	if least > 0 {
		c.Failf("the memory of the program grows by %v bytes in as many rounds of %s, whose results are dropped; the node table did not grow (%d nodes, %d collections so far)", all, what, st.Alloc, st.GC)
	}
	for _, n := range names {
		c.Count("windows of calls that left no memory behind: "+n, 1)
	}
	c.Count("calls with dropped results", int64(calls))
	c.Count("node-table collections observed", int64(st.GC))
	c.Eval(mix(hashStr(what), uint64(c.idx)))
	if c.idx < 10 {
		c.Sample("%s: heap grown by %v bytes after the warm-up, table of %d nodes, %d collections", what, all, st.Alloc, st.GC)
	}
	runtime.KeepAlive(u)
}

// droppedBDDs uses some BDDs and drops them.
// droppedBDDs: what the Go runtime keeps by accident for a while (a small object
// that shares its block with a node) does not come back when all is done again,
// so a leak is asked to show three times.
func droppedBDDs(c *Ctx) {
	seed := c.Int63()
	for i := 1; ; i++ {
		c.Rand = rand.New(rand.NewSource(seed))
		msg := c.dropped()
		if msg == "" {
			return
		}
		if i == 3 {
			c.Failf("%s", msg)
		}
		c.Count("leaks that did not come back", 1)
	}
}

// dropped describes the leak seen, if any.
func (c *Ctx) dropped() string {
	// finalizers of the previous cases
	h0 := heap()
	n := c.Pick(1, 2, 4)
	var gone []weak.Pointer[rudd.BDD]
	held := []rudd.Node{}
	size := 0
	desc := ""
	run := func(seed int64) (weak.Pointer[rudd.BDD], rudd.Node) {
		cc := &Ctx{Rand: rand.New(rand.NewSource(seed)), prop: c.prop, tier: c.tier, idx: c.idx, out: c.out}
		g := hCfg(cc, 4+cc.Intn(16))
		g.Node = cc.Pick(20000, 40000)
		limited := cc.Chance(30)
		if limited {
			g.Node, g.MaxNode = 2000, 2200
		}
		size += g.Node
		desc = g.String()
		u := cc.newUser(g)
		var last rudd.Node
		steps := cc.Pick(0, 1, 30, 300, 1000)
		for i := 0; i < steps; i++ {
			progress.Add(1)
			hCalls[cc.Intn(len(hCalls))].do(u)
		}
		switch cc.Intn(5) {
		case 0: // dropped in the middle of an iteration
			u.b.Allsat(func([]int) error { return errStop }, u.any())
		case 1:
			u.b.Allnodes(func(id, level, low, high int) error { return errStop })
		case 2: // or in an error state
			u.b.Ithvar(-1)
			u.b.Not(nil)
		case 3: // or with all its finalizers still to come
			for i := 0; i < 2000; i++ {
				u.b.And(u.any(), u.any())
			}
		}
		if limited {
			for i := 0; i < 300; i++ {
				u.any()
				u.pool[u.Intn(len(u.pool))] = u.b.Ite(u.any(), u.any(), u.any())
			}
		}
		last = u.fresh()
		return weak.Make(u.b), last
	}
	for i := 0; i < n; i++ {
		ch := make(chan struct{})
		var panicked interface{}
		seed := c.Int63()
		go func() {
			defer close(ch)
			defer func() { panicked = recover() }()
			w, l := run(seed)
			gone = append(gone, w)
			if l != nil {
				held = append(held, l)
			}
		}()
		<-ch
		if panicked != nil {
			panic(panicked)
		}
	}
	c.Step("%d BDDs dropped, last one %s", n, desc)
	keep := c.Chance(30) // nodes are still held
	if !keep {
		held = nil
	}
	alive := func() int {
		k := 0
		for _, w := range gone {
			if w.Value() != nil {
				k++
			}
		}
		return k
	}
	if keep {
		// a node that is held may keep its BDD; it is released later
		Collect()
		runtime.KeepAlive(held)
		held = nil
	}
	for i := 0; i < 10 && alive() > 0; i++ {
		if i > 4 {
			time.Sleep(20 * time.Millisecond)
		}
		Collect()
		progress.Add(1)
	}
	if k := alive(); k > 0 {
		return fmt.Sprintf("%d of %d BDDs are still in memory although the program dropped them and all of their nodes (the last one was %s)", k, n, desc)
	}
	if grown := heap() - h0; grown > int64(120000+size*4) {
		return fmt.Sprintf("%d bytes are still in use after %d BDDs (%d nodes in all) were dropped with all of their nodes", grown, n, size)
	}
	c.Count("dropped BDDs that were reclaimed", int64(n))
	c.Eval(mix(hashStr(desc), uint64(n)))
	return ""
}

// streaming looks at the memory in use while an iteration runs.
func streaming(c *Ctx) {
	nv := 40 + c.Intn(40)
	g := defCfg(nv)
	g.Node, g.Cache = 5000, 1000
	b := c.newRaw(g)
	// a parity has 2^(k-1) paths
	k := 15 + c.Intn(2)
	set := c.Perm(nv)[:k]
	sort.Ints(set)
	b.Initref()
	p, q := 0, 1
	for i := k - 1; i >= 0; i-- {
		b.Pushref(p)
		b.Pushref(q)
		p, q = b.Pushref(b.Makenode(int32(set[i]), p, q)), b.Pushref(b.Makenode(int32(set[i]), q, p))
	}
	n := b.Retnode(p)
	b.Initref()
	c.Step("Allsat of the parity of %v among %d variables", set, nv)
	h0 := heap()
	calls, worst := 0, int64(0)
	at := map[int]bool{1: true, 1 << (k - 3): true, 1 << (k - 2): true, 1<<(k-2) + 1<<(k-3): true, 1<<(k-1) - 1: true}
	err := b.Allsat(func(prof []int) error {
		calls++
		if calls%256 == 0 {
			progress.Add(1)
		}
		if at[calls] {
			if d := heap() - h0; d > worst {
				worst = d
			}
		}
		return nil
	}, n)
	if err != nil || calls != 1<<(k-1) {
		c.Failf("Allsat on the parity of %d variables made %d calls and returned %v", k, calls, err)
	}
	c.Max("bytes in use during an Allsat with 2^14 or more paths", worst)
	if worst > 150000 {
		c.Failf("%d more bytes are in use during an Allsat with 2^%d paths on %d nodes, after a collection", worst, k-1, 2*k-1)
	}
	c.Eval(mix(uint64(nv), uint64(k)))
	runtime.KeepAlive(n)
}
