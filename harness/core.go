package main

// Core of the monitors: case context, configurations, reading the function
// denoted by a node from what the public API shows, statistics, GC control.
// Only the public API of rudd is used, so that the monitors judge what the
// library does and not how it is written.

import (
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/dalzilio/rudd"
)

// ---------------------------------------------------------------------------
// verdicts

type violation struct{ msg string }
type inconclusive struct{ msg string }

// Ctx is the context of one case: its PRNG and what was observed.
type Ctx struct {
	*rand.Rand
	prop     string
	tier     string
	idx      int
	trace    []string // ring of recent steps
	tpos     int
	out      *Result
	quiet    int  // if positive, a goroutine that must not synchronise with others: progress is reported once in a while only
	no       int  // the number of the case, that idx is most of the time
	spread   bool // BDDs have many variables, of which a few are used
	spreadOf map[int]spreadVars
}

// fitting keeps the values that fit in an int, whose size depends on the machine.
func fitting(l ...int64) []int {
	r := []int{}
	for _, v := range l {
		if int64(int(v)) == v {
			r = append(r, int(v))
		}
	}
	return r
}

// Result accumulates what a process observed.
type Result struct {
	Evaluations int64
	Distinct    map[uint64]struct{}
	Counters    map[string]int64
	Samples     []string
	Digests     map[string]string
	Violations  []Vio
	Inconcl     []string
}

// Vio is a violation witness.
type Vio struct {
	Case  int
	Msg   string
	Trace []string
}

const maxDistinct = 400000

func (c *Ctx) Failf(format string, a ...interface{}) {
	panic(violation{fmt.Sprintf(format, a...)})
}

func (c *Ctx) Inconclusive(format string, a ...interface{}) {
	panic(inconclusive{fmt.Sprintf(format, a...)})
}

// progress is read by the watchdog.
var progress atomic.Int64

// tick tells the watchdog that the case makes progress.
func (c *Ctx) tick() {
	if c.quiet > 0 {
		if c.quiet++; c.quiet%200 != 0 {
			return
		}
	}
	progress.Add(1)
}

func (c *Ctx) Step(format string, a ...interface{}) {
	c.tick()
	s := fmt.Sprintf(format, a...)
	if len(c.trace) < 80 {
		c.trace = append(c.trace, s)
		return
	}
	c.trace[c.tpos%80] = s
	c.tpos++
}

func (c *Ctx) lastSteps() []string {
	if len(c.trace) < 80 {
		return c.trace
	}
	r := []string{}
	for i := 0; i < 80; i++ {
		r = append(r, c.trace[(c.tpos+i)%80])
	}
	return r
}

func (c *Ctx) Count(k string, n int64) { c.out.Counters[k] += n }

func (c *Ctx) Max(k string, n int64) {
	k = "max:" + k
	if c.out.Counters[k] < n {
		c.out.Counters[k] = n
	}
}

// Eval records one evaluation of the oracle; h identifies the (non trivial)
// situation judged, 0 if it is trivial.
func (c *Ctx) Eval(h uint64) {
	c.out.Evaluations++
	if h != 0 && len(c.out.Distinct) < maxDistinct {
		c.out.Distinct[h] = struct{}{}
	}
}

func (c *Ctx) Sample(format string, a ...interface{}) {
	if len(c.out.Samples) < 4 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.out.Samples = append(c.out.Samples, fmt.Sprintf("case %d: %s", c.idx, s))
	}
}

func (c *Ctx) thorough() bool { return c.tier == "thorough" }

// Pick returns one of the values.
func (c *Ctx) Pick(v ...int) int { return v[c.Intn(len(v))] }

func (c *Ctx) Chance(pct int) bool { return c.Intn(100) < pct }

// hashing

func mix(h uint64, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 29
	return h
}

func hashLanes(h uint64, l []uint64) uint64 {
	for _, w := range l {
		h = mix(h, w)
	}
	return h
}

// ---------------------------------------------------------------------------
// configurations

type Cfg struct {
	Vars, Node, Cache, Ratio, MinFree, MaxInc, MaxNode int
}

func (g Cfg) String() string {
	return fmt.Sprintf("New(%d, Nodesize(%d), Cachesize(%d), Cacheratio(%d), Minfreenodes(%d), Maxnodeincrease(%d), Maxnodesize(%d))",
		g.Vars, g.Node, g.Cache, g.Ratio, g.MinFree, g.MaxInc, g.MaxNode)
}

func defCfg(vars int) Cfg {
	return Cfg{Vars: vars, MinFree: 20, MaxInc: 1 << 20}
}

// New builds a BDD; it fails the case if New reports an error.
func (c *Ctx) New(g Cfg) *Bdd {
	if c.spread {
		return c.newSpread(g)
	}
	c.Step("%s", g)
	b, err := rudd.New(g.Vars, rudd.Nodesize(g.Node), rudd.Cachesize(g.Cache), rudd.Cacheratio(g.Ratio),
		rudd.Minfreenodes(g.MinFree), rudd.Maxnodeincrease(g.MaxInc), rudd.Maxnodesize(g.MaxNode))
	if err != nil || b == nil {
		c.Failf("%s returned (%v, %v)", g, b, err)
	}
	return c.view(b, nil)
}

// newSpread builds a BDD with many more variables than the workload uses.
func (c *Ctx) newSpread(g Cfg) *Bdd {
	sp, ok := c.spreadOf[g.Vars]
	if !ok {
		if c.spreadOf == nil {
			c.spreadOf = map[int]spreadVars{}
		}
		sp.nv, sp.lv = c.spreadOver(g.Vars)
		c.spreadOf[g.Vars] = sp
	}
	lv := sp.lv
	g.Vars = sp.nv
	if g.MinFree > 20 {
		g.MinFree = 20
	}
	g.MaxInc = c.Pick(300, 3000, 1<<20)
	g.Node = 2*g.Vars + 2 + c.Pick(0, 50, 500, 3000)
	c.spread = false
	b := c.New(g)
	c.spread = true
	c.Step("variables in use: %v", lv)
	c.Max("variables, of which a few are used", int64(g.Vars))
	c.Count("BDDs with scattered variables", 1)
	b = c.view(b.BDD, lv)
	return b
}

// RandCfg draws a configuration that stresses collection and resizing.
func (c *Ctx) RandCfg(vars int) Cfg {
	g := defCfg(vars)
	switch c.Intn(4) {
	case 0: // defaults for sizes
	case 1:
		g.Node = 2*vars + 2 + c.Intn(20)
	case 2:
		g.Node = 100 + c.Intn(400)
	case 3:
		g.Node = 1000 + c.Intn(3000)
	}
	g.Cache = c.Pick(1, 2, 3, 7, 17, 50, 200, 1000, 3000)
	if vars > 10 && g.Cache < 500 {
		g.Cache += 500 // smaller caches would make the cost of operations explode
	}
	g.Ratio = c.Pick(0, 0, 1, 10, 25, 50, 200)
	g.MinFree = c.Pick(0, 1, 5, 20, 20, 20, 50, 80, 95)
	g.MaxInc = c.Pick(1, 3, 8, 17, 50, 200, 1<<20, 0)
	if g.MinFree >= 80 && g.MaxInc == 0 {
		g.MaxInc = 5000 // keep tables small
	}
	return g
}

// ---------------------------------------------------------------------------
// lanes: a Boolean function is observed as its value on W*64 assignments

// Space fixes the assignments on which functions are compared: all of them
// (exact) or a random sample.
type Space struct {
	nv    int
	w     int // words per lane vector
	exact bool
	vars  [][]uint64
}

var lowMasks = [6]uint64{0xAAAAAAAAAAAAAAAA, 0xCCCCCCCCCCCCCCCC, 0xF0F0F0F0F0F0F0F0, 0xFF00FF00FF00FF00, 0xFFFF0000FFFF0000, 0xFFFFFFFF00000000}

func exactSpace(nv int) *Space {
	s := &Space{nv: nv, exact: true}
	s.w = 1
	if nv > 6 {
		s.w = 1 << (nv - 6)
	}
	for k := 0; k < nv; k++ {
		v := make([]uint64, s.w)
		for i := range v {
			if k < 6 {
				v[i] = lowMasks[k]
			} else if (i>>(k-6))&1 == 1 {
				v[i] = ^uint64(0)
			}
		}
		s.vars = append(s.vars, v)
	}
	return s
}

func sampledSpace(r *rand.Rand, nv, w int) *Space {
	s := &Space{nv: nv, w: w}
	for k := 0; k < nv; k++ {
		v := make([]uint64, w)
		for i := range v {
			v[i] = r.Uint64()
			switch i % 4 { // some words are biased
			case 1:
				v[i] &= r.Uint64()
			case 2:
				v[i] |= r.Uint64()
			}
		}
		s.vars = append(s.vars, v)
	}
	return s
}

func (s *Space) constant(v bool) []uint64 {
	r := make([]uint64, s.w)
	if v {
		for i := range r {
			r[i] = ^uint64(0)
		}
	}
	return r
}

// with returns the variables with some of them overridden.
func (s *Space) with(over map[int][]uint64) [][]uint64 {
	r := make([][]uint64, len(s.vars))
	copy(r, s.vars)
	for k, v := range over {
		r[k] = v
	}
	return r
}

func eqLanes(a, b []uint64) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func isConst(a []uint64) bool {
	for _, w := range a {
		if w != a[0] || (w != 0 && w != ^uint64(0)) {
			return false
		}
	}
	return true
}

func laneStr(a []uint64) string {
	s := []string{}
	for i, w := range a {
		if i == 8 {
			s = append(s, "...")
			break
		}
		s = append(s, fmt.Sprintf("%016x", w))
	}
	return strings.Join(s, ":")
}

// opTable is the documented truth table of each operator (rows 00 01 10 11).
var opTable = [10][4]int{
	{0, 0, 0, 1}, // and
	{0, 1, 1, 0}, // xor
	{0, 1, 1, 1}, // or
	{1, 1, 1, 0}, // nand
	{1, 0, 0, 0}, // nor
	{1, 1, 0, 1}, // imp
	{1, 0, 0, 1}, // biimp
	{0, 0, 1, 0}, // diff
	{0, 1, 0, 0}, // less
	{1, 0, 1, 1}, // invimp
}

var rops = [10]rudd.Operator{rudd.OPand, rudd.OPxor, rudd.OPor, rudd.OPnand, rudd.OPnor, rudd.OPimp, rudd.OPbiimp, rudd.OPdiff, rudd.OPless, rudd.OPinvimp}
var ropNames = [10]string{"and", "xor", "or", "nand", "nor", "imp", "biimp", "diff", "less", "invimp"}

func lanesOp(op int, a, b []uint64) []uint64 {
	r := make([]uint64, len(a))
	t := opTable[op]
	for i := range a {
		var w uint64
		if t[0] == 1 {
			w |= ^a[i] & ^b[i]
		}
		if t[1] == 1 {
			w |= ^a[i] & b[i]
		}
		if t[2] == 1 {
			w |= a[i] & ^b[i]
		}
		if t[3] == 1 {
			w |= a[i] & b[i]
		}
		r[i] = w
	}
	return r
}

func lanesNot(a []uint64) []uint64 {
	r := make([]uint64, len(a))
	for i := range a {
		r[i] = ^a[i]
	}
	return r
}

func lanesIte(f, g, h []uint64) []uint64 {
	r := make([]uint64, len(f))
	for i := range f {
		r[i] = f[i]&g[i] | ^f[i]&h[i]
	}
	return r
}

// ---------------------------------------------------------------------------
// dumps: the diagram as shown by Allnodes

type rec struct{ id, level, low, high int }

type Dump struct {
	c     *Ctx
	nv    int
	nodes []rec
	pos   map[int]int // id -> index in nodes
}

// DumpRoots reads the diagrams rooted in the nodes given.
func (c *Ctx) DumpRoots(b *Bdd, roots ...rudd.Node) *Dump {
	d := &Dump{c: c, nv: b.Varnum(), pos: map[int]int{}}
	if len(roots) == 0 {
		return d
	}
	err := b.Allnodes(d.add, roots...)
	if err != nil {
		c.Failf("Allnodes on valid nodes returned error %v", err)
	}
	return d
}

// DumpAll reads the whole node table.
func (c *Ctx) DumpAll(b *Bdd) *Dump {
	d := &Dump{c: c, nv: b.Varnum(), pos: map[int]int{}}
	if err := b.Allnodes(d.add); err != nil {
		c.Failf("Allnodes returned error %v", err)
	}
	return d
}

func (d *Dump) add(id, level, low, high int) error {
	if id < 2 {
		return nil
	}
	d.pos[id] = len(d.nodes)
	d.nodes = append(d.nodes, rec{id, level, low, high})
	return nil
}

func (d *Dump) get(id int) rec {
	p, ok := d.pos[id]
	if !ok {
		d.c.Failf("node %d is reachable but not in the diagram shown by Allnodes", id)
	}
	return d.nodes[p]
}

type evaluator struct {
	d    *Dump
	s    *Space
	vars [][]uint64
	memo map[int][]uint64
	dep  int
}

// Eval computes the function denoted by node id for the given variable lanes.
func (d *Dump) Eval(s *Space, vars [][]uint64, ids ...int) [][]uint64 {
	e := &evaluator{d: d, s: s, vars: vars, memo: make(map[int][]uint64, len(d.nodes)+2)}
	res := make([][]uint64, len(ids))
	for k, id := range ids {
		res[k] = e.eval(id)
	}
	return res
}

func (e *evaluator) eval(id int) []uint64 {
	if r, ok := e.memo[id]; ok {
		return r
	}
	if id == 0 || id == 1 {
		r := e.s.constant(id == 1)
		e.memo[id] = r
		return r
	}
	n := e.d.get(id)
	if n.level < 0 || n.level >= e.d.nv {
		e.d.c.Failf("node %d has level %d, outside [0..%d)", id, n.level, e.d.nv)
	}
	e.dep++
	if e.dep > e.d.nv+1 {
		e.d.c.Failf("a path longer than the number of variables reaches node %d", id)
	}
	h, l := e.eval(n.high), e.eval(n.low)
	e.dep--
	r := make([]uint64, e.s.w)
	x := e.vars[n.level]
	for i := range r {
		r[i] = x[i]&h[i] | ^x[i]&l[i]
	}
	e.memo[id] = r
	return r
}

// Fn reads the functions denoted by the nodes.
func (c *Ctx) Fn(b *Bdd, s *Space, ns ...rudd.Node) [][]uint64 {
	d := c.DumpRoots(b, ns...)
	ids := make([]int, len(ns))
	for k, n := range ns {
		ids[k] = *n
	}
	return d.Eval(s, s.vars, ids...)
}

// WellFormed checks that the diagrams in the dump are reduced, ordered and
// without duplicates (full tells whether the dump is the whole table).
func (d *Dump) WellFormed() {
	type key struct{ l, lo, hi int }
	seen := make(map[key]int, len(d.nodes))
	if len(d.pos) != len(d.nodes) {
		d.c.Failf("Allnodes visited a node twice")
	}
	lvl := func(id int, from int) int {
		if id == 0 || id == 1 {
			return d.nv
		}
		p, ok := d.pos[id]
		if !ok {
			d.c.Failf("node %d has a branch to node %d, that is not an active node", from, id)
		}
		return d.nodes[p].level
	}
	for _, n := range d.nodes {
		if n.level < 0 || n.level >= d.nv {
			d.c.Failf("node %d has level %d, outside [0..%d)", n.id, n.level, d.nv)
		}
		if n.low == n.high {
			d.c.Failf("node %d (level %d) has equal branches (%d)", n.id, n.level, n.low)
		}
		if lvl(n.low, n.id) <= n.level || lvl(n.high, n.id) <= n.level {
			d.c.Failf("node %d [level %d] ? %d : %d is not ordered", n.id, n.level, n.low, n.high)
		}
		k := key{n.level, n.low, n.high}
		if o, ok := seen[k]; ok {
			d.c.Failf("nodes %d and %d are duplicates: level %d, low %d, high %d", o, n.id, n.level, n.low, n.high)
		}
		seen[k] = n.id
	}
}

// Reach returns the set of non-constant ids reachable from the ids given.
func (d *Dump) Reach(ids ...int) map[int]bool {
	r := map[int]bool{}
	st := append([]int{}, ids...)
	for len(st) > 0 {
		id := st[len(st)-1]
		st = st[:len(st)-1]
		if id < 2 || r[id] {
			continue
		}
		r[id] = true
		n := d.get(id)
		st = append(st, n.low, n.high)
	}
	return r
}

// ---------------------------------------------------------------------------
// statistics

type Stats struct {
	Alloc, Produced, Free, Used, GC int
	Ext, Reclaimed                  int // debug builds
	UAccess, UHit, UMiss            int
	Debug                           bool
	raw                             string
}

var reStats = map[string]*regexp.Regexp{
	"Alloc":     regexp.MustCompile(`(?m)^Allocated:\s+(-?\d+)`),
	"Produced":  regexp.MustCompile(`(?m)^Produced:\s+(-?\d+)`),
	"Free":      regexp.MustCompile(`(?m)^Free:\s+(-?\d+)`),
	"Used":      regexp.MustCompile(`(?m)^Used:\s+(-?\d+)`),
	"GC":        regexp.MustCompile(`(?m)^# of GC:\s+(-?\d+)`),
	"Ext":       regexp.MustCompile(`(?m)^Ext. refs:\s+(-?\d+)`),
	"Reclaimed": regexp.MustCompile(`(?m)^Reclaimed:\s+(-?\d+)`),
	"UAccess":   regexp.MustCompile(`(?m)^Unique Access:\s+(-?\d+)`),
	"UHit":      regexp.MustCompile(`(?m)^Unique Hit:\s+(-?\d+)`),
	"UMiss":     regexp.MustCompile(`(?m)^Unique Miss:\s+(-?\d+)`),
}

// Stats parses the statistics of the BDD.
func (c *Ctx) Stats(b *Bdd) Stats {
	s := b.Stats()
	get := func(k string, must bool) int {
		m := reStats[k].FindStringSubmatch(s)
		if m == nil {
			if must {
				c.Inconclusive("no %s line in the statistics:\n%s", k, s)
			}
			return -1
		}
		v, _ := strconv.Atoi(m[1])
		return v
	}
	r := Stats{raw: s}
	r.Alloc, r.Produced, r.Free, r.Used, r.GC = get("Alloc", true), get("Produced", true), get("Free", true), get("Used", true), get("GC", true)
	r.Ext = get("Ext", false)
	r.Debug = r.Ext >= 0
	if r.Debug {
		r.Reclaimed, r.UAccess, r.UHit, r.UMiss = get("Reclaimed", false), get("UAccess", false), get("UHit", false), get("UMiss", false)
	}
	return r
}

// ObserveGC adds to the counters the collections and resizes seen since last.
func (c *Ctx) ObserveGC(b *Bdd, last *Stats) {
	s := c.Stats(b)
	if last.raw != "" {
		c.Count("node-table collections observed", int64(s.GC-last.GC))
		if s.Alloc > last.Alloc {
			c.Count("node-table growth observed (at least)", 1)
		}
		c.Count("nodes produced", int64(s.Produced-last.Produced))
	}
	*last = s
}

// ---------------------------------------------------------------------------
// Go collector

type fence struct{ pad [64]byte }

// Collect runs the Go collector until the finalizers of dropped nodes have
// been called (finalizers run in order in one goroutine, so a fence object
// tells when they are done).
func Collect() {
	for i := 0; i < 2; i++ {
		ch := make(chan struct{})
		f := &fence{}
		runtime.SetFinalizer(f, func(*fence) { close(ch) })
		f = nil
		runtime.GC()
		select {
		case <-ch:
		case <-time.After(20 * time.Second):
		}
	}
}

func getenv(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
