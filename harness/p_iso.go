package main

// C26: a call has no other effect than its result. What the caller gives stays
// as it is and is not kept, what it receives belongs to it, questions do not
// change the BDD, nothing is written but where it is asked, the settings of the
// process are left alone, and a writer that fails or a callback that panics
// does no harm.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"syscall"
	"time"

	"github.com/dalzilio/rudd"
)

func init() {
	register("C26", Prop{quick: 2400, thorough: 60000, run: runC26})
}

// The monitors that run while the streams and the process are watched.
var watched = []string{"C01", "C12", "C13", "C12", "C03", "C04", "C10", "C12", "C19", "C02", "C13", "C05", "C06", "C12", "C07", "C08", "C09", "C11", "C16", "C17", "C18", "C20", "C23"}

func runC26(c *Ctx) {
	w := c.watch()
	switch c.idx % 5 {
	case 0:
		id := watched[c.idx/5%len(watched)]
		c.foreign(id)
		c.Count("cases of "+id+" under watch", 1)
		w.check(c, "the calls of a workload")
		c.Eval(mix(26, uint64(c.no)))
		return
	case 1:
		isolated(c)
	case 2:
		harmed(c)
	case 3:
		questions(c)
	case 4:
		options(c)
	}
	w.check(c, "the calls above")
}

// foreign runs a case of another monitor, whose verdict is not for here.
func (c *Ctx) foreign(id string) {
	d := *c
	d.idx = c.idx / 5 / len(watched)
	if id == "C11" {
		d.idx = c.no
	}
	d.prop = id
	d.out = &Result{Distinct: map[uint64]struct{}{}, Counters: map[string]int64{}, Digests: map[string]string{}}
	d.spread = spreadCase(id, d.idx)
	defer func() {
		c.trace = append(c.trace, d.lastSteps()...)
		r := recover()
		switch r.(type) {
		case nil, violation, inconclusive:
		default:
			c.Count("workloads that ended with a panic", 1)
		}
		c.Count("results judged by the workloads under watch", d.out.Evaluations)
	}()
	props[id].run(&d)
}

// watcher remembers the state of the process.
type watcher struct {
	sizes      [2]int64
	logged     bytes.Buffer
	flags      int
	prefix     string
	goroutines int
	procs      int
	gcpercent  int
	memlimit   int64
	fds        int
	wd         string
	env        []string
	set        io.Writer
}

func gcPercent() int {
	p := debug.SetGCPercent(100)
	debug.SetGCPercent(p)
	return p
}

func sizeOf(fd int) int64 {
	var st syscall.Stat_t
	if syscall.Fstat(fd, &st) != nil || st.Mode&syscall.S_IFMT != syscall.S_IFREG {
		return -1
	}
	return st.Size
}

func openFiles() int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(l)
}

// fewestFiles leaves out what the watchdog opens.
func fewestFiles() int {
	n := openFiles()
	for i := 0; i < 3; i++ {
		n = min(n, openFiles())
	}
	return n
}

func (c *Ctx) watch() *watcher {
	w := &watcher{sizes: [2]int64{sizeOf(1), sizeOf(2)}, flags: log.Flags(), prefix: log.Prefix(), goroutines: runtime.NumGoroutine(),
		procs: runtime.GOMAXPROCS(0), gcpercent: gcPercent(), memlimit: debug.SetMemoryLimit(-1), fds: fewestFiles(), env: os.Environ()}
	w.wd, _ = os.Getwd()
	w.set = &w.logged
	log.SetOutput(w.set)
	return w
}

func (w *watcher) check(c *Ctx, what string) {
	defer log.SetOutput(devnull{})
	for i, s := range []string{"standard output", "standard error"} {
		if now := sizeOf(i + 1); w.sizes[i] >= 0 && now > w.sizes[i] {
			c.Failf("%s wrote %d bytes on the %s", what, now-w.sizes[i], s)
		} else if now >= 0 {
			c.Count("streams that stayed silent", 1)
		}
	}
	if w.logged.Len() > 0 {
		c.Failf("%s wrote in the log: %s", what, head(w.logged.String()))
	}
	if log.Writer() != w.set || log.Flags() != w.flags || log.Prefix() != w.prefix {
		c.Failf("%s changed the settings of the log", what)
	}
	if runtime.GOMAXPROCS(0) != w.procs || gcPercent() != w.gcpercent || debug.SetMemoryLimit(-1) != w.memlimit {
		c.Failf("%s changed the settings of the Go runtime: GOMAXPROCS %d -> %d, GC percentage %d -> %d, memory limit %d -> %d", what,
			w.procs, runtime.GOMAXPROCS(0), w.gcpercent, gcPercent(), w.memlimit, debug.SetMemoryLimit(-1))
	}
	if wd, _ := os.Getwd(); wd != w.wd || !reflect.DeepEqual(os.Environ(), w.env) {
		c.Failf("%s changed the working directory or the environment", what)
	}
	// the watchdog opens a file now and then
	for i := 0; openFiles() > w.fds; i++ {
		if i == 1000 {
			c.Failf("%s left %d files open, there were %d", what, openFiles(), w.fds)
		}
		time.Sleep(time.Millisecond)
	}
	// a finalizer that runs counts as a goroutine
	for i := 0; runtime.NumGoroutine() > w.goroutines; i++ {
		if i == 3000 {
			c.Failf("%s left %d goroutines, there were %d: %s", what, runtime.NumGoroutine(), w.goroutines, stacks())
		}
		time.Sleep(time.Millisecond)
	}
	c.Count("verifications of the process", 1)
}

// ---------------------------------------------------------------------------
// arguments and results

// lent is a slice given to a call, inside of a larger array.
type lent[T comparable] struct {
	all, was []T
	s        []T
	what     string
}

func lend[T comparable](c *Ctx, l []T, fill func() T, what string) *lent[T] {
	before, after := c.Intn(3), 1+c.Intn(6)
	all := make([]T, before+len(l)+after)
	for i := range all {
		all[i] = fill()
	}
	copy(all[before:], l)
	s := all[before : before+len(l)]
	if c.Chance(25) { // no room after the slice
		s = s[:len(l):len(l)]
	}
	return &lent[T]{all, append([]T{}, all...), s, what}
}

func (l *lent[T]) check(c *Ctx) {
	for i := range l.all {
		if l.all[i] != l.was[i] {
			c.Failf("%s changed the array of the slice it was given, at index %d: %v -> %v", l.what, i, l.was, l.all)
		}
	}
	c.Count("arguments verified", 1)
}

// scramble gives other values to the slice, which belongs to the caller.
func (l *lent[T]) scramble(fill func() T) {
	for i := range l.all {
		l.all[i] = fill()
	}
}

func isolated(c *Ctx) {
	nv := 4 + c.Intn(10)
	g := c.RandCfg(nv)
	b := c.New(g).BDD
	w := &Bdd{BDD: b, c: c}
	any := func() int { return c.Intn(nv) }
	anyb := func() bool { return c.Chance(50) }
	fresh := func() rudd.Node {
		set := fitting()
		for v := 0; v < nv && len(set) < 6; v++ {
			if c.Chance(60) {
				set = append(set, v)
			}
		}
		id := BuildTT(w, set, c.Uint64())
		return b.Retnode(id)
	}
	pool := []rudd.Node{b.True(), b.False()}
	for len(pool) < 8 {
		pool = append(pool, fresh())
	}
	pick := func() rudd.Node { return pool[c.Intn(len(pool))] }
	same := func(x, y rudd.Node, what string) {
		if x == nil || y == nil || *x != *y {
			c.Failf("%s", what)
		}
	}
	// former results, with what they were
	type former struct{ got, was []int }
	type count struct{ got, was *big.Int }
	var sets []former
	var counts []count
	unchanged := func() {
		for _, f := range sets {
			if !reflect.DeepEqual(f.got, f.was) {
				c.Failf("a result of Scanset changed after later calls: %v -> %v", f.was, f.got)
			}
		}
		for _, f := range counts {
			if f.got.Cmp(f.was) != 0 {
				c.Failf("a result of Satcount changed after later calls: %v -> %v", f.was, f.got)
			}
		}
		c.Count("former results verified", int64(len(sets)+len(counts)))
	}
	for i := 0; i < 60; i++ {
		if c.Chance(30) {
			set := c.Perm(nv)[:c.Intn(nv+1)]
			c.Step("keep the result of Scanset for %v", set)
			if r := b.Scanset(b.Makeset(set)); len(r) > 0 {
				sets = append(sets, former{r, append([]int{}, r...)})
			}
		}
		if c.Chance(30) {
			r := b.Satcount(pick())
			counts = append(counts, count{r, new(big.Int).Set(r)})
		}
		unchanged()
		k := c.Intn(nv + 1)
		set := c.Perm(nv)[:k]
		if c.Chance(3) {
			pool[2+c.Intn(len(pool)-2)] = fresh()
		}
		switch c.Intn(9) {
		case 0:
			c.Step("Makeset(%v), then change the slice", set)
			l := lend(c, set, any, "Makeset")
			x := b.Makeset(l.s)
			l.check(c)
			l.scramble(any)
			r := b.True()
			for _, v := range set {
				r = b.And(r, b.Ithvar(v))
			}
			same(x, r, fmt.Sprintf("Makeset(%v) changed with its argument", set))
			// the result of Scanset is ours
			a := b.Scanset(x)
			for j := range a {
				a[j] = -7
			}
			a = append(a[:cap(a)], 3)
			got := append([]int{}, b.Scanset(x)...)
			want := append([]int{}, set...)
			if y := b.Makeset(got); *y != *x || len(got) != len(want) {
				c.Failf("Scanset gives %v for the set %v, after a former result was changed", got, set)
			}
			c.Eval(mix(1, uint64(*x)))
		case 1:
			c.Step("Makecube over %v, then change the slices", set)
			sort.Ints(set)
			pol := make([]bool, len(set))
			if len(set) == 0 {
				pol = make([]bool, nv)
			}
			for j := range pol {
				pol[j] = anyb()
			}
			l, p := lend(c, set, any, "Makecube"), lend(c, pol, anyb, "Makecube")
			x := b.Makecube(l.s, p.s)
			l.check(c)
			p.check(c)
			l.scramble(any)
			p.scramble(anyb)
			r := b.True()
			for j := range pol {
				v := j
				if len(set) > 0 {
					v = set[j]
				}
				if pol[j] {
					r = b.And(r, b.Ithvar(v))
				} else {
					r = b.And(r, b.NIthvar(v))
				}
			}
			same(x, r, fmt.Sprintf("Makecube(%v, %v) is not the cube", set, pol))
			c.Eval(mix(2, uint64(*x)))
		case 2, 3:
			// several replacers made with the same two slices
			const n = 3
			var reps, refs [n]rudd.Replacer
			k := 1 + c.Intn(nv/2)
			l := lend(c, make([]int, k), any, "NewReplacer")
			m := lend(c, make([]int, k), any, "NewReplacer")
			var from, to [n][]int
			for j := 0; j < n; j++ {
				p := c.Perm(nv)
				from[j], to[j] = append([]int{}, p[:k]...), append([]int{}, p[k:2*k]...)
				copy(l.s, from[j])
				copy(m.s, to[j])
				copy(l.was, l.all)
				copy(m.was, m.all)
				c.Step("NewReplacer(%v, %v)", l.s, m.s)
				r, err := b.NewReplacer(l.s, m.s)
				if err != nil {
					c.Failf("NewReplacer(%v, %v): %s", l.s, m.s, err)
				}
				reps[j] = r
				l.check(c)
				m.check(c)
				if c.Chance(50) {
					l.scramble(any)
					m.scramble(any)
				}
				copy(l.was, l.all)
				copy(m.was, m.all)
			}
			for j := 0; j < n; j++ {
				refs[j], _ = b.NewReplacer(from[j], to[j])
			}
			for j := 0; j < 2*n; j++ {
				q := c.Intn(n)
				x := pick()
				// only diagrams without the new variables: the result is defined
				x = b.Exist(x, b.Makeset(to[q]))
				r1 := b.Replace(x, reps[q])
				r2 := b.Replace(x, refs[q])
				same(r1, r2, fmt.Sprintf("Replace of %v with %v depends on what became of the slices given to NewReplacer", from[q], to[q]))
				c.Eval(mix(3, uint64(*r1)))
			}
		case 4:
			k := c.Pick(0, 1, 2, 2, 3, 3, 4, 5, 9)
			ops := []rudd.Node{}
			for len(ops) < k {
				ops = append(ops, pick())
			}
			l := lend(c, ops, pick, "And or Or")
			c.Step("And and Or of %d operands", k)
			x, y := b.And(l.s...), b.Or(l.s...)
			l.check(c)
			l.scramble(pick)
			r, t := b.True(), b.False()
			for _, n := range ops {
				r, t = b.Apply(r, n, rudd.OPand), b.Apply(t, n, rudd.OPor)
			}
			same(x, r, "And changed with its operands")
			same(y, t, "Or changed with its operands")
			c.Eval(mix(4, mix(uint64(*x), uint64(*y))))
		case 5:
			roots := []rudd.Node{}
			for k := 1 + c.Intn(4); len(roots) < k; {
				roots = append(roots, pick())
			}
			l := lend(c, roots, pick, "Print, Dot or Allnodes")
			var p, d bytes.Buffer
			b.Print(&p, l.s...)
			l.check(c)
			b.Dot(&d, l.s...)
			l.check(c)
			n := 0
			b.Allnodes(func(int, int, int, int) error { n++; return nil }, l.s...)
			l.check(c)
			var p2, d2 bytes.Buffer
			b.Print(&p2, roots...)
			b.Dot(&d2, roots...)
			if p.String() != p2.String() || d.String() != d2.String() {
				c.Failf("Print or Dot do not give the same text twice")
			}
			c.Eval(mix(5, hashString(p.String())))
		case 6, 7:
			x := pick()
			if c.Chance(30) {
				x = nil
			}
			s1 := b.Satcount(x)
			if s1 == nil {
				c.Failf("Satcount returned nil")
			}
			was := new(big.Int).Set(s1)
			c.Step("change the result of Satcount")
			s1.Add(s1, big.NewInt(int64(1+c.Intn(1000))))
			if c.Chance(30) {
				s1.SetInt64(-1)
			}
			s2 := b.Satcount(x)
			if s2.Cmp(was) != 0 {
				c.Failf("Satcount gives %v and then %v, after the former result was changed", was, s2)
			}
			s2.SetBit(s2, nv+2, 1)
			if x == nil {
				c.New(g) // a nil operand is an error, go on with nothing else in b
				b2 := c.New(g)
				if z := b2.BDD.Satcount(b2.False()); z.Sign() != 0 {
					c.Failf("Satcount(False) is %v, after a result of Satcount was changed", z)
				}
				c.Eval(0)
				return
			}
			for _, y := range []rudd.Node{b.True(), b.False(), pick()} {
				a := b.Satcount(y)
				a0 := new(big.Int).Set(a)
				a.SetInt64(99)
				if e := b.Satcount(y); e.Cmp(a0) != 0 {
					c.Failf("Satcount gives %v and then %v, after the former result was changed", a0, e)
				}
			}
			if t := b.Satcount(b.True()); t.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(nv))) != 0 || b.Satcount(b.False()).Sign() != 0 {
				c.Failf("Satcount of a constant changed after a result of Satcount was changed")
			}
			c.Eval(mix(6, uint64(*x)))
		case 8:
			// a profile that is kept, or changed, does not change the diagram
			x := pick()
			n := 0
			want := b.Satcount(x)
			b.Allsat(func(p []int) error {
				n++
				return nil
			}, x)
			if b.Satcount(x).Cmp(want) != 0 {
				c.Failf("Allsat changed the diagram")
			}
			c.Eval(mix(8, uint64(*x)))
		}
	}
	if b.Errored() || b.Error() != "" {
		c.Failf("unexpected error: %s", b.Error())
	}
}

// ---------------------------------------------------------------------------
// options

// values makes a slice of options, whose type cannot be named.
func values[T any](l ...T) []T { return l }

// options: an option may serve for several BDDs.
func options(c *Ctx) {
	g := c.RandCfg(2 + c.Intn(20))
	build := func() func(int) *rudd.BDD {
		opts := values(rudd.Nodesize(g.Node), rudd.Cachesize(g.Cache), rudd.Cacheratio(g.Ratio), rudd.Minfreenodes(g.MinFree), rudd.Maxnodeincrease(g.MaxInc), rudd.Maxnodesize(g.MaxNode))
		c.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		ptr := make([]uintptr, len(opts))
		for i := range opts {
			ptr[i] = reflect.ValueOf(opts[i]).Pointer()
		}
		return func(vars int) *rudd.BDD {
			b, err := rudd.New(vars, opts...)
			if err != nil {
				c.Failf("New(%d) failed: %s (%s)", vars, err, g)
			}
			for i := range opts {
				if opts[i] == nil || reflect.ValueOf(opts[i]).Pointer() != ptr[i] {
					c.Failf("New changed the slice of its options")
				}
			}
			return b
		}
	}
	shared := build()
	for i := 0; i < 6; i++ {
		vars := c.Pick(1, 2, 3, 5, 17, 40, 120)
		if c.Chance(20) {
			if b, err := rudd.New(c.Pick(-1, 0, 0x200000)); b != nil || err == nil {
				c.Failf("New accepted an illegal number of variables")
			}
		}
		c.Step("New(%d) with the options of %s used again", vars, g)
		x, y := shared(vars), build()(vars)
		if x.Stats() != y.Stats() {
			c.Failf("options used %d times before do not have the same effect as new ones, for %d variables (%s): %s / %s", i, vars, g, x.Stats(), y.Stats())
		}
		// the same behaviour when the table fills up
		r := [2][]string{}
		seed := c.Int63()
		for j, b := range []*rudd.BDD{x, y} {
			d := *c
			d.Rand = rand.New(rand.NewSource(seed))
			w := &Bdd{BDD: b, c: &d}
			for k := 0; k < 60; k++ {
				set := d.Perm(vars)[:min(vars, 6)]
				sort.Ints(set)
				id := BuildTT(w, set, d.Uint64())
				st := c.Stats(w)
				r[j] = append(r[j], fmt.Sprint(id >= 0, st.Alloc))
			}
		}
		if !reflect.DeepEqual(r[0], r[1]) {
			for k := range r[0] {
				if r[0][k] != r[1][k] {
					c.Failf("options used %d times before do not have the same effect as new ones, for %d variables (%s): at step %d, success and size are %s / %s", i, vars, g, k, r[0][k], r[1][k])
				}
			}
		}
		c.Eval(mix(hashString(x.Stats()), uint64(vars)))
	}
}

// ---------------------------------------------------------------------------
// questions

// questions: calls that only read do not change the table.
func questions(c *Ctx) {
	s := exactSpace(2 + c.Intn(9))
	g := c.RandCfg(s.nv)
	m := c.NewMachine(g, s)
	b := m.b
	for k := range m.weights {
		m.weights[k] = 2
	}
	m.weights[kReplace] = 0 // may leave an error
	m.seedPool(4)
	for i := 0; i < 40; i++ {
		for k := c.Intn(8); k >= 0; k-- {
			m.Do()
		}
		if c.Chance(10) {
			m.GC()
		}
		before := c.Stats(b)
		table := c.DumpAll(b)
		x, y := m.operand(), m.operand()
		what := ""
		switch q := c.Intn(13); q {
		case 0:
			what = "Satcount"
			b.Satcount(x)
		case 1:
			what = "Allsat"
			b.Allsat(func([]int) error { return nil }, x)
		case 2:
			what = "an Allsat that is stopped"
			b.Allsat(func([]int) error { return errors.New("stop") }, x)
		case 3:
			what = "Allnodes"
			b.Allnodes(func(int, int, int, int) error { return nil }, x, y)
		case 4:
			what = "an Allnodes that is stopped"
			n := c.Intn(3)
			b.Allnodes(func(int, int, int, int) error {
				if n--; n < 0 {
					return errors.New("stop")
				}
				return nil
			}, x, y)
		case 5:
			what = "Print"
			b.Print(io.Discard, x, y)
		case 6:
			what = "Dot"
			b.Dot(io.Discard, x, y)
		case 7:
			what = "Print and Dot of the table"
			b.Print(io.Discard)
			b.Dot(io.Discard)
		case 8:
			what = "Label, Low and High"
			if *x > 1 {
				b.Label(x)
			}
			b.Low(x)
			b.High(x)
		case 9:
			what = "Equal"
			b.Equal(x, y)
			b.Equal(y, x)
		case 10:
			what = "Stats, Error, Errored and Varnum"
			b.BDD.Stats()
			b.Error()
			b.Errored()
			b.Varnum()
		case 11:
			what = "True, False, From, Ithvar and NIthvar"
			b.True()
			b.False()
			b.From(true)
			b.Ithvar(c.Intn(s.nv))
			b.NIthvar(c.Intn(s.nv))
		case 12:
			what = "Scanset and NewReplacer"
			b.Scanset(b.Ithvar(c.Intn(s.nv)))
			b.NewReplacer([]int{0}, []int{1})
		}
		c.Step("%s", what)
		after := c.Stats(b)
		if after.Used != before.Used || after.Free != before.Free || after.Alloc != before.Alloc || after.Produced != before.Produced || after.GC != before.GC {
			c.Failf("%s changed the table: %s / %s", what, before.raw, after.raw)
		}
		now := c.DumpAll(b)
		if len(now.recs()) != len(table.recs()) || !reflect.DeepEqual(now.recs(), table.recs()) {
			c.Failf("%s changed the nodes of the table", what)
		}
		runtime.KeepAlive(x)
		runtime.KeepAlive(y)
		c.Eval(mix(hashString(what), mix(uint64(before.Used), uint64(before.Produced))))
	}
}

// recs gives the nodes of a table.
func (d *Dump) recs() map[int][3]int {
	r := map[int][3]int{}
	for _, n := range d.nodes {
		r[n.id] = [3]int{n.level, n.low, n.high}
	}
	return r
}

// ---------------------------------------------------------------------------
// harm

var errDisk = errors.New("no space left on device")

// badWriter fails, or panics, after some bytes.
type badWriter struct {
	got   bytes.Buffer
	left  int
	how   int // 0: partial write and error for ever, 1: error once, 2: panic, 3: Goexit
	fired bool
	use   func()
}

func (w *badWriter) Write(p []byte) (int, error) {
	if w.use != nil {
		w.use()
	}
	if len(p) <= w.left || w.how == 1 && w.fired {
		w.left -= len(p)
		return w.got.Write(p)
	}
	w.fired = true
	n := max(0, w.left)
	w.left = 0
	switch w.how {
	case 2:
		panic(errDisk)
	case 3:
		runtime.Goexit()
	}
	w.got.Write(p[:n])
	return n, errDisk
}

// survive runs f, that may panic or end its goroutine.
func survive(f func()) (r interface{}) {
	done := make(chan interface{})
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	return <-done
}

func harmed(c *Ctx) {
	s := exactSpace(3 + c.Intn(8))
	g := c.RandCfg(s.nv)
	m := c.NewMachine(g, s)
	b := m.b
	for k := range m.weights {
		m.weights[k] = 3
		m.check[k] = true
	}
	m.weights[kReplace] = 0 // may leave an error
	m.seedPool(5)
	inner := func() {
		for k := c.Intn(3); k > 0; k-- {
			m.Do()
		}
	}
	for i := 0; i < 25; i++ {
		for k := c.Intn(6); k >= 0; k-- {
			m.Do()
		}
		roots := []rudd.Node{}
		if !c.Chance(15) {
			for k := 1 + c.Intn(3); len(roots) < k; {
				roots = append(roots, m.operand())
			}
		}
		use := len(roots) > 0 && c.Chance(30)
		what := ""
		switch q := c.Intn(6); q {
		case 0, 1, 2:
			var full bytes.Buffer
			dot := q > 0
			if dot {
				b.Dot(&full, roots...)
			} else {
				b.Print(&full, roots...)
			}
			w := &badWriter{left: c.Intn(full.Len() + 1), how: c.Pick(0, 0, 1, 2, 3)}
			if c.Chance(20) {
				w.left = c.Intn(60)
			}
			what = fmt.Sprintf("Print of %d roots", len(roots))
			if dot {
				what = fmt.Sprintf("Dot of %d roots", len(roots))
			}
			what += fmt.Sprintf(" in a writer that %s after %d bytes", []string{"fails", "fails once", "panics", "ends the goroutine"}[w.how], w.left)
			if use && dot {
				w.use = inner
			}
			c.Step("%s", what)
			var err error
			p := survive(func() {
				if dot {
					err = b.Dot(w, roots...)
				} else {
					b.Print(w, roots...)
				}
			})
			if v, bad := p.(violation); bad {
				panic(v)
			}
			if p != nil && w.how != 2 {
				c.Failf("%s panics: %v", what, p)
			}
			if w.how != 1 && !bytes.HasPrefix(full.Bytes(), w.got.Bytes()) {
				c.Failf("%s wrote something else than the beginning of the text", what)
			}
			if dot && w.fired && w.how < 2 && err == nil {
				c.Failf("%s reports no error", what)
			}
			if !w.fired && (err != nil || !bytes.Equal(w.got.Bytes(), full.Bytes())) {
				c.Failf("%s, which is enough, did not write the text", what)
			}
			if w.fired {
				c.Count("writers that failed", 1)
			}
		default:
			left := c.Intn(12)
			how := c.Pick(0, 1, 1, 2)
			what = fmt.Sprintf("%s of %d roots with a callback that %s after %d calls", []string{"Allsat", "Allnodes", "Allnodes"}[q-3], len(roots), []string{"fails", "panics", "ends its goroutine"}[how], left)
			c.Step("%s", what)
			fired := false
			f := func() error {
				if use {
					inner()
				}
				left--
				if left >= 0 {
					return nil
				}
				fired = true
				switch how {
				case 1:
					panic(errDisk)
				case 2:
					runtime.Goexit()
				}
				return errDisk
			}
			if q == 3 && len(roots) == 0 {
				roots = append(roots, m.operand())
			}
			var err error
			p := survive(func() {
				if q == 3 {
					err = b.Allsat(func([]int) error { return f() }, roots[0])
				} else {
					err = b.Allnodes(func(int, int, int, int) error { return f() }, roots...)
				}
			})
			if v, bad := p.(violation); bad {
				panic(v)
			}
			if p != nil && p != error(errDisk) || p != nil && how != 1 {
				c.Failf("%s: %v", what, p)
			}
			if fired && how == 0 && err != error(errDisk) {
				c.Failf("%s returns %v", what, err)
			}
			if fired {
				c.Count("callbacks that failed", 1)
			}
		}
		runtime.KeepAlive(roots)
		if b.Errored() && !m.nilOK {
			c.Failf("after %s, there is an error: %s", what, b.Error())
		}
		if c.Chance(20) {
			m.GC()
		}
		// everything still works
		if c.Chance(40) {
			d := c.DumpAll(b)
			d.WellFormed()
			for j, h := range m.pool {
				if got := evalAt(d, s, s.vars, h.n); !eqLanes(got, h.fn) {
					c.Failf("after %s, held node %d (#%d) changed its meaning", what, *h.n, j)
				}
			}
		}
		c.Eval(mix(hashString(what), uint64(b.Varnum())))
	}
	for i := 0; i < 20; i++ {
		m.Do()
	}
}
