package main

// C11: the same calls give the same results with every configuration and in
// every build. C15: and when several BDDs are used at the same time.

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/dalzilio/rudd"
)

func init() {
	register("C11", Prop{quick: 320, thorough: 4000, run: runC11})
	register("C15", Prop{quick: 120, thorough: 1500, run: runC15})
}

// step11 is a call of a script that does not depend on the implementation.
type step11 struct {
	kind    int
	a, b, c int // operands: results of former steps
	op      int
	set     []int
	pol     []bool
	old, nw []int
	tt      uint64
	collect bool
}

var kinds11 = []string{"Not", "Apply", "Ite", "Exist", "AppEx", "Replace", "Makeset", "Makecube", "Low", "High", "kernel", "Satcount", "Allsat", "Allnodes", "Print", "bad", "And", "Or", "Scanset", "Label", "Equal", "Dot"}

func (s step11) String() string {
	return fmt.Sprintf("%s(#%d, #%d, #%d, %s, %v, %v->%v, %x)", kinds11[s.kind], s.a, s.b, s.c, ropNames[s.op], s.set, s.old, s.nw, s.tt)
}

const window11 = 14

func script11(r *rand.Rand, nv, n int) []step11 {
	res := []step11{}
	weights := []int{6, 24, 8, 6, 10, 10, 4, 4, 3, 3, 16, 6, 4, 4, 2, 1, 4, 4, 2, 2, 2, 1}
	tot := 0
	for _, w := range weights {
		tot += w
	}
	for i := 0; i < n; i++ {
		s := step11{op: r.Intn(10), tt: r.Uint64(), collect: r.Intn(25) == 0}
		x := r.Intn(tot)
		for x >= weights[s.kind] {
			x -= weights[s.kind]
			s.kind++
		}
		pick := func() int {
			if r.Intn(6) == 0 {
				return r.Intn(2*nv + 2)
			}
			return 2*nv + 2 + max(-2*nv-2, i-1-r.Intn(window11))
		}
		s.a, s.b, s.c = pick(), pick(), pick()
		for v := 0; v < nv; v++ {
			pct := 33
			switch s.kind {
			case 3, 4:
				pct = 20
			case 10:
				pct = 60
			}
			if r.Intn(100) < pct && (s.kind != 10 || len(s.set) < 5) {
				s.set = append(s.set, v)
				s.pol = append(s.pol, r.Intn(2) == 0)
			}
		}
		if s.kind == 4 {
			s.op = r.Intn(4)
		}
		if s.kind == 5 {
			k := 1 + r.Intn(max(1, nv/3))
			p := r.Perm(nv)
			s.old, s.nw = p[:k], p[k:2*k]
			if r.Intn(3) == 0 { // neighbours, as with interleaved variables
				s.old, s.nw = nil, nil
				for v := 0; v+1 < nv; v += 2 {
					s.old, s.nw = append(s.old, v), append(s.nw, v+1)
				}
			}
		}
		res = append(res, s)
	}
	return res
}

// exec11 runs a script and describes each outcome, in terms of functions only.
func exec11(b *Bdd, sp *Space, script []step11, c *Ctx, gc bool, tick func()) []string {
	nv := sp.nv
	ns := []rudd.Node{b.True(), b.False()}
	for v := 0; v < nv; v++ {
		ns = append(ns, b.Ithvar(v), b.NIthvar(v))
	}
	reps := map[string]rudd.Replacer{}
	out := []string{}
	for i, s := range script {
		c.tick()
		if tick != nil {
			tick()
		}
		if k := 2*nv + 2 + i - window11 - 1; k >= 2*nv+2 {
			ns[k] = nil // dropped
		}
		if gc && s.collect {
			Collect()
		}
		get := func(k int) rudd.Node {
			if k >= len(ns) {
				k = len(ns) - 1
			}
			if s.tt>>60 != 0 { // prefer non-constant operands
				for j := 0; j < window11 && (ns[k] == nil || *ns[k] < 2); j++ {
					k = (k + len(ns) - 1) % len(ns)
				}
			}
			if ns[k] == nil {
				return b.True()
			}
			return ns[k]
		}
		x, y, z := get(s.a), get(s.b), get(s.c)
		var r rudd.Node
		isn := true
		text := ""
		switch s.kind {
		case 0:
			r = b.Not(x)
		case 1:
			r = b.Apply(x, y, rops[s.op])
		case 2:
			r = b.Ite(x, y, z)
		case 3:
			r = b.Exist(x, b.Makeset(s.set))
		case 4:
			r = b.AppEx(x, y, rops[s.op], b.Makeset(s.set))
		case 5:
			k := fmt.Sprint(s.old, s.nw)
			rep := reps[k]
			if rep == nil {
				var err error
				if rep, err = b.NewReplacer(s.old, s.nw); err != nil {
					text = "replacer error"
					isn = false
					break
				}
				reps[k] = rep
			}
			r = b.Replace(x, rep)
		case 6:
			r = b.Makeset(s.set)
		case 7:
			if len(s.set) == 0 {
				s.pol = make([]bool, nv)
			}
			r = b.Makecube(s.set, s.pol)
		case 8:
			r = b.Low(x)
		case 9:
			r = b.High(x)
		case 10:
			r = b.Retnode(BuildTT(b, s.set, s.tt))
		case 11:
			isn = false
			text = b.Satcount(x).String()
		case 12:
			isn = false
			l := []string{}
			stop := int(s.tt % 40)
			err := b.Allsat(func(p []int) error {
				l = append(l, fmt.Sprint(p))
				return nil
			}, x)
			sort.Strings(l)
			n := 0
			err2 := b.Allsat(func(p []int) error {
				n++
				if n > stop {
					return errCallback
				}
				return nil
			}, x)
			text = fmt.Sprint(len(l), " ", hashString(strings.Join(l, ";")), " ", err == nil, " ", n, " ", err2 == nil)
		case 13:
			isn = false
			lv := make([]int, nv)
			err := b.Allnodes(func(id, level, low, high int) error {
				if id > 1 {
					lv[level]++
				}
				return nil
			}, x, y)
			text = fmt.Sprint(lv, " ", err == nil)
		case 14, 21:
			isn = false
			var w bytes.Buffer
			if s.kind == 14 {
				b.Print(&w, x, y)
			} else if err := b.Dot(&w, x, y); err != nil {
				w.WriteString("error")
			}
			if b.Errored() {
				text = "error"
			} else {
				text = fmt.Sprint(strings.Count(w.String(), "\n"))
			}
		case 15:
			switch s.tt % 7 {
			case 0:
				r = b.Not(nil)
			case 1:
				r = b.Ithvar(nv)
			case 2:
				r = b.Apply(x, fab(-1), rops[s.op])
			case 3:
				r = b.Makecube([]int{0}, nil)
			case 4:
				r = b.AppEx(x, y, rops[4+s.op%6], z)
			case 5:
				r = b.Apply(x, y, rudd.Operator(10))
			case 6:
				_, err := b.NewReplacer([]int{0}, []int{0, 1})
				text, isn = fmt.Sprint(err == nil), false
			}
		case 16:
			r = b.And(x, y, z)
		case 17:
			r = b.Or(x, y, z)
		case 18:
			isn = false
			text = fmt.Sprint(b.Scanset(b.Makeset(s.set)))
		case 19:
			isn = false
			if *x > 1 {
				text = fmt.Sprint(b.Label(x))
			}
		case 20:
			isn = false
			text = fmt.Sprint(b.Equal(x, y), b.Equal(x, z), b.Equal(y, x))
		}
		if isn {
			if r == nil {
				text = "nil"
			} else {
				d := &Dump{c: c, nv: nv, pos: map[int]int{}}
				if err := b.Allnodes(d.add, r); err != nil {
					c.Failf("Allnodes returned %v", err)
				}
				f := d.Eval(sp, sp.vars, *r)[0]
				text = fmt.Sprintf("%x with %d nodes", hashLanes(1, f), len(d.nodes))
				if sp.w == 1 {
					text = fmt.Sprintf("%x with %d nodes", f[0], len(d.nodes))
				}
			}
		}
		ns = append(ns, r)
		out = append(out, fmt.Sprintf("%d %s: %s, errored %v", i, s, text, b.Errored()))
	}
	runtime.KeepAlive(ns)
	return out
}

func hashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func runC11(c *Ctx) {
	all := []int{stNot, stApply, stIte, stExist, stAppEx, stReplace}
	if c.idx%40 == 9 { // whatever the configuration
		ageing(c, ageDistances(c, false), all...)
		return
	}
	if c.idx%40 == 10 {
		reborn(c, 120, all...)
		return
	}
	nv := 3 + c.Intn(7)
	if c.Chance(15) {
		nv = 14 + c.Intn(30)
	}
	sp := sampledSpace(c.Rand, nv, 2)
	if nv < 11 {
		sp = exactSpace(nv)
	}
	script := script11(c.Rand, nv, 120)
	if nv > 10 { // no enumerations of all the paths of large functions
		for i := range script {
			if script[i].kind == 12 {
				script[i].kind = 11
			}
		}
	}
	cfgs := []Cfg{defCfg(nv)}
	for i := 0; i < 5; i++ {
		cfgs = append(cfgs, c.RandCfg(nv))
	}
	cfgs[1].Node, cfgs[1].MaxInc = 0, 1 // constant resizing
	if nv > 10 {
		cfgs[1].MaxInc = 20
	}
	cfgs[2].Node, cfgs[2].Cache, cfgs[2].Ratio = 20000, 10000, 0 // no collection
	var ref []string
	for k, g := range cfgs {
		b := c.New(g)
		var st Stats
		c.ObserveGC(b, &st)
		out := exec11(b, sp, script, c, k > 1, nil)
		c.ObserveGC(b, &st)
		if k == 0 {
			ref = out
			continue
		}
		for i := range out {
			if out[i] != ref[i] {
				c.trace = append([]string{fmt.Sprint(cfgs[0]), fmt.Sprint(g)}, ref[max(0, i-20):i]...)
				c.Failf("the same calls give different results: with %s\n  %s\nwith %s\n  %s", cfgs[0], ref[i], g, out[i])
			}
		}
		c.Count("outcomes compared between configurations", int64(len(out)))
	}
	for i := range ref {
		c.Eval(hashString(fmt.Sprint(nv, " ", ref[i])))
	}
	c.out.Digests[fmt.Sprintf("case %d", c.no)] = strings.Join(ref, "\n")
	c.Sample("%d calls on %d variables, %d configurations; e.g. %s", len(script), nv, len(cfgs), ref[len(ref)/2])
}

// ---------------------------------------------------------------------------

// runC15: several goroutines, each with its own BDDs, against the same scripts
// run alone.
func runC15(c *Ctx) {
	if c.idx%3 == 2 {
		interleaved15(c)
		return
	}
	n := 2 + c.Intn(5)
	type work struct {
		g      Cfg
		sp     *Space
		script []step11
		ref    []string
		out    []string
		res    *Result
		fail   string
	}
	ws := make([]*work, n)
	for i := range ws {
		nv := 3 + c.Intn(5)
		ws[i] = &work{g: c.RandCfg(nv), sp: exactSpace(nv), script: script11(c.Rand, nv, 80)}
		if i > 0 && c.Chance(40) { // the same computation twice
			ws[i].g, ws[i].sp, ws[i].script = ws[0].g, ws[0].sp, ws[0].script
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	c.Step("%d goroutines, each with its own BDD", n)
	stop := make(chan struct{})
	gcdone := make(chan struct{})
	go func() {
		defer close(gcdone)
		for {
			select {
			case <-stop:
				return
			default:
				runtime.GC()
			}
		}
	}()
	for _, w := range ws {
		wg.Add(1)
		w.res = &Result{Distinct: map[uint64]struct{}{}, Counters: map[string]int64{}}
		cc := &Ctx{Rand: rand.New(rand.NewSource(c.Int63())), prop: c.prop, tier: c.tier, idx: c.idx, out: w.res, quiet: 1}
		go func(w *work, cc *Ctx) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if v, ok := r.(violation); ok {
						w.fail = v.msg
					} else {
						buf := make([]byte, 4000)
						w.fail = fmt.Sprintf("panic: %v\n%s", r, buf[:runtime.Stack(buf, false)])
					}
				}
			}()
			<-start
			b := cc.New(w.g)
			w.out = exec11(b, w.sp, w.script, cc, false, func() {
				if cc.Chance(10) {
					runtime.Gosched()
				}
			})
			b.Stats()
		}(w, cc)
	}
	close(start)
	wg.Wait()
	close(stop)
	<-gcdone
	c.Max("BDDs used at the same time", int64(n))
	for i, w := range ws {
		if w.fail != "" {
			c.Failf("goroutine %d, which is the only one that uses its BDD: %s", i, w.fail)
		}
		// the reference comes after, so that nothing is computed in advance
		w.ref = exec11(c.New(w.g), w.sp, w.script, c, false, nil)
		c.compare15(w.g, w.ref, w.out, "when other BDDs are used by other goroutines")
	}
	c.Count("concurrent histories", int64(n))
	c.Sample("%d goroutines of %d calls each; e.g. %s", n, len(ws[0].script), ws[0].ref[10])
}

func (c *Ctx) compare15(g Cfg, ref, out []string, why string) {
	for k := range ref {
		c.Eval(hashString(ref[k]))
		if ref[k] != out[k] {
			c.trace = append([]string{g.String()}, ref[max(0, k-20):k]...)
			c.Failf("a call gives another result %s: alone\n  %s\ntogether\n  %s", why, ref[k], out[k])
		}
	}
	c.Count("outcomes compared with the ones obtained alone", int64(len(ref)))
}

// interleaved15: the same, with the calls interleaved in one goroutine at a
// time, so that every switch happens between two chosen calls.
func interleaved15(c *Ctx) {
	n := 2 + c.Intn(3)
	nv := 3 + c.Intn(5)
	sp := exactSpace(nv)
	var refs, outs [][]string
	var gs []Cfg
	var scripts [][]step11
	for i := 0; i < n; i++ {
		gs = append(gs, c.RandCfg(nv))
		scripts = append(scripts, script11(c.Rand, nv, 80))
		refs = append(refs, exec11(c.New(gs[i]), sp, scripts[i], c, false, nil))
		outs = append(outs, nil)
	}
	// one goroutine per BDD, only one of them runs at a time
	turn := make([]chan struct{}, n)
	back := make(chan struct{})
	fails := make([]string, n)
	done := make([]bool, n)
	for i := range turn {
		turn[i] = make(chan struct{})
		cc := &Ctx{Rand: rand.New(rand.NewSource(c.Int63())), prop: c.prop, tier: c.tier, idx: c.idx,
			out: &Result{Distinct: map[uint64]struct{}{}, Counters: map[string]int64{}}}
		go func(i int) {
			defer func() {
				if r := recover(); r != nil {
					if v, ok := r.(violation); ok {
						fails[i] = v.msg
					} else {
						buf := make([]byte, 4000)
						fails[i] = fmt.Sprintf("panic: %v\n%s", r, buf[:runtime.Stack(buf, false)])
					}
				}
				done[i] = true
				back <- struct{}{}
			}()
			<-turn[i]
			b := cc.New(gs[i])
			outs[i] = exec11(b, sp, scripts[i], cc, false, func() {
				back <- struct{}{}
				<-turn[i]
			})
		}(i)
	}
	c.Step("%d BDDs used alternately", n)
	switches := 0
	for {
		live := []int{}
		for i := range done {
			if !done[i] {
				live = append(live, i)
			}
		}
		if len(live) == 0 {
			break
		}
		turn[live[c.Intn(len(live))]] <- struct{}{}
		<-back
		switches++
	}
	c.Count("switches between BDDs", int64(switches))
	for i := range refs {
		if fails[i] != "" {
			c.Failf("BDD %d of %d used alternately: %s", i, n, fails[i])
		}
		c.compare15(gs[i], refs[i], outs[i], "when other BDDs are used in between")
	}
}
