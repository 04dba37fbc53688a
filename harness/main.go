package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"log"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is the monitor of one property: a number of cases for each tier.
type Prop struct {
	quick, thorough int
	run             func(c *Ctx)
	cpu             int // CPU seconds one API call may take before it is reported as not terminating
	rssMB           int // resident memory limit
	minDistinct     int
}

var props = map[string]*Prop{}

func register(id string, p Prop) {
	if p.cpu == 0 {
		p.cpu = 150
	}
	if p.rssMB == 0 {
		p.rssMB = 3500
	}
	props[id] = &p
}

func caseSeed(seed int64, prop string, idx int) int64 {
	h := mix(uint64(seed), 0x5151)
	for _, ch := range prop {
		h = mix(h, uint64(ch))
	}
	return int64(mix(h, uint64(idx)) >> 1)
}

// theBuild names the build (tags, race detector) this binary was made with.
var theBuild string

var curCase atomic.Int64

// runCase runs one case; ok is false if it ended with a violation.
func runCase(p *Prop, id, tier string, seed int64, idx int, out *Result) (ok bool) {
	curCase.Store(int64(idx))
	progress.Add(1)
	c := &Ctx{Rand: rand.New(rand.NewSource(caseSeed(seed, id, idx))), prop: id, tier: tier, idx: idx, no: idx, out: out}
	defer func() {
		r := recover()
		switch v := r.(type) {
		case nil:
			ok = true
		case violation:
			out.Violations = append(out.Violations, Vio{idx, v.msg, c.lastSteps()})
		case inconclusive:
			out.Inconcl = append(out.Inconcl, fmt.Sprintf("case %d: %s", idx, v.msg))
			ok = true
		default:
			st := string(debug.Stack())
			if !strings.Contains(st, "github.com/dalzilio/rudd.") {
				fmt.Fprintln(os.Stderr, "harness bug:", r, st)
				os.Exit(4)
			}
			out.Violations = append(out.Violations, Vio{idx, fmt.Sprintf("panic on valid use of the API: %v", r), append(c.lastSteps(), shorten(st))})
		}
	}()
	c.spread = spreadCase(id, idx)
	p.run(c)
	return true
}

func shorten(st string) string {
	if len(st) > 3000 {
		st = st[:3000]
	}
	return st
}

func cpuSeconds() float64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

func rssMB() int {
	data, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, b int
	fmt.Sscan(string(data), &a, &b)
	return b * os.Getpagesize() / (1 << 20)
}

// watchdog reports an API call that does not come back: one that burns CPU
// time far beyond what any call of the workload needs, or one that is blocked.
func watchdog(p *Prop, finish func(v *Vio, inconcl string)) {
	last, cpu0, t0 := progress.Load(), cpuSeconds(), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		if m := rssMB(); m > p.rssMB {
			finish(&Vio{int(curCase.Load()), fmt.Sprintf("memory grew beyond %d MB on a workload that needs a small fraction of it", p.rssMB), []string{stacks()}}, "")
		}
		if n := progress.Load(); n != last {
			last, cpu0, t0 = n, cpuSeconds(), time.Now()
			continue
		}
		used := cpuSeconds() - cpu0
		if used > float64(p.cpu) {
			finish(&Vio{int(curCase.Load()), fmt.Sprintf("a call did not complete within %d seconds of CPU time", p.cpu), []string{stacks()}}, "")
		}
		if time.Since(t0) > 120*time.Second && used < 5 {
			st := stacks()
			if strings.Contains(st, "github.com/dalzilio/rudd.") && (strings.Contains(st, "sync.Mutex") || strings.Contains(st, "sync.RWMutex") || strings.Contains(st, "sync.(*")) {
				finish(&Vio{int(curCase.Load()), "deadlock: a call is blocked on a lock of the BDD", []string{st}}, "")
			}
			finish(nil, "no progress and no CPU time used for 120 s")
		}
	}
}

func stacks() string {
	buf := make([]byte, 1<<16)
	n := runtime.Stack(buf, true)
	s := string(buf[:n])
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	shard := flag.String("shard", "0/1", "shard i/n of the cases")
	one := flag.Int("case", -1, "run only this case")
	outf := flag.String("out", "", "result file")
	scale := flag.Int("scale", 100, "percentage of the cases to run")
	deadline := flag.Int("deadline", 0, "do not start a case after this number of seconds")
	buildName := flag.String("build", "", "name of the build")
	verbose := flag.Bool("v", false, "print the last steps")
	flag.Parse()
	log.SetOutput(os.Stderr)
	if os.Getenv("RUDD_LOG") == "" {
		log.SetOutput(devnull{})
	}
	p, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	n := p.quick
	if *tier == "thorough" {
		n = p.thorough
	}
	n = n * *scale / 100
	var si, sn int
	fmt.Sscanf(*shard, "%d/%d", &si, &sn)
	out := &Result{Distinct: map[uint64]struct{}{}, Counters: map[string]int64{}, Digests: map[string]string{}}
	write := func() {
		if *outf == "" {
			return
		}
		j, _ := json.Marshal(map[string]interface{}{"evaluations": out.Evaluations, "counters": out.Counters, "samples": out.Samples,
			"digests": out.Digests, "violations": out.Violations, "inconclusive": out.Inconcl, "distinct": len(out.Distinct)})
		os.WriteFile(*outf, j, 0o644)
		buf := make([]byte, 0, 8*len(out.Distinct))
		for h := range out.Distinct {
			buf = binary.LittleEndian.AppendUint64(buf, h)
		}
		os.WriteFile(*outf+".hashes", buf, 0o644)
	}
	cf := ""
	if *outf != "" {
		cf = *outf + ".case"
	}
	go watchdog(p, func(v *Vio, inc string) {
		if v != nil {
			out.Violations = append(out.Violations, *v)
		} else {
			out.Inconcl = append(out.Inconcl, inc)
		}
		write()
		if *verbose {
			fmt.Println(v, inc)
		}
		os.Exit(0)
	})
	theBuild = *buildName
	done := 0
	began := time.Now()
	for idx := si; idx < n; idx += sn {
		if *one >= 0 && idx != *one {
			continue
		}
		if *deadline > 0 && time.Since(began) > time.Duration(*deadline)*time.Second*85/100 {
			out.Counters["cases not run for lack of time"] = 1
			break
		}
		if cf != "" {
			os.WriteFile(cf, []byte(fmt.Sprint(idx)), 0o644)
		}
		t0 := time.Now()
		good := runCase(p, *prop, *tier, *seed, idx, out)
		if d := time.Since(t0); *verbose && d > time.Second {
			fmt.Println("slow case", idx, d)
		}
		done++
		if !good {
			break
		}
		if len(out.Inconcl) > 20 {
			break
		}
	}
	out.Counters["cases run"] += int64(done)
	write()
	if *verbose {
		for _, v := range out.Violations {
			fmt.Println("VIOLATION case", v.Case, v.Msg)
			for _, t := range v.Trace {
				fmt.Println("   ", t)
			}
		}
		fmt.Println("inconclusive:", out.Inconcl)
		fmt.Println("evaluations", out.Evaluations, "distinct", len(out.Distinct))
		for k, v := range out.Counters {
			fmt.Println("  ", k, v)
		}
		for _, s := range out.Samples {
			fmt.Println("  sample:", s)
		}
	}
}

type devnull struct{}

func (devnull) Write(p []byte) (int, error) { return len(p), nil }
