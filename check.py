#!/usr/bin/env python3
"""Runs the monitor of one property against the current tree of /repo.

  check.py C01 [quick|thorough]     decide a property
  check.py C01 --replay FILE        run again the case of a replay file
  check.py --setup                  check that everything builds offline

RUDD_REPO points to another tree than /repo (development only).
"""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RUDD_REPO", "/repo")
OUT = os.environ.get("RUDD_OUT", HERE)       # where evidence and replays go
HARNESS = os.path.join(HERE, "harness")
JOBS = 8
MAXIMUM = 800                                # seconds, everything included

# build name -> (go tags, race detector)
BUILDS = {
    "hudd": ("", False), "buddy": ("buddy", False),
    "hudd-debug": ("debug", False), "buddy-debug": ("buddy,debug", False),
    "hudd-race": ("", True), "buddy-race": ("buddy", True),
    "hudd-debug-race": ("debug", True), "buddy-debug-race": ("buddy,debug", True),
    "hudd-386": ("", False), "buddy-386": ("buddy", False),
    "hudd-debug-386": ("debug", False), "buddy-debug-386": ("buddy,debug", False),
}
BOTH = ["hudd", "buddy"]
ALL4 = ["hudd", "buddy", "hudd-debug", "buddy-debug"]
M32 = ["hudd-386", "buddy-386", "hudd-debug-386", "buddy-debug-386"]
RACES = ["hudd-race", "buddy-race", "hudd-debug-race", "buddy-debug-race"]

COMMON_TRUST = [
    "only the executions that were run are judged (exploration, not proof)",
    "the function of a node is read through Allnodes and evaluated by the monitor on bit lanes; C06, C07 and C16 cross-check that reading",
]

# property -> builds and number of shards, plus what the evidence says
P = {}


def prop(id, builds, rule, shards=8, assumptions=(), par=JOBS):
    P[id] = {"builds": builds, "rule": rule, "shards": shards, "assumptions": list(assumptions) + COMMON_TRUST, "par": par}


prop("C01", BOTH, "one evaluation = one result of Not/Apply/And/Or/Imp/Equiv/Ite, inside a random history, compared on all assignments (or >=64 sampled ones) with the documented table applied to the operands as read before the call; distinct and non-trivial = distinct (operator, operand functions) with a non-constant operand or result")
prop("C02", BOTH, "one evaluation = one comparison of a held node with every other node of the same function (ids and Equal), or one structural check of a whole table; distinct = distinct (function, table state)")
prop("C03", BOTH, "one evaluation = one result of Exist/AppEx/AndExist compared with the disjunction of the operand over all completions of the quantified variables; distinct and non-trivial = distinct (operator, variable set, operand functions), not all operands constant")
prop("C04", BOTH, "one evaluation = one result of Replace compared with simultaneous substitution, or one verdict on NewReplacer arguments; distinct = distinct (mapping, operand function)")
prop("C05", BOTH, "one evaluation = one Satcount compared with exhaustive lane counting or an independent big-integer model; distinct = distinct (number of variables, function)")
prop("C06", BOTH, "one evaluation = one Allsat enumeration checked for shape, disjointness, coverage and error propagation; distinct = distinct (function, callback behaviour)")
prop("C07", BOTH, "one evaluation = one Allnodes traversal compared with a breadth-first search by Label/Low/High; distinct = distinct (set of diagrams, stopping point)")
prop("C08", BOTH, "one evaluation = one text of Print or Dot parsed and rebuilt; distinct = distinct diagrams")
prop("C09", BOTH, "one evaluation = one verification of all held nodes against the functions recorded when they were obtained; distinct = distinct (set of held nodes and functions)")
prop("C10", BOTH, "one evaluation = one history of rounds of building and dropping (or of quantifications with the Go collector off) judged for table growth and for leftovers after the last collection; distinct = distinct histories",
     assumptions=["a node that had at least 1023 simultaneous references may stay active for ever (saturated counter, by design)"])
prop("C11", ALL4, "one evaluation = one step of a random sequence of API calls whose observable outcome (function, canonical shape, count, enumeration, error) is compared between several configurations, and between the four builds; distinct = distinct (call, function)")
prop("C12", ALL4, "one evaluation = one invalid request (or one operation after it) judged against the documented report; distinct = distinct (call, kind of invalid argument, state)")
prop("C13", ALL4, "one evaluation = one operation under a limit on the table, judged against a model of what fits, or one verification of all that is held after a failed allocation; distinct = distinct (operation, limit, number of nodes)")
prop("C14", RACES, "one evaluation = one verification of held nodes, or of the conservation of references, after finalizers ran concurrently with operations; distinct = distinct (workload, state); the race detector watches all of it", shards=4, par=6,
     assumptions=["the race detector only reports conflicts on executions that happen; the workloads keep the finalizer goroutine busy during all of the operations"])
prop("C15", ["hudd-race", "buddy-race", "hudd-debug-race"], "one evaluation = one observable outcome of a BDD used next to others (interleaved in one goroutine, or concurrently), compared with the outcome when it is used alone; distinct = distinct (call, function)")
prop("C16", BOTH, "one evaluation = one result of a constructor or accessor compared with its meaning; distinct = distinct (call, arguments or function)")
prop("C17", ALL4, "one evaluation = one Makenode judged against the table of nodes known to exist, one verification of the stack, or one user-written operation compared with its truth table; distinct = distinct (arguments) or (operand functions)")
prop("C18", ALL4, "one evaluation = one set of statistics judged against Allnodes and the previous statistics; distinct = distinct (used, free, produced, collections)")
prop("C19", ALL4, "one evaluation = one collection or resize judged against the options; distinct = distinct (table size, free nodes after the collection, options)")
prop("C20", BOTH, "one evaluation = one iteration whose callback uses the BDD; distinct = distinct (diagram iterated, depth)")

prop("C21", ALL4, "one evaluation = one operation whose number of recursive steps (debug builds: misses of the operation caches and accesses to the unique table; other builds: completion on diagrams with 2^40 to 2^300 paths) is judged against the number of tuples of nodes computed by the monitor; distinct = distinct (operation, bound, case)")
prop("C22", BOTH, "one evaluation = one node of a large table made and found again, or one result over variables scattered among up to 2097151; distinct = distinct (functions, number of variables), the nodes of large tables are not counted", shards=8, par=6)
prop("C23", BOTH, "one evaluation = one set of states (image, new states, states reached) compared with the explicit one; distinct and non-trivial = distinct non-empty sets of states")

prop("C24", ["hudd"] + M32, "one evaluation = one evaluation of the monitors of the other properties (C01 to C13, C16 to C23) in programs built for 32-bit machines, or one outcome of a call compared with the outcome in a 64-bit program; distinct = as for these properties",
     assumptions=["32-bit x86 stands for the other 32-bit machines; the programs run natively on the 64-bit kernel"])
prop("C25", BOTH, "one evaluation = some dropped BDDs reclaimed, some thousands of calls (of 1 to 6 kinds) that left no memory behind, or the memory in use during one iteration; distinct = distinct workloads",
     assumptions=["the Go collector reclaims what is unreachable after a few collections"])

prop("C26", BOTH, "one evaluation = one workload after which the streams, the log and the settings of the process were verified, or one call after which its arguments, its former results or the table were verified, or one failing writer or callback after which the BDD was used again; distinct = distinct (kind of call, state)")

def goenv(race, m32=False):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("GO") and k not in ("GOCACHE", "GOMODCACHE", "GOPATH", "GOROOT"):
            del e[k]
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOWORK="off", GONOSUMDB="*", GOSUMDB="off", CGO_ENABLED="1" if race else "0")
    if m32:
        e["GOARCH"] = "386"
    return e


def runs32(tmp):
    """Can 32-bit programs run here?"""
    d = os.path.join(tmp, "probe")
    os.makedirs(d)
    with open(os.path.join(d, "main.go"), "w") as f:
        f.write("package main\n\nfunc main() { println(^uint(0)) }\n")
    try:
        subprocess.run(["go", "build", "-o", "probe", "main.go"], cwd=d, env=goenv(False, True), check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        r = subprocess.run([os.path.join(d, "probe")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        return r.returncode == 0 and b"4294967295" in r.stdout
    except Exception:
        return False


def build(tmp, name):
    tags, race = BUILDS[name]
    mod = os.path.join(tmp, name + ".mod")
    with open(os.path.join(HARNESS, "go.mod")) as f:
        txt = re.sub(r"(?m)^replace .*$", "replace github.com/dalzilio/rudd => " + REPO, f.read())
    with open(mod, "w") as f:
        f.write(txt)
    open(mod[:-4] + ".sum", "w").close()
    binp = os.path.join(tmp, name)
    cmd = ["go", "build", "-modfile=" + mod, "-mod=mod", "-o", binp]
    if tags:
        cmd.append("-tags=" + tags)
    if race:
        cmd.append("-race")
    cmd.append(".")
    r = subprocess.run(cmd, cwd=HARNESS, env=goenv(race, name.endswith("-386")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, r.stdout
    return binp, ""


def known_findings():
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("kind") == "finding":
                    res.append(d)
    return res


RACE_BLOCK = re.compile(r"WARNING: DATA RACE.*?={18}", re.S)


class Run:
    def __init__(self, id, tier, seed, tmp, deadline):
        self.id, self.tier, self.seed, self.tmp, self.deadline = id, tier, seed, tmp, deadline
        self.violations, self.errors = [], []
        self.known = known_findings()
        self.evaluations, self.distinct = 0, set()
        self.counters, self.samples, self.digests = {}, [], {}

    def one(self, name, binp, shard, nshards, case=None):
        tags, race = BUILDS[name]
        base = os.path.join(self.tmp, "%s.%d" % (name, shard))
        left = self.deadline - time.time()
        if left < 5 or self.decided():
            return
        cmd = [binp, "-prop", self.id, "-tier", self.tier, "-seed", str(self.seed), "-shard", "%d/%d" % (shard, nshards),
               "-out", base + ".json", "-build", name, "-deadline", str(int(left))]
        if case is not None:
            cmd += ["-case", str(case)]
        env = dict(os.environ)
        if race:
            env["GORACE"] = "halt_on_error=0 exitcode=66 history_size=3 log_path=" + base + ".race"
        env["GOTRACEBACK"] = "all"
        env.setdefault("GOMAXPROCS", "4")
        with open(base + ".err", "w") as err:
            try:
                r = subprocess.run(cmd, env=env, stdout=err, stderr=subprocess.STDOUT, timeout=left + 120)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        self.collect(name, base, rc, shard, nshards)

    def decided(self):
        """A violation that is not a known finding was seen: the rest can be skipped."""
        return any(not any(k["property"] == self.id and re.search(k["match"], v["message"]) for k in self.known) for v in self.violations)

    def collect(self, name, base, rc, shard, nshards):
        err = open(base + ".err", errors="replace").read()
        case = -1
        try:
            case = int(open(base + ".json.case").read())
        except Exception:
            pass

        def vio(case, msg, trace):
            self.violations.append({"property": self.id, "build": name, "tier": self.tier, "seed": self.seed, "case": case,
                                    "shard": "%d/%d" % (shard, nshards), "message": msg, "trace": trace})
        # race reports
        for f in sorted(os.listdir(self.tmp)):
            if f.startswith(os.path.basename(base) + ".race"):
                txt = open(os.path.join(self.tmp, f), errors="replace").read()
                blocks = RACE_BLOCK.findall(txt)
                for blk in blocks:
                    if "github.com/dalzilio/rudd." in blk:
                        vio(case, "data race reported by the race detector", blk.splitlines()[:60])
                        break
                else:
                    if blocks:
                        self.errors.append("race in the harness: " + blocks[0][:1500])
        try:
            d = json.load(open(base + ".json"))
        except Exception:
            d = None
        if d is None or rc not in (0, 66):
            if "github.com/dalzilio/rudd." in err and re.search(r"(?m)^(fatal error|panic|unexpected fault|SIGSEGV)", err) and "harness bug" not in err:
                i = re.search(r"(?m)^(fatal error|panic|unexpected fault|SIGSEGV)", err).start()
                vio(case, "crash on valid use of the API: " + err[i:i + 200].splitlines()[0], err[i:i + 4000].splitlines())
            else:
                self.errors.append("%s shard %d ended with status %s (case %d): %s" % (name, shard, rc, case, err[-1500:]))
        if d is None:
            return
        self.evaluations += d["evaluations"]
        for k, v in d["counters"].items():
            if k.startswith("max:"):
                self.counters[k] = max(self.counters.get(k, 0), v)
            else:
                self.counters[k] = self.counters.get(k, 0) + v
        for s in (d["samples"] or [])[:1 if shard else 2]:
            self.samples.append("[%s] %s" % (name, s))
        for v in d["violations"] or []:
            vio(v["Case"], v["Msg"], v["Trace"])
        for s in d["inconclusive"] or []:
            self.errors.append("%s: %s" % (name, s))
        for k, v in (d["digests"] or {}).items():
            o = self.digests.setdefault(k, {})
            o[name] = v
        try:
            b = open(base + ".json.hashes", "rb").read()
            self.distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except Exception:
            pass

    def compare(self):
        n = 0
        for k in sorted(self.digests):
            o = self.digests[k]
            n += len(o)
            ref = sorted(o)[0]
            for name in sorted(o):
                a, b = o[ref].split("\n"), o[name].split("\n")
                if a != b:
                    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                    ctx = lambda l: l[i] if i < len(l) else "(nothing)"
                    self.violations.append({"property": self.id, "build": name, "tier": self.tier, "seed": self.seed, "case": int(k.split()[-1]), "shard": "",
                                            "message": "the same calls give different results with %s and %s: %s / %s" % (ref, name, ctx(a), ctx(b)),
                                            "trace": a[max(0, i - 30):i]})
                    break
        if n:
            self.counters["digests compared between builds"] = n


def main():
    args = sys.argv[1:]
    t0 = time.time()
    if args and args[0] == "--setup":
        tmp = tempfile.mkdtemp(prefix="ruddverif.")
        try:
            for n in BUILDS:
                b, msg = build(tmp, n)
                if b is None:
                    print("build %s failed:\n%s" % (n, msg))
                    return 2
            print("setup: all harness builds succeed")
            return 0
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    id = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(args) > 1 and args[1] in ("quick", "thorough"):
        tier = args[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    if "--replay" in args:
        replay = json.load(open(args[args.index("--replay") + 1]))
        tier, seed = replay["tier"], replay["seed"]
    spec = P[id]
    tmp = tempfile.mkdtemp(prefix="ruddverif.%s." % id)
    try:
        return run(id, spec, tier, seed, replay, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(id, spec, tier, seed, replay, tmp, t0):
    names = spec["builds"]
    if replay:
        names = [replay["build"]] if id not in ("C11", "C24") else names
    r = Run(id, tier, seed, tmp, t0 + MAXIMUM - 60)
    with ThreadPoolExecutor(4) as ex:
        bins = dict(zip(names, ex.map(lambda n: build(tmp, n), names)))
    for n, (b, msg) in bins.items():
        if b is None and n.endswith("-386") and "# github.com/dalzilio/rudd\n" in msg and bins["hudd"][0]:
            r.violations.append({"property": id, "build": n, "tier": tier, "seed": seed, "case": -1, "shard": "",
                                 "message": "rudd does not build for 32-bit machines (%s)" % n, "trace": msg.splitlines()[:20]})
        elif b is None:
            print("build of the harness (%s) against %s failed:\n%s" % (n, REPO, msg))
            return 2
    tb = time.time() - t0
    jobs = []
    if id == "C24" and not r.violations and not runs32(tmp):
        r.counters["32-bit programs cannot run here, only built"] = 1
        r.evaluations = len(M32)
        names = names[:1]
    if r.violations:
        pass
    elif replay:
        for n in names:
            jobs.append((n, bins[n][0], 0, 1, replay["case"]))
    else:
        k = spec["shards"]
        for s in range(k):
            for n in names:
                jobs.append((n, bins[n][0], s, k, None))
    with ThreadPoolExecutor(spec["par"]) as ex:
        list(ex.map(lambda j: r.one(*j), jobs))
    if not r.decided():
        r.compare()
    wall = time.time() - t0
    known = r.known
    new, seen = [], {}
    for v in r.violations:
        for k in known:
            if k["property"] == id and re.search(k["match"], v["message"]):
                seen[k["id"]] = k
                break
        else:
            new.append(v)
    for k in known:
        if k["property"] == id:
            print("KNOWN-FINDING: property=%s %s" % (id, k["what"]))
    level = "exploration"
    cov = {"evaluations": r.evaluations, "distinct_nontrivial": len(r.distinct), "rule": spec["rule"],
           "samples": (r.samples or ["none"])[:12], "observed": dict(sorted(r.counters.items())), "builds": names,
           "processes": len(jobs), "build_s": round(tb, 1)}
    ev = {"property": id, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": spec["assumptions"],
          "wall_s": round(wall, 2), "violations": len(new)}
    if not replay:
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        p = os.path.join(OUT, "evidence", id + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
    print("%s %s: %d evaluations (%d distinct, non-trivial) on %s in %.1f s" % (id, tier, r.evaluations, len(r.distinct), ", ".join(names), wall))
    if new:
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        v = new[0]
        path = os.path.join(OUT, "replays", "%s-%s-%d.json" % (id, v["build"], v["case"]))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print(v["message"])
        for l in (v["trace"] or [])[-15:]:
            print("    " + l[:300])
        print("VIOLATION property=%s replay=%s" % (id, path))
        return 1
    if r.errors:
        print("inconclusive: " + "\n".join(r.errors[:5]))
        return 2
    if r.evaluations == 0:
        print("inconclusive: nothing was evaluated")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
