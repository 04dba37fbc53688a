#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("random operation histories; every result is read back and compared with the truth table of the operation on bit lanes", "all assignments up to 10 variables, sampled ones beyond; collections and resizes inside the histories"),
 "C02": ("canonicity monitor: every node obtained is compared with all held nodes and their functions; structural checker over whole tables", "held nodes only are compared pairwise; the whole-table checker sees every active node"),
 "C03": ("random histories of Exist/AppEx/AndExist; results compared with the disjunction over all completions", "all assignments up to 10 variables"),
 "C04": ("random histories of Replace with simultaneous-substitution oracle, and a model of what NewReplacer accepts", "for replacers whose new variables occur in the operand the oracle accepts the exact function or an error, as documented"),
 "C05": ("Satcount compared with lane counting and with independent big-integer models for up to thousands of variables", "functions with closed-form counts beyond 16 variables"),
 "C06": ("enumeration monitor: shape, disjointness and coverage of the assignments delivered, error injection in callbacks", "coverage on all assignments up to 12 variables, by counting beyond"),
 "C07": ("traversal monitor: the nodes delivered by Allnodes compared with a breadth-first search by Label/Low/High, error injection in callbacks", "the reference search uses Label, Low and High, judged by C16"),
 "C08": ("the texts of Print and Dot are parsed, rebuilt and compared with the diagram; error states injected", "the text formats are read leniently: only the information is judged"),
 "C09": ("held-node monitor: functions of all held nodes verified again after storms of operations, collections, releases and saturated reference counts", "Go collections forced at random points"),
 "C10": ("leak monitor: growth of the table and leftovers after the last collection over repeated workloads", "bounds leave a margin, small leaks are amplified by repetition; saturated nodes (1023 simultaneous references) may stay"),
 "C11": ("differential monitor: the same calls in several configurations of one build, and digests of observables between the four builds", "node ids, statistics and order of enumerations are not compared"),
 "C12": ("error-path monitor: invalid requests of every kind injected at random points of valid histories", "stale ids are only used where the documentation defines the outcome"),
 "C13": ("allocation-failure injection by Maxnodesize: every limit between the initial size and the need of a script, with a model of the nodes needed", "limits enumerated one by one for small scripts, random for long ones"),
 "C14": ("Go race detector on workloads that keep finalizers running during all operations, with conservation-of-references and held-node monitors", "only races on executions that happen are seen; four builds are instrumented"),
 "C15": ("Go race detector on several BDDs used concurrently, with outcomes compared with runs alone", "only races on executions that happen are seen"),
 "C16": ("constructor and accessor monitor: results compared with their meaning on bit lanes", "all assignments up to 10 variables"),
 "C17": ("kernel monitor: a model of the node table judges every Makenode, and every node on the reference stack is verified after collections and resizes", "user-written operations are random recursive ones"),
 "C18": ("balance monitor over Stats: invariants between the counters, Allnodes and the history", "the statistics are read from the text of Stats"),
 "C19": ("sizing monitor: each collection and resize observed through Stats is judged against the options", "cache sizes are only visible in debug builds"),
 "C20": ("re-entrancy monitor: callbacks of Allsat and Allnodes run operations, collections and nested iterations", "depth of nesting up to 3"),
 "C21": ("step-count monitor: counters of debug builds judged against the number of node tuples computed by the monitor, and a CPU watchdog on diagrams with up to 2^300 paths", "bounds are 3 times the number of tuples that an operation with a cache meets"),
 "C22": ("stress at the documented limits (2097151 variables, more than 2^24 nodes), all nodes checked to be distinct and found again, functions compared with truth tables", "up to 17.5 million nodes, ids up to 25 bits"),
 "C24": ("the monitors of the other properties in programs built for 32-bit machines, with outcomes compared with those of a 64-bit program", "32-bit x86 only; races are not watched there"),
 "C23": ("symbolic fixpoints compared step by step with explicit breadth-first search over random systems and layouts", "up to 5 state bits (7 in thorough runs)"),
 "C25": ("leak monitor over the heap of the program: weak pointers to dropped BDDs, live heap over rounds of calls whose results are dropped, live heap inside callbacks", "leaks under about 8 bytes per call are not seen; error reports, that accumulate by design, are left out"),
}
checks = []
for id in sorted(T):
    tech, note = T[id]
    checks.append({"property": id, "quick_cmd": "python3 check.py %s quick" % id, "thorough_cmd": "python3 check.py %s thorough" % id,
                   "evidence_file": "evidence/%s.json" % id, "technique": "runtime monitoring: " + tech, "level": "exploration",
                   "level_note": "Exploration: the property held on every execution monitored. " + note + "."})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": checks, "not_applicable": [],
     "notes": "No hooks are needed in /repo: the monitors only use the public API (kernel functions included), so /repo only has fix: commits. One Go harness (harness/), built by check.py against /repo's working tree with the tags of each build."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
