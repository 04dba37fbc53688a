#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Boolean connectives compute exactly their truth table",
 "For all nodes of a BDD, Not, Ite, And, Or, Imp, Equiv and Apply with each of its ten documented operators return a node whose Boolean function is exactly the documented combination of the operands' functions. This holds whatever operations, garbage collections and resizes came before or happen during the call, in both implementations.",
 ["inputs", "histories", "configurations"],
 "all operand functions, all operators, all preceding operation histories (cache and node-table contents) and all node-table/cache configurations",
 "The tests use a handful of fixed formulas (Milner, queens, one Ite identity) that exercise and/or/not/imp/biimp only; nor, nand, less, diff and invimp results are never compared with anything, and the result of the only random check is discarded.",
 ["operations.go", "operator.go", "cache.go", "bdd.go"],
 [("terminal shortcuts and recursion of apply/not/ite", "operations.go: not, apply, ite"), ("truth table of the operators", "operator.go: opres"), ("operation caches and their invalidation", "cache.go; bdd.go: Makenode")],
 [("applycache/itecache", "memoised results keyed by operands and operator", "cache.go")],
 ["return value of each operation, read back through Allnodes/Low/High/Label"])

prop("C02", "Canonicity: equal functions are the same node, and diagrams are reduced",
 "At every moment, two nodes of one BDD that denote the same Boolean function have the same identity (Equal is true and the node ids agree), and nodes that denote different functions do not; a tautology is the node returned by True and a contradiction the one returned by False. Every diagram is ordered (variables strictly increase along each path), has no node whose two branches are equal, and never contains two nodes with the same variable and branches.",
 ["inputs", "histories", "configurations"],
 "all pairs of functions built by any sequence of operations, across garbage collections, id reuse and resizes of the node table",
 "Tests compare a few ids for equality; none looks at the node table for duplicates, redundant tests or order, and none rebuilds a function after its first nodes survived a collection or a rehash.",
 ["hkernel.go", "hudd.go", "bkernel.go", "buddy.go", "operations.go"],
 [("unicity table lookup before allocation", "hkernel.go/bkernel.go: makenode"), ("rebuilding the unicity table on collection and resize", "bkernel.go: gbc, noderesize; hkernel.go: gbc, hudd.go: delnode")],
 [("nodes / unique", "node table and unicity table", "hudd.go, buddy.go")],
 ["Allnodes over the whole table", "node ids and Equal"])

prop("C03", "Quantification and relational product are exact",
 "Exist(n, varset) denotes the existential quantification of n over exactly the variables of varset, and AppEx(n1, n2, op, varset), for op among and, xor, or and nand (AndExist being the conjunction), denotes the existential quantification of n1 op n2. An empty variable set (Makeset of no variable) quantifies nothing; results never depend on earlier quantifications with other sets or operators.",
 ["inputs", "histories", "configurations"],
 "all operand functions, all variable sets (including empty, full and irrelevant ones), all four operators, all interleavings with other cached operations, collections and resizes",
 "The tests only use AndExist and Exist on Milner's model and one formula with one variable set per BDD, so cross-talk between cached quantifications and the xor/or/nand products are never exercised.",
 ["operations.go", "cache.go"],
 [("quant/appquant recursion", "operations.go: Exist, quant, AppEx, appquant"), ("variable-set stamp and cache ids", "cache.go: quantset2cache, quantcache, appexcache")],
 [("quantset/quantsetID/quantlast", "current quantified variables", "cache.go")],
 ["return value of Exist, AppEx, AndExist"])

prop("C04", "Replace is exact simultaneous substitution, or signals an error",
 "For a replacer accepted by NewReplacer, Replace(n, r) denotes n with every old variable replaced by its new one simultaneously, whatever the relative order of the variables; when a new variable already occurs in n together with a variable it replaces, the call returns either that exact function or nil with the error set, and an error is never raised otherwise. NewReplacer reports an error, without panicking, for slices of different lengths, a variable listed twice in either slice, or a variable outside [0..Varnum); distinct replacers never share results.",
 ["inputs", "histories", "configurations"],
 "all functions, all variable maps accepted or rejected by NewReplacer, all interleavings of several replacers with other operations and collections",
 "Only one replacer (pairing adjacent variables) is ever built by the tests; order-changing maps, several replacers on one BDD, conflicts and malformed slices are not covered.",
 ["replace.go", "operations.go", "cache.go"],
 [("recursion and re-ordering of the result", "operations.go: replace, correctify"), ("replacer validation and ids", "replace.go: NewReplacer"), ("cache keyed by replacer id", "cache.go: replacecache")],
 [("_REPLACEID", "source of replacer ids", "replace.go")],
 ["return values of NewReplacer and Replace, Errored"])

prop("C05", "Satcount is the exact number of satisfying assignments",
 "Satcount(n) equals the exact number of assignments of all Varnum variables that satisfy n, for any number of variables and with no overflow or rounding; it is 0 for False and 2^Varnum for True. It does not change the BDD.",
 ["inputs", "histories", "configurations"],
 "all functions and all numbers of variables, including gaps of many levels between a node and its branches",
 "Tests check counts of one analytic family and queens; wide gaps, constants and counts beyond 64 bits with irregular structure are not compared with an independent count.",
 ["operations.go"],
 [("level-weighted recursion with big integers and memoisation", "operations.go: Satcount, satcount")],
 [], ["return value of Satcount"])

prop("C06", "Allsat enumerates every satisfying assignment exactly once",
 "Allsat(f, n) calls f once for each path of n leading to True, with a slice of length Varnum that holds 0 or 1 for the variables tested on the path and -1 for all the others; the assignments described by the calls are pairwise disjoint and together are exactly the satisfying assignments of n. If f returns an error, f is not called again and Allsat returns that error; otherwise it returns nil.",
 ["inputs", "histories"],
 "all functions, all numbers of variables, all positions at which the callback fails",
 "The test helper computes the sum of the assignments but drops the verdict, and no test returns an error from the callback.",
 ["operations.go"],
 [("path enumeration with a shared profile slice", "operations.go: Allsat, allsat"), ("error propagation", "operations.go: allsat")],
 [], ["arguments of the callback, return value of Allsat"])

prop("C07", "Allnodes visits exactly the reachable nodes, once each",
 "Allnodes(f, roots...) calls f exactly once for every non-constant node reachable from the roots, with its id, level and the ids of its branches as given by Label, Low and High; without roots it visits every active node of the BDD, among them everything reachable from nodes held by the user. If f returns an error, the traversal stops at once and that error is returned; whether it completes or stops early, the traversal leaves the BDD as it was, so later operations, traversals and collections are unaffected.",
 ["inputs", "histories"],
 "all sets of roots (shared, repeated, constant), all stop positions, all histories before and after the traversal",
 "One example counts nodes of one diagram; shared or repeated roots, early stops and the state left behind by the marking are not tested.",
 ["operations.go", "hudd.go", "buddy.go", "hkernel.go", "bkernel.go"],
 [("mark, visit and unmark", "hudd.go/buddy.go: allnodesfrom, allnodes; hkernel.go/bkernel.go: markrec")],
 [("mark bit", "stored in the reference count (hudd) or level (buddy) of a node", "hudd.go, buddy.go: ismarked, marknode, unmarknode")],
 ["arguments of the callback, return value of Allnodes, later results"])

prop("C08", "Print and Dot describe the diagram faithfully",
 "The table written by Print and the graph written by Dot list exactly the non-constant nodes reachable from the given nodes (all active nodes if none is given), each with its own level and branches, so that the Boolean function of every root can be rebuilt from the text alone; edges to False are omitted by Dot, and Print writes True or False for a constant. When the BDD is in an error state both report the error instead of a diagram.",
 ["inputs", "histories"],
 "all functions and sets of roots",
 "No test looks at the output of Print or Dot.",
 ["stdio.go"],
 [("formatting of nodes collected by Allnodes", "stdio.go: Print, printSet, Dot, dotlabel")],
 [], ["bytes written to the io.Writer"])

prop("C09", "A node held by the user keeps its meaning for ever",
 "As long as user code holds a Node, that Node denotes the same Boolean function: no sequence of later operations, node-table collections or resizes, Go garbage collections, or releases of other references (even thousands of references to the same diagram) changes it, reclaims it or makes its use fail.",
 ["histories", "schedules", "configurations"],
 "all histories of operations, acquisitions and releases, all timings of the Go collector and its finalizers, all table configurations and numbers of references per node",
 "Tests keep a few nodes alive in short runs and never compare a held node with its former value after collections, let alone with saturated or racing reference counts.",
 ["hkernel.go", "bkernel.go", "hudd.go", "buddy.go", "operations.go"],
 [("reference counting with finalizers", "hkernel.go/bkernel.go: Retnode; hudd.go/buddy.go: nodefinalizer in New"), ("mark and sweep from references and the reference stack", "hkernel.go/bkernel.go: gbc, markrec"), ("protection of intermediate results", "operations.go: Pushref/Popref")],
 [("refcou", "number of external references, sticky at its maximum", "hudd.go, buddy.go"), ("refstack", "intermediate results of the current operation", "bdd.go")],
 ["function denoted by held nodes, read back through Allnodes/Low/High"])

prop("C10", "Released nodes are reclaimed: the table stays bounded",
 "Once user code drops its references and the Go collector has run, the nodes that are no longer needed are reclaimed by the next collections of the node table: repeating any number of times a computation that needs a bounded number of live nodes keeps the allocated and used size of the table bounded. Intermediate results of operations are reclaimed without waiting for the Go collector.",
 ["histories", "schedules", "configurations"],
 "all repetitions of bounded computations, under all table configurations; liveness restated as a bound after a fixed number of rounds of release and collection",
 "Tests run one computation per BDD and never measure the node table; a reference that is never released or a collector that frees nothing only makes them use more memory.",
 ["hkernel.go", "bkernel.go", "hudd.go", "buddy.go"],
 [("finalizer decrements the reference count", "hudd.go/buddy.go: New"), ("sweep of unmarked nodes, free list", "hkernel.go/bkernel.go: gbc")],
 [("freenum/freepos", "free list of the node table", "hudd.go, buddy.go")],
 ["Stats (allocated, used, number of GC), Allnodes"])

prop("C11", "Results do not depend on the configuration or implementation",
 "The same sequence of API calls yields the same Boolean functions, counts, enumerations and error outcomes for every choice of Nodesize, Cachesize, Cacheratio, Minfreenodes and Maxnodeincrease, with the default and the buddy implementation, and with or without the debug tag. Only performance and statistics may differ.",
 ["configurations", "histories", "programs"],
 "all option values (including the smallest caches and tables), both implementations, with and without debug, for all call sequences",
 "Tests run each model with one configuration per implementation and never run the debug build; results are not compared across configurations.",
 ["config.go", "hudd.go", "buddy.go", "hkernel.go", "bkernel.go", "cache.go", "debug.go", "nodebug.go"],
 [("options only size tables and caches", "config.go; hudd.go/buddy.go: New"), ("resize policy", "hkernel.go/bkernel.go: makenode, noderesize"), ("cache resizing", "cache.go: cacheresize")],
 [], ["digest of all results of a call sequence, compared between runs"])

prop("C12", "Invalid requests are reported, never a panic or corruption",
 "Calls with a nil or stale Node, a variable outside [0..Varnum), an operator an operation does not support, slices of mismatched length or an illegal number of variables report the problem as documented (nil Node, -1, zero count, error value or nil BDD, with Errored true and a non-empty Error when a BDD exists) and never panic. Errors propagate through chained operations and stay set, and a rejected call leaves every other node and later valid operations correct.",
 ["inputs", "histories"],
 "all functions of the API, all kinds of invalid argument at each argument position, any valid state before the call",
 "No test makes an invalid call.",
 ["bdd.go", "errors.go", "operations.go", "replace.go", "hudd.go", "buddy.go"],
 [("argument checks", "bdd.go: checkptr, Ithvar, NIthvar, Label; operations.go: public operations; replace.go: NewReplacer"), ("error status", "errors.go: seterror")],
 [("error", "sticky error status", "bdd.go")],
 ["return values, Errored, Error, recovered panics"])

prop("C13", "Maxnodesize bounds the table and exhaustion is a clean error",
 "With Maxnodesize(m) the node table never grows beyond m nodes (or its initial size if larger). An operation that fits, with its intermediate results and the nodes still referenced, within m nodes succeeds, and one that needs more returns nil with the error set; after such a failure all held nodes are intact, the diagram is still canonical, and operations that fit keep giving exact results.",
 ["fault_sequences", "inputs", "configurations", "histories"],
 "all limits m, so that allocation fails at every possible allocation point of every operation",
 "No test uses Maxnodesize, and no test makes an allocation fail.",
 ["config.go", "hudd.go", "buddy.go", "hkernel.go", "bkernel.go", "bdd.go"],
 [("size limit in resizing", "hkernel.go/bkernel.go: noderesize"), ("failure reporting", "hkernel.go/bkernel.go: makenode; bdd.go: Makenode")],
 [("maxnodesize", "limit on the number of nodes", "config.go")],
 ["return values, Errored, allocated size in Stats"])

prop("C14", "Automatic memory management is free of data races",
 "When one goroutine uses a BDD, the finalizers that the Go runtime runs concurrently to release dropped nodes never race with it: no unsynchronised conflicting access occurs and no deadlock, in either implementation, with or without debug. References are neither lost nor released twice whatever the interleaving.",
 ["schedules", "histories"],
 "all interleavings of finalizers with operations, collections, resizes, traversals and statistics",
 "The tests never run under the race detector and rarely trigger finalizers while operating.",
 ["hkernel.go", "bkernel.go", "hudd.go", "buddy.go"],
 [("locking around reference counts and the node table", "hudd.go, hkernel.go, buddy.go, bkernel.go")],
 [("refcou, nodes", "shared between the user's goroutine and finalizers", "hudd.go, buddy.go")],
 ["Go race detector reports", "progress of operations while finalizers run"])

prop("C15", "Distinct BDDs are independent, also across goroutines",
 "Operations on one BDD never change the results, errors or state of another, and distinct BDDs, including their replacers, can be created and used at the same time from different goroutines without data races, with the same results as when they are used alone.",
 ["schedules", "histories"],
 "all interleavings of operations on several BDDs, in one or several goroutines",
 "Tests use one BDD at a time in one goroutine.",
 ["bdd.go", "replace.go", "hudd.go", "buddy.go", "cache.go"],
 [("all state is held in the BDD, apart from constants and the replacer id counter", "bdd.go: BDD, bddone, bddzero; replace.go: _REPLACEID")],
 [("_REPLACEID, bddone, bddzero", "package-level state", "replace.go, bdd.go")],
 ["Go race detector reports", "digests of results compared with sequential runs"])

prop("C16", "Constructors and accessors agree with Boolean semantics",
 "Ithvar(i) and NIthvar(i) denote the i-th variable and its negation, From, True and False the constants, Makeset(a) the conjunction of the variables in a (listed in any order), and Makecube(a, p), for increasing a, the cube with the given polarities (over all the variables when a is empty). Scanset(Makeset(a)) is the sorted set a, and for every non-constant node n, Label(n) is the smallest variable n depends on while Low(n) and High(n) are its cofactors for that variable false and true.",
 ["inputs", "histories", "configurations"],
 "all variable sets, polarities and numbers of variables, all nodes, at any point of a history, including when the construction triggers collections or resizes",
 "Tests use sorted sets only, never call Makecube, Scanset, Label, Low or High, and never compare them with their meaning.",
 ["bdd.go", "operations.go"],
 [("bottom-up construction with reference stack", "operations.go: Makeset, Makecube"), ("accessors", "bdd.go: Ithvar, NIthvar, Label, Low, High, From; operations.go: Scanset")],
 [], ["return values"])

prop("C17", "Kernel functions let users build their own operations safely",
 "With Initref, Pushref, Popref, Makenode and Retnode used as documented, a user-written operation obtains exactly the nodes it asks for: Makenode returns the branch itself when both branches are equal and otherwise the unique node with that variable and branches; a node on the reference stack, with everything below it, survives any collection or resize triggered by Makenode until it is popped; and Retnode turns the id into a Node that protects it from then on.",
 ["programs", "inputs", "histories", "configurations"],
 "all user-written bottom-up constructions under all table configurations, with collections and resizes at any Makenode call",
 "No test uses the kernel functions directly.",
 ["bdd.go", "hkernel.go", "bkernel.go"],
 [("reference stack", "bdd.go: Initref, Pushref, Popref"), ("allocation", "bdd.go: Makenode; hkernel.go/bkernel.go: makenode, Retnode")],
 [("refstack", "protected intermediate nodes", "bdd.go")],
 ["ids returned by Makenode, functions of nodes returned by Retnode"])

prop("C18", "Statistics account for every node",
 "At every quiescent point the statistics balance: used plus free equals allocated, the used count is the number of nodes visited by Allnodes without roots (constants included), and the number of nodes produced is the number of distinct node creations, so that it never decreases and never increases when an operation only finds existing nodes. The number of collections never decreases; in debug builds the number of reclaimed references never exceeds the number of references created, and unique-table accesses cover hits and misses.",
 ["histories", "configurations"],
 "all histories of operations, collections and resizes, both implementations, with and without debug",
 "No test reads the statistics.",
 ["hudd.go", "buddy.go", "hkernel.go", "bkernel.go", "bdd.go", "stdio.go"],
 [("counters maintained with the free list", "hudd.go: setnode, stats; bkernel.go: makenode, gbc, noderesize; buddy.go: stats")],
 [("freenum, produced, gcstat", "accounting of the node table", "hudd.go, buddy.go, bdd.go")],
 ["Stats string compared with Allnodes"])

prop("C19", "Sizing options are honoured",
 "A new BDD has at least the requested Nodesize (room for constants and variables by default). The table grows when, and only when, it is full and a collection leaves no more than Minfreenodes percent of it free; a resize adds at most Maxnodeincrease nodes when that is positive, about doubles the table otherwise, always adds at least one, and never stops a computation while memory is available and no limit is set. Caches have at least Cachesize entries initially, keep their size when Cacheratio is 0, and otherwise have at least Cacheratio entries per 100 allocated nodes after a resize.",
 ["configurations", "histories"],
 "all option values and all growth histories",
 "Tests set a few sizes but never observe the resulting sizes; the growth policy and cache ratio are not checked.",
 ["config.go", "hudd.go", "buddy.go", "hkernel.go", "bkernel.go", "cache.go", "primes.go"],
 [("options", "config.go"), ("resize policy", "hkernel.go/bkernel.go: makenode, noderesize"), ("cache sizing", "cache.go: init, resize, cacheinit, cacheresize; primes.go")],
 [], ["Stats before and after single allocations"])

prop("C20", "Iteration callbacks may use the BDD",
 "The function passed to Allsat, or to Allnodes with roots, may itself call operations of the same BDD, including ones that create nodes, trigger collections or resize the table: the operations give exact results and their nodes stay valid, and the iteration still delivers exactly the assignments or nodes of the diagram as it was when the iteration began, even if nothing else holds the node being iterated.",
 ["histories", "schedules", "configurations"],
 "all operations performed inside callbacks, all timings of collections during the iteration",
 "TestOperations calls And and Or inside an Allsat callback on tiny diagrams that never trigger a collection and drops the verdict; nothing does so for Allnodes.",
 ["operations.go", "hudd.go", "buddy.go", "hkernel.go", "bkernel.go"],
 [("iteration by stable node ids", "operations.go: Allsat, allsat, Allnodes; hudd.go/buddy.go: allnodesfrom")],
 [("mark bits during a traversal", "set while callbacks run", "hudd.go, buddy.go")],
 ["arguments of callbacks, results of operations inside callbacks"])

prop("C21", "Work is bounded by diagram sizes, not by the number of paths",
 "With caches large enough and no collection in between, Not, Apply, Ite, Exist, AppEx, Replace and Satcount take a number of recursive steps bounded by a small multiple of the product of their operands' node counts (or of operand and result), never by the number of paths, and Allnodes visits in time linear in nodes. Repeating at once an operation that returns a node does no new work.",
 ["inputs", "histories", "configurations"],
 "all families of diagrams with exponentially many paths, both implementations",
 "Tests would only become slower: no test measures steps, and a lost memoisation on one operation not used by the Milner or queens models goes unseen.",
 ["cache.go", "operations.go"],
 [("memoisation of each recursive operation", "cache.go: match*/set*; operations.go")],
 [("caches", "operation caches", "cache.go")],
 ["cache statistics of debug builds", "number of calls to a user-supplied Replacer", "completion of operations on diagrams with 2^200 paths"])

prop("C22", "Results stay exact at scale, up to the documented limits",
 "The guarantees do not degrade with size: BDDs with any number of variables from 1 to 2097151 and node tables with tens of millions of nodes give exact results, with all node ids and levels kept distinct in the unicity table, through growth of the table by successive resizes and collections of large live sets.",
 ["inputs", "configurations", "histories"],
 "all numbers of variables up to the maximum and all table sizes that fit in memory",
 "Tests stop at 480 variables and about a million table slots with few live nodes; level and id encodings beyond 16 bits are never exercised.",
 ["hudd.go", "buddy.go", "hkernel.go", "bkernel.go", "kernel.go", "primes.go", "cache.go"],
 [("encoding of (level, low, high) as a key", "hudd.go: huddhash; cache.go: _TRIPLE, _PAIR"), ("level bits and maximum number of variables", "kernel.go: _MAXVAR; marks in hudd.go/buddy.go")],
 [], ["satisfying counts, evaluations and canonicity on large diagrams"])

prop("C23", "Symbolic reachability equals explicit reachability",
 "For every finite transition system encoded over interleaved, grouped or scattered current and next-state variables, the fixpoint of images computed with AndExist and Replace, or with And, Exist and Replace, reaches exactly the states found by explicit breadth-first search, step by step, and backward images agree likewise; this holds with garbage collections and table resizes occurring at any point of the computation.",
 ["inputs", "programs", "histories", "configurations"],
 "all transition relations and variable encodings, all table and cache configurations",
 "Tests check the final count of one regular family (Milner's cyclers) with one encoding.",
 ["operations.go", "replace.go", "cache.go", "hkernel.go", "bkernel.go"],
 [("relational product, renaming and fixpoint detection by node identity", "operations.go: AppEx, Exist, Replace; bdd.go: Equal")],
 [], ["set of states denoted by each iterate"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
