From 047dbae4c9bf7516dfd0d15f4b7d1da0eabf0755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:32 +0000
Subject: [PATCH 01/28] fix: Apply with OPdiff returned the right operand when
 the left one is False

---
 operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.go b/operations.go
index e4ccd8b..3c7cd77 100644
--- a/operations.go
+++ b/operations.go
@@ -236,7 +236,7 @@ func (b *BDD) apply(left int, right int) int {
 			return 0
 		}
 		if left == 0 {
-			return right
+			return 0
 		}
 	case OPless:
 		if (left == right) || (left == 1) {
-- 
2.43.0


From 4b58c082326d66316a236314641482b8dc7585ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:32 +0000
Subject: [PATCH 02/28] fix: Exist failed on an empty set of variables

---
 operations.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operations.go b/operations.go
index 3c7cd77..315c4a9 100644
--- a/operations.go
+++ b/operations.go
@@ -398,12 +398,12 @@ func (b *BDD) Exist(n, varset Node) Node {
 	if b.checkptr(varset) != nil {
 		return b.seterror("Wrong varset in call to Exist (%d)", *varset)
 	}
-	if err := b.quantset2cache(*varset); err != nil {
-		return nil
-	}
 	if *varset < 2 { // we have an empty set or a constant
 		return n
 	}
+	if err := b.quantset2cache(*varset); err != nil {
+		return nil
+	}
 
 	b.quantcache.id = cacheidEXIST
 	b.applycache.op = int(OPor)
-- 
2.43.0


From b3b9c358c90a99193cf5dde34eedd1dd1db5e3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 03/28] fix: operations panicked on a nil operand instead of
 setting the error

---
 operations.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/operations.go b/operations.go
index 315c4a9..e880dca 100644
--- a/operations.go
+++ b/operations.go
@@ -101,7 +101,7 @@ func (b *BDD) Makecube(varset []int, polarity []bool) Node {
 // the zero-terminal with references to the one-terminal and vice versa.
 func (b *BDD) Not(n Node) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("Wrong operand in call to Not (%d)", *n)
+		return b.seterror("Wrong operand in call to Not")
 	}
 	b.Initref()
 	b.Pushref(*n)
@@ -145,10 +145,10 @@ func (b *BDD) not(n int) int {
 //    OPinvimp      reverse implication      [1,0,1,1]
 func (b *BDD) Apply(n1, n2 Node, op Operator) Node {
 	if b.checkptr(n1) != nil {
-		return b.seterror("Wrong operand in call to Apply %s(n1: %d, n2: ...)", op, *n1)
+		return b.seterror("Wrong operand in call to Apply %s (n1)", op)
 	}
 	if b.checkptr(n2) != nil {
-		return b.seterror("Wrong operand in call to Apply %s(n1: ..., n2: %d)", op, *n2)
+		return b.seterror("Wrong operand in call to Apply %s (n2)", op)
 	}
 	b.applycache.op = int(op)
 	b.Initref()
@@ -305,13 +305,13 @@ func (b *BDD) apply(left int, right int) int {
 // & g) | (!f & h)] more efficiently than doing the three operations separately.
 func (b *BDD) Ite(f, g, h Node) Node {
 	if b.checkptr(f) != nil {
-		return b.seterror("Wrong operand in call to Ite (f: %d)", *f)
+		return b.seterror("Wrong operand in call to Ite (f)")
 	}
 	if b.checkptr(g) != nil {
-		return b.seterror("Wrong operand in call to Ite (g: %d)", *g)
+		return b.seterror("Wrong operand in call to Ite (g)")
 	}
 	if b.checkptr(h) != nil {
-		return b.seterror("Wrong operand in call to Ite (h: %d)", *h)
+		return b.seterror("Wrong operand in call to Ite (h)")
 	}
 	b.Initref()
 	b.Pushref(*f)
@@ -393,10 +393,10 @@ func (b *BDD) ite(f, g, h int) int {
 // nil and set the error flag in b if there is an error.
 func (b *BDD) Exist(n, varset Node) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("Wrong node in call to Exist (n: %d)", *n)
+		return b.seterror("Wrong node in call to Exist")
 	}
 	if b.checkptr(varset) != nil {
-		return b.seterror("Wrong varset in call to Exist (%d)", *varset)
+		return b.seterror("Wrong varset in call to Exist")
 	}
 	if *varset < 2 { // we have an empty set or a constant
 		return n
@@ -448,16 +448,16 @@ func (b *BDD) AppEx(n1, n2 Node, op Operator, varset Node) Node {
 		return b.seterror("operator %s not supported in call to AppEx")
 	}
 	if b.checkptr(varset) != nil {
-		return b.seterror("wrong varset in call to AppEx (%d)", *varset)
+		return b.seterror("wrong varset in call to AppEx")
 	}
 	if *varset < 2 { // we have an empty set
 		return b.Apply(n1, n2, op)
 	}
 	if b.checkptr(n1) != nil {
-		return b.seterror("wrong operand in call to AppEx %s(left: %d)", op, *n1)
+		return b.seterror("wrong operand in call to AppEx %s (left)", op)
 	}
 	if b.checkptr(n2) != nil {
-		return b.seterror("wrong operand in call to AppEx %s(right: %d)", op, *n2)
+		return b.seterror("wrong operand in call to AppEx %s (right)", op)
 	}
 	if err := b.quantset2cache(*varset); err != nil {
 		return nil
@@ -592,7 +592,7 @@ func (b *BDD) appquant(left, right, varset int) int {
 // variables with new ones. See type Replacer.
 func (b *BDD) Replace(n Node, r Replacer) Node {
 	if b.checkptr(n) != nil {
-		return b.seterror("wrong operand in call to Replace (%d)", *n)
+		return b.seterror("wrong operand in call to Replace")
 	}
 	b.Initref()
 	b.Pushref(*n)
@@ -658,7 +658,7 @@ func (b *BDD) correctify(level int32, low, high int) int {
 func (b *BDD) Satcount(n Node) *big.Int {
 	res := big.NewInt(0)
 	if b.checkptr(n) != nil {
-		b.seterror("Wrong operand in call to Satcount (%d)", *n)
+		b.seterror("Wrong operand in call to Satcount")
 		return res
 	}
 	// We compute 2^level with a bit shift 1 << level
@@ -697,8 +697,8 @@ func (b *BDD) satcount(n int, satc map[int]*big.Int) *big.Int {
 // it is a don't care. We stop and return an error if f returns an error at some
 // point.
 func (b *BDD) Allsat(f func([]int) error, n Node) error {
-	if b.checkptr(n) != nil {
-		return fmt.Errorf("wrong node in call to Allsat (%d)", *n)
+	if err := b.checkptr(n); err != nil {
+		return fmt.Errorf("wrong node in call to Allsat; %s", err)
 	}
 	prof := make([]int, b.varnum)
 	for k := range prof {
-- 
2.43.0


From 27c000ff45c19df63e7fb2c85d8725a69028760c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 04/28] fix: Makeset built a malformed BDD for unsorted,
 repeated or unknown variables

---
 operations.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/operations.go b/operations.go
index e880dca..5abf300 100644
--- a/operations.go
+++ b/operations.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"log"
 	"math/big"
+	"sort"
 )
 
 // Scanset returns the set of variables (levels) found when following the high
@@ -43,13 +44,24 @@ func (b *BDD) Makeset(varset []int) Node {
 	// 	res = tmp
 	// }
 	// return res
+	for _, v := range varset {
+		if v < 0 || v >= int(b.varnum) {
+			b.seterror("Unknown variable used (%d) in call to Makeset", v)
+			return bddzero
+		}
+	}
+	// we work on a sorted copy, since levels must increase along the result
+	vars := append([]int{}, varset...)
+	sort.Ints(vars)
 	res := 1
 	b.Initref()
-	for k := len(varset) - 1; k >= 0; k-- {
-		res = b.Makenode(int32(varset[k]), 0, res)
-		b.Pushref(res)
+	for k := len(vars) - 1; k >= 0; k-- {
+		if k > 0 && vars[k] == vars[k-1] {
+			continue
+		}
+		res = b.Pushref(b.Makenode(int32(vars[k]), 0, res))
 	}
-	b.Popref(len(varset))
+	b.Initref()
 	return b.Retnode(res)
 }
 
-- 
2.43.0


From ece046109fe491d3d08413aa0bf4b19cee53789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 05/28] fix: Makecube accepted variables outside the scope of
 the BDD

---
 operations.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/operations.go b/operations.go
index 5abf300..c4b620d 100644
--- a/operations.go
+++ b/operations.go
@@ -95,6 +95,11 @@ func (b *BDD) Makecube(varset []int, polarity []bool) Node {
 	if len(varset) != len(polarity) {
 		return b.seterror("wrong size for slices in Makecube")
 	}
+	for _, v := range varset {
+		if v < 0 || v >= int(b.varnum) {
+			return b.seterror("Unknown variable used (%d) in call to Makecube", v)
+		}
+	}
 	b.Initref()
 	for k := len(polarity) - 1; k >= 0; k-- {
 		if polarity[k] {
-- 
2.43.0


From 095b8e607829ee33dd8c71105fbbb67743e3eada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 06/28] fix: NewReplacer panicked on invalid variables and
 accepted duplicates in newvars

---
 replace.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/replace.go b/replace.go
index 6a33658..8e30760 100644
--- a/replace.go
+++ b/replace.go
@@ -69,21 +69,26 @@ func (b *BDD) NewReplacer(oldvars, newvars []int) (Replacer, error) {
 	_REPLACEID++
 	varnum := b.Varnum()
 	support := make([]bool, varnum)
+	newsupport := make([]bool, varnum)
 	res.image = make([]int32, varnum)
 	for k := range res.image {
 		res.image[k] = int32(k)
 	}
 	for k, v := range oldvars {
+		if v < 0 || v >= varnum {
+			return nil, fmt.Errorf("invalid variable in oldvars (%d)", v)
+		}
+		if newvars[k] < 0 || newvars[k] >= varnum {
+			return nil, fmt.Errorf("invalid variable in newvars (%d)", newvars[k])
+		}
 		if support[v] {
 			return nil, fmt.Errorf("duplicate variable (%d) in oldvars", v)
 		}
-		if v >= varnum {
-			return nil, fmt.Errorf("invalid variable in oldvars (%d)", v)
-		}
-		if newvars[k] >= varnum {
-			return nil, fmt.Errorf("invalid variable in newvars (%d)", v)
+		if newsupport[newvars[k]] {
+			return nil, fmt.Errorf("duplicate variable (%d) in newvars", newvars[k])
 		}
 		support[v] = true
+		newsupport[newvars[k]] = true
 		res.image[v] = int32(newvars[k])
 		if int32(v) > res.last {
 			res.last = int32(v)
-- 
2.43.0


From ca272d9f253b50acdc4c15f45d0ded51025295b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 07/28] fix: data race on replacer identifiers, that could be
 shared between replacers

---
 replace.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/replace.go b/replace.go
index 8e30760..79e4bc7 100644
--- a/replace.go
+++ b/replace.go
@@ -7,9 +7,10 @@ package rudd
 import (
 	"fmt"
 	"math"
+	"sync/atomic"
 )
 
-var _REPLACEID = 1
+var _REPLACEID int64 = 1 // shared by all the BDDs, updated atomically
 
 // Replacer is the types of substitution objects used in a Replace operation,
 // that substitutes variables in a BDD "function". The only method returning an
@@ -62,11 +63,11 @@ func (b *BDD) NewReplacer(oldvars, newvars []int) (Replacer, error) {
 	if len(oldvars) != len(newvars) {
 		return nil, fmt.Errorf("unmatched length of slices")
 	}
-	if _REPLACEID == (math.MaxInt32 >> 2) {
+	id := atomic.AddInt64(&_REPLACEID, 1) - 1
+	if id >= (math.MaxInt32 >> 2) {
 		return nil, fmt.Errorf("too many replacers created")
 	}
-	res.id = (_REPLACEID << 2) | cacheidREPLACE
-	_REPLACEID++
+	res.id = (int(id) << 2) | cacheidREPLACE
 	varnum := b.Varnum()
 	support := make([]bool, varnum)
 	newsupport := make([]bool, varnum)
-- 
2.43.0


From e72f1b1a806ec860b6c81d7cc3706efd71083302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 08/28] fix: Allsat ignored the errors returned by its callback

---
 operations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operations.go b/operations.go
index c4b620d..5efb8b1 100644
--- a/operations.go
+++ b/operations.go
@@ -740,7 +740,7 @@ func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
 			prof[v] = -1
 		}
 		if err := b.allsat(low, prof, f); err != nil {
-			return nil
+			return err
 		}
 	}
 
@@ -750,7 +750,7 @@ func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
 			prof[v] = -1
 		}
 		if err := b.allsat(high, prof, f); err != nil {
-			return nil
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From 9e7c12beda56e1addd21816cf7e1cfc3c378f44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 09/28] fix: Allsat did not protect its operand from operations
 in the callback

---
 operations.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/operations.go b/operations.go
index 5efb8b1..247b05c 100644
--- a/operations.go
+++ b/operations.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"log"
 	"math/big"
+	"runtime"
 	"sort"
 )
 
@@ -721,9 +722,11 @@ func (b *BDD) Allsat(f func([]int) error, n Node) error {
 	for k := range prof {
 		prof[k] = -1
 	}
-	// the function does not create new nodes, so we do not need to take care of
-	// possible resizing
-	return b.allsat(*n, prof, f)
+	// we keep a reference to n, since f may create new nodes and thus trigger a
+	// garbage collection
+	err := b.allsat(*n, prof, f)
+	runtime.KeepAlive(n)
+	return err
 }
 
 func (b *BDD) allsat(n int, prof []int, f func([]int) error) error {
-- 
2.43.0


From c0f262322583bacaf02514b6fc60e1457ee601bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 10/28] fix: Ithvar and NIthvar panicked on values that do not
 fit in 32 bits

---
 bdd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdd.go b/bdd.go
index 002580d..4b24291 100644
--- a/bdd.go
+++ b/bdd.go
@@ -263,7 +263,7 @@ func (b *BDD) checkptr(n Node) error {
 // expression xi), otherwise we set the error status in the BDD and returns the
 // nil node. The requested variable must be in the range [0..Varnum).
 func (b *BDD) Ithvar(i int) Node {
-	if (i < 0) || (int32(i) >= b.varnum) {
+	if (i < 0) || (i >= int(b.varnum)) {
 		return b.seterror("Unknown variable used (%d) in call to ithvar", i)
 	}
 	// we do not need to reference count variables
@@ -274,7 +274,7 @@ func (b *BDD) Ithvar(i int) Node {
 // success (the expression !xi), otherwise the nil node. See *ithvar* for
 // further info.
 func (b *BDD) NIthvar(i int) Node {
-	if (i < 0) || (int32(i) >= b.varnum) {
+	if (i < 0) || (i >= int(b.varnum)) {
 		return b.seterror("Unknown variable used (%d) in call to nithvar", i)
 	}
 	// we do not need to reference count variables
-- 
2.43.0


From 74c01cc0676559f2df19cf7b608bd57896acaad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 11/28] fix: Retnode accepted a node just outside of the node
 table

---
 bkernel.go | 2 +-
 hkernel.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 9983ede..8495cd4 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -16,7 +16,7 @@ import (
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
 // Retnode returns a valid node from the value returned by a call to Makenode.
 func (b *tables) Retnode(n int) Node {
-	if n < 0 || n > len(b.nodes) {
+	if n < 0 || n >= len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("unexpected error; b.retnode(%d) not valid\n", n)
 		}
diff --git a/hkernel.go b/hkernel.go
index 554c344..5643741 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -16,7 +16,7 @@ import (
 // Retnode is a kernel function of the BDD package. Use it at your own risk.
 // Retnode returns a valid node from the value returned by a call to Makenode.
 func (b *tables) Retnode(n int) Node {
-	if n < 0 || n > len(b.nodes) {
+	if n < 0 || n >= len(b.nodes) {
 		if _DEBUG {
 			log.Panicf("b.retnode(%d) not valid\n", n)
 		}
-- 
2.43.0


From 3decc68e46eea07e311cddfda1036d9ddd6f75df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 12/28] fix: Dot did not return the error on an invalid node

---
 stdio.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stdio.go b/stdio.go
index 05686f8..04e3524 100644
--- a/stdio.go
+++ b/stdio.go
@@ -100,7 +100,7 @@ func (b *BDD) Dot(w io.Writer, n ...Node) error {
 	// False constant.
 	fmt.Fprintln(w, "digraph G {")
 	fmt.Fprintln(w, "1 [shape=box, label=\"1\", style=filled, shape=box, height=0.3, width=0.3];")
-	_ = b.Allnodes(func(id, level, low, high int) error {
+	err := b.Allnodes(func(id, level, low, high int) error {
 		if id > 1 {
 			fmt.Fprintf(w, "%d %s\n", id, dotlabel(id, level))
 			if low != 0 {
@@ -113,7 +113,7 @@ func (b *BDD) Dot(w io.Writer, n ...Node) error {
 		return nil
 	}, n...)
 	fmt.Fprintln(w, "}")
-	return nil
+	return err
 }
 
 func dotlabel(a int, b int) string {
-- 
2.43.0


From cda8ec094e401fb1beb84d27b15c6fa1fb35e8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 13/28] fix: a small Maxnodeincrease prevented the node table
 from growing (buddy)

---
 bkernel.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bkernel.go b/bkernel.go
index 8495cd4..83f3759 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -128,7 +128,10 @@ func (b *tables) noderesize() error {
 	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) {
 		nodesize = b.maxnodesize
 	}
-	nodesize = primeLte(nodesize)
+	if p := primeLte(nodesize); p > oldsize {
+		// we only use a prime number if there is one in the interval
+		nodesize = p
+	}
 	if nodesize <= oldsize {
 		// b.seterror("Unable to grow size of BDD (%d nodes)", nodesize)
 		return errMemory
-- 
2.43.0


From 53259184fd1105004849cd8d44684fc68e68d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 14/28] fix: nodes with a saturated reference count could be
 reclaimed while in use

---
 buddy.go | 6 +++++-
 hudd.go  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/buddy.go b/buddy.go
index 3f6e8c3..742bd4b 100644
--- a/buddy.go
+++ b/buddy.go
@@ -126,7 +126,11 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 				log.Printf("dec refcou %d\n", *n)
 			}
 		}
-		impl.nodes[*n].refcou--
+		// the reference count of a node sticks to its maximal value, since we
+		// do not count all the references to it from then on
+		if impl.nodes[*n].refcou&_MAXREFCOUNT != _MAXREFCOUNT {
+			impl.nodes[*n].refcou--
+		}
 	}
 	for k := 0; k < config.varnum; k++ {
 		v0, _ := impl.makenode(int32(k), 0, 1, nil)
diff --git a/hudd.go b/hudd.go
index bd817d1..6092826 100644
--- a/hudd.go
+++ b/hudd.go
@@ -150,7 +150,11 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 				log.Printf("dec refcou %d\n", *n)
 			}
 		}
-		impl.nodes[*n].refcou--
+		// the reference count of a node sticks to its maximal value, since we
+		// do not count all the references to it from then on
+		if impl.nodes[*n].refcou&_MAXREFCOUNT != _MAXREFCOUNT {
+			impl.nodes[*n].refcou--
+		}
 	}
 	b.tables = impl
 	b.cacheinit(config)
-- 
2.43.0


From 4394735160ec9d6b152a961b9770f32a9cdefbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 15/28] fix: Allnodes left nodes marked while calling its
 callback

---
 bkernel.go |  9 ---------
 buddy.go   | 12 ++++++++----
 hkernel.go |  9 ---------
 hudd.go    | 23 +++++++++--------------
 4 files changed, 17 insertions(+), 36 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 83f3759..b03415c 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -259,12 +259,3 @@ func (b *tables) markrec(n int) {
 	b.markrec(b.nodes[n].low)
 	b.markrec(b.nodes[n].high)
 }
-
-func (b *tables) unmarkall() {
-	for k, v := range b.nodes {
-		if k < 2 || !b.ismarked(k) || (v.low == -1) {
-			continue
-		}
-		b.unmarknode(k)
-	}
-}
diff --git a/buddy.go b/buddy.go
index 742bd4b..317ff18 100644
--- a/buddy.go
+++ b/buddy.go
@@ -182,13 +182,17 @@ func (b *tables) allnodesfrom(f func(id, level, low, high int) error, n []Node)
 	// 	b.unmarkall()
 	// 	return err
 	// }
+	// f may use the BDD, so we unmark all the nodes before calling it
+	nodes := [][4]int{}
 	for k := range b.nodes {
 		if b.ismarked(k) {
 			b.unmarknode(k)
-			if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
-				b.unmarkall()
-				return err
-			}
+			nodes = append(nodes, [4]int{k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high})
+		}
+	}
+	for _, v := range nodes {
+		if err := f(v[0], v[1], v[2], v[3]); err != nil {
+			return err
 		}
 	}
 	return nil
diff --git a/hkernel.go b/hkernel.go
index 5643741..acb53bb 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -207,12 +207,3 @@ func (b *tables) markrec(n int) {
 	b.markrec(b.nodes[n].low)
 	b.markrec(b.nodes[n].high)
 }
-
-func (b *tables) unmarkall() {
-	for k, v := range b.nodes {
-		if k < 2 || !b.ismarked(k) || (v.low == -1) {
-			continue
-		}
-		b.unmarknode(k)
-	}
-}
diff --git a/hudd.go b/hudd.go
index 6092826..2cb0fba 100644
--- a/hudd.go
+++ b/hudd.go
@@ -256,22 +256,17 @@ func (b *tables) allnodesfrom(f func(id, level, low, high int) error, n []Node)
 	// 	b.unmarkall()
 	// 	return err
 	// }
-	b.RLock()
-	count := len(b.nodes)
-	b.RUnlock()
-
-	for k := 0; k < count; k++ {
-		b.RLock()
-		if k >= len(b.nodes) {
-			break
-		}
-		b.RUnlock()
+	// f may use the BDD, so we unmark all the nodes before calling it
+	nodes := [][4]int{}
+	for k := range b.nodes {
 		if b.ismarked(k) {
 			b.unmarknode(k)
-			if err := f(k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high); err != nil {
-				b.unmarkall()
-				return err
-			}
+			nodes = append(nodes, [4]int{k, int(b.nodes[k].level), b.nodes[k].low, b.nodes[k].high})
+		}
+	}
+	for _, v := range nodes {
+		if err := f(v[0], v[1], v[2], v[3]); err != nil {
+			return err
 		}
 	}
 	return nil
-- 
2.43.0


From bf9185754677a019407d1997a10049c655c8c06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 16/28] fix: data races between finalizers and operations on
 reference counts

---
 bkernel.go |  9 ++++++++-
 buddy.go   | 15 ++++++++++++++-
 hkernel.go |  9 ++++++++-
 hudd.go    |  6 ++++++
 4 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index b03415c..b02340a 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -29,6 +29,8 @@ func (b *tables) Retnode(n int) Node {
 		return bddone
 	}
 	x := n
+	b.refmutex.Lock()
+	defer b.refmutex.Unlock()
 	if b.nodes[n].refcou < _MAXREFCOUNT {
 		b.nodes[n].refcou++
 		runtime.SetFinalizer(&x, b.nodefinalizer)
@@ -137,9 +139,12 @@ func (b *tables) noderesize() error {
 		return errMemory
 	}
 
+	// finalizers should not update the reference counts while we copy them
+	b.refmutex.Lock()
 	tmp := b.nodes
 	b.nodes = make([]buddynode, nodesize)
 	copy(b.nodes, tmp)
+	b.refmutex.Unlock()
 
 	for n := 0; n < oldsize; n++ {
 		b.nodes[n].hash = 0
@@ -196,6 +201,7 @@ func (b *tables) gbc(refstack []int) {
 	// runtime.GC()
 
 	// we append the current stats to the GC history
+	b.refmutex.Lock()
 	if _DEBUG {
 		b.gcstat.history = append(b.gcstat.history, gcpoint{
 			nodes:            len(b.nodes),
@@ -214,6 +220,7 @@ func (b *tables) gbc(refstack []int) {
 			freenodes: b.freenum,
 		})
 	}
+	b.refmutex.Unlock()
 	// we mark the nodes in the refstack to avoid collecting them
 	for _, r := range refstack {
 		b.markrec(int(r))
@@ -221,7 +228,7 @@ func (b *tables) gbc(refstack []int) {
 	// we also protect nodes with a positive refcount (and therefore also the
 	// ones with a MAXREFCOUNT, such has variables)
 	for k := range b.nodes {
-		if b.nodes[k].refcou > 0 {
+		if b.isreferenced(k) {
 			b.markrec(k)
 		}
 		b.nodes[k].hash = 0
diff --git a/buddy.go b/buddy.go
index 317ff18..fda964b 100644
--- a/buddy.go
+++ b/buddy.go
@@ -9,6 +9,7 @@ package rudd
 import (
 	"fmt"
 	"log"
+	"sync"
 	"sync/atomic"
 	"unsafe"
 )
@@ -17,6 +18,7 @@ import (
 // Diagrams based on the data structures and algorithms found in the BuDDy
 // library.
 type tables struct {
+	refmutex      sync.Mutex  // Protects the reference counts, that are also updated by finalizers
 	nodes         []buddynode // List of all the BDD nodes. Constants are always kept at index 0 and 1
 	freenum       int         // Number of free nodes
 	freepos       int         // First free node
@@ -39,6 +41,12 @@ type buddynode struct {
 	next   int   // Next index to check in case of a collision, 0 if last
 }
 
+func (b *tables) isreferenced(n int) bool {
+	b.refmutex.Lock()
+	defer b.refmutex.Unlock()
+	return b.nodes[n].refcou > 0
+}
+
 func (b *tables) ismarked(n int) bool {
 	return (b.nodes[n].level & 0x200000) != 0
 }
@@ -120,6 +128,8 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	impl.freenum = nodesize - 2
 	impl.gcstat.history = []gcpoint{}
 	impl.nodefinalizer = func(n *int) {
+		impl.refmutex.Lock()
+		defer impl.refmutex.Unlock()
 		if _DEBUG {
 			atomic.AddUint64(&(impl.gcstat.calledfinalizers), 1)
 			if _LOGLEVEL > 2 {
@@ -205,7 +215,8 @@ func (b *tables) allnodes(f func(id, level, low, high int) error) error {
 	// if err := f(1, int(b.nodes[1].level), 1, 1); err != nil {
 	// 	return err
 	// }
-	for k, v := range b.nodes {
+	for k := range b.nodes {
+		v := &b.nodes[k]
 		if v.low != -1 {
 			if err := f(k, int(v.level), v.low, v.high); err != nil {
 				return err
@@ -226,6 +237,8 @@ func (b *tables) stats() string {
 	res += "==============\n"
 	res += fmt.Sprintf("# of GC:    %d\n", len(b.gcstat.history))
 	if _DEBUG {
+		b.refmutex.Lock()
+		defer b.refmutex.Unlock()
 		allocated := int(b.gcstat.setfinalizers)
 		reclaimed := int(b.gcstat.calledfinalizers)
 		for _, g := range b.gcstat.history {
diff --git a/hkernel.go b/hkernel.go
index acb53bb..081e3f5 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -29,6 +29,8 @@ func (b *tables) Retnode(n int) Node {
 		return bddone
 	}
 	x := n
+	b.Lock()
+	defer b.Unlock()
 	if b.nodes[n].refcou < _MAXREFCOUNT {
 		b.nodes[n].refcou++
 		runtime.SetFinalizer(&x, b.nodefinalizer)
@@ -94,6 +96,7 @@ func (b *tables) gbc(refstack []int) {
 	// runtime.GC()
 
 	// we append the current stats to the GC history
+	b.Lock()
 	if _DEBUG {
 		b.gcstat.history = append(b.gcstat.history, gcpoint{
 			nodes:            len(b.nodes),
@@ -112,6 +115,7 @@ func (b *tables) gbc(refstack []int) {
 			freenodes: b.freenum,
 		})
 	}
+	b.Unlock()
 	// we mark the nodes in the refstack to avoid collecting them
 	for _, r := range refstack {
 		b.markrec(int(r))
@@ -119,7 +123,7 @@ func (b *tables) gbc(refstack []int) {
 	// we also protect nodes with a positive refcount (and therefore also the
 	// ones with a MAXREFCOUNT, such has variables)
 	for k := range b.nodes {
-		if b.nodes[k].refcou > 0 {
+		if b.isreferenced(k) {
 			b.markrec(k)
 		}
 	}
@@ -176,9 +180,12 @@ func (b *tables) noderesize() error {
 		return errMemory
 	}
 
+	// finalizers should not update the reference counts while we copy them
+	b.Lock()
 	tmp := b.nodes
 	b.nodes = make([]huddnode, nodesize)
 	copy(b.nodes, tmp)
+	b.Unlock()
 
 	for n := oldsize; n < nodesize; n++ {
 		b.nodes[n].refcou = 0
diff --git a/hudd.go b/hudd.go
index 2cb0fba..071a068 100644
--- a/hudd.go
+++ b/hudd.go
@@ -43,6 +43,12 @@ type huddnode struct {
 	refcou int32 // Count the number of external references
 }
 
+func (b *tables) isreferenced(n int) bool {
+	b.RLock()
+	defer b.RUnlock()
+	return b.nodes[n].refcou > 0
+}
+
 func (b *tables) ismarked(n int) bool {
 	b.RLock()
 	defer b.RUnlock()
-- 
2.43.0


From 91a3a247185ac82fcd973d61a0188482931f12e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 17/28] fix: Maxnodesize was ignored, and a failed allocation
 corrupted the current operation

---
 bdd.go        | 13 +++++++++++++
 bkernel.go    |  9 ++++-----
 buddy.go      |  1 +
 hkernel.go    |  7 +++----
 hudd.go       |  1 +
 operations.go | 21 +++++++++++++++++++++
 6 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/bdd.go b/bdd.go
index 4b24291..82fcb56 100644
--- a/bdd.go
+++ b/bdd.go
@@ -152,6 +152,7 @@ type BDD struct {
 	varnum   int32    // Number of BDD variables.
 	varset   [][2]int // Set of variables used for Ithvar and NIthvar: we have a pair for each variable for its positive and negative occurrence
 	refstack []int    // Internal node reference stack, used to avoid collecting nodes while they are being processed.
+	failed   bool     // True if the current operation failed and must be abandoned, see Initref.
 	error             // Error status: we use nil Nodes to signal a problem and store the error in this field. This help chain operations together.
 	caches            // Set of caches used for the operations in the BDD
 	*tables           // Underlying struct that encapsulates the list of nodes
@@ -167,10 +168,21 @@ func (b *BDD) Varnum() int {
 // exist or creates a new one in the BDD. You can create a node from the value
 // returned by Makenode using function Retnode.
 func (b *BDD) Makenode(level int32, low, high int) int {
+	if low < 0 || high < 0 {
+		// the computation of one of the children failed
+		return -1
+	}
 	res, err := b.tables.makenode(level, low, high, b.refstack)
 	if err == nil {
 		return res
 	}
+	if err == errMemory {
+		// we did a garbage collection before failing
+		b.cachereset()
+		b.failed = true
+		b.seterror("%s", err)
+		return -1
+	}
 	if err == errReset {
 		// FIXME: we do not need to invalidate the cache for a reset when we use
 		// the Hudd implementation because the hash does not change. On the
@@ -202,6 +214,7 @@ type caches struct {
 // Initref in a function that creates new nodes.
 func (b *BDD) Initref() {
 	b.refstack = b.refstack[:0]
+	b.failed = false
 }
 
 // Pushref is a kernel function of the BDD package. Use it at your own risk.
diff --git a/bkernel.go b/bkernel.go
index b02340a..55d63c6 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -18,7 +18,7 @@ import (
 func (b *tables) Retnode(n int) Node {
 	if n < 0 || n >= len(b.nodes) {
 		if _DEBUG {
-			log.Panicf("unexpected error; b.retnode(%d) not valid\n", n)
+			log.Printf("unexpected error; b.retnode(%d) not valid\n", n)
 		}
 		return nil
 	}
@@ -80,11 +80,10 @@ func (b *tables) makenode(level int32, low, high int, refstack []int) (int, erro
 		err = errReset
 		// We also test if we are under the threshold for resising.
 		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
-			err = b.noderesize()
-			if err != errResize {
-				return -1, errMemory
+			if b.noderesize() == errResize {
+				err = errResize
+				hash = b.nodehash(level, low, high)
 			}
-			hash = b.nodehash(level, low, high)
 		}
 		// Panic if we still have no free positions after all this
 		if b.freepos == 0 {
diff --git a/buddy.go b/buddy.go
index fda964b..6fd0958 100644
--- a/buddy.go
+++ b/buddy.go
@@ -102,6 +102,7 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	b.error = nil
 	impl := &tables{}
 	impl.minfreenodes = config.minfreenodes
+	impl.maxnodesize = config.maxnodesize
 	impl.maxnodeincrease = config.maxnodeincrease
 	nodesize := primeGte(config.nodesize)
 	impl.nodes = make([]buddynode, nodesize)
diff --git a/hkernel.go b/hkernel.go
index 081e3f5..908ea9b 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -18,7 +18,7 @@ import (
 func (b *tables) Retnode(n int) Node {
 	if n < 0 || n >= len(b.nodes) {
 		if _DEBUG {
-			log.Panicf("b.retnode(%d) not valid\n", n)
+			log.Printf("b.retnode(%d) not valid\n", n)
 		}
 		return nil
 	}
@@ -72,9 +72,8 @@ func (b *tables) makenode(level int32, low int, high int, refstack []int) (int,
 		err = errReset
 		// We also test if we are under the threshold for resising.
 		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
-			err = b.noderesize()
-			if err != errResize {
-				return -1, errMemory
+			if b.noderesize() == errResize {
+				err = errResize
 			}
 		}
 		// Panic if we still have no free positions after all this
diff --git a/hudd.go b/hudd.go
index 071a068..259ac1d 100644
--- a/hudd.go
+++ b/hudd.go
@@ -100,6 +100,7 @@ func New(varnum int, options ...func(*configs)) (*BDD, error) {
 	b.error = nil
 	impl := &tables{}
 	impl.minfreenodes = config.minfreenodes
+	impl.maxnodesize = config.maxnodesize
 	impl.maxnodeincrease = config.maxnodeincrease
 	// initializing the list of nodes
 	nodesize := config.nodesize
diff --git a/operations.go b/operations.go
index 247b05c..2b0a960 100644
--- a/operations.go
+++ b/operations.go
@@ -129,6 +129,9 @@ func (b *BDD) Not(n Node) Node {
 }
 
 func (b *BDD) not(n int) int {
+	if b.failed {
+		return -1
+	}
 	if n == 0 {
 		return 1
 	}
@@ -178,6 +181,9 @@ func (b *BDD) Apply(n1, n2 Node, op Operator) Node {
 }
 
 func (b *BDD) apply(left int, right int) int {
+	if b.failed {
+		return -1
+	}
 	switch Operator(b.applycache.op) {
 	case OPand:
 		if left == right {
@@ -373,6 +379,9 @@ func min3(p, q, r int32) int32 {
 }
 
 func (b *BDD) ite(f, g, h int) int {
+	if b.failed {
+		return -1
+	}
 	switch {
 	case f == 1:
 		return g
@@ -434,6 +443,9 @@ func (b *BDD) Exist(n, varset Node) Node {
 }
 
 func (b *BDD) quant(n, varset int) int {
+	if b.failed {
+		return -1
+	}
 	if (n < 2) || (b.level(n) > b.quantlast) {
 		return n
 	}
@@ -495,6 +507,9 @@ func (b *BDD) AppEx(n1, n2 Node, op Operator, varset Node) Node {
 }
 
 func (b *BDD) appquant(left, right, varset int) int {
+	if b.failed {
+		return -1
+	}
 	switch Operator(b.appexcache.op) {
 	case OPand:
 		if left == 0 || right == 0 {
@@ -621,6 +636,9 @@ func (b *BDD) Replace(n Node, r Replacer) Node {
 }
 
 func (b *BDD) replace(n int, r Replacer) int {
+	if b.failed {
+		return -1
+	}
 	image, ok := r.Replace(b.level(n))
 	if !ok {
 		return n
@@ -636,6 +654,9 @@ func (b *BDD) replace(n int, r Replacer) int {
 }
 
 func (b *BDD) correctify(level int32, low, high int) int {
+	if b.failed {
+		return -1
+	}
 	/* FIXME: we do not use the cache here */
 	if (level < b.level(low)) && (level < b.level(high)) {
 		return b.Makenode(level, low, high)
-- 
2.43.0


From 9a5bbeadb44a32f2eba3772d5d5a3cb0ccfa5f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 18/28] fix: Replace continued with invalid nodes after a
 conflict between variables

---
 operations.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/operations.go b/operations.go
index 2b0a960..978b817 100644
--- a/operations.go
+++ b/operations.go
@@ -664,6 +664,7 @@ func (b *BDD) correctify(level int32, low, high int) int {
 
 	if (level == b.level(low)) || (level == b.level(high)) {
 		b.seterror("error in replace level (%d) == low (%d:%d) or high (%d:%d)", level, low, b.level(low), high, b.level(high))
+		b.failed = true
 		return -1
 	}
 
-- 
2.43.0


From 7c3b033e937d2f8d4ef03ee04955ad935007e3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:30 +0000
Subject: [PATCH 19/28] fix: Replace took exponential time when it changes the
 order of variables

---
 bdd.go        |  1 +
 cache.go      | 29 +++++++++++++++++++++++++++++
 operations.go | 12 ++++++++----
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/bdd.go b/bdd.go
index 82fcb56..a4b1000 100644
--- a/bdd.go
+++ b/bdd.go
@@ -205,6 +205,7 @@ type caches struct {
 	*quantcache   // Cache for exist/forall results
 	*appexcache   // Cache for AppEx results
 	*replacecache // Cache for Replace results
+	*correctcache // Cache for reordering nodes in Replace
 }
 
 // Initref is a kernel function of the BDD package. Use it at your own risk.
diff --git a/cache.go b/cache.go
index cdb727c..8f6d816 100644
--- a/cache.go
+++ b/cache.go
@@ -130,6 +130,8 @@ func (b *BDD) cacheinit(c *configs) {
 	b.appexcache.init(size, c.cacheratio)
 	b.replacecache = &replacecache{}
 	b.replacecache.init(size, c.cacheratio)
+	b.correctcache = &correctcache{}
+	b.correctcache.init(size, c.cacheratio)
 }
 
 func (b *BDD) cachereset() {
@@ -138,6 +140,7 @@ func (b *BDD) cachereset() {
 	b.quantcache.reset()
 	b.appexcache.reset()
 	b.replacecache.reset()
+	b.correctcache.reset()
 }
 
 func (b *BDD) cacheresize(nodesize int) {
@@ -146,6 +149,7 @@ func (b *BDD) cacheresize(nodesize int) {
 	b.quantcache.resize(nodesize)
 	b.appexcache.resize(nodesize)
 	b.replacecache.resize(nodesize)
+	b.correctcache.resize(nodesize)
 }
 
 //
@@ -390,3 +394,28 @@ func (bc replacecache) String() string {
 	res += fmt.Sprintf(" Operator Miss: %d\n", bc.opMiss)
 	return res
 }
+
+// The hash function for correctify is #(low, high, level). The result does not
+// depend on the replacer.
+
+type correctcache struct {
+	data4ncache // Cache for reordering nodes during a replace
+}
+
+func (bc *correctcache) matchcorrect(level int32, low, high int) int {
+	entry := bc.table[_TRIPLE(low, high, int(level), len(bc.table))]
+	if entry.a == low && entry.b == high && entry.c == int(level) {
+		return entry.res
+	}
+	return -1
+}
+
+func (bc *correctcache) setcorrect(level int32, low, high, res int) int {
+	bc.table[_TRIPLE(low, high, int(level), len(bc.table))] = data4n{
+		a:   low,
+		b:   high,
+		c:   int(level),
+		res: res,
+	}
+	return res
+}
diff --git a/operations.go b/operations.go
index 978b817..6b47da3 100644
--- a/operations.go
+++ b/operations.go
@@ -657,7 +657,6 @@ func (b *BDD) correctify(level int32, low, high int) int {
 	if b.failed {
 		return -1
 	}
-	/* FIXME: we do not use the cache here */
 	if (level < b.level(low)) && (level < b.level(high)) {
 		return b.Makenode(level, low, high)
 	}
@@ -668,12 +667,17 @@ func (b *BDD) correctify(level int32, low, high int) int {
 		return -1
 	}
 
+	// next we check if the operation is already in our cache
+	if res := b.matchcorrect(level, low, high); res >= 0 {
+		return res
+	}
+
 	if b.level(low) == b.level(high) {
 		left := b.Pushref(b.correctify(level, b.low(low), b.low(high)))
 		right := b.Pushref(b.correctify(level, b.high(low), b.high(high)))
 		res := b.Makenode(b.level(low), left, right)
 		b.Popref(2)
-		return res
+		return b.setcorrect(level, low, high, res)
 	}
 
 	if b.level(low) < b.level(high) {
@@ -681,14 +685,14 @@ func (b *BDD) correctify(level int32, low, high int) int {
 		right := b.Pushref(b.correctify(level, b.high(low), high))
 		res := b.Makenode(b.level(low), left, right)
 		b.Popref(2)
-		return res
+		return b.setcorrect(level, low, high, res)
 	}
 
 	left := b.Pushref(b.correctify(level, low, b.low(high)))
 	right := b.Pushref(b.correctify(level, low, b.high(high)))
 	res := b.Makenode(b.level(high), left, right)
 	b.Popref(2)
-	return res
+	return b.setcorrect(level, low, high, res)
 }
 
 // Satcount computes the number of satisfying variable assignments for the
-- 
2.43.0


From d7c45e24bea05c151365e5146af08ec2565b4f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 20/28] fix: the default implementation did not compile on 32
 bits machines

---
 hudd.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/hudd.go b/hudd.go
index 259ac1d..c3a965f 100644
--- a/hudd.go
+++ b/hudd.go
@@ -178,19 +178,21 @@ func (b *tables) huddhash(level int32, low, high int) {
 	b.hbuff[6] = byte(low >> 16)
 	b.hbuff[7] = byte(low >> 24)
 	if huddsize == 20 {
-		// 64 bits machine
-		b.hbuff[8] = byte(low >> 32)
-		b.hbuff[9] = byte(low >> 40)
-		b.hbuff[10] = byte(low >> 48)
-		b.hbuff[11] = byte(low >> 56)
-		b.hbuff[12] = byte(high)
-		b.hbuff[13] = byte(high >> 8)
-		b.hbuff[14] = byte(high >> 16)
-		b.hbuff[15] = byte(high >> 24)
-		b.hbuff[16] = byte(high >> 32)
-		b.hbuff[17] = byte(high >> 40)
-		b.hbuff[18] = byte(high >> 48)
-		b.hbuff[19] = byte(high >> 56)
+		// 64 bits machine. We use a slice because these indices are constants
+		// that do not fit in the array on a 32 bits machine.
+		hbuff := b.hbuff[:]
+		hbuff[8] = byte(low >> 32)
+		hbuff[9] = byte(low >> 40)
+		hbuff[10] = byte(low >> 48)
+		hbuff[11] = byte(low >> 56)
+		hbuff[12] = byte(high)
+		hbuff[13] = byte(high >> 8)
+		hbuff[14] = byte(high >> 16)
+		hbuff[15] = byte(high >> 24)
+		hbuff[16] = byte(high >> 32)
+		hbuff[17] = byte(high >> 40)
+		hbuff[18] = byte(high >> 48)
+		hbuff[19] = byte(high >> 56)
 		return
 	}
 	// 32 bits machine
-- 
2.43.0


From ec26ba52753795812488237894e7f33b79c0589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 21/28] fix: debug builds panicked on 32 bits machines, because
 of the alignment of counters

---
 hudd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hudd.go b/hudd.go
index c3a965f..39d253d 100644
--- a/hudd.go
+++ b/hudd.go
@@ -21,6 +21,7 @@ import (
 // space but a benefit is that we can easily migrate to a concurrency-safe
 // hashmap if we want to test concurrent data structures.
 type tables struct {
+	gcstat // Information about garbage collections; first, so that its counters are 64-bit aligned on 32 bits machines
 	sync.RWMutex
 	nodes         []huddnode             // List of all the BDD nodes. Constants are always kept at index 0 and 1
 	unique        map[[huddsize]byte]int // Unicity table, used to associate each triplet to a single node
@@ -32,7 +33,6 @@ type tables struct {
 	uniqueAccess  int                    // accesses to the unique node table
 	uniqueHit     int                    // entries actually found in the the unique node table
 	uniqueMiss    int                    // entries not found in the the unique node table
-	gcstat                               // Information about garbage collections
 	configs                              // Configurable parameters
 }
 
-- 
2.43.0


From c03e35e3fc2c2b4ebd8aee492d8295362dd8c749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 22/28] fix: tables could not grow with a very large
 Maxnodeincrease, because of an overflow

---
 bkernel.go | 2 +-
 hkernel.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 55d63c6..62c9909 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -123,7 +123,7 @@ func (b *tables) noderesize() error {
 	} else {
 		nodesize = nodesize << 1
 	}
-	if b.maxnodeincrease > 0 && nodesize > (oldsize+b.maxnodeincrease) {
+	if b.maxnodeincrease > 0 && nodesize-oldsize > b.maxnodeincrease {
 		nodesize = oldsize + b.maxnodeincrease
 	}
 	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) {
diff --git a/hkernel.go b/hkernel.go
index 908ea9b..a5d648f 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -168,7 +168,7 @@ func (b *tables) noderesize() error {
 	} else {
 		nodesize = nodesize << 1
 	}
-	if b.maxnodeincrease > 0 && nodesize > (oldsize+b.maxnodeincrease) {
+	if b.maxnodeincrease > 0 && nodesize-oldsize > b.maxnodeincrease {
 		nodesize = oldsize + b.maxnodeincrease
 	}
 	if (nodesize > b.maxnodesize) && (b.maxnodesize > 0) {
-- 
2.43.0


From 69bcd4e4352b17868f9de590dd76b36c995e255a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 23/28] fix: percentages overflowed with large tables on 32
 bits machines

---
 bkernel.go | 2 +-
 cache.go   | 4 ++--
 hkernel.go | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bkernel.go b/bkernel.go
index 62c9909..22d2621 100644
--- a/bkernel.go
+++ b/bkernel.go
@@ -79,7 +79,7 @@ func (b *tables) makenode(level int32, low, high int, refstack []int) (int, erro
 		b.gbc(refstack)
 		err = errReset
 		// We also test if we are under the threshold for resising.
-		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
+		if int64(b.freenum)*100/int64(len(b.nodes)) <= int64(b.minfreenodes) {
 			if b.noderesize() == errResize {
 				err = errResize
 				hash = b.nodehash(level, low, high)
diff --git a/cache.go b/cache.go
index 8f6d816..4815fb6 100644
--- a/cache.go
+++ b/cache.go
@@ -63,7 +63,7 @@ func (bc *data4ncache) init(size, ratio int) {
 
 func (bc *data4ncache) resize(size int) {
 	if bc.ratio > 0 {
-		size = primeGte((size * bc.ratio) / 100)
+		size = primeGte(int(int64(size) * int64(bc.ratio) / 100))
 		bc.table = make([]data4n, size)
 	}
 	bc.reset()
@@ -98,7 +98,7 @@ func (bc *data3ncache) init(size, ratio int) {
 
 func (bc *data3ncache) resize(size int) {
 	if bc.ratio > 0 {
-		size = primeGte((size * bc.ratio) / 100)
+		size = primeGte(int(int64(size) * int64(bc.ratio) / 100))
 		bc.table = make([]data3n, size)
 	}
 	bc.reset()
diff --git a/hkernel.go b/hkernel.go
index a5d648f..c530a16 100644
--- a/hkernel.go
+++ b/hkernel.go
@@ -71,7 +71,7 @@ func (b *tables) makenode(level int32, low int, high int, refstack []int) (int,
 		b.gbc(refstack)
 		err = errReset
 		// We also test if we are under the threshold for resising.
-		if (b.freenum*100)/len(b.nodes) <= b.minfreenodes {
+		if int64(b.freenum)*100/int64(len(b.nodes)) <= int64(b.minfreenodes) {
 			if b.noderesize() == errResize {
 				err = errResize
 			}
-- 
2.43.0


From c3bf800abe623c9b4bbfb8b7aa2c449868cabda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:27 +0000
Subject: [PATCH 24/28] fix: Dot returned no error when the writer failed

---
 stdio.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/stdio.go b/stdio.go
index 04e3524..f1cf336 100644
--- a/stdio.go
+++ b/stdio.go
@@ -98,24 +98,42 @@ func (b *BDD) Dot(w io.Writer, n ...Node) error {
 	}
 	// we write the result by visiting each node but we never draw edges to the
 	// False constant.
-	fmt.Fprintln(w, "digraph G {")
-	fmt.Fprintln(w, "1 [shape=box, label=\"1\", style=filled, shape=box, height=0.3, width=0.3];")
+	ew := &errWriter{w: w}
+	fmt.Fprintln(ew, "digraph G {")
+	fmt.Fprintln(ew, "1 [shape=box, label=\"1\", style=filled, shape=box, height=0.3, width=0.3];")
 	err := b.Allnodes(func(id, level, low, high int) error {
 		if id > 1 {
-			fmt.Fprintf(w, "%d %s\n", id, dotlabel(id, level))
+			fmt.Fprintf(ew, "%d %s\n", id, dotlabel(id, level))
 			if low != 0 {
-				fmt.Fprintf(w, "%d -> %d [style=dotted];\n", id, low)
+				fmt.Fprintf(ew, "%d -> %d [style=dotted];\n", id, low)
 			}
 			if high != 0 {
-				fmt.Fprintf(w, "%d -> %d [style=filled];\n", id, high)
+				fmt.Fprintf(ew, "%d -> %d [style=filled];\n", id, high)
 			}
 		}
-		return nil
+		return ew.err
 	}, n...)
-	fmt.Fprintln(w, "}")
+	fmt.Fprintln(ew, "}")
+	if err == nil {
+		err = ew.err
+	}
 	return err
 }
 
+// errWriter remembers the first error returned by w, after which it writes
+// nothing more.
+type errWriter struct {
+	w   io.Writer
+	err error
+}
+
+func (e *errWriter) Write(p []byte) (n int, err error) {
+	if e.err == nil {
+		n, e.err = e.w.Write(p)
+	}
+	return n, e.err
+}
+
 func dotlabel(a int, b int) string {
 	return fmt.Sprintf(`[label=<
 	<FONT POINT-SIZE="20">%d</FONT>
-- 
2.43.0


From a6d4a38362608e2b8ba2c1321075b946617d9718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:59 +0000
Subject: [PATCH 25/28] fix: And and Or of one invalid node did not report an
 error

---
 bdd.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bdd.go b/bdd.go
index a4b1000..29a89bf 100644
--- a/bdd.go
+++ b/bdd.go
@@ -331,6 +331,9 @@ func (b *BDD) High(n Node) Node {
 // computes the intersection of a sequence of Boolean vectors.
 func (b *BDD) And(n ...Node) Node {
 	if len(n) == 1 {
+		if b.checkptr(n[0]) != nil {
+			return b.seterror("Wrong operand in call to And")
+		}
 		return n[0]
 	}
 	if len(n) == 0 {
@@ -343,6 +346,9 @@ func (b *BDD) And(n ...Node) Node {
 // the union of a sequence of Boolean vectors.
 func (b *BDD) Or(n ...Node) Node {
 	if len(n) == 1 {
+		if b.checkptr(n[0]) != nil {
+			return b.seterror("Wrong operand in call to Or")
+		}
 		return n[0]
 	}
 	if len(n) == 0 {
-- 
2.43.0


From ae83c3fa73699872c66bd4314ff1b62bed11083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:59 +0000
Subject: [PATCH 26/28] fix: Replace panicked with the nil replacer returned by
 NewReplacer on errors

---
 operations.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operations.go b/operations.go
index 6b47da3..d09f089 100644
--- a/operations.go
+++ b/operations.go
@@ -627,6 +627,9 @@ func (b *BDD) Replace(n Node, r Replacer) Node {
 	if b.checkptr(n) != nil {
 		return b.seterror("wrong operand in call to Replace")
 	}
+	if r == nil {
+		return b.seterror("nil replacer in call to Replace")
+	}
 	b.Initref()
 	b.Pushref(*n)
 	b.replacecache.id = r.Id()
-- 
2.43.0


From 375bf158062e3fe75cd4223ba443e021e8828978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:18 +0000
Subject: [PATCH 27/28] fix: malformed error messages (missing operator,
 messages used as formats)

---
 errors.go     | 3 +--
 operations.go | 4 ++--
 operator.go   | 5 +++++
 stdio.go      | 2 +-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/errors.go b/errors.go
index 7db6976..95de5e5 100644
--- a/errors.go
+++ b/errors.go
@@ -24,8 +24,7 @@ func (b *BDD) Errored() bool {
 
 func (b *BDD) seterror(format string, a ...interface{}) Node {
 	if b.error != nil {
-		format = format + "; " + b.Error()
-		b.error = fmt.Errorf(format, a...)
+		b.error = fmt.Errorf("%s; %s", fmt.Sprintf(format, a...), b.Error())
 		return nil
 	}
 	b.error = fmt.Errorf(format, a...)
diff --git a/operations.go b/operations.go
index d09f089..ab0ff82 100644
--- a/operations.go
+++ b/operations.go
@@ -475,7 +475,7 @@ func (b *BDD) quant(n, varset int) int {
 func (b *BDD) AppEx(n1, n2 Node, op Operator, varset Node) Node {
 	// FIXME: should check that op is a binary operation
 	if int(op) > 3 {
-		return b.seterror("operator %s not supported in call to AppEx")
+		return b.seterror("operator %s not supported in call to AppEx", op)
 	}
 	if b.checkptr(varset) != nil {
 		return b.seterror("wrong varset in call to AppEx")
@@ -559,7 +559,7 @@ func (b *BDD) appquant(left, right, varset int) int {
 		// OPnot and OPsimplify should not be used in apply.
 		//
 		// FIXME: we are raising an error for other operations that would be OK.
-		b.seterror("unauthorized operation (%s) in AppEx", b.applycache.op)
+		b.seterror("unauthorized operation (%s) in AppEx", Operator(b.appexcache.op))
 		return -1
 	}
 
diff --git a/operator.go b/operator.go
index 55a5627..83a7fcf 100644
--- a/operator.go
+++ b/operator.go
@@ -4,6 +4,8 @@
 
 package rudd
 
+import "fmt"
+
 // Operator describe the potential (binary) operations available on an Apply.
 // Only the first four operators (from OPand to OPnand) can be used in AppEx.
 type Operator int
@@ -39,6 +41,9 @@ var opnames = [12]string{
 }
 
 func (op Operator) String() string {
+	if op < 0 || int(op) >= len(opnames) {
+		return fmt.Sprintf("Operator(%d)", int(op))
+	}
 	return opnames[op]
 }
 
diff --git a/stdio.go b/stdio.go
index f1cf336..213e694 100644
--- a/stdio.go
+++ b/stdio.go
@@ -94,7 +94,7 @@ func printSet(w io.Writer, nodes [][4]int) {
 func (b *BDD) Dot(w io.Writer, n ...Node) error {
 	if mesg := b.Error(); mesg != "" {
 		fmt.Fprintf(w, "Error: %s\n", mesg)
-		return fmt.Errorf(mesg)
+		return fmt.Errorf("%s", mesg)
 	}
 	// we write the result by visiting each node but we never draw edges to the
 	// False constant.
-- 
2.43.0


From 3d1643f21f9a00cdf956f9cbc768e0288e0dfeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:39 +0000
Subject: [PATCH 28/28] fix: the error status grew with every call rejected
 after an error

---
 errors.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/errors.go b/errors.go
index 95de5e5..4141c35 100644
--- a/errors.go
+++ b/errors.go
@@ -9,6 +9,9 @@ import (
 	"log"
 )
 
+// _MAXERRORLEN is the length after which we do not add to the error status.
+const _MAXERRORLEN = 4096
+
 // Error returns the error status of the BDD.
 func (b *BDD) Error() string {
 	if b.error == nil {
@@ -24,7 +27,11 @@ func (b *BDD) Errored() bool {
 
 func (b *BDD) seterror(format string, a ...interface{}) Node {
 	if b.error != nil {
-		b.error = fmt.Errorf("%s; %s", fmt.Sprintf(format, a...), b.Error())
+		// calls may go on for a long time after an error, so we stop adding
+		// messages at some point
+		if mesg := b.Error(); len(mesg) < _MAXERRORLEN {
+			b.error = fmt.Errorf("%s; %s", fmt.Sprintf(format, a...), mesg)
+		}
 		return nil
 	}
 	b.error = fmt.Errorf(format, a...)
-- 
2.43.0

