From d8e9603ec16fdb3c72f14168a8a64a1948dc21cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:34 +0000
Subject: [PATCH 01/18] fix: do not take the read lock again while holding it
 in Value

A metric's Value held the read lock and called accessors that take it
again; with a writer waiting in between, both wait for each other forever.
---
 joint/corr.go        |  6 +++---
 joint/cov.go         |  4 ++--
 joint/ewmcorr.go     |  6 +++---
 moment/ewma.go       |  2 +-
 moment/kurtosis.go   |  6 +++---
 moment/mean.go       |  2 +-
 moment/moment.go     | 10 ++++++++--
 moment/skewness.go   |  6 +++---
 quantile/iqr.go      |  4 ++--
 quantile/quantile.go |  5 +++++
 10 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/joint/corr.go b/joint/corr.go
index 6d28b68..2b35b65 100644
--- a/joint/corr.go
+++ b/joint/corr.go
@@ -86,18 +86,18 @@ func (corr *Corr) Value() (float64, error) {
 	// the sample size (minus 1), but the denominator is cancelled out
 	// when dividing by the sqrt of the variances, so we can avoid extra
 	// float ops here
-	cov, err := corr.core.Sum(1, 1)
+	cov, err := corr.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {1, 1}")
 	}
 
 	// ditto with the "variance" variables here, as with above
-	xVar, err := corr.core.Sum(2, 0)
+	xVar, err := corr.core.UnsafeSum(2, 0)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {2, 0}")
 	}
 
-	yVar, err := corr.core.Sum(0, 2)
+	yVar, err := corr.core.UnsafeSum(0, 2)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
diff --git a/joint/cov.go b/joint/cov.go
index 127dea1..f48e487 100644
--- a/joint/cov.go
+++ b/joint/cov.go
@@ -77,12 +77,12 @@ func (cov *Cov) Value() (float64, error) {
 	cov.core.RLock()
 	defer cov.core.RUnlock()
 
-	covariance, err := cov.core.Sum(1, 1)
+	covariance, err := cov.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
 
-	count := cov.core.Count()
+	count := cov.core.UnsafeCount()
 	covariance /= (float64(count) - 1.)
 
 	return covariance, nil
diff --git a/joint/ewmcorr.go b/joint/ewmcorr.go
index fbd5d48..7009d35 100644
--- a/joint/ewmcorr.go
+++ b/joint/ewmcorr.go
@@ -83,18 +83,18 @@ func (corr *EWMCorr) Value() (float64, error) {
 	// the sample size (minus 1), but the denominator is cancelled out
 	// when dividing by the sqrt of the variances, so we can avoid extra
 	// float ops here
-	cov, err := corr.core.Sum(1, 1)
+	cov, err := corr.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {1, 1}")
 	}
 
 	// ditto with the "variance" variables here, as with above
-	xVar, err := corr.core.Sum(2, 0)
+	xVar, err := corr.core.UnsafeSum(2, 0)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {2, 0}")
 	}
 
-	yVar, err := corr.core.Sum(0, 2)
+	yVar, err := corr.core.UnsafeSum(0, 2)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
diff --git a/moment/ewma.go b/moment/ewma.go
index f3805f6..83bffd5 100644
--- a/moment/ewma.go
+++ b/moment/ewma.go
@@ -66,7 +66,7 @@ func (a *EWMA) Value() (float64, error) {
 	a.core.RLock()
 	defer a.core.RUnlock()
 
-	ewma, err := a.core.Mean()
+	ewma, err := a.core.UnsafeMean()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
diff --git a/moment/kurtosis.go b/moment/kurtosis.go
index 2a3c382..d512f5d 100644
--- a/moment/kurtosis.go
+++ b/moment/kurtosis.go
@@ -84,17 +84,17 @@ func (k *Kurtosis) Value() (float64, error) {
 	k.core.RLock()
 	defer k.core.RUnlock()
 
-	count := float64(k.core.Count())
+	count := float64(k.core.UnsafeCount())
 	if count == 0 {
 		return 0, errors.New("no values seen yet")
 	}
 
-	variance, err := k.variance.Value()
+	variance, err := k.variance.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
 
-	moment, err := k.moment4.Value()
+	moment, err := k.moment4.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 4th moment")
 	}
diff --git a/moment/mean.go b/moment/mean.go
index 3afbb49..11f68da 100644
--- a/moment/mean.go
+++ b/moment/mean.go
@@ -69,7 +69,7 @@ func (m *Mean) Value() (float64, error) {
 	m.core.RLock()
 	defer m.core.RUnlock()
 
-	mean, err := m.core.Mean()
+	mean, err := m.core.UnsafeMean()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
diff --git a/moment/moment.go b/moment/moment.go
index c411185..92b1335 100644
--- a/moment/moment.go
+++ b/moment/moment.go
@@ -78,12 +78,18 @@ func (m *Moment) Value() (float64, error) {
 	m.core.RLock()
 	defer m.core.RUnlock()
 
-	moment, err := m.core.Sum(m.k)
+	return m.unsafeValue()
+}
+
+// unsafeValue returns the value of the kth sample central moment,
+// but does not lock. The caller must already hold the core's lock.
+func (m *Moment) unsafeValue() (float64, error) {
+	moment, err := m.core.UnsafeSum(m.k)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
 
-	count := m.core.Count()
+	count := m.core.UnsafeCount()
 	moment /= (float64(count) - 1.)
 
 	return moment, nil
diff --git a/moment/skewness.go b/moment/skewness.go
index 57e922f..71efe51 100644
--- a/moment/skewness.go
+++ b/moment/skewness.go
@@ -84,18 +84,18 @@ func (s *Skewness) Value() (float64, error) {
 	s.core.RLock()
 	defer s.core.RUnlock()
 
-	count := float64(s.core.Count())
+	count := float64(s.core.UnsafeCount())
 	if count == 0 {
 		return 0, errors.New("no values seen yet")
 	}
 
-	variance, err := s.variance.Value()
+	variance, err := s.variance.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
 	variance *= (count - 1) / count
 
-	moment, err := s.moment3.Value()
+	moment, err := s.moment3.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 3rd moment")
 	}
diff --git a/quantile/iqr.go b/quantile/iqr.go
index 334037e..6145bd7 100644
--- a/quantile/iqr.go
+++ b/quantile/iqr.go
@@ -48,12 +48,12 @@ func (i *IQR) Value() (float64, error) {
 	i.quantile.RLock()
 	defer i.quantile.RUnlock()
 
-	q25, err := i.quantile.Value(0.25)
+	q25, err := i.quantile.unsafeValue(0.25)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 1st quartile")
 	}
 
-	q75, err := i.quantile.Value(0.75)
+	q75, err := i.quantile.unsafeValue(0.75)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 3rd quartile")
 	}
diff --git a/quantile/quantile.go b/quantile/quantile.go
index 47170f9..e16e1c2 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -98,7 +98,12 @@ func (q *Quantile) Value(quantile float64) (float64, error) {
 
 	q.mux.RLock()
 	defer q.mux.RUnlock()
+	return q.unsafeValue(quantile)
+}
 
+// unsafeValue returns the value of the quantile, but does not lock.
+// The caller must already hold the lock, and quantile must lie in (0, 1).
+func (q *Quantile) unsafeValue(quantile float64) (float64, error) {
 	size := int(q.statistic.Size())
 	if size == 0 {
 		return 0, errors.New("no values seen yet")
-- 
2.43.0


From 9e14645aa5e3141521a8c4ebe5c3c6a3646894b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:31 +0000
Subject: [PATCH 02/18] fix: do not grow a shared factorial table without
 synchronisation

factorial appended to a package-level slice; cores of different metrics
calling it from different goroutines raced on it (and could index past
the end or read a wrong product).
---
 util/math/math.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/util/math/math.go b/util/math/math.go
index 6a17a4e..5ef775b 100644
--- a/util/math/math.go
+++ b/util/math/math.go
@@ -1,14 +1,12 @@
 package math
 
-var factorials = []int{1, 1, 2, 6, 24, 120, 720, 5040}
-
 func factorial(n int) int {
-	for n >= len(factorials) {
-		next := factorials[len(factorials)-1] * len(factorials)
-		factorials = append(factorials, next)
+	result := 1
+	for i := 2; i <= n; i++ {
+		result *= i
 	}
 
-	return factorials[n]
+	return result
 }
 
 // Sign returns the sign of an integer (-1 if negative, 1 otherwise).
-- 
2.43.0


From 790da86d7ea4360e8ffe94ea6b3772d6ad57eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:44 +0000
Subject: [PATCH 03/18] fix: compute binomial coefficients without overflowing
 factorials

Power sums of order 21 and above used factorials that overflow an int,
which made moments of those orders wrong (or panic on a zero divisor).
---
 util/math/math.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/math/math.go b/util/math/math.go
index 5ef775b..90c2f99 100644
--- a/util/math/math.go
+++ b/util/math/math.go
@@ -24,5 +24,12 @@ func Binom(n, k int) int {
 		return 1
 	}
 
-	return factorial(n) / (factorial(k) * factorial(n-k))
+	// multiply up step by step instead of dividing factorials, which
+	// overflow an int from 21! on
+	result := 1
+	for i := 1; i <= k; i++ {
+		result = result * (n - k + i) / i
+	}
+
+	return result
 }
-- 
2.43.0


From 6f0cca041501a7e123f6eb25ec664b35cd4206f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:31 +0000
Subject: [PATCH 04/18] fix: keep HeapMedian's heaps and window queue in step

When the window was full, rebalancing made the queue remember the moved
item instead of the new one (so a wrong value was evicted later), a value
below the low heap's top could be left in the high heap and vice versa,
and a window of 1 peeked into an empty heap and panicked.
---
 quantile/heap_median.go | 50 +++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/quantile/heap_median.go b/quantile/heap_median.go
index 76550a7..849e7a0 100644
--- a/quantile/heap_median.go
+++ b/quantile/heap_median.go
@@ -65,7 +65,6 @@ func (m *HeapMedian) Push(x float64) error {
 	m.mux.Lock()
 	defer m.mux.Unlock()
 
-	var item *heap.Item
 	// if queue is full, we need to remove old item
 	if m.window != 0 && m.queue.Len() == uint64(m.window) {
 		tail, err := m.queue.Get()
@@ -73,34 +72,26 @@ func (m *HeapMedian) Push(x float64) error {
 			return errors.Wrap(err, "error popping item from queue")
 		}
 
-		item = tail.(*heap.Item)
-		low := item.HeapID == m.lowHeap.ID
-		switch {
-		// if new/old items are in the same heap, just replace the old item
-		case low && x <= m.lowHeap.Peek():
-			m.lowHeap.Update(item, x)
-		case !low && x > m.lowHeap.Peek():
-			m.highHeap.Update(item, x)
-		// otherwise, remove old item and push new value to other heap
-		case low && x > m.lowHeap.Peek():
+		item := tail.(*heap.Item)
+		if item.HeapID == m.lowHeap.ID {
 			m.lowHeap.Remove(item)
-			item.Val = x
-			heapops.Push(m.highHeap, item)
-		default:
+		} else {
 			m.highHeap.Remove(item)
-			item.Val = x
-			heapops.Push(m.lowHeap, item)
 		}
-		item = m.rebalance(item)
+		m.rebalance()
+	}
+
+	item := &heap.Item{Val: x}
+	// after rebalancing, either heap may be the empty one if only
+	// a single value is left, so compare against whichever is not
+	if m.highHeap.Len() > 0 && x >= m.highHeap.Peek() {
+		heapops.Push(m.highHeap, item)
+	} else if m.lowHeap.Len() > 0 && x > m.lowHeap.Peek() {
+		heapops.Push(m.highHeap, item)
 	} else {
-		item = &heap.Item{Val: x}
-		if m.lowHeap.Len() == 0 || x <= m.lowHeap.Peek() {
-			heapops.Push(m.lowHeap, item)
-		} else {
-			heapops.Push(m.highHeap, item)
-		}
-		item = m.rebalance(item)
+		heapops.Push(m.lowHeap, item)
 	}
+	m.rebalance()
 
 	if m.window != 0 {
 		err := m.queue.Put(item)
@@ -112,15 +103,14 @@ func (m *HeapMedian) Push(x float64) error {
 	return nil
 }
 
-func (m *HeapMedian) rebalance(item *heap.Item) *heap.Item {
+// rebalance moves the top of the larger heap to the smaller one
+// if their sizes differ by more than 1.
+func (m *HeapMedian) rebalance() {
 	if m.lowHeap.Len()+1 < m.highHeap.Len() {
-		item = heapops.Pop(m.highHeap).(*heap.Item)
-		heapops.Push(m.lowHeap, item)
+		heapops.Push(m.lowHeap, heapops.Pop(m.highHeap))
 	} else if m.lowHeap.Len() > m.highHeap.Len()+1 {
-		item = heapops.Pop(m.lowHeap).(*heap.Item)
-		heapops.Push(m.highHeap, item)
+		heapops.Push(m.highHeap, heapops.Pop(m.lowHeap))
 	}
-	return item
 }
 
 // Value returns the value of the median.
-- 
2.43.0


From 9e332fa2d1f977f8c6f37cd875e23f65d196dcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:36 +0000
Subject: [PATCH 05/18] fix: remove an evicted sample from every joint sum
 exactly once

remove copied the new sums back after each tuple, so a sum shared by two
tuples (such as the marginals of a merged configuration) had the evicted
sample removed more than once.
---
 joint/core.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/joint/core.go b/joint/core.go
index cbb28b7..e80e7c0 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -320,10 +320,10 @@ func (c *Core) remove(xs ...float64) error {
 			if err != nil {
 				return errors.Wrapf(err, "error removing %v from sums for tuple %v", xs, tuple)
 			}
+		}
 
-			for hash, sum := range c.newSums {
-				c.sums[hash] = sum
-			}
+		for hash, sum := range c.newSums {
+			c.sums[hash] = sum
 		}
 	} else {
 		for i := range c.means {
-- 
2.43.0


From 779de6d9a014c8b5fcc24793e72bcf3e95e74772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:05 +0000
Subject: [PATCH 06/18] fix: copy the values that a windowed joint core keeps

Push(xs...) kept the caller's slice in the window, so reusing that slice
for the next push changed the values removed later on.
---
 joint/core.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/joint/core.go b/joint/core.go
index e80e7c0..3be733e 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -108,7 +108,8 @@ func (c *Core) UnsafePush(xs ...float64) error {
 			}
 		}
 
-		err := c.queue.Put(xs)
+		// xs may be a slice that the caller goes on to reuse
+		err := c.queue.Put(append([]float64{}, xs...))
 		if err != nil {
 			return errors.Wrapf(err, "error pushing %v to queue", xs)
 		}
-- 
2.43.0


From c73a58530bb3b3acb815c6fc575e7f3930cd1ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 07/18] fix: keep a windowed standard deviation from becoming
 NaN

Removing values from a window may leave a variance a rounding error below
zero, whose square root is NaN.
---
 moment/std.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/moment/std.go b/moment/std.go
index 7c694aa..066fb9f 100644
--- a/moment/std.go
+++ b/moment/std.go
@@ -68,6 +68,11 @@ func (s *Std) Value() (float64, error) {
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
+	// rounding may leave a tiny negative variance once values
+	// have been removed from the window
+	if variance < 0 {
+		variance = 0
+	}
 	return math.Sqrt(variance), nil
 }
 
-- 
2.43.0


From 87f48fb9c27a3b303f87c8209aebf561a705fcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:51 +0000
Subject: [PATCH 08/18] fix: measure skip list widths between nodes, not
 between values

Add stopped at the first node with an equal value when it computed the
width of a new node, so duplicates left wrong widths behind and Select
returned the wrong node, or none.
---
 quantile/skiplist/skiplist.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/quantile/skiplist/skiplist.go b/quantile/skiplist/skiplist.go
index cde2ca6..d5c7d3b 100644
--- a/quantile/skiplist/skiplist.go
+++ b/quantile/skiplist/skiplist.go
@@ -31,10 +31,6 @@ func (n *Node) Value() float64 {
 	return n.val
 }
 
-func (n *Node) equals(m *Node) bool {
-	return (n == nil && m == nil) || (n != nil && m != nil && n.val == m.val)
-}
-
 func (n *Node) string() string {
 	if n == nil {
 		return "tail"
@@ -129,7 +125,7 @@ func (s *SkipList) Add(val float64) {
 		prevs[i].width[i]++
 	}
 	for i := 1; i < level; i++ {
-		for curr := node; !curr.equals(node.next[i]); curr = curr.next[i-1] {
+		for curr := node; curr != node.next[i]; curr = curr.next[i-1] {
 			node.width[i] += curr.width[i-1]
 		}
 		prevs[i].width[i] -= node.width[i]
-- 
2.43.0


From 8dcdcccbb97fcf6d97dfc26a6914d6833295eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:55 +0000
Subject: [PATCH 09/18] fix: do not count duplicates of a value in its rank

Rank counted the whole left subtree of a node that holds the value, which
contains the duplicates of that value.
---
 quantile/ost/avl/node.go | 7 +++----
 quantile/ost/rb/node.go  | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/quantile/ost/avl/node.go b/quantile/ost/avl/node.go
index a51bf74..ab2e5ec 100644
--- a/quantile/ost/avl/node.go
+++ b/quantile/ost/avl/node.go
@@ -226,12 +226,11 @@ func (n *Node) Select(k int) order.Node {
 func (n *Node) Rank(val float64) int {
 	if n == nil {
 		return 0
-	} else if val < n.val {
+	} else if val <= n.val {
+		// the left subtree may hold duplicates of the value
 		return n.left.Rank(val)
-	} else if val > n.val {
-		return 1 + n.left.Size() + n.right.Rank(val)
 	}
-	return n.left.Size()
+	return 1 + n.left.Size() + n.right.Rank(val)
 }
 
 /*******************
diff --git a/quantile/ost/rb/node.go b/quantile/ost/rb/node.go
index a1e7b29..c17fa8c 100644
--- a/quantile/ost/rb/node.go
+++ b/quantile/ost/rb/node.go
@@ -272,12 +272,11 @@ func (n *Node) Select(k int) order.Node {
 func (n *Node) Rank(val float64) int {
 	if n == nil {
 		return 0
-	} else if val < n.val {
+	} else if val <= n.val {
+		// the left subtree may hold duplicates of the value
 		return n.left.Rank(val)
-	} else if val > n.val {
-		return 1 + n.left.Size() + n.right.Rank(val)
 	}
-	return n.left.Size()
+	return 1 + n.left.Size() + n.right.Rank(val)
 }
 
 /*******************
-- 
2.43.0


From 61b3650080bab8791573361c802c5195aab067aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:58 +0000
Subject: [PATCH 10/18] fix: remove the right duplicate from a red black tree

With duplicates, rotating during a removal could bring a node of equal
value to the top, and removing that one instead broke the tree's balance
and eventually dereferenced a nil node.
---
 quantile/ost/rb/node.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantile/ost/rb/node.go b/quantile/ost/rb/node.go
index c17fa8c..9f61490 100644
--- a/quantile/ost/rb/node.go
+++ b/quantile/ost/rb/node.go
@@ -118,10 +118,14 @@ func (n *Node) remove(val float64) *Node {
 		if val == n.val && n.right == nil {
 			return nil
 		}
+		// moveRedRight may rotate a duplicate of the value to the top; the
+		// node to remove is then still the one below it, as only the path
+		// down to that one has been prepared for a removal
+		m := n
 		if n.right.Color() == Black && n.right.left.Color() == Black {
 			n = n.moveRedRight()
 		}
-		if val == n.val {
+		if n == m && val == n.val {
 			x := n.right.min()
 			n.val = x.val
 			n.right = n.right.removeMin()
-- 
2.43.0


From 7b15133dc621ecd515600e268af49873d3db1636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:10 +0000
Subject: [PATCH 11/18] fix: do not append to the caller's slice of options

NewMedian and NewIQR appended in place, which overwrote an element of the
caller's array when the slice passed had spare capacity.
---
 quantile/iqr.go    | 2 ++
 quantile/median.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/quantile/iqr.go b/quantile/iqr.go
index 6145bd7..f062e6d 100644
--- a/quantile/iqr.go
+++ b/quantile/iqr.go
@@ -13,6 +13,8 @@ type IQR struct {
 
 // NewIQR instantiates an IQR struct.
 func NewIQR(window int, options ...Option) (*IQR, error) {
+	// copy the options, as appending in place could write to the caller's slice
+	options = append([]Option{}, options...)
 	quantile, err := New(window, append(options, InterpolationOption(Midpoint))...)
 	if err != nil {
 		return nil, errors.Wrap(err, "error creating Quantile")
diff --git a/quantile/median.go b/quantile/median.go
index f740fc6..6725ea7 100644
--- a/quantile/median.go
+++ b/quantile/median.go
@@ -15,6 +15,8 @@ type Median struct {
 // structure for tracking order statistics can be configured by passing in a constant
 // of type Impl.
 func NewMedian(window int, options ...Option) (*Median, error) {
+	// copy the options, as appending in place could write to the caller's slice
+	options = append([]Option{}, options...)
 	quantile, err := New(window, append(options, InterpolationOption(Midpoint))...)
 	if err != nil {
 		return nil, errors.Wrap(err, "error creating Quantile")
-- 
2.43.0


From 7e0420ac7fb9d734181e916e8f18fc6baedfc88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:32 +0000
Subject: [PATCH 12/18] fix: leave the configs passed to NewCore and
 MergeConfigs alone

NewCore set the caller's unset fields and kept its Decay and Sums, so a
config could not be reused and changing it later changed the core; merged
configs shared memory with the configs they were merged from.
---
 joint/config.go  | 32 ++++++++++++++++++++++++++++----
 moment/config.go | 29 ++++++++++++++++++++++++++---
 2 files changed, 54 insertions(+), 7 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index 766cdf1..09ddb5e 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -2,6 +2,8 @@ package joint
 
 import (
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // SumsConfig is an alias for a slice of Tuples; this configures
@@ -10,7 +12,7 @@ type SumsConfig []Tuple
 
 func (s1 *SumsConfig) add(s2 SumsConfig) {
 	for _, t := range s2 {
-		*s1 = append(*s1, t)
+		*s1 = append(*s1, append(Tuple{}, t...))
 	}
 }
 
@@ -30,13 +32,32 @@ var defaultConfig = &CoreConfig{
 	Decay:  nil,
 }
 
+// copy returns a copy of the config that shares no memory with it.
+func (c *CoreConfig) copy() *CoreConfig {
+	result := &CoreConfig{}
+	if c.Sums != nil {
+		result.Sums = SumsConfig{}
+		result.Sums.add(c.Sums)
+	}
+	if c.Window != nil {
+		result.Window = stream.IntPtr(*c.Window)
+	}
+	if c.Vars != nil {
+		result.Vars = stream.IntPtr(*c.Vars)
+	}
+	if c.Decay != nil {
+		result.Decay = stream.FloatPtr(*c.Decay)
+	}
+	return result
+}
+
 // MergeConfigs merges CoreConfig objects.
 func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 	switch len(configs) {
 	case 0:
 		return nil, errors.New("no configs available to merge")
 	case 1:
-		return configs[0], nil
+		return configs[0].copy(), nil
 	default:
 		var (
 			window *int
@@ -81,7 +102,7 @@ func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 		mergedConfig.Window = window
 		mergedConfig.Vars = vars
 		mergedConfig.Decay = decay
-		return mergedConfig, nil
+		return mergedConfig.copy(), nil
 	}
 }
 
@@ -197,8 +218,11 @@ func validateTuple(tuple Tuple, config *CoreConfig) error {
 }
 
 func setConfigDefaults(config *CoreConfig) *CoreConfig {
+	// the config is the caller's, so leave it as it is
+	config = config.copy()
+
 	if config.Sums == nil {
-		config.Sums = defaultConfig.Sums
+		config.Sums = SumsConfig{}
 	}
 
 	if config.Window == nil {
diff --git a/moment/config.go b/moment/config.go
index 7789c07..e95fe7e 100644
--- a/moment/config.go
+++ b/moment/config.go
@@ -2,6 +2,8 @@ package moment
 
 import (
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // CoreConfig is the struct containing configuration options for
@@ -28,13 +30,31 @@ func (s1 SumsConfig) add(s2 SumsConfig) {
 	}
 }
 
+// copy returns a copy of the config that shares no memory with it.
+func (c *CoreConfig) copy() *CoreConfig {
+	result := &CoreConfig{}
+	if c.Sums != nil {
+		result.Sums = SumsConfig{}
+		for k, v := range c.Sums {
+			result.Sums[k] = v
+		}
+	}
+	if c.Window != nil {
+		result.Window = stream.IntPtr(*c.Window)
+	}
+	if c.Decay != nil {
+		result.Decay = stream.FloatPtr(*c.Decay)
+	}
+	return result
+}
+
 // MergeConfigs merges CoreConfig objects.
 func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 	switch len(configs) {
 	case 0:
 		return nil, errors.New("no configs available to merge")
 	case 1:
-		return configs[0], nil
+		return configs[0].copy(), nil
 	default:
 		var (
 			window *int
@@ -68,7 +88,7 @@ func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 
 		mergedConfig.Window = window
 		mergedConfig.Decay = decay
-		return mergedConfig, nil
+		return mergedConfig.copy(), nil
 	}
 }
 
@@ -97,8 +117,11 @@ func validateConfig(config *CoreConfig) error {
 }
 
 func setConfigDefaults(config *CoreConfig) *CoreConfig {
+	// the config is the caller's, so leave it as it is
+	config = config.copy()
+
 	if config.Sums == nil {
-		config.Sums = defaultConfig.Sums
+		config.Sums = SumsConfig{}
 	}
 
 	if config.Window == nil {
-- 
2.43.0


From ec74b9a659d70e7ea74895872219c8bd101042a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:59 +0000
Subject: [PATCH 13/18] fix: return a fresh config from a metric's Config

The configs returned pointed into the metric, so changing one (as NewCore
and callers may do) changed the metric itself.
---
 joint/corr.go       | 4 +++-
 joint/cov.go        | 4 +++-
 joint/ewmcorr.go    | 2 +-
 joint/ewmcov.go     | 2 +-
 moment/ewma.go      | 2 +-
 moment/ewmmoment.go | 2 +-
 moment/kurtosis.go  | 2 +-
 moment/mean.go      | 4 +++-
 moment/moment.go    | 4 +++-
 moment/skewness.go  | 2 +-
 10 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/joint/corr.go b/joint/corr.go
index 2b35b65..fc279bc 100644
--- a/joint/corr.go
+++ b/joint/corr.go
@@ -5,6 +5,8 @@ import (
 	"math"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Corr is a metric that tracks the sample Pearson correlation coefficient.
@@ -42,7 +44,7 @@ func (corr *Corr) Config() *CoreConfig {
 			{2, 0},
 			{0, 2},
 		},
-		Window: &corr.window,
+		Window: stream.IntPtr(corr.window),
 	}
 }
 
diff --git a/joint/cov.go b/joint/cov.go
index f48e487..c6e2f7d 100644
--- a/joint/cov.go
+++ b/joint/cov.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Cov is a metric that tracks the sample covariance.
@@ -37,7 +39,7 @@ func (cov *Cov) IsSetCore() bool {
 func (cov *Cov) Config() *CoreConfig {
 	return &CoreConfig{
 		Sums:   SumsConfig{{1, 1}},
-		Window: &cov.window,
+		Window: stream.IntPtr(cov.window),
 	}
 }
 
diff --git a/joint/ewmcorr.go b/joint/ewmcorr.go
index 7009d35..7851220 100644
--- a/joint/ewmcorr.go
+++ b/joint/ewmcorr.go
@@ -39,7 +39,7 @@ func (corr *EWMCorr) Config() *CoreConfig {
 			{0, 2},
 		},
 		Window: stream.IntPtr(0),
-		Decay:  &corr.decay,
+		Decay:  stream.FloatPtr(corr.decay),
 	}
 }
 
diff --git a/joint/ewmcov.go b/joint/ewmcov.go
index 7c1f49e..f2e2e14 100644
--- a/joint/ewmcov.go
+++ b/joint/ewmcov.go
@@ -34,7 +34,7 @@ func (cov *EWMCov) Config() *CoreConfig {
 	return &CoreConfig{
 		Sums:   SumsConfig{{1, 1}},
 		Window: stream.IntPtr(0),
-		Decay:  &cov.decay,
+		Decay:  stream.FloatPtr(cov.decay),
 	}
 }
 
diff --git a/moment/ewma.go b/moment/ewma.go
index 83bffd5..3a34bb5 100644
--- a/moment/ewma.go
+++ b/moment/ewma.go
@@ -33,7 +33,7 @@ func (a *EWMA) IsSetCore() bool {
 func (a *EWMA) Config() *CoreConfig {
 	return &CoreConfig{
 		Window: stream.IntPtr(0),
-		Decay:  &a.decay,
+		Decay:  stream.FloatPtr(a.decay),
 	}
 }
 
diff --git a/moment/ewmmoment.go b/moment/ewmmoment.go
index 0549048..60d7cdd 100644
--- a/moment/ewmmoment.go
+++ b/moment/ewmmoment.go
@@ -42,7 +42,7 @@ func (m *EWMMoment) Config() *CoreConfig {
 		// weighting scheme that's used prevents weights from being
 		// updated in a time-efficient manner
 		Window: stream.IntPtr(0),
-		Decay:  &m.decay,
+		Decay:  stream.FloatPtr(m.decay),
 	}
 }
 
diff --git a/moment/kurtosis.go b/moment/kurtosis.go
index d512f5d..ae32ad3 100644
--- a/moment/kurtosis.go
+++ b/moment/kurtosis.go
@@ -52,7 +52,7 @@ func (k *Kurtosis) IsSetCore() bool {
 
 // Config returns the CoreConfig needed.
 func (k *Kurtosis) Config() *CoreConfig {
-	return k.config
+	return k.config.copy()
 }
 
 // String returns a string representation of the metric.
diff --git a/moment/mean.go b/moment/mean.go
index 11f68da..9b2fd76 100644
--- a/moment/mean.go
+++ b/moment/mean.go
@@ -4,6 +4,8 @@ import (
 	"fmt"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Mean is a metric that tracks the mean.
@@ -36,7 +38,7 @@ func (m *Mean) IsSetCore() bool {
 // Config returns the CoreConfig needed.
 func (m *Mean) Config() *CoreConfig {
 	return &CoreConfig{
-		Window: &m.window,
+		Window: stream.IntPtr(m.window),
 	}
 }
 
diff --git a/moment/moment.go b/moment/moment.go
index 92b1335..de4914f 100644
--- a/moment/moment.go
+++ b/moment/moment.go
@@ -5,6 +5,8 @@ import (
 	"strings"
 
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // Moment is a metric that tracks the kth sample central moment.
@@ -42,7 +44,7 @@ func (m *Moment) IsSetCore() bool {
 func (m *Moment) Config() *CoreConfig {
 	return &CoreConfig{
 		Sums:   SumsConfig{m.k: true},
-		Window: &m.window,
+		Window: stream.IntPtr(m.window),
 	}
 }
 
diff --git a/moment/skewness.go b/moment/skewness.go
index 71efe51..9a43ded 100644
--- a/moment/skewness.go
+++ b/moment/skewness.go
@@ -52,7 +52,7 @@ func (s *Skewness) IsSetCore() bool {
 
 // Config returns the CoreConfig needed.
 func (s *Skewness) Config() *CoreConfig {
-	return s.config
+	return s.config.copy()
 }
 
 // String returns a string representation of the metric.
-- 
2.43.0


From abc72063d3b906f521ea5a2a23fd5cf89a6c4ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:31 +0000
Subject: [PATCH 14/18] fix: copy the metrics passed to an aggregate

An aggregate kept the caller's slice, so reusing that slice for other
metrics replaced the ones being tracked.
---
 aggregate/simple_aggregate.go       | 2 ++
 aggregate/simple_joint_aggregate.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/aggregate/simple_aggregate.go b/aggregate/simple_aggregate.go
index 47079b0..094efce 100644
--- a/aggregate/simple_aggregate.go
+++ b/aggregate/simple_aggregate.go
@@ -19,6 +19,8 @@ type SimpleAggregateMetric struct {
 
 // NewSimpleAggregateMetric instantiates an SimpleAggregateMetric struct.
 func NewSimpleAggregateMetric(metrics ...stream.SimpleMetric) *SimpleAggregateMetric {
+	// copy the metrics, as they may be a slice that the caller goes on to use
+	metrics = append([]stream.SimpleMetric{}, metrics...)
 	return &SimpleAggregateMetric{metrics: metrics}
 }
 
diff --git a/aggregate/simple_joint_aggregate.go b/aggregate/simple_joint_aggregate.go
index f18518f..a9ff02f 100644
--- a/aggregate/simple_joint_aggregate.go
+++ b/aggregate/simple_joint_aggregate.go
@@ -18,6 +18,8 @@ type SimpleJointAggregateMetric struct {
 
 // NewSimpleJointAggregateMetric instantiates an SimpleJointAggregateMetric struct.
 func NewSimpleJointAggregateMetric(metrics ...stream.SimpleJointMetric) *SimpleJointAggregateMetric {
+	// copy the metrics, as they may be a slice that the caller goes on to use
+	metrics = append([]stream.SimpleJointMetric{}, metrics...)
 	return &SimpleJointAggregateMetric{metrics: metrics}
 }
 
-- 
2.43.0


From 9ff9d0fa03e67591085eeb27cdb445f8e5da2930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:37 +0000
Subject: [PATCH 15/18] fix: reject NaN for a quantile, decay or level
 probability

NaN passed the range checks; a NaN quantile then selected a nonsensical
index and panicked, and a NaN decay made every statistic NaN.
---
 joint/config.go             | 2 +-
 moment/config.go            | 2 +-
 quantile/quantile.go        | 2 +-
 quantile/skiplist/option.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index 09ddb5e..76b63ac 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -160,7 +160,7 @@ func validateConfig(config *CoreConfig) error {
 	}
 
 	if config.Decay != nil {
-		if *config.Decay <= 0 || *config.Decay >= 1 {
+		if !(*config.Decay > 0 && *config.Decay < 1) {
 			return errors.Errorf("config has a decay of %f, which is not in (0, 1)", *config.Decay)
 		} else if *config.Window > 0 {
 			return errors.New("config cannot have Decay set with a nonzero window")
diff --git a/moment/config.go b/moment/config.go
index e95fe7e..6414664 100644
--- a/moment/config.go
+++ b/moment/config.go
@@ -100,7 +100,7 @@ func validateConfig(config *CoreConfig) error {
 	}
 
 	if config.Decay != nil {
-		if *config.Decay <= 0 || *config.Decay >= 1 {
+		if !(*config.Decay > 0 && *config.Decay < 1) {
 			return errors.Errorf("config has a decay of %f, which is not in (0, 1)", *config.Decay)
 		} else if *config.Window > 0 {
 			return errors.New("config cannot have Decay set with a nonzero window")
diff --git a/quantile/quantile.go b/quantile/quantile.go
index e16e1c2..530524f 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -92,7 +92,7 @@ func (q *Quantile) Push(x float64) error {
 
 // Value returns the value of the quantile.
 func (q *Quantile) Value(quantile float64) (float64, error) {
-	if quantile <= 0 || quantile >= 1 {
+	if !(quantile > 0 && quantile < 1) {
 		return 0, errors.Errorf("quantile %f not in (0, 1)", quantile)
 	}
 
diff --git a/quantile/skiplist/option.go b/quantile/skiplist/option.go
index a4963a7..7736c43 100644
--- a/quantile/skiplist/option.go
+++ b/quantile/skiplist/option.go
@@ -35,7 +35,7 @@ func ProbabilityOption(p float64) order.Option {
 		)
 		if skiplist, ok = s.(*SkipList); !ok {
 			return errors.New("attempted to set probability on a non-skiplist")
-		} else if p <= 0 || p >= 1 {
+		} else if !(p > 0 && p < 1) {
 			return errors.Errorf("attempted to set probability %f not in (0, 1)", p)
 		}
 		skiplist.p = p
-- 
2.43.0


From 6448911d3d3ba6a24f2739a800391bf129a573b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 16/18] fix: reject merging joint sums of differing length

Merging configs whose tuples differ in length indexed past the end of the
shorter one, or silently dropped one of the tuples.
---
 joint/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/joint/config.go b/joint/config.go
index 76b63ac..967b13e 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -98,6 +98,12 @@ func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 			}
 		}
 
+		for _, tuple := range mergedConfig.Sums {
+			if len(tuple) != len(mergedConfig.Sums[0]) {
+				return nil, errors.New("configs have sums of differing length")
+			}
+		}
+
 		mergedConfig.Sums = simplifySums(mergedConfig.Sums)
 		mergedConfig.Window = window
 		mergedConfig.Vars = vars
-- 
2.43.0


From c2bd7f5df7d70fd610e732323e41ed3b79dc828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:18 +0000
Subject: [PATCH 17/18] fix: only return a joint sum for a tuple that is
 tracked

Sum looked a tuple up by its hash alone, so one of the wrong length or
with negative exponents got the sum of a different tuple.
---
 joint/core.go  | 11 +++++++----
 joint/tuple.go | 16 ++++++++++++++++
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/joint/core.go b/joint/core.go
index 3be733e..c7427b1 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -395,12 +395,15 @@ func (c *Core) UnsafeSum(xs ...int) (float64, error) {
 		return 0, errors.New("no values seen yet")
 	}
 
-	sum, ok := c.sums[Tuple(xs).hash()]
-	if !ok {
-		return 0, errors.Errorf("%v is not a tracked power sum", xs)
+	// the hash alone may be that of a tracked sum
+	// for a tuple that isn't tracked itself
+	for _, tuple := range c.tuples {
+		if Tuple(xs).within(tuple) {
+			return c.sums[Tuple(xs).hash()], nil
+		}
 	}
 
-	return sum, nil
+	return 0, errors.Errorf("%v is not a tracked power sum", xs)
 }
 
 // Clear clears all stats being tracked.
diff --git a/joint/tuple.go b/joint/tuple.go
index 61b273c..5deaf9e 100644
--- a/joint/tuple.go
+++ b/joint/tuple.go
@@ -49,6 +49,22 @@ func (m Tuple) eq(n Tuple) bool {
 	return true
 }
 
+// within returns whether m is one of the Tuples that are tracked for n,
+// i.e. 0 <= m_i <= n_i for all i.
+func (m Tuple) within(n Tuple) bool {
+	if len(m) != len(n) {
+		return false
+	}
+
+	for i := range m {
+		if m[i] < 0 || m[i] > n[i] {
+			return false
+		}
+	}
+
+	return true
+}
+
 func sub(m, n Tuple) (Tuple, error) {
 	if len(m) != len(n) {
 		return nil, errors.Errorf(
-- 
2.43.0


From ee44502f345be68c5f04a10bc5b50d689fdf7beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:49 +0000
Subject: [PATCH 18/18] fix: look a value up once to remove it from a red black
 tree

Every level of the removal searched the rest of the tree for the value
again, which made it O(log^2(n)) instead of the documented O(log(n)).
---
 quantile/ost/rb/node.go | 5 +----
 quantile/ost/rb/tree.go | 4 +++-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/quantile/ost/rb/node.go b/quantile/ost/rb/node.go
index 9f61490..fdba922 100644
--- a/quantile/ost/rb/node.go
+++ b/quantile/ost/rb/node.go
@@ -101,11 +101,8 @@ func (n *Node) add(val float64) *Node {
 	return n.addBalance()
 }
 
+// remove deletes a value from the subtree rooted at the node, which must contain it.
 func (n *Node) remove(val float64) *Node {
-	if !n.contains(val) {
-		return n
-	}
-
 	if val < n.val {
 		if n.left.Color() == Black && n.left.left.Color() == Black {
 			n = n.moveRedLeft()
diff --git a/quantile/ost/rb/tree.go b/quantile/ost/rb/tree.go
index 0f1573e..33cf3b3 100644
--- a/quantile/ost/rb/tree.go
+++ b/quantile/ost/rb/tree.go
@@ -21,7 +21,9 @@ func (t *Tree) Add(val float64) {
 
 // Remove deletes a value from the tree.
 func (t *Tree) Remove(val float64) {
-	t.root = t.root.remove(val)
+	if t.root.contains(val) {
+		t.root = t.root.remove(val)
+	}
 }
 
 // Select returns the node with the kth smallest value in the tree.
-- 
2.43.0

