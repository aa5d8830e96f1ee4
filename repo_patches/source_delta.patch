From 28c99923fc539796108d51e9e7c0df50cdd533ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:07 +0000
Subject: [PATCH 01/32] fix: read (S, A_net) consistently in Available, State
 and CheckCommit

The readers loaded the scalar and summed the stripes without excluding Commit,
TryConsume and TryRefund, so a concurrent commit made Available report units
that were already spent and State return pairs that never existed.
---
 vsa.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vsa.go b/vsa.go
index 035f2cd..1026f09 100644
--- a/vsa.go
+++ b/vsa.go
@@ -218,7 +218,11 @@ func (v *VSA) Update(value int64) {
 
 // Available returns the real-time available resource count: S - |A_net|.
 // We compute A_net by summing stripes and subtracting committedOffset.
+// The pair (S, A_net) is read under tryMu: a Commit moves units from one to the
+// other, and a reader that saw only half of it would report availability that never existed.
 func (v *VSA) Available() int64 {
+	v.tryMu.Lock()
+	defer v.tryMu.Unlock()
 	s := v.scalar.Load()
 	net := v.currentVector()
 	return s - abs(net)
@@ -264,12 +268,16 @@ func (v *VSA) chooseIdxForUpdate() int {
 
 // State returns the current scalar and effective vector values.
 func (v *VSA) State() (scalar, vector int64) {
+	v.tryMu.Lock()
+	defer v.tryMu.Unlock()
 	return v.scalar.Load(), v.currentVector()
 }
 
 // CheckCommit determines if a commit is required for the given threshold.
 // It returns (true, vector) when |vector| ≥ threshold.
 func (v *VSA) CheckCommit(threshold int64) (bool, int64) {
+	v.tryMu.Lock()
+	defer v.tryMu.Unlock()
 	net := v.currentVector()
 	if abs(net) >= threshold {
 		return true, net
-- 
2.43.0


From 82327c178d5af447e7b591e73d7e6dc8b0ac5c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:07 +0000
Subject: [PATCH 02/32] fix: never admit on a stale or skewed availability
 estimate

With UseCachedGate or GroupCount, TryConsume admitted whenever the cached or
group-scaled net allowed it, so every request between two refreshes (or with
unevenly filled stripes) was granted and the limit was oversubscribed. The
estimates still refuse early; admission is now always confirmed exactly.
---
 vsa.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vsa.go b/vsa.go
index 1026f09..a776743 100644
--- a/vsa.go
+++ b/vsa.go
@@ -379,11 +379,11 @@ func (v *VSA) TryConsume(n int64) bool {
 				return false
 			}
 		}
-	} else {
-		avail := v.scalar.Load() - abs(v.currentVector())
-		if avail < n {
-			return false
-		}
+	}
+	// The cached and grouped values are estimates: they may refuse early but must
+	// not admit on their own, or a stale/skewed estimate oversubscribes the limit.
+	if v.scalar.Load()-abs(v.currentVector()) < n {
+		return false
 	}
 	// Reserve by updating a stripe (use round-robin under lock to avoid an atomic)
 	idx := int(v.rr) & v.mask
-- 
2.43.0


From 96774a4c16cff23c05f967be630eeed4d283f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:56 +0000
Subject: [PATCH 03/32] fix: make the lock-free fast path reserve before it
 checks

Several callers could all read the same approxNet, find themselves under the
guard and all be admitted, overshooting the limit by more than the guard. The
fast path now reserves on approxNet first, and the gated path counts
reservations that have not reached a stripe yet.
---
 vsa.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vsa.go b/vsa.go
index a776743..2595399 100644
--- a/vsa.go
+++ b/vsa.go
@@ -334,19 +334,19 @@ func (v *VSA) TryConsume(n int64) bool {
 	}
 	// 1) Lock-free fast path when we are far from the limit.
 	if v.fastPathGuard > 0 {
-		s := v.scalar.Load()
-		approx := v.approxNet.Load()
-		if s-abs(approx) >= n+v.fastPathGuard {
-			// Reserve without taking the lock; bounded risk thanks to guard.
+		// Reserve on approxNet before checking, so that concurrent callers see each
+		// other's reservations, and read the scalar afterwards (Commit lowers it first).
+		approx := v.approxNet.Add(n) - n
+		if v.scalar.Load()-abs(approx) >= n+v.fastPathGuard {
 			idx := int(v.chooser.Add(1)) & v.mask
 			v.stripes[idx].val.Add(n)
 			if v.hGroups > 0 {
 				g := idx / v.hStride
 				v.hGroupSum[g].Add(n)
 			}
-			v.approxNet.Add(n)
 			return true
 		}
+		v.approxNet.Add(-n)
 	}
 	// 2) Serialized path with optional cached/grouped gating and exact fallback.
 	v.tryMu.Lock()
@@ -385,6 +385,12 @@ func (v *VSA) TryConsume(n int64) bool {
 	if v.scalar.Load()-abs(v.currentVector()) < n {
 		return false
 	}
+	// Fast-path callers may have reserved on approxNet without being visible in the stripes yet.
+	approx := v.approxNet.Add(n) - n
+	if v.fastPathGuard > 0 && v.scalar.Load()-abs(approx) < n {
+		v.approxNet.Add(-n)
+		return false
+	}
 	// Reserve by updating a stripe (use round-robin under lock to avoid an atomic)
 	idx := int(v.rr) & v.mask
 	v.rr++
@@ -393,7 +399,6 @@ func (v *VSA) TryConsume(n int64) bool {
 		g := idx / v.hStride
 		v.hGroupSum[g].Add(n)
 	}
-	v.approxNet.Add(n)
 	return true
 }
 
-- 
2.43.0


From 62049f1d4547f35a0e4f0a7038039e96eab8092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:47 +0000
Subject: [PATCH 04/32] fix: close the VSA that loses the creation race in
 GetOrCreate

With UseCachedGate the discarded instance kept its refresher goroutine forever.
---
 internal/ratelimiter/core/store.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index 1ef1723..58e550c 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -93,6 +93,8 @@ func (s *Store) GetOrCreate(key string) *vsa.VSA {
 
 	// Try to publish; if another goroutine won the race, reuse that instance.
 	if actual, loaded := s.counters.LoadOrStore(key, newManaged); loaded {
+		// Stop the background work of the instance nobody will ever see.
+		inst.Close()
 		managed := actual.(*managedVSA)
 		atomic.StoreInt64(&managed.lastAccessed, now)
 		return managed.instance
-- 
2.43.0


From 10e4660a9b27dadbd205a6ea5fef17b399bf2282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:47 +0000
Subject: [PATCH 05/32] fix: serialize the commit, eviction and final-flush
 cycles

They ran on two goroutines without coordination, so a key being evicted while
the commit loop (or the final flush) persisted it had its vector persisted
twice, and the second in-memory Commit was clamped away.
---
 internal/ratelimiter/core/worker.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index a828eaf..0421419 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -42,6 +42,9 @@ type Worker struct {
 	stopChan           chan struct{}
 	wg                 sync.WaitGroup
 	stopped            uint32
+	// cycleMu serializes commit, eviction and final-flush cycles: each reads a vector,
+	// persists it and applies it, and two of them interleaving persist the same units twice.
+	cycleMu sync.Mutex
 }
 
 // NewWorker creates and configures a new background worker.
@@ -113,6 +116,9 @@ func (w *Worker) commitLoop() {
 
 // runCommitCycle collects all necessary commits and persists them as a batch.
 func (w *Worker) runCommitCycle() {
+	w.cycleMu.Lock()
+	defer w.cycleMu.Unlock()
+
 	var commits []Commit
 	var vsaToCommit []*vsa.VSA
 	var vectorsToCommit []int64
@@ -183,6 +189,9 @@ func (w *Worker) runCommitCycle() {
 
 // runFinalFlush commits any non-zero vectors regardless of threshold. It is intended for shutdown.
 func (w *Worker) runFinalFlush() {
+	w.cycleMu.Lock()
+	defer w.cycleMu.Unlock()
+
 	var commits []Commit
 	var vsaToCommit []*vsa.VSA
 	var vectorsToCommit []int64
@@ -233,6 +242,9 @@ func (w *Worker) evictionLoop() {
 
 // runEvictionCycle finds and removes stale VSA instances.
 func (w *Worker) runEvictionCycle() {
+	w.cycleMu.Lock()
+	defer w.cycleMu.Unlock()
+
 	var keysToEvict []string
 	now := time.Now()
 
-- 
2.43.0


From c872e7e7487bb5590ca2b9222f04fa72d9889fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 06/32] fix: carry over units refunded while their row was
 being persisted

The row holds the vector read at the start of the cycle, but Commit applies no more than the
net left when the persist returns; storage kept the refunded units as consumed forever.
---
 internal/ratelimiter/core/store.go  | 17 ++++++++++++++
 internal/ratelimiter/core/worker.go | 36 ++++++++++++++---------------
 2 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index 58e550c..0f635fd 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -44,6 +44,23 @@ type managedVSA struct {
 	// lastAccessed stores the last access time in UnixNano to allow atomic access across goroutines.
 	lastAccessed int64
 	armed        atomic.Bool
+	// overPersisted is what storage has recorded for this key beyond what the instance has
+	// committed: a refund that lands while its units are being persisted shrinks the vector
+	// after the row was written. The next row makes up for it. Background routines only.
+	overPersisted int64
+}
+
+// settle applies a persisted vector to the instance. Commit never takes more than the net
+// that is left, so the shortfall (units refunded since the vector was read) is carried over.
+func (m *managedVSA) settle(vector int64) {
+	before, _ := m.instance.State()
+	m.instance.Commit(vector)
+	after, _ := m.instance.State()
+	applied := before - after
+	if vector < 0 {
+		applied = -applied
+	}
+	m.overPersisted = vector - applied
 }
 
 // Store manages a collection of VSA instances in memory.
diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index 0421419..62d76bc 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -24,7 +24,6 @@ import (
 	"sync"
 	"sync/atomic"
 	"time"
-	"vsa"
 	"vsa/internal/ratelimiter/telemetry/churn"
 )
 
@@ -120,14 +119,15 @@ func (w *Worker) runCommitCycle() {
 	defer w.cycleMu.Unlock()
 
 	var commits []Commit
-	var vsaToCommit []*vsa.VSA
+	var toSettle []*managedVSA
 	var vectorsToCommit []int64
 
 	now := time.Now()
 	w.store.ForEach(func(key string, v *managedVSA) {
 		// Decide based on thresholds (with hysteresis) and optional max-age freshness.
 		_, vec := v.instance.State()
-		absVec := vec
+		row := vec - v.overPersisted
+		absVec := row
 		if absVec < 0 {
 			absVec = -absVec
 		}
@@ -135,7 +135,7 @@ func (w *Worker) runCommitCycle() {
 		commitByThreshold := absVec >= w.commitThreshold
 		// Max-age: commit if no recent changes and there is a remainder
 		last := atomic.LoadInt64(&v.lastAccessed)
-		commitByMaxAge := w.commitMaxAge > 0 && vec != 0 && now.Sub(time.Unix(0, last)) >= w.commitMaxAge
+		commitByMaxAge := w.commitMaxAge > 0 && row != 0 && now.Sub(time.Unix(0, last)) >= w.commitMaxAge
 
 		shouldCommit := false
 		if commitByThreshold {
@@ -153,8 +153,8 @@ func (w *Worker) runCommitCycle() {
 		}
 
 		if shouldCommit {
-			commits = append(commits, Commit{Key: key, Vector: vec})
-			vsaToCommit = append(vsaToCommit, v.instance)
+			commits = append(commits, Commit{Key: key, Vector: row})
+			toSettle = append(toSettle, v)
 			vectorsToCommit = append(vectorsToCommit, vec)
 			// Disarm to enforce low watermark before the next threshold-based commit
 			v.armed.Store(false)
@@ -182,8 +182,8 @@ func (w *Worker) runCommitCycle() {
 	}
 
 	// On successful persistence, update the internal state of each VSA.
-	for i := range vsaToCommit {
-		vsaToCommit[i].Commit(vectorsToCommit[i])
+	for i := range toSettle {
+		toSettle[i].settle(vectorsToCommit[i])
 	}
 }
 
@@ -193,14 +193,14 @@ func (w *Worker) runFinalFlush() {
 	defer w.cycleMu.Unlock()
 
 	var commits []Commit
-	var vsaToCommit []*vsa.VSA
+	var toSettle []*managedVSA
 	var vectorsToCommit []int64
 
 	w.store.ForEach(func(key string, v *managedVSA) {
 		_, vector := v.instance.State()
-		if vector != 0 {
-			commits = append(commits, Commit{Key: key, Vector: vector})
-			vsaToCommit = append(vsaToCommit, v.instance)
+		if row := vector - v.overPersisted; row != 0 {
+			commits = append(commits, Commit{Key: key, Vector: row})
+			toSettle = append(toSettle, v)
 			vectorsToCommit = append(vectorsToCommit, vector)
 		}
 	})
@@ -220,8 +220,8 @@ func (w *Worker) runFinalFlush() {
 	for _, c := range commits {
 		churn.ObserveCommit(c.Key, c.Vector)
 	}
-	for i := range vsaToCommit {
-		vsaToCommit[i].Commit(vectorsToCommit[i])
+	for i := range toSettle {
+		toSettle[i].settle(vectorsToCommit[i])
 	}
 }
 
@@ -270,13 +270,13 @@ func (w *Worker) runEvictionCycle() {
 				continue
 			}
 			_, vector := managed.instance.State()
-			if vector != 0 {
-				fmt.Printf("  - Final commit for %s, vector: %d\n", key, vector)
-				if err := w.persister.CommitBatch([]Commit{{Key: key, Vector: vector}}); err != nil {
+			if row := vector - managed.overPersisted; row != 0 {
+				fmt.Printf("  - Final commit for %s, vector: %d\n", key, row)
+				if err := w.persister.CommitBatch([]Commit{{Key: key, Vector: row}}); err != nil {
 					fmt.Printf("ERROR: Failed to commit batch: %v\n", err)
 					continue
 				}
-				managed.instance.Commit(vector)
+				managed.settle(vector)
 			}
 			w.store.Delete(key)
 		}
-- 
2.43.0


From 333060229467283ffd4f6279d648fba5e895af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 07/32] fix: do not evict a key that was touched while its
 remainder was being persisted

Requests admitted between the staleness check and Delete went to an instance nobody would
ever persist again. The evictor now claims the instance before removing it.
---
 internal/ratelimiter/core/store.go  | 43 +++++++++++++++++++++++------
 internal/ratelimiter/core/worker.go |  7 ++++-
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index 0f635fd..97eaa89 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -50,6 +50,23 @@ type managedVSA struct {
 	overPersisted int64
 }
 
+// evicted is the lastAccessed value of an instance the evictor has claimed. It never changes
+// again, so nobody can pick up an instance whose last units have already been persisted.
+const evicted int64 = -1
+
+// touch records an access, or reports false if the instance has been claimed for eviction.
+func (m *managedVSA) touch(now int64) bool {
+	for {
+		last := atomic.LoadInt64(&m.lastAccessed)
+		if last == evicted {
+			return false
+		}
+		if atomic.CompareAndSwapInt64(&m.lastAccessed, last, now) {
+			return true
+		}
+	}
+}
+
 // settle applies a persisted vector to the instance. Commit never takes more than the net
 // that is left, so the shortfall (units refunded since the vector was read) is carried over.
 func (m *managedVSA) settle(vector int64) {
@@ -97,8 +114,11 @@ func (s *Store) GetOrCreate(key string) *vsa.VSA {
 	// Fast path: key already present → no allocations.
 	if actual, ok := s.counters.Load(key); ok {
 		managed := actual.(*managedVSA)
-		atomic.StoreInt64(&managed.lastAccessed, time.Now().UnixNano())
-		return managed.instance
+		if managed.touch(time.Now().UnixNano()) {
+			return managed.instance
+		}
+		// The evictor owns it now; finish the removal so a fresh one can take its place.
+		s.counters.CompareAndDelete(key, managed)
 	}
 
 	// Miss: lazily allocate only now.
@@ -109,15 +129,20 @@ func (s *Store) GetOrCreate(key string) *vsa.VSA {
 	newManaged.armed.Store(true)
 
 	// Try to publish; if another goroutine won the race, reuse that instance.
-	if actual, loaded := s.counters.LoadOrStore(key, newManaged); loaded {
-		// Stop the background work of the instance nobody will ever see.
-		inst.Close()
+	for {
+		actual, loaded := s.counters.LoadOrStore(key, newManaged)
+		if !loaded {
+			// We stored our new instance.
+			return newManaged.instance
+		}
 		managed := actual.(*managedVSA)
-		atomic.StoreInt64(&managed.lastAccessed, now)
-		return managed.instance
+		if managed.touch(now) {
+			// Stop the background work of the instance nobody will ever see.
+			inst.Close()
+			return managed.instance
+		}
+		s.counters.CompareAndDelete(key, managed)
 	}
-	// We stored our new instance.
-	return newManaged.instance
 }
 
 // ForEach allows iterating over all managed VSA instances in the store.
diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index 62d76bc..6a7ae64 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -278,7 +278,12 @@ func (w *Worker) runEvictionCycle() {
 				}
 				managed.settle(vector)
 			}
-			w.store.Delete(key)
+			if !atomic.CompareAndSwapInt64(&managed.lastAccessed, last, evicted) {
+				// Touched while we were persisting; the key is live again.
+				continue
+			}
+			w.store.counters.CompareAndDelete(key, managed)
+			managed.instance.Close()
 		}
 	}
 }
-- 
2.43.0


From 1904989e266497e9099751b21fd3cd085a5eba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 08/32] fix: count eviction commits and their errors in the
 churn telemetry

---
 internal/ratelimiter/core/worker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index 6a7ae64..c51e634 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -274,8 +274,11 @@ func (w *Worker) runEvictionCycle() {
 				fmt.Printf("  - Final commit for %s, vector: %d\n", key, row)
 				if err := w.persister.CommitBatch([]Commit{{Key: key, Vector: row}}); err != nil {
 					fmt.Printf("ERROR: Failed to commit batch: %v\n", err)
+					churn.ObserveCommitError(1)
 					continue
 				}
+				churn.ObserveBatch(1)
+				churn.ObserveCommit(key, row)
 				managed.settle(vector)
 			}
 			if !atomic.CompareAndSwapInt64(&managed.lastAccessed, last, evicted) {
-- 
2.43.0


From 81262fbb29e9da0abcbb3bd75f4d263e501b2364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:01 +0000
Subject: [PATCH 09/32] fix: re-arm a key after its commit brought it below the
 low watermark

Re-arming looked only at the vector seen at the next tick, and only while it was under the high
watermark: a key busier than the low watermark per tick, or one whose persist failed once, was
never committed by threshold again.
---
 internal/ratelimiter/core/store.go  |  9 ++++++++-
 internal/ratelimiter/core/worker.go | 18 +++++++-----------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index 97eaa89..9f73c70 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -48,6 +48,9 @@ type managedVSA struct {
 	// committed: a refund that lands while its units are being persisted shrinks the vector
 	// after the row was written. The next row makes up for it. Background routines only.
 	overPersisted int64
+	// residual is what was left uncommitted right after the last commit; the committer
+	// re-arms the key by it. Background routines only.
+	residual int64
 }
 
 // evicted is the lastAccessed value of an instance the evictor has claimed. It never changes
@@ -72,12 +75,16 @@ func (m *managedVSA) touch(now int64) bool {
 func (m *managedVSA) settle(vector int64) {
 	before, _ := m.instance.State()
 	m.instance.Commit(vector)
-	after, _ := m.instance.State()
+	after, left := m.instance.State()
 	applied := before - after
 	if vector < 0 {
 		applied = -applied
 	}
 	m.overPersisted = vector - applied
+	m.residual = left - m.overPersisted
+	if m.residual < 0 {
+		m.residual = -m.residual
+	}
 }
 
 // Store manages a collection of VSA instances in memory.
diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index c51e634..b16b841 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -131,23 +131,18 @@ func (w *Worker) runCommitCycle() {
 		if absVec < 0 {
 			absVec = -absVec
 		}
+		// Re-arm once the vector has been at or below the low watermark since the last commit:
+		// now, or right after that commit. Failing that, a further threshold's worth re-arms.
+		if !v.armed.Load() && (absVec <= w.lowCommitThreshold || v.residual <= w.lowCommitThreshold || absVec-v.residual >= w.commitThreshold) {
+			v.armed.Store(true)
+		}
 		// High watermark check
 		commitByThreshold := absVec >= w.commitThreshold
 		// Max-age: commit if no recent changes and there is a remainder
 		last := atomic.LoadInt64(&v.lastAccessed)
 		commitByMaxAge := w.commitMaxAge > 0 && row != 0 && now.Sub(time.Unix(0, last)) >= w.commitMaxAge
 
-		shouldCommit := false
-		if commitByThreshold {
-			if w.lowCommitThreshold <= 0 || v.armed.Load() {
-				shouldCommit = true
-			}
-		} else {
-			// Re-arm when we are below the low watermark to avoid flapping
-			if w.lowCommitThreshold > 0 && !v.armed.Load() && absVec <= w.lowCommitThreshold {
-				v.armed.Store(true)
-			}
-		}
+		shouldCommit := commitByThreshold && (w.lowCommitThreshold <= 0 || v.armed.Load())
 		if commitByMaxAge {
 			shouldCommit = true
 		}
@@ -158,6 +153,7 @@ func (w *Worker) runCommitCycle() {
 			vectorsToCommit = append(vectorsToCommit, vec)
 			// Disarm to enforce low watermark before the next threshold-based commit
 			v.armed.Store(false)
+			v.residual = 0 // unless the batch below succeeds, the next cycle tries again
 		}
 	})
 
-- 
2.43.0


From 03b2e2b98c7bdde243774ec69cca96bd16416164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 10/32] fix: drain the HTTP server before the final flush at
 shutdown

Requests admitted after worker.Stop were answered 200 and never persisted, and a drain that
timed out ended the process in log.Fatalf.
---
 cmd/ratelimiter-api/main.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/cmd/ratelimiter-api/main.go b/cmd/ratelimiter-api/main.go
index d100042..f633377 100644
--- a/cmd/ratelimiter-api/main.go
+++ b/cmd/ratelimiter-api/main.go
@@ -222,7 +222,15 @@ func main() {
 
 	fmt.Println("\nShutting down server...")
 
-	// 7. First, stop the background worker. This will trigger a final commit
+	// 7. First, gracefully shut down the HTTP server with a timeout, so that no request
+	// can still be admitted once the final commit has been taken.
+	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
+	defer cancel()
+	if err := httpServer.Shutdown(ctx); err != nil {
+		log.Printf("Server shutdown failed: %v", err)
+	}
+
+	// 8. Now stop the background worker. This will trigger a final commit
 	// of any pending VSA vectors to ensure no data is lost.
 	worker.Stop()
 
@@ -232,12 +240,5 @@ func main() {
 	// Stop any background cached-gate aggregators inside VSA instances.
 	store.CloseAll()
 
-	// 8. Now, gracefully shut down the HTTP server with a timeout.
-	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-	defer cancel()
-	if err := httpServer.Shutdown(ctx); err != nil {
-		log.Fatalf("Server shutdown failed: %v", err)
-	}
-
 	fmt.Println("Server gracefully stopped.")
 }
-- 
2.43.0


From 11929b2d203f9d0e68514dddefdd25ecdb5c46d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:58 +0000
Subject: [PATCH 11/32] fix: apply Postgres commits that are new

The counter update was guarded by NOT EXISTS on the marker inserted just before it in the same
transaction, so it never matched a row and every commit was lost.
---
 internal/ratelimiter/persistence/postgres.go | 35 +++++++++++---------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/internal/ratelimiter/persistence/postgres.go b/internal/ratelimiter/persistence/postgres.go
index 12ff200..8af9e96 100644
--- a/internal/ratelimiter/persistence/postgres.go
+++ b/internal/ratelimiter/persistence/postgres.go
@@ -43,12 +43,10 @@ import (
 // Idempotent transaction per commit entry:
 //   INSERT INTO applied_commits(commit_id, key, vc) VALUES ($1,$2,$3)
 //     ON CONFLICT DO NOTHING;
-//   -- If the commit exists, skip the counter update via NOT EXISTS guard.
+//   -- If no row was inserted the commit was applied before; skip the counter update.
 //   UPDATE counters
-//     SET scalar = scalar - $3
-//     WHERE key = $2 AND NOT EXISTS (
-//       SELECT 1 FROM applied_commits WHERE commit_id = $1
-//     );
+//     SET scalar = scalar - $2
+//     WHERE key = $1;
 // Optionally, pre-create the counter row to avoid UPDATE=0 when key is unknown.
 
 // PostgresPersister applies commits idempotently using the safe pattern above.
@@ -107,26 +105,33 @@ func (p *PostgresPersister) CommitBatch(ctx context.Context, entries []CommitEnt
 			return errors.New("CommitEntry.CommitID must be set")
 		}
 		// Applied marker first (OK to no-op on duplicate)
-		if _, err := tx.ExecContext(ctx,
+		res, err := tx.ExecContext(ctx,
 			`INSERT INTO applied_commits(commit_id, key, vc) VALUES ($1,$2,$3) ON CONFLICT DO NOTHING`,
-			e.CommitID, e.Key, e.Vector); err != nil {
+			e.CommitID, e.Key, e.Vector)
+		if err != nil {
+			return fmt.Errorf("insert applied_commits(%s): %w", e.CommitID, err)
+		}
+		// The marker is visible to the rest of this transaction, so whether the commit is new
+		// has to come from the insert itself.
+		if n, err := res.RowsAffected(); err != nil {
 			return fmt.Errorf("insert applied_commits(%s): %w", e.CommitID, err)
+		} else if n == 0 {
+			continue // already applied
 		}
 		// Optional fencing: require provided token to be >= last_token, then set it.
 		if e.FencingToken != nil {
-			// Update last_token only if we're not re-applying a known commit id.
 			if _, err := tx.ExecContext(ctx,
-				`UPDATE counters SET last_token = GREATEST(COALESCE(last_token, $3), $3)
-                  WHERE key = $1 AND NOT EXISTS (SELECT 1 FROM applied_commits WHERE commit_id = $2) AND (last_token IS NULL OR $3 >= last_token)`,
-				e.Key, e.CommitID, *e.FencingToken); err != nil {
+				`UPDATE counters SET last_token = GREATEST(COALESCE(last_token, $2), $2)
+                  WHERE key = $1 AND (last_token IS NULL OR $2 >= last_token)`,
+				e.Key, *e.FencingToken); err != nil {
 				return fmt.Errorf("update last_token(%s): %w", e.Key, err)
 			}
 		}
-		// Apply scalar update if the commit was not already applied.
+		// Apply scalar update.
 		if _, err := tx.ExecContext(ctx,
-			`UPDATE counters SET scalar = scalar - $3
-               WHERE key = $2 AND NOT EXISTS (SELECT 1 FROM applied_commits WHERE commit_id = $1)`,
-			e.CommitID, e.Key, e.Vector); err != nil {
+			`UPDATE counters SET scalar = scalar - $2
+               WHERE key = $1`,
+			e.Key, e.Vector); err != nil {
 			return fmt.Errorf("update counters(%s): %w", e.Key, err)
 		}
 	}
-- 
2.43.0


From e40fd2b2aeb2f8ef10fe53a3ae39495d342a97d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 12/32] fix: keep commit IDs stable across retries in IdemShim

A batch that failed after (partly) reaching storage was resent under fresh random IDs, so the
backend's idempotency never saw the retry and applied the units twice.
---
 internal/ratelimiter/core/store.go       |  4 +++
 internal/ratelimiter/core/worker.go      | 13 +++++--
 internal/ratelimiter/persistence/shim.go | 46 +++++++++++++++++-------
 3 files changed, 47 insertions(+), 16 deletions(-)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index 9f73c70..4908114 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -48,6 +48,9 @@ type managedVSA struct {
 	// committed: a refund that lands while its units are being persisted shrinks the vector
 	// after the row was written. The next row makes up for it. Background routines only.
 	overPersisted int64
+	// inDoubt is set while the last attempt to persist this key has failed: some of it may have
+	// been recorded all the same, so the key is submitted again even if nothing is left to add.
+	inDoubt bool
 	// residual is what was left uncommitted right after the last commit; the committer
 	// re-arms the key by it. Background routines only.
 	residual int64
@@ -81,6 +84,7 @@ func (m *managedVSA) settle(vector int64) {
 		applied = -applied
 	}
 	m.overPersisted = vector - applied
+	m.inDoubt = false
 	m.residual = left - m.overPersisted
 	if m.residual < 0 {
 		m.residual = -m.residual
diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index b16b841..9dcaf06 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -140,7 +140,7 @@ func (w *Worker) runCommitCycle() {
 		commitByThreshold := absVec >= w.commitThreshold
 		// Max-age: commit if no recent changes and there is a remainder
 		last := atomic.LoadInt64(&v.lastAccessed)
-		commitByMaxAge := w.commitMaxAge > 0 && row != 0 && now.Sub(time.Unix(0, last)) >= w.commitMaxAge
+		commitByMaxAge := w.commitMaxAge > 0 && (row != 0 || v.inDoubt) && now.Sub(time.Unix(0, last)) >= w.commitMaxAge
 
 		shouldCommit := commitByThreshold && (w.lowCommitThreshold <= 0 || v.armed.Load())
 		if commitByMaxAge {
@@ -168,6 +168,9 @@ func (w *Worker) runCommitCycle() {
 		// First-class KPI: record commit error
 		churn.ObserveCommitError(1)
 		// In a real system, you would have retry logic here.
+		for _, v := range toSettle {
+			v.inDoubt = true
+		}
 		return
 	}
 
@@ -194,7 +197,7 @@ func (w *Worker) runFinalFlush() {
 
 	w.store.ForEach(func(key string, v *managedVSA) {
 		_, vector := v.instance.State()
-		if row := vector - v.overPersisted; row != 0 {
+		if row := vector - v.overPersisted; row != 0 || v.inDoubt {
 			commits = append(commits, Commit{Key: key, Vector: row})
 			toSettle = append(toSettle, v)
 			vectorsToCommit = append(vectorsToCommit, vector)
@@ -209,6 +212,9 @@ func (w *Worker) runFinalFlush() {
 		fmt.Printf("ERROR: Failed to commit final batch: %v\n", err)
 		// First-class KPI: record commit error on final flush
 		churn.ObserveCommitError(1)
+		for _, v := range toSettle {
+			v.inDoubt = true
+		}
 		return
 	}
 	// Telemetry: record batch size and per-key vectors for final flush
@@ -266,11 +272,12 @@ func (w *Worker) runEvictionCycle() {
 				continue
 			}
 			_, vector := managed.instance.State()
-			if row := vector - managed.overPersisted; row != 0 {
+			if row := vector - managed.overPersisted; row != 0 || managed.inDoubt {
 				fmt.Printf("  - Final commit for %s, vector: %d\n", key, row)
 				if err := w.persister.CommitBatch([]Commit{{Key: key, Vector: row}}); err != nil {
 					fmt.Printf("ERROR: Failed to commit batch: %v\n", err)
 					churn.ObserveCommitError(1)
+					managed.inDoubt = true
 					continue
 				}
 				churn.ObserveBatch(1)
diff --git a/internal/ratelimiter/persistence/shim.go b/internal/ratelimiter/persistence/shim.go
index f1aca52..4240180 100644
--- a/internal/ratelimiter/persistence/shim.go
+++ b/internal/ratelimiter/persistence/shim.go
@@ -20,36 +20,56 @@ import (
 	"context"
 	"crypto/rand"
 	"encoding/hex"
-	"time"
+	"sync"
 	"vsa/internal/ratelimiter/core"
 )
 
 // IdemShim adapts an IdempotentPersister to the existing core.Persister interface
 // used by the worker. It generates idempotency CommitIDs for each entry.
 //
-// Note: In production, you should provide stable IDs across retries. This shim
-// generates fresh random IDs per call, which is sufficient for the demo wiring
-// and avoids introducing external dependencies.
+// IDs are stable across retries: a failed call may still have been applied, so its entries are
+// sent again as they were, and only the difference to what the worker now wants recorded goes
+// out under a new ID.
 type IdemShim struct {
 	impl IdempotentPersister
+
+	mu      sync.Mutex
+	inDoubt map[string][]CommitEntry // per key, the entries of calls that failed
 }
 
-func NewIdemShim(impl IdempotentPersister) *IdemShim { return &IdemShim{impl: impl} }
+func NewIdemShim(impl IdempotentPersister) *IdemShim {
+	return &IdemShim{impl: impl, inDoubt: make(map[string][]CommitEntry)}
+}
 
 // CommitBatch maps core.Commit -> CommitEntry and forwards to the idempotent persister.
 func (s *IdemShim) CommitBatch(commits []core.Commit) error {
 	if len(commits) == 0 {
 		return nil
 	}
-	entries := make([]CommitEntry, len(commits))
-	now := time.Now().UnixNano()
-	for i, c := range commits {
-		id := randomID()
-		entries[i] = CommitEntry{Key: c.Key, Vector: c.Vector, CommitID: id}
-		// note: FencingToken omitted in demo
-		_ = now // reserved in case we switch to time-based ULIDs later
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
+	entries := make([]CommitEntry, 0, len(commits))
+	for _, c := range commits {
+		retries := s.inDoubt[c.Key]
+		delete(s.inDoubt, c.Key)
+		vector := c.Vector
+		for _, e := range retries {
+			entries = append(entries, e)
+			vector -= e.Vector
+		}
+		if vector != 0 || len(retries) == 0 {
+			// note: FencingToken omitted in demo
+			entries = append(entries, CommitEntry{Key: c.Key, Vector: vector, CommitID: randomID()})
+		}
+	}
+	err := s.impl.CommitBatch(context.Background(), entries)
+	if err != nil {
+		for _, e := range entries {
+			s.inDoubt[e.Key] = append(s.inDoubt[e.Key], e)
+		}
 	}
-	return s.impl.CommitBatch(context.Background(), entries)
+	return err
 }
 
 // PrintFinalMetrics is a no-op for the shim. The worker already prints global metrics
-- 
2.43.0


From f7891916a966adc16fee63946ed84211f314e59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:24 +0000
Subject: [PATCH 13/32] fix: expire Redis commit markers with a sub-second TTL

---
 internal/ratelimiter/persistence/redis.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ratelimiter/persistence/redis.go b/internal/ratelimiter/persistence/redis.go
index f77618d..c5f6d3e 100644
--- a/internal/ratelimiter/persistence/redis.go
+++ b/internal/ratelimiter/persistence/redis.go
@@ -87,7 +87,8 @@ func (r *RedisPersister) CommitBatch(ctx context.Context, entries []CommitEntry)
 			return errors.New("CommitEntry.CommitID must be set")
 		}
 		keys := []string{RedisCounterKey(e.Key), RedisCommitMarkerKey(e.Key, e.CommitID)}
-		args := []interface{}{e.Vector, int(r.markerTTL.Seconds())}
+		// Round up: a TTL of 0 seconds would leave the marker without any expiry.
+		args := []interface{}{e.Vector, int((r.markerTTL + time.Second - 1) / time.Second)}
 		if _, err := r.client.Eval(ctx, redisLuaScript, keys, args...); err != nil {
 			return fmt.Errorf("redis eval key=%s commit=%s: %w", e.Key, e.CommitID, err)
 		}
-- 
2.43.0


From 6663806820251808312d18c15b113c3b745bd6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 14/32] fix: keep every cell of a full or colliding S shard

A full table made probe spin forever, cells with the same packed id were merged under the first
one's key and bucket, and a packed id of 0 was never flushed.
---
 plugin/tfd/saccumulator.go | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/plugin/tfd/saccumulator.go b/plugin/tfd/saccumulator.go
index 09291d8..56d7146 100644
--- a/plugin/tfd/saccumulator.go
+++ b/plugin/tfd/saccumulator.go
@@ -57,23 +57,55 @@ func newSShard(orderPow2 uint, countThreshold int, timeCap time.Duration) *SShar
 	}
 }
 
-func (s *SShard) probe(k uint64) int {
+// probe returns the slot of the cell, or an empty slot if the shard has none for it.
+// Different cells may share k, so the ids decide.
+func (s *SShard) probe(k, keyID, bucketID uint64) int {
 	// simple linear probing
 	i := int(k & s.mask)
 	for {
 		kk := s.keys[i]
-		if kk == 0 || kk == k {
+		if kk == 0 || (kk == k && s.keyIDs[i] == keyID && s.bucketIDs[i] == bucketID) {
 			return i
 		}
 		i = (i + 1) & int(s.mask)
 	}
 }
 
+// grow doubles the table. At least one slot has to stay empty for probe to terminate.
+func (s *SShard) grow() {
+	old := *s
+	n := 2 * len(old.keys)
+	s.keys = make([]uint64, n)
+	s.keyIDs = make([]uint64, n)
+	s.bucketIDs = make([]uint64, n)
+	s.sums = make([]int64, n)
+	s.seqEnds = make([]uint64, n)
+	s.mask = uint64(n - 1)
+	for j, k := range old.keys {
+		if k == 0 {
+			continue
+		}
+		i := s.probe(k, old.keyIDs[j], old.bucketIDs[j])
+		s.keys[i] = k
+		s.keyIDs[i] = old.keyIDs[j]
+		s.bucketIDs[i] = old.bucketIDs[j]
+		s.sums[i] = old.sums[j]
+		s.seqEnds[i] = old.seqEnds[j]
+	}
+}
+
 // Ingest merges an S-envelope's delta into the shard accumulator.
 func (s *SShard) Ingest(env Envelope) {
 	k := packKeyBucket(env.Footprint.KeyID, env.Footprint.Time.BucketID)
-	i := s.probe(k)
+	if k == 0 {
+		k = 1 // 0 marks an empty slot
+	}
+	i := s.probe(k, env.Footprint.KeyID, env.Footprint.Time.BucketID)
 	if s.keys[i] == 0 {
+		if s.used+1 >= len(s.keys) {
+			s.grow()
+			i = s.probe(k, env.Footprint.KeyID, env.Footprint.Time.BucketID)
+		}
 		s.keys[i] = k
 		s.keyIDs[i] = env.Footprint.KeyID
 		s.bucketIDs[i] = env.Footprint.Time.BucketID
-- 
2.43.0


From bb5c5bc60818ce27636d84082033215642fcaf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 15/32] fix: flush the S-lane when a shard reaches its count
 threshold or time cap

maybeFlush said so and nobody listened: only the ticker ever flushed.
---
 plugin/tfd/saccumulator.go      | 11 ++++++-----
 plugin/tfd/saccumulator_wrap.go |  9 +++++----
 plugin/tfd/sservice.go          |  8 ++++----
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/plugin/tfd/saccumulator.go b/plugin/tfd/saccumulator.go
index 56d7146..13fc336 100644
--- a/plugin/tfd/saccumulator.go
+++ b/plugin/tfd/saccumulator.go
@@ -94,8 +94,9 @@ func (s *SShard) grow() {
 	}
 }
 
-// Ingest merges an S-envelope's delta into the shard accumulator.
-func (s *SShard) Ingest(env Envelope) {
+// Ingest merges an S-envelope's delta into the shard accumulator and reports whether the
+// shard is due for a flush.
+func (s *SShard) Ingest(env Envelope) bool {
 	k := packKeyBucket(env.Footprint.KeyID, env.Footprint.Time.BucketID)
 	if k == 0 {
 		k = 1 // 0 marks an empty slot
@@ -115,13 +116,13 @@ func (s *SShard) Ingest(env Envelope) {
 	if env.SeqEnd > s.seqEnds[i] {
 		s.seqEnds[i] = env.SeqEnd
 	}
-	// time-based flush check
-	s.maybeFlush()
+	// count- and time-based flush check
+	return s.maybeFlush()
 }
 
 func (s *SShard) maybeFlush() bool {
 	now := Now()
-	if s.used >= s.countThreshold || now.Sub(s.lastFlushAt) >= s.timeCap {
+	if (s.countThreshold > 0 && s.used >= s.countThreshold) || (s.timeCap > 0 && now.Sub(s.lastFlushAt) >= s.timeCap) {
 		s.lastFlushAt = now
 		return true
 	}
diff --git a/plugin/tfd/saccumulator_wrap.go b/plugin/tfd/saccumulator_wrap.go
index 0e2e3bf..1f3b2ee 100644
--- a/plugin/tfd/saccumulator_wrap.go
+++ b/plugin/tfd/saccumulator_wrap.go
@@ -46,13 +46,14 @@ func (a *SAccumulator) shardIndex(keyID, bucketID uint64) int {
 	return int(k % uint64(len(a.shards)))
 }
 
-// Ingest merges an S-channel envelope into the appropriate shard.
-func (a *SAccumulator) Ingest(env Envelope) {
+// Ingest merges an S-channel envelope into the appropriate shard and reports whether that
+// shard has reached its count threshold or time cap, i.e. whether to flush now.
+func (a *SAccumulator) Ingest(env Envelope) bool {
 	if env.Channel != ChannelScalar {
-		return
+		return false
 	}
 	i := a.shardIndex(env.Footprint.KeyID, env.Footprint.Time.BucketID)
-	a.shards[i].Ingest(env)
+	return a.shards[i].Ingest(env)
 }
 
 // FlushAll drains all shards into a contiguous slice and clears them.
diff --git a/plugin/tfd/sservice.go b/plugin/tfd/sservice.go
index 9b211ee..a5e52bd 100644
--- a/plugin/tfd/sservice.go
+++ b/plugin/tfd/sservice.go
@@ -139,11 +139,11 @@ func (s *SService) run() {
 		select {
 		case env := <-s.in:
 			// Drain bursty arrivals quickly
-			if env.Channel == ChannelScalar {
-				s.acc.Ingest(env)
+			// Opportunistic micro-flush when the shard reaches its count threshold or
+			// time cap; we still rely on the periodic ticker for tail bound.
+			if env.Channel == ChannelScalar && s.acc.Ingest(env) {
+				flush()
 			}
-			// Opportunistic micro-flush on count threshold is inside the shard;
-			// we still rely on the periodic ticker for tail bound.
 		case <-ticker.C:
 			flush()
 		case done := <-s.flushReqCh:
-- 
2.43.0


From 1d6f5bab67840b5f9ad05c3e2930d21ff79c45e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 16/32] fix: make SService shutdown safe

Stop hung without Start and panicked when repeated, Flush hung once the worker had gone, and an
envelope enqueued while the worker did its last drain was accepted and lost.
---
 plugin/tfd/sservice.go | 48 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/plugin/tfd/sservice.go b/plugin/tfd/sservice.go
index a5e52bd..94eeefe 100644
--- a/plugin/tfd/sservice.go
+++ b/plugin/tfd/sservice.go
@@ -49,6 +49,11 @@ type SService struct {
 	doneCh chan struct{}
 	opts   SServiceOptions
 	once   sync.Once
+	// mu orders ingress before stop: whatever was enqueued while stopped was still false is
+	// seen by the worker's final drain.
+	mu       sync.RWMutex
+	stopped  bool
+	stopOnce sync.Once
 	// flushReqCh allows external callers to request an immediate flush on the service goroutine and wait for completion
 	flushReqCh chan chan struct{}
 }
@@ -82,35 +87,62 @@ func (s *SService) Start() {
 }
 
 // Stop asks the worker to stop, performs a final flush, and waits for completion.
+// It may be called more than once, and on a service that was never started.
 func (s *SService) Stop() {
-	close(s.stopCh)
+	s.stopOnce.Do(func() {
+		s.Start() // someone has to drain what was enqueued
+		s.mu.Lock()
+		s.stopped = true
+		s.mu.Unlock()
+		close(s.stopCh)
+	})
 	<-s.doneCh
 }
 
 // Flush requests an immediate flush on the service goroutine and blocks until it completes.
 // Use this before durability reads (e.g., demos/tools) to reduce staleness between
-// time-capped batching and log inspection.
+// time-capped batching and log inspection. Once the service has stopped there is nothing
+// left to flush.
 func (s *SService) Flush() {
 	done := make(chan struct{})
 	// Send a synchronous flush request and wait for completion
-	s.flushReqCh <- done
-	<-done
+	select {
+	case s.flushReqCh <- done:
+	case <-s.doneCh:
+		return
+	}
+	select {
+	case <-done:
+	case <-s.doneCh:
+	}
 }
 
 // Ingest enqueues a Scalar envelope (Vector is ignored). It blocks if the buffer
-// is full.
-func (s *SService) Ingest(env Envelope) {
+// is full. Returns false if the service has been stopped.
+func (s *SService) Ingest(env Envelope) bool {
 	if env.Channel != ChannelScalar {
-		return
+		return true
+	}
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	if s.stopped {
+		return false
 	}
 	s.in <- env
+	return true
 }
 
-// TryIngest attempts to enqueue without blocking. Returns false if the buffer is full.
+// TryIngest attempts to enqueue without blocking. Returns false if the buffer is full
+// or the service has been stopped.
 func (s *SService) TryIngest(env Envelope) bool {
 	if env.Channel != ChannelScalar {
 		return true
 	}
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	if s.stopped {
+		return false
+	}
 	select {
 	case s.in <- env:
 		return true
-- 
2.43.0


From 8b0c63fb04a51ab565647a911f9f92be04e8d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 17/32] fix: serialize the V lane per key

Router and actors were used from concurrent HTTP handlers without any locking (concurrent map
writes), what was persisted could be in another order than the queue, and it lacked the audit
link.
---
 plugin/tfd/pipeline.go |  6 +-----
 plugin/tfd/vactors.go  | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/plugin/tfd/pipeline.go b/plugin/tfd/pipeline.go
index 1d0a785..7761848 100644
--- a/plugin/tfd/pipeline.go
+++ b/plugin/tfd/pipeline.go
@@ -88,11 +88,7 @@ func (p *Pipeline) Handle(env Envelope, persistV func(Envelope)) {
 		}
 		return
 	}
-	act := p.v.Route(env.Footprint.KeyID)
-	act.Enqueue(env)
-	if persistV != nil {
-		persistV(env)
-	}
+	p.v.Route(env.Footprint.KeyID).enqueue(env, persistV)
 }
 
 // DrainV returns (and clears) all queued Vector envelopes for a given key in
diff --git a/plugin/tfd/vactors.go b/plugin/tfd/vactors.go
index e596177..99db3a7 100644
--- a/plugin/tfd/vactors.go
+++ b/plugin/tfd/vactors.go
@@ -18,10 +18,12 @@ package tfd
 
 import (
 	"container/list"
+	"sync"
 )
 
 // VActor represents a per-key ordered queue with an audit chain.
 type VActor struct {
+	mu    sync.Mutex
 	keyID uint64
 	prev  [16]byte
 	queue *list.List // of Envelope
@@ -32,18 +34,29 @@ func newVActor(keyID uint64) *VActor {
 }
 
 // Enqueue appends a V-envelope and updates the prev-hash link.
-func (a *VActor) Enqueue(env Envelope) {
+func (a *VActor) Enqueue(env Envelope) { a.enqueue(env, nil) }
+
+// enqueue also hands the linked envelope to persist, if any, before the next one of this key
+// can be enqueued, so that what is persisted has the order of the queue.
+func (a *VActor) enqueue(env Envelope, persist func(Envelope)) {
 	if env.Channel != ChannelVector {
 		return
 	}
+	a.mu.Lock()
+	defer a.mu.Unlock()
 	// compute prev-hash as a function of key and last seqEnd
 	a.prev = Hash128(a.keyID, env.SeqEnd)
 	env.HashPrev = a.prev
 	a.queue.PushBack(env)
+	if persist != nil {
+		persist(env)
+	}
 }
 
 // Drain returns all queued envelopes in order and clears the queue.
 func (a *VActor) Drain() []Envelope {
+	a.mu.Lock()
+	defer a.mu.Unlock()
 	var out []Envelope
 	for e := a.queue.Front(); e != nil; e = e.Next() {
 		out = append(out, e.Value.(Envelope))
@@ -54,6 +67,7 @@ func (a *VActor) Drain() []Envelope {
 
 // VRouter sharded map from keyID to actor.
 type VRouter struct {
+	mu     sync.Mutex
 	actors map[uint64]*VActor
 }
 
@@ -62,6 +76,8 @@ func NewVRouter() *VRouter {
 }
 
 func (r *VRouter) Route(keyID uint64) *VActor {
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	act := r.actors[keyID]
 	if act == nil {
 		act = newVActor(keyID)
-- 
2.43.0


From 1b50868a6dfbeec396f16338438fd0c0c7a4f4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 18/32] fix: file sinks report a failed final flush and survive
 a torn last line

Close dropped the flush error, and after a crash in the middle of a line the first record
appended by the next run became part of it and was lost to ReadAll.
---
 internal/sinks/sbatch_file_sink.go | 30 +++++++++++++++++++++++++++---
 internal/sinks/venv_file_sink.go   |  9 ++++++---
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/internal/sinks/sbatch_file_sink.go b/internal/sinks/sbatch_file_sink.go
index 29e77ea..7644aab 100644
--- a/internal/sinks/sbatch_file_sink.go
+++ b/internal/sinks/sbatch_file_sink.go
@@ -37,10 +37,31 @@ type SBatchFileSink struct {
 	lastFlush time.Time
 }
 
+// openAppend opens (or creates) a JSONL file for appending. If a crash left its last line
+// unfinished, the line is terminated so that the next record does not become part of it.
+func openAppend(path string) (*os.File, error) {
+	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_RDWR, 0o644)
+	if err != nil {
+		return nil, err
+	}
+	st, err := f.Stat()
+	if err == nil && st.Size() > 0 {
+		var last [1]byte
+		if _, err = f.ReadAt(last[:], st.Size()-1); err == nil && last[0] != '\n' {
+			_, err = f.Write([]byte{'\n'})
+		}
+	}
+	if err != nil {
+		f.Close()
+		return nil, err
+	}
+	return f, nil
+}
+
 // NewSBatchFileSink opens (or creates) the file at path in append mode with
 // a buffered writer. Call Close() when done.
 func NewSBatchFileSink(path string) (*SBatchFileSink, error) {
-	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
+	f, err := openAppend(path)
 	if err != nil {
 		return nil, err
 	}
@@ -82,8 +103,11 @@ func (s *SBatchFileSink) Flush() error {
 func (s *SBatchFileSink) Close() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	_ = s.w.Flush()
-	return s.f.Close()
+	err := s.w.Flush()
+	if cerr := s.f.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
 
 // ReadAllSLog reads the entire S-batch log file as a slice. Intended for demo/replay.
diff --git a/internal/sinks/venv_file_sink.go b/internal/sinks/venv_file_sink.go
index 991c15d..19c8694 100644
--- a/internal/sinks/venv_file_sink.go
+++ b/internal/sinks/venv_file_sink.go
@@ -37,7 +37,7 @@ type VEnvFileSink struct {
 }
 
 func NewVEnvFileSink(path string) (*VEnvFileSink, error) {
-	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
+	f, err := openAppend(path)
 	if err != nil {
 		return nil, err
 	}
@@ -81,8 +81,11 @@ func (s *VEnvFileSink) Flush() error {
 func (s *VEnvFileSink) Close() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	_ = s.w.Flush()
-	return s.f.Close()
+	err := s.w.Flush()
+	if cerr := s.f.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
 
 // ReadAllVLog reads the Vector envelope log for replay.
-- 
2.43.0


From 80c3d37a4640130f3862a8a51f2e25db8ddd84fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 19/32] fix: drain tfd-proxy's HTTP server before closing its
 logs

Handlers still running at shutdown answered 202 for operations that no log recorded.
---
 cmd/tfd-proxy/main.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cmd/tfd-proxy/main.go b/cmd/tfd-proxy/main.go
index eb94b4c..8d3f0d1 100644
--- a/cmd/tfd-proxy/main.go
+++ b/cmd/tfd-proxy/main.go
@@ -17,6 +17,7 @@
 package main
 
 import (
+	"context"
 	"encoding/json"
 	"flag"
 	"fmt"
@@ -337,9 +338,10 @@ func main() {
 		_ = json.NewEncoder(w).Encode(st.Cells())
 	})
 
+	srv := &http.Server{Addr: *addr}
 	go func() {
 		log.Printf("tfd-proxy listening on %s", *addr)
-		if err := http.ListenAndServe(*addr, nil); err != nil {
+		if err := srv.ListenAndServe(); err != nil && err != http.ErrServerClosed {
 			log.Fatalf("http: %v", err)
 		}
 	}()
@@ -348,4 +350,12 @@ func main() {
 	sigCh := make(chan os.Signal, 1)
 	signal.Notify(sigCh, os.Interrupt, syscall.SIGTERM)
 	<-sigCh
+
+	// Finish the requests in flight before the deferred calls stop the pipeline and close
+	// the logs: what has been accepted must be in them.
+	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
+	defer cancel()
+	if err := srv.Shutdown(ctx); err != nil {
+		log.Printf("http shutdown: %v", err)
+	}
 }
-- 
2.43.0


From f62a311b6f8f5f99f83ea89706acad133c479e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:17 +0000
Subject: [PATCH 20/32] fix: lock counters in key order in the Postgres
 persister

Two writers whose batches name the same keys in different orders deadlocked, and the batch
Postgres aborted was lost if it was a final flush.
---
 internal/ratelimiter/persistence/postgres.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ratelimiter/persistence/postgres.go b/internal/ratelimiter/persistence/postgres.go
index 8af9e96..2f06644 100644
--- a/internal/ratelimiter/persistence/postgres.go
+++ b/internal/ratelimiter/persistence/postgres.go
@@ -21,6 +21,7 @@ import (
 	"database/sql"
 	"errors"
 	"fmt"
+	"sort"
 	"time"
 )
 
@@ -80,6 +81,11 @@ func (p *PostgresPersister) CommitBatch(ctx context.Context, entries []CommitEnt
 		defer cancel()
 	}
 
+	// Lock the counters in key order: concurrent writers with batches in different orders would
+	// deadlock, and one of the batches would fail.
+	entries = append([]CommitEntry(nil), entries...)
+	sort.SliceStable(entries, func(i, j int) bool { return entries[i].Key < entries[j].Key })
+
 	tx, err := p.db.BeginTx(ctx, &sql.TxOptions{Isolation: sql.LevelReadCommitted})
 	if err != nil {
 		return err
-- 
2.43.0


From 3f68210be38fb682db1e09f7ab0070395209338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:33 +0000
Subject: [PATCH 21/32] fix: GET /state without a key returned an empty body

A Go map with an array key cannot be encoded as JSON. Use the same "key:bucket" names as
the per-key view.
---
 cmd/tfd-proxy/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/tfd-proxy/main.go b/cmd/tfd-proxy/main.go
index 8d3f0d1..bcc55f5 100644
--- a/cmd/tfd-proxy/main.go
+++ b/cmd/tfd-proxy/main.go
@@ -335,7 +335,11 @@ func main() {
 			return
 		}
 		// dump everything
-		_ = json.NewEncoder(w).Encode(st.Cells())
+		m := map[string]int64{}
+		for kb, v := range st.Cells() {
+			m[fmt.Sprintf("%d:%d", kb[0], kb[1])] = v
+		}
+		_ = json.NewEncoder(w).Encode(m)
 	})
 
 	srv := &http.Server{Addr: *addr}
-- 
2.43.0


From 68449103a05df03eaedcd7bbaff00355d32ae16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:11 +0000
Subject: [PATCH 22/32] fix: do not lose an update to a churn aggregate that is
 being dropped as idle

---
 .../ratelimiter/telemetry/churn/exporter.go   | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/internal/ratelimiter/telemetry/churn/exporter.go b/internal/ratelimiter/telemetry/churn/exporter.go
index c5f7b34..ab620af 100644
--- a/internal/ratelimiter/telemetry/churn/exporter.go
+++ b/internal/ratelimiter/telemetry/churn/exporter.go
@@ -25,7 +25,7 @@ type point struct {
 type keyAgg struct {
 	abs        atomic.Int64 // sum of absolute updates (admitted requests)
 	net        atomic.Int64 // sum of absolute committed vectors
-	lastUpdate atomic.Int64 // unix nano
+	lastUpdate atomic.Int64 // unix nano; -1 once dropped from agg
 }
 
 var (
@@ -125,8 +125,9 @@ func publishSnapshot() {
 	agg.Range(func(k, v any) bool {
 		ka := v.(*keyAgg)
 		last := ka.lastUpdate.Load()
-		if last > 0 && last < cutoff {
-			agg.Delete(k)
+		// Claim the entry before dropping it, so that an update arriving now is not lost with it.
+		if last < 0 || (last > 0 && last < cutoff && ka.lastUpdate.CompareAndSwap(last, -1)) {
+			agg.CompareAndDelete(k, v)
 			return true
 		}
 		tracked++
@@ -245,26 +246,40 @@ func sampleRate() float64 {
 // --- recording helpers (called from prom_counters.go) ---
 
 func exporterRecordAdmit(keyHash uint64) {
-	ka := getAgg(keyHash)
+	ka := touchAgg(keyHash)
 	ka.abs.Add(1)
-	ka.lastUpdate.Store(time.Now().UnixNano())
 	naiveWritesInternal.Add(1)
 	// Update global sampled abs sum for churn KPI
 	sumAbsGlobal.Add(1)
 }
 
 func exporterRecordCommit(keyHash uint64, vector int64) {
-	ka := getAgg(keyHash)
+	ka := touchAgg(keyHash)
 	v := vector
 	if v < 0 {
 		v = -v
 	}
 	ka.net.Add(v)
-	ka.lastUpdate.Store(time.Now().UnixNano())
 	// Update global sampled net sum for churn KPI
 	sumNetGlobal.Add(v)
 }
 
+// touchAgg returns the aggregate of keyHash with lastUpdate set to now, replacing
+// one that the exporter is dropping.
+func touchAgg(keyHash uint64) *keyAgg {
+	for {
+		ka := getAgg(keyHash)
+		last := ka.lastUpdate.Load()
+		if last < 0 {
+			agg.CompareAndDelete(keyHash, ka)
+			continue
+		}
+		if ka.lastUpdate.CompareAndSwap(last, time.Now().UnixNano()) {
+			return ka
+		}
+	}
+}
+
 func getAgg(keyHash uint64) *keyAgg {
 	if v, ok := agg.Load(keyHash); ok {
 		return v.(*keyAgg)
-- 
2.43.0


From 150f773ec3fa7b77118bc4bd1b18b4848f852ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:24 +0000
Subject: [PATCH 23/32] fix: a connection left open by a timed-out shutdown
 could bring a request after the final commit

---
 cmd/ratelimiter-api/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/ratelimiter-api/main.go b/cmd/ratelimiter-api/main.go
index f633377..23c89c8 100644
--- a/cmd/ratelimiter-api/main.go
+++ b/cmd/ratelimiter-api/main.go
@@ -228,6 +228,8 @@ func main() {
 	defer cancel()
 	if err := httpServer.Shutdown(ctx); err != nil {
 		log.Printf("Server shutdown failed: %v", err)
+		// A connection that is still open could yet bring a request.
+		_ = httpServer.Close()
 	}
 
 	// 8. Now stop the background worker. This will trigger a final commit
-- 
2.43.0


From 4632946c3c9dcaefc045e2eba746225663f3b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:49 +0000
Subject: [PATCH 24/32] fix: a connection left open by a timed-out shutdown
 could bring an operation after the logs were closed

---
 cmd/tfd-proxy/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/tfd-proxy/main.go b/cmd/tfd-proxy/main.go
index bcc55f5..3f7a376 100644
--- a/cmd/tfd-proxy/main.go
+++ b/cmd/tfd-proxy/main.go
@@ -361,5 +361,7 @@ func main() {
 	defer cancel()
 	if err := srv.Shutdown(ctx); err != nil {
 		log.Printf("http shutdown: %v", err)
+		// A connection that is still open could yet bring a request.
+		_ = srv.Close()
 	}
 }
-- 
2.43.0


From fde09ff503e1eef8fe2c872975a929b692428999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:02 +0000
Subject: [PATCH 25/32] fix: GET /state reports logs that cannot be flushed

The handler ignored the result of flushing the two logs. Once a write to one of them had failed,
it answered 200 with a state that lacked operations it had accepted.
---
 cmd/tfd-proxy/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/tfd-proxy/main.go b/cmd/tfd-proxy/main.go
index 3f7a376..3da8db1 100644
--- a/cmd/tfd-proxy/main.go
+++ b/cmd/tfd-proxy/main.go
@@ -19,6 +19,7 @@ package main
 import (
 	"context"
 	"encoding/json"
+	"errors"
 	"flag"
 	"fmt"
 	"log"
@@ -286,8 +287,11 @@ func main() {
 		key := r.URL.Query().Get("key")
 		// Request an immediate S-lane flush to reduce staleness, then flush sinks.
 		pipe.FlushS()
-		_ = fileSink.Flush()
-		_ = vSink.Flush()
+		// What could not be written is not in the logs: better no answer than a wrong one.
+		if err := errors.Join(fileSink.Flush(), vSink.Flush()); err != nil {
+			http.Error(w, fmt.Sprintf("flush logs: %v", err), 500)
+			return
+		}
 		sb, err := sinks.ReadAllSLog(*sLog)
 		if err != nil {
 			http.Error(w, fmt.Sprintf("read S log: %v", err), 500)
-- 
2.43.0


From 6593327168efb8f2958158c63e69c0e85bcd407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:36 +0000
Subject: [PATCH 26/32] fix: tfd-sim measured the first flush interval from
 1970

---
 cmd/tfd-sim/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/tfd-sim/main.go b/cmd/tfd-sim/main.go
index c608672..4829fdc 100644
--- a/cmd/tfd-sim/main.go
+++ b/cmd/tfd-sim/main.go
@@ -62,9 +62,9 @@ type metricSink struct {
 }
 
 func (m *metricSink) OnSBatches(b []tfd.SBatch) {
-	prev := time.Unix(0, m.last.Swap(time.Now().UnixNano()))
-	if !prev.IsZero() && m.flushHist != nil {
-		m.flushHist.Observe(time.Since(prev).Seconds())
+	// The first write has no predecessor to measure an interval from.
+	if prev := m.last.Swap(time.Now().UnixNano()); prev != 0 && m.flushHist != nil {
+		m.flushHist.Observe(time.Since(time.Unix(0, prev)).Seconds())
 	}
 	m.inner.OnSBatches(b)
 }
-- 
2.43.0


From c8e72feb396d8e1e67ee36777b650ba5b88ae0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:05 +0000
Subject: [PATCH 27/32] fix: tfd-sim generated burst times as many operations
 per second as -qps asks for

---
 cmd/tfd-sim/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/tfd-sim/main.go b/cmd/tfd-sim/main.go
index 4829fdc..00afd1d 100644
--- a/cmd/tfd-sim/main.go
+++ b/cmd/tfd-sim/main.go
@@ -277,7 +277,11 @@ func main() {
 	rng := rand.New(rand.NewSource(time.Now().UnixNano()))
 	stop := make(chan struct{})
 	go func() {
-		interval := time.Second / time.Duration(max(1, *qps))
+		// Each tick generates a whole burst.
+		interval := time.Second * time.Duration(*burst) / time.Duration(max(1, *qps))
+		if interval <= 0 {
+			interval = 1
+		}
 		ticker := time.NewTicker(interval)
 		defer ticker.Stop()
 		burstLeft := 0
-- 
2.43.0


From 43a87f63373d62443b67664754e14e4eff4c3ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:04 +0000
Subject: [PATCH 28/32] fix: tfd-sim lost operations that it had counted or
 answered when it ended

---
 cmd/tfd-sim/main.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/cmd/tfd-sim/main.go b/cmd/tfd-sim/main.go
index 00afd1d..4ce3057 100644
--- a/cmd/tfd-sim/main.go
+++ b/cmd/tfd-sim/main.go
@@ -17,6 +17,7 @@
 package main
 
 import (
+	"context"
 	"flag"
 	"fmt"
 	"log"
@@ -266,9 +267,10 @@ func main() {
 		}
 		w.WriteHeader(202)
 	})
+	srv := &http.Server{Addr: *httpAddr}
 	go func() {
 		log.Printf("tfd-sim listening on %s", *httpAddr)
-		if err := http.ListenAndServe(*httpAddr, nil); err != nil {
+		if err := srv.ListenAndServe(); err != nil && err != http.ErrServerClosed {
 			log.Fatalf("http: %v", err)
 		}
 	}()
@@ -276,7 +278,9 @@ func main() {
 	// Generator loop
 	rng := rand.New(rand.NewSource(time.Now().UnixNano()))
 	stop := make(chan struct{})
+	genDone := make(chan struct{})
 	go func() {
+		defer close(genDone)
 		// Each tick generates a whole burst.
 		interval := time.Second * time.Duration(*burst) / time.Duration(max(1, *qps))
 		if interval <= 0 {
@@ -342,8 +346,17 @@ func main() {
 	case <-endTimer:
 	}
 	close(stop)
-	// allow some time to flush
-	time.Sleep(200 * time.Millisecond)
+	<-genDone
+
+	// Finish the requests in flight before the deferred calls stop the service and close the
+	// logs: what has been counted must be in them.
+	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
+	defer cancel()
+	if err := srv.Shutdown(ctx); err != nil {
+		log.Printf("http shutdown: %v", err)
+		// A connection that is still open could yet bring a request.
+		_ = srv.Close()
+	}
 }
 
 func max(a, b int) int {
-- 
2.43.0


From e575589aff82041ede6b4d3251a76c291c394082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:05 +0000
Subject: [PATCH 29/32] fix: tfd-sim logged V operations without their audit
 links and kept all of them in memory

---
 cmd/tfd-sim/main.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cmd/tfd-sim/main.go b/cmd/tfd-sim/main.go
index 4ce3057..e5fd9d9 100644
--- a/cmd/tfd-sim/main.go
+++ b/cmd/tfd-sim/main.go
@@ -236,6 +236,13 @@ func main() {
 	}
 	defer vSink.Close()
 
+	// routeV appends env to its key's ordered lane and moves the linked entries to the log.
+	routeV := func(env tfd.Envelope) {
+		a := vr.Route(env.Footprint.KeyID)
+		a.Enqueue(env)
+		vSink.AppendAll(a.Drain())
+	}
+
 	// HTTP for metrics and simple echo endpoints (optional minimal proxy for /consume)
 	http.Handle("/metrics", promhttp.Handler())
 	http.HandleFunc("/consume", func(w http.ResponseWriter, r *http.Request) {
@@ -261,8 +268,7 @@ func main() {
 			}
 			sOps.Inc()
 		} else {
-			vr.Route(fp.KeyID).Enqueue(env)
-			vSink.Append(env)
+			routeV(env)
 			vOps.Inc()
 		}
 		w.WriteHeader(202)
@@ -325,8 +331,7 @@ func main() {
 						}
 						sOps.Inc()
 					} else {
-						vr.Route(fp.KeyID).Enqueue(env)
-						vSink.Append(env)
+						routeV(env)
 						vOps.Inc()
 					}
 				}
-- 
2.43.0


From 8b52f9b24a25f2d0fdf06d36fed9fa5c7a5b4703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:05 +0000
Subject: [PATCH 30/32] fix: a request close to the int64 limit overflowed the
 fast path's check and was admitted

---
 vsa.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vsa.go b/vsa.go
index 2595399..a6946f8 100644
--- a/vsa.go
+++ b/vsa.go
@@ -333,11 +333,12 @@ func (v *VSA) TryConsume(n int64) bool {
 		return false
 	}
 	// 1) Lock-free fast path when we are far from the limit.
-	if v.fastPathGuard > 0 {
+	// (More than the scalar is never available, and must not even be reserved.)
+	if v.fastPathGuard > 0 && n <= v.scalar.Load() {
 		// Reserve on approxNet before checking, so that concurrent callers see each
 		// other's reservations, and read the scalar afterwards (Commit lowers it first).
 		approx := v.approxNet.Add(n) - n
-		if v.scalar.Load()-abs(approx) >= n+v.fastPathGuard {
+		if avail := v.scalar.Load() - abs(approx); avail >= n && avail-n >= v.fastPathGuard {
 			idx := int(v.chooser.Add(1)) & v.mask
 			v.stripes[idx].val.Add(n)
 			if v.hGroups > 0 {
-- 
2.43.0


From 8e7954bd7d4b3b36b2cd6603278fb84154992724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:42 +0000
Subject: [PATCH 31/32] fix: VSA.Update counts into approxNet before the
 stripes, so a concurrent Commit cannot make it too low and requests that fit
 be refused

---
 vsa.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vsa.go b/vsa.go
index a6946f8..8bf0586 100644
--- a/vsa.go
+++ b/vsa.go
@@ -206,14 +206,15 @@ func New(initialScalar int64) *VSA {
 // Update applies a change to the VSA's volatile vector.
 // Hot path: lock-free atomic add on a chosen stripe.
 func (v *VSA) Update(value int64) {
+	// keep approximate net up to date for fast-path gating; first, because a Commit that took
+	// this value from the stripes before it is in approxNet would make approxNet too low
+	v.approxNet.Add(value)
 	idx := v.chooseIdxForUpdate()
 	v.stripes[idx].val.Add(value)
 	if v.hGroups > 0 {
 		g := idx / v.hStride
 		v.hGroupSum[g].Add(value)
 	}
-	// keep approximate net up to date for fast-path gating
-	v.approxNet.Add(value)
 }
 
 // Available returns the real-time available resource count: S - |A_net|.
-- 
2.43.0


From 470a9ec55bd3da9020f6751bb29095580999e303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:41 +0000
Subject: [PATCH 32/32] fix: SShard.FlushKey left gaps that hid displaced
 cells, whose counts were then lost when the table grew

---
 plugin/tfd/saccumulator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/plugin/tfd/saccumulator.go b/plugin/tfd/saccumulator.go
index 13fc336..0624de4 100644
--- a/plugin/tfd/saccumulator.go
+++ b/plugin/tfd/saccumulator.go
@@ -72,9 +72,11 @@ func (s *SShard) probe(k, keyID, bucketID uint64) int {
 }
 
 // grow doubles the table. At least one slot has to stay empty for probe to terminate.
-func (s *SShard) grow() {
+func (s *SShard) grow() { s.rehash(2 * len(s.keys)) }
+
+// rehash moves all entries into a fresh table of n slots.
+func (s *SShard) rehash(n int) {
 	old := *s
-	n := 2 * len(old.keys)
 	s.keys = make([]uint64, n)
 	s.keyIDs = make([]uint64, n)
 	s.bucketIDs = make([]uint64, n)
@@ -179,4 +181,7 @@ func (s *SShard) FlushKey(keyID uint64, out *[]SBatch) {
 		s.seqEnds[i] = 0
 		s.used--
 	}
+	// probe stops at an empty slot, so an entry that was displaced past a cleared one would not
+	// be found any more: place what is left anew.
+	s.rehash(len(s.keys))
 }
-- 
2.43.0

