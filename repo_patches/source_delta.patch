From 46504bceb5e7f6a19b20fc1227f2f710647b1dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:10 +0000
Subject: [PATCH 01/20] fix: do not overflow on the rough upper bound of a root
 node of negative value

The root subproblem has an upper bound of isize::MAX: subtracting a negative
value from it panics in a worker of a build with overflow checks.
---
 src/mdd/with_all.rs     | 2 +-
 src/mdd/with_barrier.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 53f424d..8db3bed 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -227,7 +227,7 @@ where
             best: None,
             inbound: None,
             value_bot: isize::MIN,
-            rub: input.residual.ub - root_v,
+            rub: input.residual.ub.saturating_sub(root_v),
             flags: NodeFlags::new_exact(),
         };
         input
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index d6c496d..c1dcfce 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -252,7 +252,7 @@ where
             depth: root_depth,
             value_bot: isize::MIN,
             theta: isize::MAX,
-            rub: input.residual.ub - root_v,
+            rub: input.residual.ub.saturating_sub(root_v),
             flags: NodeFlags::new_exact(),
         };
 
-- 
2.43.0


From 68816f6107c725f0114a67708df89465946834a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 02/20] fix: with_nb_threads allocates a cell of upper_bounds
 for each thread

Asking for more threads than the solver was created with made the additional
workers panic (index out of bounds) and the other ones wait forever.
---
 src/solver/barrier.rs  | 2 ++
 src/solver/parallel.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index ce95131..875f0f7 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -190,6 +190,8 @@ where
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
         self.nb_threads = nb_threads;
+        // each thread needs a cell to store the upper bound of its current node
+        self.shared.critical.get_mut().upper_bounds = vec![isize::MAX; nb_threads];
         self
     }
 
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index c5a68f4..feb06d9 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -173,6 +173,8 @@ where
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
         self.nb_threads = nb_threads;
+        // each thread needs a cell to store the upper bound of its current node
+        self.shared.critical.get_mut().upper_bounds = vec![isize::MAX; nb_threads];
         self
     }
 
-- 
2.43.0


From ff5d70678daac14a3bd3dfd32e5a8ce188540d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 03/20] fix: a diagram whose layer is empty is not necessarily
 exact

When a layer turned out to be empty the compilation returned right away, which
left the diagram flagged as exact even though it had been restricted, and
skipped the computation of its local bounds and thresholds.
---
 src/mdd/with_all.rs     | 2 +-
 src/mdd/with_barrier.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 8db3bed..14b6eaf 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -250,7 +250,7 @@ where
             }
 
             if curr_l.is_empty() {
-                return;
+                break;
             }
 
             match input.comp_type {
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index c1dcfce..f9eddd7 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -271,7 +271,7 @@ where
             }
 
             if curr_l.is_empty() {
-                return;
+                break;
             }
 
             if depth > root_depth && !self.barriers[depth].read().is_empty() {
-- 
2.43.0


From 0387677c64ca4cf9644fe185ee329a81f3958139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 04/20] fix: the frontier cutset comprises the exact terminal
 nodes

When a relaxed diagram is not exact, the solutions of its exact terminal nodes
are not below any node of the frontier cutset: an optimum the restricted
diagram missed was lost.
---
 src/mdd/with_all.rs     | 6 ++++++
 src/mdd/with_barrier.rs | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/mdd/with_all.rs b/src/mdd/with_all.rs
index 14b6eaf..ebb8cbd 100644
--- a/src/mdd/with_all.rs
+++ b/src/mdd/with_all.rs
@@ -482,6 +482,12 @@ where
                 self.nodes[id.0].value_bot = 0;
                 self.nodes[id.0].flags.set_marked(true);
                 visit.push(id);
+
+                // no other node of the frontier cutset leads to the solutions of an exact terminal node
+                if self.cutset_type == CutsetType::Frontier && self.nodes[id.0].flags.is_exact() {
+                    self.nodes[id.0].flags.set_cutset(true);
+                    self.cutset.push(id);
+                }
             }
 
             while !visit.is_empty() {
diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index f9eddd7..8979edc 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -544,6 +544,7 @@ where
                 self.nodes[node_id.0].flags.set_cutset(true);
             } else if self.cutset_type == CutsetType::Frontier && self.nodes[node_id.0].flags.is_exact() {
                 self.nodes[node_id.0].flags.set_cutset(true);
+                self.cutset.push(*node_id); // no other cutset node leads to that exact solution
             }
         }
 
-- 
2.43.0


From 8a3cffa859de56bb2c4dab7be4470ba47e2896e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:58 +0000
Subject: [PATCH 05/20] fix: the upper bound of an interrupted resolution
 accounts for every open node

The nodes of the fringe were ignored when other nodes were being processed, and
the last worker to stop took the fringe emptied by the interruption for the end
of the resolution and set the upper bound to the lower bound: the upper bound
could be less than the optimum.
---
 src/solver/barrier.rs  | 13 ++++++++-----
 src/solver/parallel.rs | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index 875f0f7..cdccd6f 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -336,8 +336,8 @@ where
             critical.lowest_active_layer += 1;
         }
 
-        // Are we done ?
-        if critical.ongoing == 0 && critical.fringe.is_empty() {
+        // Are we done ? (the fringe is also empty after an interruption)
+        if !critical.interrupted && critical.ongoing == 0 && critical.fringe.is_empty() {
             critical.best_ub = critical.best_lb;
             return WorkLoad::Complete;
         }
@@ -348,7 +348,9 @@ where
         } else if interrupt() {
             critical.interrupted = true;
 
-            critical.best_ub = if critical.ongoing > 0 {
+            // the optimum is either known already, or still to be found in one of
+            // the nodes being processed or in one of the nodes of the fringe
+            let ongoing_ub = if critical.ongoing > 0 {
                 critical
                     .upper_bounds
                     .iter()
@@ -357,9 +359,10 @@ where
                     .max()
                     .unwrap_or(isize::MAX)
             } else {
-                let nn = critical.fringe.pop().unwrap();
-                nn.ub
+                isize::MIN
             };
+            let fringe_ub = critical.fringe.pop().map_or(isize::MIN, |nn| nn.ub);
+            critical.best_ub = critical.best_lb.max(ongoing_ub).max(fringe_ub);
 
             critical.fringe.clear();
             return WorkLoad::Interruption;
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index feb06d9..82bf030 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -306,8 +306,8 @@ where
     {
         let mut critical = shared.critical.lock();
 
-        // Are we done ?
-        if critical.ongoing == 0 && critical.fringe.is_empty() {
+        // Are we done ? (the fringe is also empty after an interruption)
+        if !critical.interrupted && critical.ongoing == 0 && critical.fringe.is_empty() {
             critical.best_ub = critical.best_lb;
             return WorkLoad::Complete;
         }
@@ -318,7 +318,9 @@ where
         } else if interrupt() {
             critical.interrupted = true;
 
-            critical.best_ub = if critical.ongoing > 0 {
+            // the optimum is either known already, or still to be found in one of
+            // the nodes being processed or in one of the nodes of the fringe
+            let ongoing_ub = if critical.ongoing > 0 {
                 critical
                     .upper_bounds
                     .iter()
@@ -327,9 +329,10 @@ where
                     .max()
                     .unwrap_or(isize::MAX)
             } else {
-                let nn = critical.fringe.pop().unwrap();
-                nn.ub
+                isize::MIN
             };
+            let fringe_ub = critical.fringe.pop().map_or(isize::MIN, |nn| nn.ub);
+            critical.best_ub = critical.best_lb.max(ongoing_ub).max(fringe_ub);
 
             critical.fringe.clear();
             return WorkLoad::Interruption;
-- 
2.43.0


From a541a55e1b1f715bd9552a38d4fb54f09756f891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 06/20] fix: a solver can resume after an interruption

The interruption flag was never reset: a further call to maximize or to
maximize_with_interrupt returned at once, without solving the problem, and the
stale thresholds of the barriers hid the subproblems left unexplored.
---
 src/solver/barrier.rs  | 8 ++++++++
 src/solver/parallel.rs | 7 ++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index cdccd6f..91a3325 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -201,6 +201,14 @@ where
     fn initialize(&self) {
         let root = self.root_node();
         let mut critical = self.shared.critical.lock();
+        // forget about a previous (interrupted) resolution, save for its best solution
+        critical.interrupted = false;
+        critical.best_ub = isize::MAX;
+        critical.fringe.clear();
+        critical.open_by_layer.fill(0);
+        critical.ongoing_by_layer.fill(0);
+        critical.lowest_active_layer = 0;
+        self.shared.barriers.iter().for_each(|barrier| barrier.write().clear());
         critical.fringe.push(root);
         critical.open_by_layer[0] += 1;
     }
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index 82bf030..1f87ca4 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -183,7 +183,12 @@ where
     /// can pick it up and the processing can be bootstrapped.
     fn initialize(&self) {
         let root = self.root_node();
-        self.shared.critical.lock().fringe.push(root);
+        let mut critical = self.shared.critical.lock();
+        // forget about a previous (interrupted) resolution, save for its best solution
+        critical.interrupted = false;
+        critical.best_ub = isize::MAX;
+        critical.fringe.clear();
+        critical.fringe.push(root);
     }
 
     fn root_node(&self) -> SubProblem<P::State> {
-- 
2.43.0


From 74f7f1603d0e40f99e59f804dd48adaa17dc6182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:39 +0000
Subject: [PATCH 07/20] fix: do not wait forever for a node whose processing
 panicked

When a callback of the user panicked, the worker died without acknowledging
that its node was finished: the other workers, and the call to maximize, never
returned. The panic now stops all workers and reaches the caller.
---
 src/solver/barrier.rs  | 25 ++++++++++++++++++-------
 src/solver/parallel.rs | 22 +++++++++++++++++-----
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index 91a3325..938d220 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -1,4 +1,4 @@
-use std::{sync::Arc, hash::Hash};
+use std::{sync::Arc, hash::Hash, panic::{catch_unwind, resume_unwind, AssertUnwindSafe}};
 
 use parking_lot::{Condvar, Mutex, RwLock};
 use rustc_hash::FxHashMap;
@@ -318,6 +318,21 @@ where
         shared.monitor.notify_all();
     }
 
+    /// Processes a node and acknowledges that it is finished. If the processing
+    /// panics, all threads are asked to stop: they must not wait forever for a
+    /// node that nobody is processing any more.
+    fn process_or_abort(mdd: &mut Barrier<P::State>, shared: &Shared<P, R, O, W>, thread_id: usize, node: SubProblem<P::State>) {
+        let depth = node.path.len();
+        match catch_unwind(AssertUnwindSafe(|| Self::process_one_node(mdd, shared, node))) {
+            Ok(explored_dd) => Self::notify_node_finished(shared, thread_id, depth, explored_dd),
+            Err(panic) => {
+                shared.critical.lock().interrupted = true;
+                Self::notify_node_finished(shared, thread_id, depth, 0);
+                resume_unwind(panic)
+            }
+        }
+    }
+
     /// Consults the shared state to fetch a workload. Depending on the current
     /// state, the workload can either be:
     ///
@@ -460,9 +475,7 @@ where
                             WorkLoad::Interruption => break, // this one cannot occur
                             WorkLoad::Starvation => continue,
                             WorkLoad::WorkItem { node } => {
-                                let depth = node.path.len();
-                                let explored_dd = Self::process_one_node(&mut mdd, shared, node);
-                                Self::notify_node_finished(shared, i, depth, explored_dd);
+                                Self::process_or_abort(&mut mdd, shared, i, node);
                             }
                         }
                     }
@@ -508,9 +521,7 @@ where
                             WorkLoad::Interruption => break, // this one cannot occur
                             WorkLoad::Starvation => continue,
                             WorkLoad::WorkItem { node } => {
-                                let depth = node.path.len();
-                                let explored_dd = Self::process_one_node(&mut mdd, shared, node);
-                                Self::notify_node_finished(shared, i, depth, explored_dd);
+                                Self::process_or_abort(&mut mdd, shared, i, node);
                             }
                         }
                     }
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index 1f87ca4..72fa1dc 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -1,4 +1,4 @@
-use std::{sync::Arc, hash::Hash};
+use std::{sync::Arc, hash::Hash, panic::{catch_unwind, resume_unwind, AssertUnwindSafe}};
 
 use parking_lot::{Condvar, Mutex};
 
@@ -292,6 +292,20 @@ where
         shared.monitor.notify_all();
     }
 
+    /// Processes a node and acknowledges that it is finished. If the processing
+    /// panics, all threads are asked to stop: they must not wait forever for a
+    /// node that nobody is processing any more.
+    fn process_or_abort(mdd: &mut All<P::State>, shared: &Shared<P, R, O, W, F>, thread_id: usize, node: SubProblem<P::State>) {
+        match catch_unwind(AssertUnwindSafe(|| Self::process_one_node(mdd, shared, node))) {
+            Ok(explored_dd) => Self::notify_node_finished(shared, thread_id, explored_dd),
+            Err(panic) => {
+                shared.critical.lock().interrupted = true;
+                Self::notify_node_finished(shared, thread_id, 0);
+                resume_unwind(panic)
+            }
+        }
+    }
+
     /// Consults the shared state to fetch a workload. Depending on the current
     /// state, the workload can either be:
     ///
@@ -399,8 +413,7 @@ where
                             WorkLoad::Interruption => break, // this one cannot occur
                             WorkLoad::Starvation => continue,
                             WorkLoad::WorkItem { node } => {
-                                let explored_dd = Self::process_one_node(&mut mdd, shared, node);
-                                Self::notify_node_finished(shared, i, explored_dd);
+                                Self::process_or_abort(&mut mdd, shared, i, node);
                             }
                         }
                     }
@@ -447,8 +460,7 @@ where
                             WorkLoad::Interruption => break, // this one cannot occur
                             WorkLoad::Starvation => continue,
                             WorkLoad::WorkItem { node } => {
-                                let explored_dd = Self::process_one_node(&mut mdd, shared, node);
-                                Self::notify_node_finished(shared, i, explored_dd);
+                                Self::process_or_abort(&mut mdd, shared, i, node);
                             }
                         }
                     }
-- 
2.43.0


From 4b7f117d9285bc9620e293c6801a7ea76984bd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 08/20] fix: update the thresholds of the barriers atomically

The threshold was read and then overwritten under another lock: a thread could
replace the better threshold, or the explored flag, another thread had published
in the meantime, so that subproblems were explored again.
---
 src/mdd/with_barrier.rs | 16 +++++++++-------
 src/solver/barrier.rs   |  6 ++++--
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/mdd/with_barrier.rs b/src/mdd/with_barrier.rs
index 8979edc..d88b4d8 100644
--- a/src/mdd/with_barrier.rs
+++ b/src/mdd/with_barrier.rs
@@ -618,16 +618,18 @@ where
             return;
         }
 
-        let update = self.barriers[depth].read().get(&state).map_or(true, |info| {
-            if theta > info.theta || (theta == info.theta && !info.explored && explored) {
-                true
-            } else {
-                false
-            }
+        let improves = |info: Option<&BarrierInfo>| info.map_or(true, |info| {
+            theta > info.theta || (theta == info.theta && !info.explored && explored)
         });
 
+        let update = improves(self.barriers[depth].read().get(&state));
+
         if update {
-            self.barriers[depth].write().insert(state, BarrierInfo { theta, explored });
+            // another thread may have updated the threshold since it was read
+            let mut barrier = self.barriers[depth].write();
+            if improves(barrier.get(&state)) {
+                barrier.insert(state, BarrierInfo { theta, explored });
+            }
         }
     }
 }
diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index 938d220..e806fb4 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -407,7 +407,9 @@ where
 
             let depth = nn.path.len();
 
-            let explore = shared.barriers[depth].read().get(&nn.state).map_or(true, |info| {
+            // the threshold must not change between its consultation and its update
+            let mut barrier = shared.barriers[depth].write();
+            let explore = barrier.get(&nn.state).map_or(true, |info| {
                 if nn.value > info.theta || (nn.value == info.theta && !info.explored) {
                     true
                 } else {
@@ -417,7 +419,7 @@ where
             });
 
             if explore {
-                shared.barriers[depth].write().insert(nn.state.clone(), BarrierInfo {theta: nn.value, explored: true});
+                barrier.insert(nn.state.clone(), BarrierInfo {theta: nn.value, explored: true});
                 break;
             }
 
-- 
2.43.0


From aad0693fd1d087f256966e4448ffb515a3eb82ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 09/20] fix: the reported gap is right for infinite and
 opposite bounds

---
 src/xputils.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/xputils.rs b/src/xputils.rs
index 36cf991..4914fef 100644
--- a/src/xputils.rs
+++ b/src/xputils.rs
@@ -169,12 +169,13 @@ where
 }
 
 fn gap(lb: isize, ub: isize) -> f32 {
-    let aub = ub.abs();
-    let alb = lb.abs();
-    let u = aub.max(alb);
-    let l = aub.min(alb);
+    if lb == ub {
+        return 0.0;
+    }
+    // isize::MIN has no absolute value, and the bounds can be of opposite signs
+    let (lb, ub) = (lb as f64, ub as f64);
 
-    (u - l) as f32 / u as f32
+    ((ub - lb) / ub.abs().max(lb.abs())) as f32
 }
 
 pub fn resolution_header() {
-- 
2.43.0


From d3cccd6e625d4039dee38778f7c81fe09368fb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 10/20] fix: the psp stocking bound does not underflow on an
 idle period

---
 examples/psp/psp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/examples/psp/psp.rs b/examples/psp/psp.rs
index 33cb794..1abb54a 100644
--- a/examples/psp/psp.rs
+++ b/examples/psp/psp.rs
@@ -259,8 +259,9 @@ impl Psp {
                 }
             }
 
-            *storage_cost = (deadline - time) * cost;
+            *storage_cost = 0;
             if item != IDLE {
+                *storage_cost = (deadline - time) * cost;
                 let item = item as usize;
                 state[item] = prev_dem[(item, deadline)];
             }
-- 
2.43.0


From 6b2244e94e158196b6b17925f855061b40ee9b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 11/20] fix: the srflp bound does not underflow when every
 placement is decided

---
 examples/srflp/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/srflp/model.rs b/examples/srflp/model.rs
index 31070a2..0a956bc 100644
--- a/examples/srflp/model.rs
+++ b/examples/srflp/model.rs
@@ -201,7 +201,7 @@ impl Problem for Srflp {
         }
 
         let mut n_flows_from_must_to_maybe_place = n_must_place * n_from_maybe_place;
-        let mut n_flows_in_maybe_place = n_from_maybe_place * (n_from_maybe_place - 1) / 2;
+        let mut n_flows_in_maybe_place = n_from_maybe_place * n_from_maybe_place.saturating_sub(1) / 2;
         for (f,i,j) in self.sorted_flows.iter() {
             if state.must_place[*i] && state.must_place[*j] {
                 flows.push(*f);
-- 
2.43.0


From 192fdb0508da9e7b148d067fdccba760b326c41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 12/20] fix: the tsptw bound does not count the return to the
 depot as a city

---
 examples/tsptw/model.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/examples/tsptw/model.rs b/examples/tsptw/model.rs
index ce66323..bcc0d7e 100644
--- a/examples/tsptw/model.rs
+++ b/examples/tsptw/model.rs
@@ -190,7 +190,8 @@ impl Problem for Tsptw {
     }
 
     fn estimate(&self, state: &State) -> isize {
-        let mut complete_tour = self.nb_variables() - state.depth as usize;
+        // The last move of the tour goes back to the depot: it visits no city.
+        let mut complete_tour = (self.nb_variables() - state.depth as usize).saturating_sub(1);
  
         let mut mandatory     = 0;
         let mut back_to_depot = usize::max_value();
@@ -198,7 +199,7 @@ impl Problem for Tsptw {
         let mut temp = vec![];
  
         for i in BitSetIter::new(&state.must_visit) {
-            complete_tour -= 1;
+            complete_tour = complete_tour.saturating_sub(1);
             mandatory += self.cheapest_edge[i];
             back_to_depot = back_to_depot.min(self.instance.distances[(i, 0)]);
  
-- 
2.43.0


From 75582a7dc78545867951bb3fbaa62d67d2611369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:46 +0000
Subject: [PATCH 13/20] fix: the psp parser reports the input errors on the
 lines it skips

---
 examples/psp/psp.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/examples/psp/psp.rs b/examples/psp/psp.rs
index 1abb54a..171960a 100644
--- a/examples/psp/psp.rs
+++ b/examples/psp/psp.rs
@@ -383,7 +383,7 @@ impl<B: BufRead> TryFrom<Lines<B>> for Psp {
             .ok_or(PspError::Missing("nb orders"))??
             .parse::<usize>()?;
 
-        let _blank = lines.next();
+        let _blank = lines.next().transpose()?;
         let mut changeover_cost = Matrix::new_default(nb_items, nb_items, 0);
 
         let mut i = 0;
@@ -412,7 +412,7 @@ impl<B: BufRead> TryFrom<Lines<B>> for Psp {
             *cost = text.parse::<usize>()?;
         }
 
-        let _blank = lines.next();
+        let _blank = lines.next().transpose()?;
 
         let mut prev_demand = Matrix::new(nb_items, nb_periods + 1);
         let mut rem_demand: Matrix<isize> = Matrix::new(nb_items, nb_periods);
@@ -452,7 +452,7 @@ impl<B: BufRead> TryFrom<Lines<B>> for Psp {
 
         // This means there mus be TWO blank lines between the end of demands
         // and the known optimum.
-        let _skip = lines.next();
+        let _skip = lines.next().transpose()?;
         let optimum = if let Some(line) = lines.next() {
             Some(line?.trim().parse::<usize>()?)
         } else {
-- 
2.43.0


From d61abf583b5f4043bebbd81cbb00cc27c83a3a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:40 +0000
Subject: [PATCH 14/20] Revert "fix: the psp parser reports the input errors on
 the lines it skips"

This reverts commit 75582a7dc78545867951bb3fbaa62d67d2611369.
---
 examples/psp/psp.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/examples/psp/psp.rs b/examples/psp/psp.rs
index 171960a..1abb54a 100644
--- a/examples/psp/psp.rs
+++ b/examples/psp/psp.rs
@@ -383,7 +383,7 @@ impl<B: BufRead> TryFrom<Lines<B>> for Psp {
             .ok_or(PspError::Missing("nb orders"))??
             .parse::<usize>()?;
 
-        let _blank = lines.next().transpose()?;
+        let _blank = lines.next();
         let mut changeover_cost = Matrix::new_default(nb_items, nb_items, 0);
 
         let mut i = 0;
@@ -412,7 +412,7 @@ impl<B: BufRead> TryFrom<Lines<B>> for Psp {
             *cost = text.parse::<usize>()?;
         }
 
-        let _blank = lines.next().transpose()?;
+        let _blank = lines.next();
 
         let mut prev_demand = Matrix::new(nb_items, nb_periods + 1);
         let mut rem_demand: Matrix<isize> = Matrix::new(nb_items, nb_periods);
@@ -452,7 +452,7 @@ impl<B: BufRead> TryFrom<Lines<B>> for Psp {
 
         // This means there mus be TWO blank lines between the end of demands
         // and the known optimum.
-        let _skip = lines.next().transpose()?;
+        let _skip = lines.next();
         let optimum = if let Some(line) = lines.next() {
             Some(line?.trim().parse::<usize>()?)
         } else {
-- 
2.43.0


From 533b5410d2bb52a6b630465566890325eb004687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:40 +0000
Subject: [PATCH 15/20] Revert "fix: the tsptw bound does not count the return
 to the depot as a city"

This reverts commit 192fdb0508da9e7b148d067fdccba760b326c41e.
---
 examples/tsptw/model.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/examples/tsptw/model.rs b/examples/tsptw/model.rs
index bcc0d7e..ce66323 100644
--- a/examples/tsptw/model.rs
+++ b/examples/tsptw/model.rs
@@ -190,8 +190,7 @@ impl Problem for Tsptw {
     }
 
     fn estimate(&self, state: &State) -> isize {
-        // The last move of the tour goes back to the depot: it visits no city.
-        let mut complete_tour = (self.nb_variables() - state.depth as usize).saturating_sub(1);
+        let mut complete_tour = self.nb_variables() - state.depth as usize;
  
         let mut mandatory     = 0;
         let mut back_to_depot = usize::max_value();
@@ -199,7 +198,7 @@ impl Problem for Tsptw {
         let mut temp = vec![];
  
         for i in BitSetIter::new(&state.must_visit) {
-            complete_tour = complete_tour.saturating_sub(1);
+            complete_tour -= 1;
             mandatory += self.cheapest_edge[i];
             back_to_depot = back_to_depot.min(self.instance.distances[(i, 0)]);
  
-- 
2.43.0


From ca78a777717a44e8df5b582cfbdd1b43cd501c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:40 +0000
Subject: [PATCH 16/20] Revert "fix: the srflp bound does not underflow when
 every placement is decided"

This reverts commit 6b2244e94e158196b6b17925f855061b40ee9b1e.
---
 examples/srflp/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/srflp/model.rs b/examples/srflp/model.rs
index 0a956bc..31070a2 100644
--- a/examples/srflp/model.rs
+++ b/examples/srflp/model.rs
@@ -201,7 +201,7 @@ impl Problem for Srflp {
         }
 
         let mut n_flows_from_must_to_maybe_place = n_must_place * n_from_maybe_place;
-        let mut n_flows_in_maybe_place = n_from_maybe_place * n_from_maybe_place.saturating_sub(1) / 2;
+        let mut n_flows_in_maybe_place = n_from_maybe_place * (n_from_maybe_place - 1) / 2;
         for (f,i,j) in self.sorted_flows.iter() {
             if state.must_place[*i] && state.must_place[*j] {
                 flows.push(*f);
-- 
2.43.0


From 88c4f4909b2e5bf750a235ce4fff0968d55e7a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:40 +0000
Subject: [PATCH 17/20] Revert "fix: the psp stocking bound does not underflow
 on an idle period"

This reverts commit d3cccd6e625d4039dee38778f7c81fe09368fb24.
---
 examples/psp/psp.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/examples/psp/psp.rs b/examples/psp/psp.rs
index 1abb54a..33cb794 100644
--- a/examples/psp/psp.rs
+++ b/examples/psp/psp.rs
@@ -259,9 +259,8 @@ impl Psp {
                 }
             }
 
-            *storage_cost = 0;
+            *storage_cost = (deadline - time) * cost;
             if item != IDLE {
-                *storage_cost = (deadline - time) * cost;
                 let item = item as usize;
                 state[item] = prev_dem[(item, deadline)];
             }
-- 
2.43.0


From 1564d477f49bb3128b56c4a123a3211b399301c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:12 +0000
Subject: [PATCH 18/20] fix: a solver asked for no thread uses one rather than
 claiming a proof

---
 src/solver/barrier.rs  | 2 ++
 src/solver/parallel.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index e806fb4..728b375 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -154,6 +154,7 @@ where
         cutset_type: CutsetType,
         nb_threads: usize,
     ) -> Self {
+        let nb_threads = nb_threads.max(1); // nobody would solve the problem
         let mut barriers = vec![];
         for _ in 0..=problem.nb_variables() {
             barriers.push(RwLock::new(Default::default()));
@@ -189,6 +190,7 @@ where
     }
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
+        let nb_threads = nb_threads.max(1); // nobody would solve the problem
         self.nb_threads = nb_threads;
         // each thread needs a cell to store the upper bound of its current node
         self.shared.critical.get_mut().upper_bounds = vec![isize::MAX; nb_threads];
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index 72fa1dc..d795222 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -146,6 +146,7 @@ where
         fringe: &'a mut F,
         nb_threads: usize,
     ) -> Self {
+        let nb_threads = nb_threads.max(1); // nobody would solve the problem
         ParallelSolver {
             shared: Shared {
                 problem,
@@ -172,6 +173,7 @@ where
     }
     /// Sets the number of threads used by the solver
     pub fn with_nb_threads(mut self, nb_threads: usize) -> Self {
+        let nb_threads = nb_threads.max(1); // nobody would solve the problem
         self.nb_threads = nb_threads;
         // each thread needs a cell to store the upper bound of its current node
         self.shared.critical.get_mut().upper_bounds = vec![isize::MAX; nb_threads];
-- 
2.43.0


From b94720c3f97b07c3635856fef9f25b5a3033a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:44 +0000
Subject: [PATCH 19/20] fix: open nodes are counted before they join the fringe

When the ranking panicked while a cutset node joined the fringe, another
worker could pop that node before it was counted as open: the count of open
nodes underflowed, and a worker died without giving up its node.
---
 src/solver/barrier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index 728b375..f95469b 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -304,8 +304,8 @@ where
             cutset_node.ub = ub.min(cutset_node.ub);
             if cutset_node.ub > best_lb {
                 let depth = cutset_node.path.len();
+                critical.open_by_layer[depth] += 1; // before the push, which may panic
                 critical.fringe.push(cutset_node);
-                critical.open_by_layer[depth] += 1;
             }
         });
     }
-- 
2.43.0


From 93c28363fd2f014f8abc6f8e8ceb9849f9184fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:58 +0000
Subject: [PATCH 20/20] fix: a node lost by a panic of the ranking stops the
 search

---
 src/solver/barrier.rs  | 22 ++++++++++++++++++++--
 src/solver/parallel.rs | 16 +++++++++++++++-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/solver/barrier.rs b/src/solver/barrier.rs
index f95469b..487672c 100644
--- a/src/solver/barrier.rs
+++ b/src/solver/barrier.rs
@@ -62,6 +62,24 @@ where
     upper_bounds: Vec<isize>,
     interrupted: bool,
 }
+impl<O> Critical<'_, O>
+where
+    O: StateRanking,
+    O::State: Eq + PartialEq + Hash + Clone,
+{
+    /// Pops a node off the fringe. If that panics (in the ranking), the node may
+    /// be lost: all threads are asked to stop, lest they conclude from an empty
+    /// fringe that the problem is solved.
+    fn pop_or_abort(&mut self) -> Option<SubProblem<O::State>> {
+        match catch_unwind(AssertUnwindSafe(|| self.fringe.pop())) {
+            Ok(node) => node,
+            Err(panic) => {
+                self.interrupted = true;
+                resume_unwind(panic)
+            }
+        }
+    }
+}
 /// The state which is shared among the many running threads: it provides an
 /// access to the critical data (protected by a mutex) as well as a monitor
 /// (condvar) to park threads in case of node-starvation.
@@ -399,7 +417,7 @@ where
             return WorkLoad::Starvation;
         }
         // Nothing relevant ? =>  Wait for someone to post jobs
-        let mut nn = critical.fringe.pop().unwrap();
+        let mut nn = critical.pop_or_abort().unwrap();
         loop {
             if nn.ub <= critical.best_lb {
                 critical.fringe.clear();
@@ -429,7 +447,7 @@ where
                 return WorkLoad::Starvation;
             }
 
-            nn = critical.fringe.pop().unwrap();
+            nn = critical.pop_or_abort().unwrap();
         }
 
         // Consume the current node and process it
diff --git a/src/solver/parallel.rs b/src/solver/parallel.rs
index d795222..a88b254 100644
--- a/src/solver/parallel.rs
+++ b/src/solver/parallel.rs
@@ -51,6 +51,20 @@ struct Critical<'a, F: Frontier> {
     upper_bounds: Vec<isize>,
     interrupted: bool,
 }
+impl<F: Frontier> Critical<'_, F> {
+    /// Pops a node off the fringe. If that panics (in the ranking), the node may
+    /// be lost: all threads are asked to stop, lest they conclude from an empty
+    /// fringe that the problem is solved.
+    fn pop_or_abort(&mut self) -> Option<SubProblem<F::State>> {
+        match catch_unwind(AssertUnwindSafe(|| self.fringe.pop())) {
+            Ok(node) => node,
+            Err(panic) => {
+                self.interrupted = true;
+                resume_unwind(panic)
+            }
+        }
+    }
+}
 /// The state which is shared among the many running threads: it provides an
 /// access to the critical data (protected by a mutex) as well as a monitor
 /// (condvar) to park threads in case of node-starvation.
@@ -365,7 +379,7 @@ where
             return WorkLoad::Starvation;
         }
         // Nothing relevant ? =>  Wait for someone to post jobs
-        let nn = critical.fringe.pop().unwrap();
+        let nn = critical.pop_or_abort().unwrap();
         if nn.ub <= critical.best_lb {
             critical.fringe.clear();
             return WorkLoad::Starvation;
-- 
2.43.0

