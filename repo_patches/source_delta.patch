From fd09dfab97cdf1424097f114e4f0a28c3a5684cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 1/7] search: guarded simulation knob for the update interval
 (cfg mbqc_sim)

---
 mbqc_scheduling/src/lib.rs             | 13 +++++++++++++
 mbqc_scheduling/src/search/threaded.rs | 16 +++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/mbqc_scheduling/src/lib.rs b/mbqc_scheduling/src/lib.rs
index 0e0821e..9dd2b23 100644
--- a/mbqc_scheduling/src/lib.rs
+++ b/mbqc_scheduling/src/lib.rs
@@ -10,6 +10,9 @@ scheduling process and [search] implements based on that the search for the opti
 schedule patterns.
 */
 
+// `mbqc_sim` is only set by simulation builds (RUSTFLAGS="--cfg mbqc_sim")
+#![allow(unexpected_cfgs)]
+
 macro_rules! non_semantic_default {
     () => {
         "Note that semantically, this impl makes not much sense. It is rather useful for \
@@ -22,3 +25,13 @@ pub mod probabilistic;
 pub mod scheduler;
 pub mod search;
 pub mod timer;
+
+/// Knobs for simulation builds; not part of normal builds.
+#[cfg(mbqc_sim)]
+pub mod sim_knobs {
+    use std::sync::atomic::AtomicUsize;
+
+    /// Overrides the number of steps between two updates of the shared best memory in the
+    /// multi-threaded search, if not zero.
+    pub static UPDATE_INTERVAL: AtomicUsize = AtomicUsize::new(0);
+}
diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 57f0448..99764be 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -32,6 +32,20 @@ use crate::{
 // (this is rather a random constant at the moment)
 const UPDATE_INTERVAL: usize = 1000;
 
+#[cfg(not(mbqc_sim))]
+#[inline]
+fn update_interval() -> usize {
+    UPDATE_INTERVAL
+}
+// simulation hook: lets a simulator choose the interval (0 means the default)
+#[cfg(mbqc_sim)]
+fn update_interval() -> usize {
+    match crate::sim_knobs::UPDATE_INTERVAL.load(std::sync::atomic::Ordering::Relaxed) {
+        0 => UPDATE_INTERVAL,
+        interval => interval,
+    }
+}
+
 pub fn search(
     nthreads: u16,
     num_bits: usize,
@@ -165,7 +179,7 @@ fn update(
     timer: &Timer,
 ) -> bool {
     //
-    if *update_counter == UPDATE_INTERVAL {
+    if *update_counter == update_interval() {
         best_memory
             .lock()
             .expect("failed to lock best_memory")
-- 
2.43.0


From 00ef3f4bd88420ee3f1d07639b0634ee29986096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 2/7] fix: a finished search task must not replace a better
 result of another task

A task merges its best_memory, which also contains what other tasks have
published, but it then inserted its own, possibly worse, result for the
same number of steps.
---
 mbqc_scheduling/src/search/threaded.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 99764be..6fb781c 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -163,9 +163,13 @@ fn task(
             // we cannot just unwrap, because when we do the
             // Step::Backward, we also update the best_memory for all
             // paths with a longer path length, but we might not have
-            // collected a result for them (which is okay there)
-            if let Some(mem) = new_results.remove(&time) {
-                results.insert(time, mem);
+            // collected a result for them (which is okay there); moreover, this_mem
+            // might have been adopted from another task (cf. update), which then has
+            // the better result
+            if let Some(result) = new_results.remove(&time) {
+                if result.0 <= this_mem {
+                    results.insert(time, result);
+                }
             }
         }
     }
-- 
2.43.0


From 6dcc4994999e0fcb7e9dc9ea77824a3471ccc29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 3/7] fix: queued search tasks must not run after the timeout

Each task checked the timer only after a full update interval, and the
submission of tasks did not check it at all, so that the time needed after
the timeout grew with the number of tasks.
---
 mbqc_scheduling/src/search/threaded.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 6fb781c..38255b7 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -96,7 +96,7 @@ pub fn search(
                 )
             });
             ntasks += 1;
-            if ntasks == task_bound {
+            if ntasks == task_bound || timer.finished() {
                 break;
             }
         }
@@ -126,6 +126,11 @@ fn task(
     timer: &Timer,
     probabilistic: Option<(&Accept, u64)>,
 ) {
+    // otherwise each of the queued tasks would still run for a whole update interval
+    if timer.finished() {
+        return;
+    }
+
     let _span = tracing::debug_span!("search task", ntasks).entered();
 
     tracing::debug!(
-- 
2.43.0


From 880ddb3f142ada2da3b4bfb5bb77f2375262938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 4/7] fix: a task bound of zero means no tasks besides the
 remaining one

The bound was compared only after the first task had been submitted, so
that zero was never met and meant no bound at all.
---
 mbqc_scheduling/src/search/threaded.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 38255b7..9433b22 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -77,7 +77,11 @@ pub fn search(
         // if probabilistic is true, one should maybe already skip here according to
         // the accept_func; but maybe it is actually good to not do it, because this
         // increases the probability that we get at least some results
-        while let Some((scheduler_focused, init_measure)) = scheduler.next_and_focus() {
+        while ntasks != task_bound && !timer.finished() {
+            let Some((scheduler_focused, init_measure)) = scheduler.next_and_focus()
+            else {
+                break;
+            };
             let best_memory = &best_memory;
             let results = &results;
             let probabilistic = match probabilistic {
@@ -96,9 +100,6 @@ pub fn search(
                 )
             });
             ntasks += 1;
-            if ntasks == task_bound || timer.finished() {
-                break;
-            }
         }
 
         // remaining search tasks
-- 
2.43.0


From 073649658f1419870dee19f60bf96ff2deb4f66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 5/7] fix: count the measurable nodes as remaining nodes

num_remaining_nodes, which is handed to the accept functions, only counted
the nodes that cannot be measured yet.
---
 mbqc_scheduling/src/scheduler/time.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mbqc_scheduling/src/scheduler/time.rs b/mbqc_scheduling/src/scheduler/time.rs
index 8afe1cb..4d44395 100644
--- a/mbqc_scheduling/src/scheduler/time.rs
+++ b/mbqc_scheduling/src/scheduler/time.rs
@@ -105,11 +105,6 @@ impl<'l, T> PathGenerator<'l, T> {
         &self.measurable
     }
 
-    /// How many nodes are left to be measured.
-    pub fn num_remaining_nodes(&self) -> usize {
-        self.deps_counter.len()
-    }
-
     /// Check whether there are qubits that cannot be measured yet.
     pub fn has_unmeasureable(&self) -> bool {
         !self.deps_counter.is_empty()
@@ -117,6 +112,12 @@ impl<'l, T> PathGenerator<'l, T> {
 }
 
 impl<'l, T: MeasurableSet> PathGenerator<'l, T> {
+    /// How many nodes are left to be measured.
+    pub fn num_remaining_nodes(&self) -> usize {
+        // the ones that can be measured and the ones that cannot be measured yet
+        self.measurable.set().len() + self.deps_counter.len()
+    }
+
     /// Create a new [PathGenerator] from a [PartialOrderGraph]. `dependency_buffer` is
     /// going to own the dependency structure implied by the `graph`, so that it can be
     /// reused again.
-- 
2.43.0


From 8e91b9989218950994be2e083f4bc2cefc739052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 6/7] fix: carry a panic of the accept function to the caller
 of the search

The thread pool loses its threads when tasks panic; with none left it
panicked while submitting tasks and again while unwinding, which aborted
the process.
---
 mbqc_scheduling/src/search/threaded.rs | 53 ++++++++++++++++++++------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/mbqc_scheduling/src/search/threaded.rs b/mbqc_scheduling/src/search/threaded.rs
index 9433b22..0cbb507 100644
--- a/mbqc_scheduling/src/search/threaded.rs
+++ b/mbqc_scheduling/src/search/threaded.rs
@@ -11,7 +11,14 @@
 // (We also lock the results, but I don't think this is a problem, because it is not often
 // updated)
 
-use std::{cmp::Ordering, collections::HashMap, ops::Deref, sync::Mutex};
+use std::{
+    any::Any,
+    cmp::Ordering,
+    collections::HashMap,
+    ops::Deref,
+    panic::{self, AssertUnwindSafe},
+    sync::Mutex,
+};
 
 use rand::{distributions::Uniform, Rng, SeedableRng};
 use rand_pcg::Pcg64;
@@ -58,6 +65,7 @@ pub fn search(
 
     let best_memory = Mutex::new(vec![usize::MAX; num_bits + 1]);
     let results: Mutex<MappedPaths> = Mutex::new(HashMap::new());
+    let panicked: Mutex<Option<Box<dyn Any + Send>>> = Mutex::new(None);
     let mut probabilistic = match probabilistic {
         Some((ref func, seed)) => Some((
             func.deref(),
@@ -84,20 +92,23 @@ pub fn search(
             };
             let best_memory = &best_memory;
             let results = &results;
+            let panicked = &panicked;
             let probabilistic = match probabilistic {
                 Some((func, ref mut rng)) => Some((func, rng.gen())),
                 None => None,
             };
             scope.execute(move || {
-                task(
-                    best_memory,
-                    results,
-                    scheduler_focused,
-                    ntasks,
-                    Some(init_measure),
-                    timer,
-                    probabilistic,
-                )
+                catch(panicked, || {
+                    task(
+                        best_memory,
+                        results,
+                        scheduler_focused,
+                        ntasks,
+                        Some(init_measure),
+                        timer,
+                        probabilistic,
+                    )
+                })
             });
             ntasks += 1;
         }
@@ -109,14 +120,34 @@ pub fn search(
             None => None,
         };
         let best_memory = &best_memory;
+        let panicked = &panicked;
         scope.execute(move || {
-            task(best_memory, results, scheduler, -1, None, timer, probabilistic)
+            catch(panicked, || {
+                task(best_memory, results, scheduler, -1, None, timer, probabilistic)
+            })
         });
     });
 
+    if let Some(payload) = panicked.into_inner().unwrap() {
+        panic::resume_unwind(payload);
+    }
+
     results.into_inner().unwrap()
 }
 
+// The accept function may panic, but the pool's threads must not: when there is no thread
+// left, the pool panics while submitting tasks and again while unwinding from that, which
+// aborts the process. Therefore, we carry the panic to the caller of the search (and skip
+// the tasks that are still queued).
+fn catch(panicked: &Mutex<Option<Box<dyn Any + Send>>>, task: impl FnOnce()) {
+    if panicked.lock().expect("failed to lock panicked").is_some() {
+        return;
+    }
+    if let Err(payload) = panic::catch_unwind(AssertUnwindSafe(task)) {
+        panicked.lock().expect("failed to lock panicked").get_or_insert(payload);
+    }
+}
+
 #[allow(clippy::too_many_arguments)]
 fn task(
     best_memory: &Mutex<Vec<usize>>,
-- 
2.43.0


From 65fa255b7e8dfef3f7bea4f6513148a06522b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:43 +0000
Subject: [PATCH 7/7] fix: reject measure sets that are larger than the
 measurable set

---
 mbqc_scheduling/src/scheduler/time.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mbqc_scheduling/src/scheduler/time.rs b/mbqc_scheduling/src/scheduler/time.rs
index 4d44395..191e5f2 100644
--- a/mbqc_scheduling/src/scheduler/time.rs
+++ b/mbqc_scheduling/src/scheduler/time.rs
@@ -201,8 +201,9 @@ impl<'l, T: MeasurableSet> PathGenerator<'l, T> {
     // check whether the measure_set is really measurable and return the new
     // measurable set
     fn partition(&self, measure_set: &[usize]) -> Result<Vec<usize>, NotMeasurable> {
-        let mut new_measurable_set =
-            Vec::with_capacity(self.measurable.set().len() - measure_set.len());
+        // an illegal measure_set may be larger than the measurable set
+        let num_left = self.measurable.set().len().saturating_sub(measure_set.len());
+        let mut new_measurable_set = Vec::with_capacity(num_left);
         let mut copy_measure_set = measure_set.to_vec();
         for e in self.measurable.set().iter() {
             if let Some(p) = copy_measure_set.iter().position(|m| m == e) {
-- 
2.43.0

