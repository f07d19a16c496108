From 34a48371893b0eac486a33ff4e0a96ba9309b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 01/22] fix: release everything a parallel call acquired when
 it fails

Shared memory, the timeout timer and the progress thread outlived a call
ended by an exception, a dead worker, an interrupt or a failed allocation.
---
 tnco/parallel.py | 97 +++++++++++++++++++++++++-----------------------
 1 file changed, 51 insertions(+), 46 deletions(-)

diff --git a/tnco/parallel.py b/tnco/parallel.py
index f6e211d..edec09c 100644
--- a/tnco/parallel.py
+++ b/tnco/parallel.py
@@ -14,14 +14,13 @@
 """Parallelization utilities."""
 
 import itertools as its
+from contextlib import ExitStack
 from multiprocessing.shared_memory import SharedMemory
 from struct import calcsize, pack_into, unpack_from
-from threading import TIMEOUT_MAX, Thread, Timer
-from time import sleep
+from threading import TIMEOUT_MAX, Event, Thread, Timer
 from typing import Any, Callable, Iterable, Optional, Tuple, Union
 from warnings import warn
 
-import more_itertools as mit
 from rich.console import Console
 from rich.progress import Progress, TextColumn, TimeElapsedColumn
 
@@ -216,37 +215,51 @@ def Parallel(core: Callable[..., Any],
     # Get number of total runs
     n_runs = len(args)
 
-    # Initialize status
-    status = Buffer([0] * n_runs, 'f')
+    # Everything acquired by this call is released when it ends, even if it
+    # fails
+    with ExitStack() as stack:
 
-    # Initialize stop
-    stop = Buffer([False] * n_runs, 'b')
+        def get_buffer(dtype):
+            buffer = Buffer([0] * n_runs, dtype)
+            stack.callback(buffer.shm.unlink)
+            return buffer
 
-    # Initialize completed
-    completed = Buffer([0] * n_runs, '?')
+        # Initialize status
+        status = get_buffer('f')
 
-    # Get buffers
-    buffers = dict(
-        its.starmap(lambda name, dtype: (name, Buffer([0] * n_runs, dtype)),
-                    buffers))
+        # Initialize stop
+        stop = get_buffer('b')
 
-    # Initialize timer
-    def timer_helper():
-        for idx in range(len(stop)):
-            stop[idx] = True
+        # Initialize completed
+        completed = get_buffer('?')
 
-    timer = Timer(TIMEOUT_MAX if timeout is None else timeout, timer_helper)
-    timer.start()
+        # Get buffers
+        buffers = dict(
+            its.starmap(lambda name, dtype: (name, get_buffer(dtype)), buffers))
 
-    with Progress(TextColumn('[blue][{task.fields[idx]}/' + str(len(args)) +
-                             ']'),
-                  *Progress.get_default_columns(),
-                  TimeElapsedColumn(),
-                  TextColumn(text),
-                  console=Console(stderr=True),
-                  disable=(verbose <= 1),
-                  auto_refresh=False,
-                  transient=not leave) as progress:
+        # Initialize timer
+        def timer_helper():
+            for idx in range(len(stop)):
+                stop[idx] = True
+
+        timer = Timer(TIMEOUT_MAX if timeout is None else timeout, timer_helper)
+        timer.start()
+        stack.callback(timer.cancel)
+
+        # Initialize progress
+        progress = stack.enter_context(
+            Progress(TextColumn('[blue][{task.fields[idx]}/' + str(len(args)) +
+                                ']'),
+                     *Progress.get_default_columns(),
+                     TimeElapsedColumn(),
+                     TextColumn(text),
+                     console=Console(stderr=True),
+                     disable=(verbose <= 1),
+                     auto_refresh=False,
+                     transient=not leave))
+
+        # Set once there are no more tasks to run
+        done = Event()
 
         # Update progressbar
         def update_progress():
@@ -291,21 +304,26 @@ def Parallel(core: Callable[..., Any],
                 # Perform full update
                 full_update()
 
-                # Sleep for a bit
-                sleep(1 / refresh_per_second)
+                # Wait for a bit, unless the call is over
+                if done.wait(1 / refresh_per_second):
+                    break
 
             # Perform last full update
             full_update()
 
             # Last checks
-            assert not timer.is_alive() or not tasks or (
-                len(tasks) == n_runs and sorted(tasks) == list(range(n_runs)))
-            assert leave or all(v_ is None for v_ in tasks.values())
+            if all(completed):
+                assert not timer.is_alive() or not tasks or (
+                    len(tasks) == n_runs and
+                    sorted(tasks) == list(range(n_runs)))
+                assert leave or all(v_ is None for v_ in tasks.values())
 
         # Start progressbar
         if verbose >= 2:
             updater = Thread(target=update_progress, daemon=True)
             updater.start()
+            stack.callback(updater.join)
+            stack.callback(done.set)
 
         def core_(*args, idx, **kwargs):
             # Get results
@@ -342,18 +360,5 @@ def Parallel(core: Callable[..., Any],
                                           **xs[-1],
                                           **buffers), range(n_runs), args))
 
-        # Close progressbar
-        if verbose >= 2:
-            updater.join()
-
-    # Close buffers
-    status.shm.unlink()
-    completed.shm.unlink()
-    stop.shm.unlink()
-    mit.consume(map(lambda buffer: buffer.shm.unlink(), buffers.values()))
-
-    # Stop timer
-    timer.cancel()
-
     # Return results
     return results
-- 
2.43.0


From 23caab4bc58fbe10522e21a3ff7b20cd31588a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:19 +0000
Subject: [PATCH 02/22] fix: progress thread fails if only some tasks report
 their progress

---
 tnco/parallel.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/tnco/parallel.py b/tnco/parallel.py
index edec09c..616ac8c 100644
--- a/tnco/parallel.py
+++ b/tnco/parallel.py
@@ -311,13 +311,6 @@ def Parallel(core: Callable[..., Any],
             # Perform last full update
             full_update()
 
-            # Last checks
-            if all(completed):
-                assert not timer.is_alive() or not tasks or (
-                    len(tasks) == n_runs and
-                    sorted(tasks) == list(range(n_runs)))
-                assert leave or all(v_ is None for v_ in tasks.values())
-
         # Start progressbar
         if verbose >= 2:
             updater = Thread(target=update_progress, daemon=True)
-- 
2.43.0


From 9dcc5adaf28e42da28d629aad7f45131bf601501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:57 +0000
Subject: [PATCH 03/22] fix: sparse indices of other components rejected by
 cost models

---
 tnco/optimize/finite_width/cost_model.py    | 21 +++++----------------
 tnco/optimize/infinite_memory/cost_model.py | 15 +++++----------
 2 files changed, 10 insertions(+), 26 deletions(-)

diff --git a/tnco/optimize/finite_width/cost_model.py b/tnco/optimize/finite_width/cost_model.py
index ea7c6de..4f93ad4 100644
--- a/tnco/optimize/finite_width/cost_model.py
+++ b/tnco/optimize/finite_width/cost_model.py
@@ -193,9 +193,6 @@ class SimpleCostModel(BaseCostModel):
 
         # Get all inds
         all_inds = inds
-        if self.sparse_inds is not None:
-            all_inds = tuple(
-                mit.unique_everseen(all_inds + tuple(self.sparse_inds)))
 
         # Try to convert dims to int
         try:
@@ -247,9 +244,6 @@ class SimpleCostModel(BaseCostModel):
 
         # Get all inds
         all_inds = inds
-        if self.sparse_inds is not None:
-            all_inds = tuple(
-                mit.unique_everseen(all_inds + tuple(self.sparse_inds)))
 
         # Try to convert dims to int
         try:
@@ -309,9 +303,6 @@ class SimpleCostModel(BaseCostModel):
 
         # Get all inds
         all_inds = tuple(mit.unique_everseen(inds_A + inds_B + inds_C + slices))
-        if self.sparse_inds is not None:
-            all_inds = tuple(
-                mit.unique_everseen(all_inds + tuple(self.sparse_inds)))
 
         # Try to convert dims to int
         try:
@@ -342,14 +333,12 @@ class SimpleCostModel(BaseCostModel):
 
         # Get right core and arguments
         if self.sparse_inds:
-            # Check
-            if not self.sparse_inds.issubset(inds_order):
-                raise ValueError(
-                    "Sparse indices are not a subset of 'inds_order'.")
-
             core_name = 'SimpleCostModelSparseInds'
-            sparse_inds = Bitset(map(inds_order.index, self.sparse_inds),
-                                 len(inds_order))
+            # Indices not in 'inds_order' belong to other tensors (e.g. to
+            # another connected component of the same tensor network)
+            sparse_inds = Bitset(
+                map(inds_order.index, self.sparse_inds.intersection(inds_order)),
+                len(inds_order))
             args = (self.max_width, sparse_inds, self.n_projs)
 
         else:
diff --git a/tnco/optimize/infinite_memory/cost_model.py b/tnco/optimize/infinite_memory/cost_model.py
index d9424d0..c60cca2 100644
--- a/tnco/optimize/infinite_memory/cost_model.py
+++ b/tnco/optimize/infinite_memory/cost_model.py
@@ -155,9 +155,6 @@ class SimpleCostModel(BaseCostModel):
 
         # Get all inds
         all_inds = tuple(mit.unique_everseen(inds_A + inds_B + inds_C))
-        if self.sparse_inds is not None:
-            all_inds = tuple(
-                mit.unique_everseen(all_inds + tuple(self.sparse_inds)))
 
         # Try to convert dims to int
         try:
@@ -188,14 +185,12 @@ class SimpleCostModel(BaseCostModel):
 
         # Get right core and arguments
         if self.sparse_inds:
-            # Check
-            if not self.sparse_inds.issubset(inds_order):
-                raise ValueError(
-                    "Sparse indices are not a subset of 'inds_order'.")
-
             core_name = 'SimpleCostModelSparseInds'
-            sparse_inds = Bitset(map(inds_order.index, self.sparse_inds),
-                                 len(inds_order))
+            # Indices not in 'inds_order' belong to other tensors (e.g. to
+            # another connected component of the same tensor network)
+            sparse_inds = Bitset(
+                map(inds_order.index, self.sparse_inds.intersection(inds_order)),
+                len(inds_order))
             args = (sparse_inds, self.n_projs)
 
         else:
-- 
2.43.0


From a9715a22a3d61fec6001ad9559f5c0c3c05577ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:53 +0000
Subject: [PATCH 04/22] fix: new slices wrong with sparse indices or if all are
 sliced

The width was updated as if slicing an index always removed its full
width, which is wrong for sparse indices. Moreover, once no index is
left to slice, a random position was taken from an empty list.
---
 .../finite_width/greedy/optimizer.hpp         | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index e6b7380..dfbaee9 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -239,7 +239,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
 
           // Keep adding new random slices until the sliced width is not larger
           // than max_width
-          while (n_new_slices < max_number_new_slices &&
+          while (n_new_slices < max_number_new_slices && n_pos > 0 &&
                  new_sliced_width_B > p_cmodel->max_width) {
             // Get a random position
             std::swap(pos[this->prng() % n_pos], pos[n_pos - 1]);
@@ -252,16 +252,8 @@ struct Optimizer : optimize::optimizer::Optimizer {
             new_slices.set(pos[n_pos - 1]);
 
             // Update sliced width
-            std::visit(
-                [&new_sliced_width_B, &pos, &n_pos](auto &&log2_dims) -> auto {
-                  if constexpr (std::is_arithmetic_v<
-                                    std::decay_t<decltype(log2_dims)>>) {
-                    new_sliced_width_B -= log2_dims;
-                  } else {
-                    new_sliced_width_B -= log2_dims[pos[n_pos - 1]];
-                  }
-                },
-                dims_cache.log2_dims);
+            new_sliced_width_B =
+                p_cmodel->width(new_inds_B - new_slices, dims);
 
             // Update number of available slices
             --n_pos;
@@ -274,10 +266,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
                  "Wrong number of new slices.");
 
           // Check width
-          ASSERT(abs(p_cmodel->width(new_inds_B - new_slices, dims) -
-                     new_sliced_width_B) < 1e-5,
-                 "Error when getting new slices.");
-          ASSERT(n_new_slices >= max_number_new_slices ||
+          ASSERT(n_new_slices >= max_number_new_slices || n_pos == 0 ||
                      new_sliced_width_B <= p_cmodel->max_width,
                  "New slices are not enough to reduce width.");
         }
-- 
2.43.0


From 855cb0843e594a9d0056a62d70d25a14e0af5e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:53 +0000
Subject: [PATCH 05/22] fix: rounding errors may stop slicing before reaching
 max_width

---
 include/tnco/optimize/finite_width/greedy/utils.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/utils.hpp b/include/tnco/optimize/finite_width/greedy/utils.hpp
index f179d7d..b930fd4 100644
--- a/include/tnco/optimize/finite_width/greedy/utils.hpp
+++ b/include/tnco/optimize/finite_width/greedy/utils.hpp
@@ -97,9 +97,13 @@ template <typename Bitset, typename CTree, typename GetWidth,
           // Update indices
           sliced_xs.reset(xpos);
 
-          // Break if slices are enough
+          // Break if slices are enough (the width is recomputed since rounding
+          // errors may have been accumulated in 'sliced_width')
           if (sliced_width <= max_width) {
-            break;
+            sliced_width = get_width(sliced_xs, ctree.dims);
+            if (sliced_width <= max_width) {
+              break;
+            }
           }
         }
       }
-- 
2.43.0


From fbdfaa8d4b56bd2b4a91a1104ff009ed604b0940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:53 +0000
Subject: [PATCH 06/22] fix: moves with zero probability can be accepted

The random number is in [0, 1), so that it can be exactly zero.
---
 include/tnco/optimize/finite_width/greedy/optimizer.hpp | 4 ++--
 include/tnco/optimize/infinite_memory/optimizer.hpp     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index dfbaee9..9dffb6d 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -198,7 +198,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
 
         //-------------------------------
 
-        if (uniform(this->prng) <= prob(delta_cost, total_cost)) {
+        if (uniform(this->prng) < prob(delta_cost, total_cost)) {
           // Swap
           this->ctree.swap_with_nn(pos_E);
 
@@ -281,7 +281,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
           // Try to update ...
           if (const auto delta_cost =
                   new_cost_cache.partial_cost.back() - total_cost;
-              uniform(this->prng) <= prob(delta_cost, total_cost)) {
+              uniform(this->prng) < prob(delta_cost, total_cost)) {
             // Swap cost_cache
             cost_cache = std::move(new_cost_cache);
 
diff --git a/include/tnco/optimize/infinite_memory/optimizer.hpp b/include/tnco/optimize/infinite_memory/optimizer.hpp
index 1817d20..9c850aa 100644
--- a/include/tnco/optimize/infinite_memory/optimizer.hpp
+++ b/include/tnco/optimize/infinite_memory/optimizer.hpp
@@ -159,7 +159,7 @@ struct Optimizer : optimize::optimizer::Optimizer {
 
       //-------------------------------
 
-      if (uniform(this->prng) <= prob(delta_cost, total_cost)) {
+      if (uniform(this->prng) < prob(delta_cost, total_cost)) {
         // Swap
         this->ctree.swap_with_nn(pos_E);
 
-- 
2.43.0


From 2c5d24abf3df7d30063483b8af27936e4ab2a145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:53 +0000
Subject: [PATCH 07/22] fix: costs of a restored optimizer differ by rounding
 errors

A restored optimizer recomputes its costs by adding them in a different
order, so that it may not continue as the original one.
---
 include/tnco/optimize/finite_width/greedy/optimizer.hpp | 7 ++++---
 include/tnco/optimize/infinite_memory/optimizer.hpp     | 5 +++--
 include/tnco/optimize/infinite_memory/utils.hpp         | 4 +++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/tnco/optimize/finite_width/greedy/optimizer.hpp b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
index 9dffb6d..e51d99c 100644
--- a/include/tnco/optimize/finite_width/greedy/optimizer.hpp
+++ b/include/tnco/optimize/finite_width/greedy/optimizer.hpp
@@ -96,9 +96,10 @@ struct Optimizer : optimize::optimizer::Optimizer {
         cost_cache{this->ctree, WRAP(*p_cmodel, contraction_cost),
                    this->slices},
         hyper_cache{this->ctree},
-        min_total_cost{finite_width::utils::get_cost<cost_type>(
-            this->min_ctree, WRAP(*p_cmodel, contraction_cost),
-            this->min_slices)} {
+        min_total_cost{cost_cache_type{this->min_ctree,
+                                       WRAP(*p_cmodel, contraction_cost),
+                                       this->min_slices}
+                           .partial_cost.back()} {
     // If the total cost is infinite, there is the indication that the float
     // precision is not enough
     if (const auto log2_tc_ = log2(get_total_cost());
diff --git a/include/tnco/optimize/infinite_memory/optimizer.hpp b/include/tnco/optimize/infinite_memory/optimizer.hpp
index 9c850aa..1236e0f 100644
--- a/include/tnco/optimize/infinite_memory/optimizer.hpp
+++ b/include/tnco/optimize/infinite_memory/optimizer.hpp
@@ -70,8 +70,9 @@ struct Optimizer : optimize::optimizer::Optimizer {
             WRAP(*p_cmodel, contraction_cost),
         },
         hyper_cache{this->ctree},
-        min_total_cost{infinite_memory::utils::get_cost<cost_type>(
-            this->min_ctree, WRAP(*p_cmodel, contraction_cost))} {
+        min_total_cost{
+            cost_cache_type{this->min_ctree, WRAP(*p_cmodel, contraction_cost)}
+                .partial_cost.back()} {
     // If the total cost is infinite, there is the indication that the float
     // precision is not enough
     if (const auto log2_tc_ = log2(get_total_cost());
diff --git a/include/tnco/optimize/infinite_memory/utils.hpp b/include/tnco/optimize/infinite_memory/utils.hpp
index d84f3f9..7295d51 100644
--- a/include/tnco/optimize/infinite_memory/utils.hpp
+++ b/include/tnco/optimize/infinite_memory/utils.hpp
@@ -51,7 +51,9 @@ struct CostCache {
             const auto &pcost_B = cache.partial_cost[node.children[0]];
             const auto &pcost_C = cache.partial_cost[node.children[1]];
             cache.contraction_cost[pos] = cost_A;
-            cache.partial_cost[pos] = cost_A + pcost_B + pcost_C;
+            // Use the same order as in the update, so that the cost does not
+            // depend on whether it is recomputed
+            cache.partial_cost[pos] = pcost_B + pcost_C + cost_A;
           }
         });
   }
-- 
2.43.0


From fbd493103af23d28bbb48e75b5bbcd443c0bd20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:51 +0000
Subject: [PATCH 08/22] fix: max_number_new_slices lost when an optimizer is
 serialized

---
 tnco/optimize/finite_width/optimizer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tnco/optimize/finite_width/optimizer.py b/tnco/optimize/finite_width/optimizer.py
index 2f43094..6620e65 100644
--- a/tnco/optimize/finite_width/optimizer.py
+++ b/tnco/optimize/finite_width/optimizer.py
@@ -88,6 +88,9 @@ class Optimizer:
         # Save model
         self._cmodel = cmodel
 
+        # Save number of new slices
+        self._max_number_new_slices = max_number_new_slices
+
         # Save cache
         self._ctree_cache = (ctree.dims, ctree._n_tensors, ctree._tensors_pos,
                              ctree._inds_order)
@@ -332,12 +335,13 @@ class Optimizer:
     @staticmethod
     def __build__(*args):
         (ctree, cmodel, prng_state, disable_shared_inds, min_ctree, slices,
-         min_slices, skip_slices) = args
+         min_slices, skip_slices, max_number_new_slices) = args
         return Optimizer(ctree,
                          cmodel,
                          seed=prng_state,
                          disable_shared_inds=disable_shared_inds,
                          skip_slices=skip_slices,
+                         max_number_new_slices=max_number_new_slices,
                          _min_ctree=min_ctree,
                          _slices=slices,
                          _min_slices=min_slices)
@@ -345,7 +349,8 @@ class Optimizer:
     def __reduce__(self):
         return self.__build__, (self.ctree, self.cmodel, self.prng_state,
                                 self.disable_shared_inds, self.min_ctree,
-                                self.slices, self.min_slices, self.skip_slices)
+                                self.slices, self.min_slices, self.skip_slices,
+                                self._max_number_new_slices)
 
     def __repr__(self) -> str:
         return "Optimizer(ctree={}, cmodel={})".format(self.ctree, self.cmodel)
-- 
2.43.0


From 6d5b3466abab6000cc9b6becf29e6cc1e98f9b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:03 +0000
Subject: [PATCH 09/22] fix: order of contracted indices depends on hash
 randomization

---
 tnco/utils/tn.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index 77ca73e..7f795ea 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -992,12 +992,12 @@ def contract(
             map(lambda x: x[0] not in shared_inds or x[1] > 0,
                 hyper_count.items()))
 
-        # Get hyper inds
-        hyper_inds = frozenset(
-            map(
-                op.itemgetter(0),
-                filter(lambda x: x[0] in shared_inds and x[1] > 1,
-                       hyper_count.items()))) | (output_inds & shared_inds)
+        # Get hyper inds (in the order they appear in 'xs', so that the order
+        # of the new indices does not depend on the hash of the indices)
+        hyper_inds = tuple(
+            filter(
+                lambda x: x in shared_inds and
+                (hyper_count[x] > 1 or x in output_inds), xs))
 
         # Update hyper-count
         for x in shared_inds:
-- 
2.43.0


From 535548b0ae18554571cc1f9b3aebf31062d335e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:09 +0000
Subject: [PATCH 10/22] fix: decomposition of hyper-indices may lose or repeat
 indices

Merging two indices because of a tensor can repeat an index in another one,
and indices which have not been merged (or which do not appear elsewhere)
cannot be dropped.
---
 tnco/app/app.py       |  2 +-
 tnco/utils/circuit.py |  2 +-
 tnco/utils/tensor.py  | 11 ++++++++---
 tnco/utils/tn.py      | 40 +++++++++++++++++++++++++++++++++++++++-
 4 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 79f964c..98bedf4 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -350,7 +350,7 @@ def load_tn(obj: Any,
 
             # Decompose hyper-indices
             arrays, ts_inds, hyper_inds_map = tn_utils.decompose_hyper_inds(
-                arrays, ts_inds, atol=atol)
+                arrays, ts_inds, output_inds=output_inds, atol=atol)
             output_inds = frozenset(map(hyper_inds_map.get, output_inds))
 
             # TODO: once tensors are decomposed, it is hard to keep track of
diff --git a/tnco/utils/circuit.py b/tnco/utils/circuit.py
index fc4dee4..b178111 100644
--- a/tnco/utils/circuit.py
+++ b/tnco/utils/circuit.py
@@ -458,7 +458,7 @@ def load(circuit: Iterable[Tuple[Matrix, Tuple[Qubit]]],
     # Decompose hyper inds if needed
     if decompose_hyper_inds:
         arrays, ts_inds, hyper_inds_map = tn_utils.decompose_hyper_inds(
-            arrays, ts_inds, atol=atol)
+            arrays, ts_inds, output_inds=output_inds, atol=atol)
         output_inds = OrderedFrozenSet(map(hyper_inds_map.get, output_inds))
 
         # Let's split hyper_inds_map to isolate open_qubits mapped to internal
diff --git a/tnco/utils/tensor.py b/tnco/utils/tensor.py
index bee9edc..a58b7ae 100644
--- a/tnco/utils/tensor.py
+++ b/tnco/utils/tensor.py
@@ -133,13 +133,18 @@ def decompose_hyper_inds(
     array = ar.do('stack',
                   list(map(lambda x: array[x, x], range(array.shape[0]))))
 
-    # In permutations, all elements in 'array' are the same
-    if array.size and ar.do('allclose', array, array.ravel()[0], atol=atol):
+    # In permutations, all elements in 'array' are the same (indices which have
+    # not been merged cannot be dropped)
+    if array.size and frozenset(inds).issubset(_hyper_inds) and ar.do(
+            'allclose', array, array.ravel()[0], atol=atol):
         return (array.ravel()[0] * ar.do('ones_like', array, shape=()),
                 ()), _hyper_inds
 
     # Call again
-    return decompose_hyper_inds(array, inds, _hyper_inds=_hyper_inds)
+    return decompose_hyper_inds(array,
+                                inds,
+                                atol=atol,
+                                _hyper_inds=_hyper_inds)
 
 
 def get_einsum_subscripts(inds_a: Iterable[Index], inds_b: Iterable[Index],
diff --git a/tnco/utils/tn.py b/tnco/utils/tn.py
index 7f795ea..0837aaf 100644
--- a/tnco/utils/tn.py
+++ b/tnco/utils/tn.py
@@ -781,6 +781,7 @@ def decompose_hyper_inds(
     arrays: Iterable[Array],
     ts_inds: Iterable[List[Index]],
     *,
+    output_inds: Optional[Iterable[Index]] = None,
     atol: float = 1e-8
 ) -> Tuple[List[Array], List[List[Index]], Dict[Index, Index]]:
     """Decomposes hyper-indices in a tensor network.
@@ -790,6 +791,8 @@ def decompose_hyper_inds(
     Args:
         arrays: List of tensor arrays.
         ts_inds: List of indices for each tensor.
+        output_inds: List of output indices. If not provided, the indices which
+            appear only once are used.
         atol: Absolute tolerance for checking diagonality.
 
     Returns:
@@ -799,9 +802,16 @@ def decompose_hyper_inds(
             - **hyper_inds_map**: Mapping from original to new indices.
     """
     # Get all available inds
-    ts_inds = list(ts_inds)
+    ts_inds = list(map(tuple, ts_inds))
     all_inds = OrderedFrozenSet(mit.flatten(ts_inds))
 
+    # Get output inds
+    output_inds = frozenset(
+        map(op.itemgetter(0),
+            filter(lambda x: x[1] == 1,
+                   Counter(mit.flatten(ts_inds)).items()))
+        if output_inds is None else output_inds)
+
     # New tn
     new_arrays = []
     new_ts_inds = []
@@ -810,6 +820,7 @@ def decompose_hyper_inds(
     new_hyper_inds = []
 
     # Get all decomposition
+    arrays = list(arrays)
     for array, inds in zip(arrays, ts_inds):
         (new_array,
          new_inds), hyper_inds = tensor_utils.decompose_hyper_inds(array,
@@ -852,6 +863,33 @@ def decompose_hyper_inds(
     new_ts_inds = list(
         map(lambda xs: tuple(map(hyper_inds_map.get, xs)), new_ts_inds))
 
+    # Indices of the same tensor may be merged because of the other tensors:
+    # in this case, keep the diagonal only
+    for i, xs in enumerate(new_ts_inds):
+        zs = tuple(mit.unique_everseen(xs))
+        if len(zs) < len(xs):
+            xs = ''.join(map(dict(zip(zs, map(get_symbol, its.count()))).get,
+                             xs))
+            new_arrays[i] = ar.do('einsum',
+                                  xs + '->' + ''.join(mit.unique_everseen(xs)),
+                                  new_arrays[i])
+            new_ts_inds[i] = zs
+
+    # Dropping an index from a tensor must not change how it is contracted:
+    # output indices must appear at least once, and all the others at least
+    # twice
+    output_inds = frozenset(map(hyper_inds_map.get, output_inds))
+    count = Counter(mit.flatten(new_ts_inds))
+    for i, (array, xs) in enumerate(zip(arrays, ts_inds)):
+        for x, y in zip(xs, map(hyper_inds_map.get, xs)):
+            if y not in new_ts_inds[i] and count[y] < (1 if y in output_inds
+                                                       else 2):
+                dim = ar.do('shape', array)[xs.index(x)]
+                new_arrays[i] = ar.do(
+                    'stack', [new_arrays[i]] * dim, axis=-1)
+                new_ts_inds[i] += (y,)
+                count[y] += 1
+
     # Return the decomposed tensors
     return new_arrays, new_ts_inds, hyper_inds_map
 
-- 
2.43.0


From 21290747a44fac55bc4b23a46fa3f82ce6904421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:12 +0000
Subject: [PATCH 11/22] fix: sampling from a qiskit circuit loads it instead

---
 tnco/app/circuit/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/app/circuit/sampling.py b/tnco/app/circuit/sampling.py
index 7b2d19f..07e384a 100644
--- a/tnco/app/circuit/sampling.py
+++ b/tnco/app/circuit/sampling.py
@@ -402,7 +402,7 @@ try:
 
     @sample.register
     def _(circuit: qiskit.QuantumCircuit, *args, **kwargs):
-        return load(
+        return sample(
             qiskit_to_arrays(circuit,
                              dtype=kwargs.get('dtype', None),
                              backend=kwargs.get('backend', None)), *args,
-- 
2.43.0


From 8582b848d497d93cd6a763b0e9626476eb8b4c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:11 +0000
Subject: [PATCH 12/22] fix: circuit sampling depends on entropy and on hash
 randomization

Tensors were fused using an unseeded random stream, and the order of the qubits
and of the open indices was the order of a frozenset.
---
 tnco/app/circuit/sampling.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/tnco/app/circuit/sampling.py b/tnco/app/circuit/sampling.py
index 07e384a..e27d82c 100644
--- a/tnco/app/circuit/sampling.py
+++ b/tnco/app/circuit/sampling.py
@@ -19,7 +19,7 @@ import operator as op
 from collections import defaultdict
 from dataclasses import dataclass
 from random import Random
-from typing import Any, Dict, FrozenSet, Iterable, Optional, Tuple, Union
+from typing import Any, Dict, Iterable, Optional, Tuple, Union
 
 import autoray as ar
 import more_itertools as mit
@@ -27,6 +27,7 @@ from rich.progress import Console, Progress, track
 
 from tnco.app import Optimizer, Tensor, TensorNetwork
 from tnco.app.app import BaseContractionResults
+from tnco.ordered_frozenset import OrderedFrozenSet
 from tnco.typing import Array, Circuit, Matrix, Qubit
 from tnco.utils.circuit import load
 from tnco.utils.tn import contract, get_einsum_subscripts
@@ -74,11 +75,11 @@ class SamplingIntermediateState:
     data = Tuple[Union[Tuple[TensorNetwork, BaseContractionResults, Array,
                              Tuple[Qubit], Tuple[Qubit]],
                        Tuple[None, None, Array, None, Tuple[Qubit]]], ...]
-    qubits = FrozenSet[Qubit]
+    qubits = OrderedFrozenSet
 
     def __init__(self, data, qubits):
         object.__setattr__(self, 'data', tuple(data))
-        object.__setattr__(self, 'qubits', frozenset(qubits))
+        object.__setattr__(self, 'qubits', OrderedFrozenSet(qubits))
 
     def __getitem__(self, k):
         return self.data[k]
@@ -175,10 +176,11 @@ def sample(
                 "(with or without phase change) are allowed.")
 
         # Get all qubits
-        qubits = frozenset(mit.flatten(map(op.itemgetter(1), circuit)))
+        qubits = OrderedFrozenSet(mit.flatten(map(op.itemgetter(1), circuit)))
 
         # Check consistency with qubit_order
-        if qubit_order is not None and frozenset(qubit_order) != qubits:
+        if qubit_order is not None and frozenset(
+                qubit_order) != frozenset(qubits):
             raise ValueError(
                 "'qubit_order' is not consistent with qubits in 'circuit'.")
 
@@ -191,13 +193,22 @@ def sample(
                              simplify=simplify,
                              use_matrix_commutation=use_matrix_commutation,
                              decompose_hyper_inds=decompose_hyper_inds,
-                             fuse=fuse) + (q,)
+                             fuse=fuse,
+                             seed=seed) + (q,)
             for i, (m, q) in track(enumerate(circuit),
                                    total=len(circuit),
                                    description="Loading TNs...",
                                    disable=verbose <= 0,
                                    console=Console(stderr=True)))
 
+        # Sort the output indices as they appear in the tensors (the order must
+        # not depend on the hash of the qubits)
+        partial_tn = list(
+            (arrays, ts_inds, None if ts_inds is None else tuple(
+                OrderedFrozenSet(mit.flatten(ts_inds)).intersection(
+                    output_inds)), q)
+            for arrays, ts_inds, output_inds, q in partial_tn)
+
         # Convert to tensors
         partial_tn = list(
             (None, arrays, None, op_qubits) if ts_inds is None else (
@@ -241,7 +252,7 @@ def sample(
 
     # Get all qubits
     if qubit_order is not None:
-        if frozenset(qubit_order) != partial_tn.qubits:
+        if frozenset(qubit_order) != frozenset(partial_tn.qubits):
             raise ValueError(
                 "'qubit_order' is not consistent with qubits in 'circuit'.")
         qubits = qubit_order
-- 
2.43.0


From a9f6210d2e0cd1acf8b6f3f83e93e25a5bd74b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:35 +0000
Subject: [PATCH 13/22] fix: strings longer than a filename raise instead of
 being parsed

---
 tnco/app/app.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 98bedf4..60d11ba 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -446,13 +446,15 @@ def load_tn(obj: Any,
 
             return load_tn(obj, **options)
 
-        # Is it a file?
+        # Is it a file? (a string which is not a valid or is a too long filename
+        # is not a file)
         try:
             validate_filepath(obj, platform='auto')
-            if Path(obj).exists():
-                return load_tn(load_file(obj), **options)
-        except ValidationError:
-            pass
+            is_file = Path(obj).exists()
+        except (ValidationError, OSError):
+            is_file = False
+        if is_file:
+            return load_tn(load_file(obj), **options)
 
         # Is it JSON?
         try:
-- 
2.43.0


From 3f6e5babcafa8efef9eae2cc8b1652db9441a3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:50 +0000
Subject: [PATCH 14/22] fix: loading a binary file raises instead of returning
 its content

---
 tnco/app/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 60d11ba..f8e2315 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -128,7 +128,7 @@ def load_file(filename: str) -> Any:
         # Is json?
         try:
             return json.loads(binary.decode())
-        except json.JSONDecodeError:
+        except (json.JSONDecodeError, UnicodeDecodeError):
             pass
 
         # Is text?
-- 
2.43.0


From 4cadc8a2fad98f6171a19a62ed35160717186e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:50 +0000
Subject: [PATCH 15/22] fix: output file created meanwhile is overwritten

---
 tnco/app/app.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index f8e2315..40011c1 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -682,6 +682,10 @@ def dump_results(tn: TensorNetwork,
             open = io.open
             compress_ = False
 
+        # Never write to an existing file (even if it has been created after
+        # checking for its existence) unless it should be overwritten
+        mode_ = 'w' if overwrite_output_file else 'x'
+
         # Is the output a string?
         if isinstance(output, str):
             # Encode if output is compressed
@@ -689,14 +693,15 @@ def dump_results(tn: TensorNetwork,
                 output = output.encode()
 
             # Dump
-            with open(output_filename, 'w') as file_:
+            with open(output_filename, mode_) as file_:
                 file_.write(output)
 
             # Return
             return None
 
         # Otherwise, dump it as pickle
-        with open(output_filename, 'w' if compress_ else 'bw') as file_:
+        with open(output_filename,
+                  mode_ if compress_ else f'{mode_}b') as file_:
             pickle.dump(output, file_)
 
         # Return
-- 
2.43.0


From 7aee9cd2ee407e31a17acac04bff2e48c1e02a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 16/22] fix: damaged multi-stream bz2 files are partially
 loaded

---
 tnco/app/app.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/tnco/app/app.py b/tnco/app/app.py
index 40011c1..ce28944 100644
--- a/tnco/app/app.py
+++ b/tnco/app/app.py
@@ -112,6 +112,22 @@ def load_file(filename: str) -> Any:
     if not Path(filename).exists:
         raise FileNotFoundError("'{}' does not exist.".format(filename))
 
+    def decompress_bz2(binary):
+        """
+        Decompress all streams (``bz2.decompress`` ignores damaged streams
+        after the first one).
+        """
+        output = []
+        while binary:
+            decompressor = bz2.BZ2Decompressor()
+            output.append(decompressor.decompress(binary))
+            if not decompressor.eof:
+                raise ValueError(
+                    "Compressed data ended before the end-of-stream marker "
+                    "was reached")
+            binary = decompressor.unused_data
+        return b''.join(output)
+
     def load(binary):
         """
         Process binary recursively.
@@ -123,7 +139,7 @@ def load_file(filename: str) -> Any:
 
         # Is bzip?
         if binary[:2] == b'BZ':
-            return load(bz2.decompress(binary))
+            return load(decompress_bz2(binary))
 
         # Is json?
         try:
-- 
2.43.0


From 80c49c03ae663ee437f501d55157b60e9c09e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 17/22] fix: optimization fails if standard error is redirected
 and restored

---
 tnco/app/finite_width/sa.py    | 6 +++---
 tnco/app/infinite_memory/sa.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tnco/app/finite_width/sa.py b/tnco/app/finite_width/sa.py
index ff018da..4e5b457 100644
--- a/tnco/app/finite_width/sa.py
+++ b/tnco/app/finite_width/sa.py
@@ -16,8 +16,8 @@
 import functools as fts
 import json
 import operator as op
+import sys
 from dataclasses import dataclass
-from sys import stderr
 from time import perf_counter
 from typing import Any, FrozenSet, Iterable, List, Optional, Tuple, Union
 
@@ -264,7 +264,7 @@ class Optimizer(BaseOptimizer):
         seeds = rng.choices(range(2**32), k=n_runs)
 
         if self.verbose == 1:
-            print("# Optimizing ...", file=stderr, flush=True, end='')
+            print("# Optimizing ...", file=sys.stderr, flush=True, end='')
 
         # Run simulations
         results = Parallel(
@@ -278,7 +278,7 @@ class Optimizer(BaseOptimizer):
             verbose=self.verbose - 1)
 
         if self.verbose == 1:
-            print(" Done!", file=stderr, flush=True)
+            print(" Done!", file=sys.stderr, flush=True)
 
         # Get contraction results
         return self._dump_results(tn, sorted(results))
diff --git a/tnco/app/infinite_memory/sa.py b/tnco/app/infinite_memory/sa.py
index 7c18f0e..7dab393 100644
--- a/tnco/app/infinite_memory/sa.py
+++ b/tnco/app/infinite_memory/sa.py
@@ -14,8 +14,8 @@
 """Simulated Annealing Optimizer for Infinite Memory."""
 
 import json
+import sys
 from dataclasses import dataclass
-from sys import stderr
 from time import perf_counter
 from typing import Any, Iterable, List, Optional, Tuple, Union
 
@@ -232,7 +232,7 @@ class Optimizer(BaseOptimizer):
         seeds = rng.choices(range(2**32), k=n_runs)
 
         if self.verbose == 1:
-            print("# Optimizing ...", file=stderr, flush=True, end='')
+            print("# Optimizing ...", file=sys.stderr, flush=True, end='')
 
         # Run simulations
         results = Parallel(
@@ -246,7 +246,7 @@ class Optimizer(BaseOptimizer):
             verbose=self.verbose - 1)
 
         if self.verbose == 1:
-            print(" Done!", file=stderr, flush=True)
+            print(" Done!", file=sys.stderr, flush=True)
 
         # Get contraction results
         return self._dump_results(tn, sorted(results))
-- 
2.43.0


From 2a884533c1c4d7429b8cf7ad2174871af2f20f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 18/22] fix: shared memory left behind if a buffer cannot be
 initialized

---
 tnco/parallel.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tnco/parallel.py b/tnco/parallel.py
index 616ac8c..bfd771b 100644
--- a/tnco/parallel.py
+++ b/tnco/parallel.py
@@ -76,7 +76,13 @@ class Buffer:
 
         # Initialize it
         if sequence:
-            pack_into(self.dtype * size, self.shm.buf, 0, *sequence)
+            try:
+                pack_into(self.dtype * size, self.shm.buf, 0, *sequence)
+            except BaseException:
+                # Do not leave the shared memory behind
+                self.shm.close()
+                self.shm.unlink()
+                raise
 
     def __len__(self) -> int:
         return self.shm.size // calcsize(self.dtype)
-- 
2.43.0


From c782d0473b51220a40291130c077de4874804725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:06 +0000
Subject: [PATCH 19/22] fix: states rejected as not normalized if dtype has
 single precision

---
 tnco/utils/circuit.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/tnco/utils/circuit.py b/tnco/utils/circuit.py
index b178111..a3150b0 100644
--- a/tnco/utils/circuit.py
+++ b/tnco/utils/circuit.py
@@ -296,20 +296,21 @@ def load(circuit: Iterable[Tuple[Matrix, Tuple[Qubit]]],
                        if isinstance(x, str)):
                 raise ValueError("State has not supported tokens.")
 
-            # Convert state
-            state = dict(
-                ((q, tag), valid_token[x] if isinstance(x, str) else ar.
-                 do('asarray', x, dtype=dtype, like=backend))
-                for q, x in state.items()
-                if q in qubits)
+            # Ignore qubits which are not part of the circuit
+            state = dict((q, x) for q, x in state.items() if q in qubits)
 
-            # Check states
+            # Check states (before they are rounded to 'dtype')
             if not all(
                     x.shape == (2,) and abs(ar.do('linalg.norm', x) - 1) < atol
-                    for x in state.values()):
+                    for x in (ar.do('asarray', x, like=backend)
+                              for x in state.values()
+                              if not isinstance(x, str))):
                 raise ValueError("State is not properly normalized.")
 
-            return state
+            # Convert state
+            return dict(((q, tag), valid_token[x] if isinstance(x, str) else ar.
+                         do('asarray', x, dtype=dtype, like=backend))
+                        for q, x in state.items())
 
         raise NotImplementedError("State not supported.")
 
-- 
2.43.0


From 3d0cd2785f76b4bbeb73d75308d2eb291847b5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:43 +0000
Subject: [PATCH 20/22] fix: costs of equal dimensions are limited to double
 precision

---
 include/tnco/optimize/infinite_memory/cost_model/simple.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tnco/optimize/infinite_memory/cost_model/simple.hpp b/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
index a9b5d01..3c73d2a 100644
--- a/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
+++ b/include/tnco/optimize/infinite_memory/cost_model/simple.hpp
@@ -42,7 +42,9 @@ template <typename CostType, typename Bitset, typename DimsType>
     -> CostType {
   if constexpr (std::is_arithmetic_v<DimsType>) {
     ASSERT(dims != 0, "Each dimension must be a positive number.");
-    return std::pow(dims, inds.count());
+    // Evaluate the power using 'CostType' rather than 'double'
+    using std::pow;
+    return pow(CostType(dims), inds.count());
   } else {
     ASSERT(std::size(inds) <= std::size(dims), "'Too few dimensions.'");
     ASSERT(std::none_of(std::begin(dims), std::end(dims),
-- 
2.43.0


From b74cb05ca664239bd0894812eb96778d8c5e1a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 21/22] fix: valid searches with 'skip_slices' may be rejected
 when restored

---
 tnco/optimize/finite_width/optimizer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tnco/optimize/finite_width/optimizer.py b/tnco/optimize/finite_width/optimizer.py
index 6620e65..5a896fe 100644
--- a/tnco/optimize/finite_width/optimizer.py
+++ b/tnco/optimize/finite_width/optimizer.py
@@ -103,12 +103,16 @@ class Optimizer:
                 "'skip_slices' must be a subset of available indices.")
 
         # Check that tensors can fit the max allowed width even if some inds
-        # are skipped
+        # are skipped. Widths are evaluated and compared as in the C++ core, to
+        # avoid discrepancies due to rounding errors
+        core = cmodel.__get_core__(ctree._inds_order)
+        dims = tuple(map(ctree.dims.get, ctree._inds_order))
         if any(
                 map(
-                    lambda xs: self.cmodel.width(xs & self.skip_slices, ctree.
-                                                 dims) > self.cmodel.max_width,
-                    ctree.inds)):
+                    lambda xs: core.width(
+                        Bitset(map(ctree._inds_order.index, xs & self.
+                                   skip_slices), ctree.n_inds), dims) > core.
+                    max_width, ctree.inds)):
             raise ValueError("Too many indices in 'skip_slices'.")
 
         # Convert slices to bitset
-- 
2.43.0


From ff2c90f8ef8bbee262b647471ba6c7c33b0e823a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:04 +0000
Subject: [PATCH 22/22] fix: tasks raising 'StopIteration' truncate the results
 of sequential calls

---
 tnco/parallel.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/tnco/parallel.py b/tnco/parallel.py
index bfd771b..6dd1abb 100644
--- a/tnco/parallel.py
+++ b/tnco/parallel.py
@@ -350,14 +350,15 @@ def Parallel(core: Callable[..., Any],
 
         # Get results (sequential)
         else:
-            results = list(
-                map(
-                    lambda idx, xs: core_(*xs[:-1],
-                                          idx=idx,
-                                          status=status,
-                                          stop=stop,
-                                          **xs[-1],
-                                          **buffers), range(n_runs), args))
+            # ('map' would hide 'StopIteration' if raised by 'core')
+            results = [
+                core_(*xs[:-1],
+                      idx=idx,
+                      status=status,
+                      stop=stop,
+                      **xs[-1],
+                      **buffers) for idx, xs in enumerate(args)
+            ]
 
     # Return results
     return results
-- 
2.43.0

