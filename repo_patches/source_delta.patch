From e3299eddd809ce233e04055e8ac39b7746bf4963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 01/39] fix: use int instead of the removed np.int alias in
 non-dominated sorting and SOP

---
 pySOT/strategy/sop_strategy.py | 2 +-
 pySOT/utils.py                 | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 7d0223c..0733364 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -454,7 +454,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         num_pending_centers = len(self.centers)
         center_count = self.ncenters - num_pending_centers
         if center_count > 0:
-            center_index = -1 * np.ones((center_count,), dtype=np.int)
+            center_index = -1 * np.ones((center_count,), dtype=int)
             center_index[0] = ind_new[0]
             check = 1
             i = 1
diff --git a/pySOT/utils.py b/pySOT/utils.py
index 1335ef8..e6419d2 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -465,8 +465,8 @@ def nd_sorting(F, nmax):
     """
 
     (M, N) = F.shape
-    nd_ranks = np.ones((N,), dtype=np.int) * POSITIVE_INFINITY
-    P = np.ones((N,), dtype=np.int)
+    nd_ranks = np.ones((N,), dtype=int) * POSITIVE_INFINITY
+    P = np.ones((N,), dtype=int)
     for i in range(0, N):
         P[i] = i
     i = 1
@@ -476,7 +476,7 @@ def nd_sorting(F, nmax):
         for j in range(0, len(ndf_index)):
             nd_ranks[P[ndf_index[j]]] = i
         count = count + len(ndf_index)
-        P_new = np.ones((len(df_index),), dtype=np.int)
+        P_new = np.ones((len(df_index),), dtype=int)
         for j in range(0, len(df_index)):
             P_new[j] = P[df_index[j]]
         P = P_new
-- 
2.43.0


From 82c9f2060115f60abd774262113e8bb54ea9eca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 02/39] fix: GPRegressor.predict returns a num_pts x 1 array
 with current scikit-learn

---
 pySOT/surrogate/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/surrogate/gp.py b/pySOT/surrogate/gp.py
index 305bbb6..74085ce 100644
--- a/pySOT/surrogate/gp.py
+++ b/pySOT/surrogate/gp.py
@@ -68,7 +68,7 @@ class GPRegressor(Surrogate):
         """
         self._fit()
         xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)
-        return self._mu + self._sigma * self.model.predict(xx)
+        return self._mu + self._sigma * self.model.predict(xx).reshape(-1, 1)
 
     def predict_std(self, xx):
         """Predict standard deviation at points xx.
-- 
2.43.0


From a066d423af98735a1869036f66a8f9f616845549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 03/39] fix: save the temporary checkpoint next to the
 checkpoint file so that paths with directories work

---
 pySOT/strategy/surrogate_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 144f167..f9c4a76 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -174,7 +174,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         :param fname: Filename
         :type fname: string
         """
-        temp_fname = "temp_" + fname
+        temp_fname = os.path.join(os.path.dirname(fname), "temp_" + os.path.basename(fname))
         with open(temp_fname, "wb") as output:
             dill.dump(self, output, dill.HIGHEST_PROTOCOL)
         os.rename(temp_fname, fname)
-- 
2.43.0


From bfc62dcda612f487cc421f1bdbac138a71296f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 04/39] fix: take the checkpoint snapshot after the strategy
 has processed the finished evaluation

---
 pySOT/controller/controller.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pySOT/controller/controller.py b/pySOT/controller/controller.py
index 9aeb283..0ed604b 100644
--- a/pySOT/controller/controller.py
+++ b/pySOT/controller/controller.py
@@ -48,7 +48,20 @@ class CheckpointController(object):
         :param record: Evaluation record
         :type record: EvalRecord
         """
-        record.add_callback(self.on_update)
+        record.add_callback(self._move_on_update_last)
+
+    def _move_on_update_last(self, record):
+        """Internal handler -- make on_update the last callback of the record.
+
+        This callback is added before the strategy adds its own callbacks. We
+        add on_update at the first update to make sure the strategy has
+        processed the update before we take a snapshot.
+
+        :param record: Evaluation record
+        :type record: EvalRecord
+        """
+        if self.on_update not in record.callbacks:
+            record.add_callback(self.on_update)
 
     def on_new_feval(self, record):
         """Handle new function evaluation request.
-- 
2.43.0


From 110f1e9eacd1d808ff495191f708b8ef4d253025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 05/39] fix: terminate after convergence when restarts are
 disabled instead of proposing nothing forever

---
 pySOT/strategy/surrogate_strategy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index f9c4a76..91cbc4b 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -194,6 +194,8 @@ class SurrogateBaseStrategy(BaseStrategy):
         """Check if evaluation based termination criterion has been reached."""
         if self.num_evals + self.pending_evals >= self.max_evals:  # Budget exhausted
             self.terminate = True
+        elif self.converged and not self.use_restarts:  # Converged and not allowed to restart
+            self.terminate = True
 
     def sample_restart(self):
         """Restart a run after convergence."""
@@ -294,6 +296,9 @@ class SurrogateBaseStrategy(BaseStrategy):
                         return self.init_proposal()  # We are now in phase 1, so make an initial proposal
                     else:
                         return
+                else:  # We are done, wait for pending evaluations before we terminate
+                    self.terminate = True
+                    return Proposal("terminate") if self.pending_evals == 0 else None
 
             # Launch the new evaluations (the others will be triggered later)
             return self.adapt_proposal()
-- 
2.43.0


From 31441040483f703ecf9b13c06efa5e92eb1279dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 06/39] fix: give the budget of evaluations that were pending
 at a crash back to the resumed run

---
 pySOT/strategy/surrogate_strategy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 91cbc4b..ef91a87 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -190,6 +190,9 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.pending_evals = 0
         self.Xpend = np.empty([0, self.opt_prob.dim])
 
+        # The lost evaluations are no longer part of the budget
+        self.terminate = False
+
     def check_termination(self):
         """Check if evaluation based termination criterion has been reached."""
         if self.num_evals + self.pending_evals >= self.max_evals:  # Budget exhausted
-- 
2.43.0


From 5edc443135eea3813937f85572befcbe5231bea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 07/39] fix: do not leave the initial phase while synchronous
 initial evaluations are pending, they were lost on resume

---
 pySOT/strategy/surrogate_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index ef91a87..1218f65 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -285,10 +285,11 @@ class SurrogateBaseStrategy(BaseStrategy):
             else:
                 return self.adapt_proposal()
         else:  # Make new proposal in the adaptive phase
-            self.phase = 2
             if self.asynchronous:  # Always make proposal with asynchrony
+                self.phase = 2
                 self.generate_evals(num_pts=1)
             elif self.pending_evals == 0:  # Make sure the entire batch is done
+                self.phase = 2
                 self.generate_evals(num_pts=self.batch_size)
 
             # We allow generate_evals to trigger a restart, so check if status has changed
-- 
2.43.0


From 690c49907c63dac9bd2b0af6a9f18ea7c4a9ecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 08/39] fix: a change of the sampling radius no longer drops
 pending evaluations from the surrogate

---
 pySOT/strategy/srbf_strategy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pySOT/strategy/srbf_strategy.py b/pySOT/strategy/srbf_strategy.py
index fd79e76..8cece6b 100644
--- a/pySOT/strategy/srbf_strategy.py
+++ b/pySOT/strategy/srbf_strategy.py
@@ -142,6 +142,7 @@ class SRBFStrategy(SurrogateBaseStrategy):
 
     def sample_initial(self):
         super().sample_initial()
+        self.ev_adjust = self.ev_last  # Event index of the last restart or radius change
         self.status = 0  # Status counter
         self.failcount = 0  # Failure counter
         self.sampling_radius = 0.2
@@ -151,7 +152,7 @@ class SRBFStrategy(SurrogateBaseStrategy):
         """Handle completed evaluation."""
         super().on_adapt_completed(record)
 
-        if record.ev_id > self.ev_last:  # Only process fresh records
+        if record.ev_id > self.ev_adjust:  # Only process fresh records
             self.record_queue.append(record)
 
             if self.asynchronous:  # Process immediately
@@ -203,12 +204,12 @@ class SRBFStrategy(SurrogateBaseStrategy):
 
         # Check if step needs adjusting
         if self.status <= -self.failtol:
-            self.ev_last = self.get_ev()  # Update the event id
+            self.ev_adjust = self.get_ev()  # Update the event id
             self.status = 0
             self.sampling_radius /= 2
             logger.info("Reducing sampling radius")
         if self.status >= self.succtol:
-            self.ev_last = self.get_ev()  # Update the event id
+            self.ev_adjust = self.get_ev()  # Update the event id
             self.status = 0
             self.sampling_radius = min([2.0 * self.sampling_radius, self.sampling_radius_max])
             logger.info("Increasing sampling radius")
-- 
2.43.0


From 72365fffe8da6abcf0a21066d6b28a12fdc54536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 09/39] fix: accept weights given as a numpy array

---
 pySOT/strategy/srbf_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/srbf_strategy.py b/pySOT/strategy/srbf_strategy.py
index 8cece6b..fff1e2d 100644
--- a/pySOT/strategy/srbf_strategy.py
+++ b/pySOT/strategy/srbf_strategy.py
@@ -135,7 +135,7 @@ class SRBFStrategy(SurrogateBaseStrategy):
 
     def check_input(self):
         """Check inputs."""
-        assert isinstance(self.weights, list) or isinstance(self.weights, np.array)
+        assert isinstance(self.weights, list) or isinstance(self.weights, np.ndarray)
         for w in self.weights:
             assert isinstance(w, float) and w >= 0.0 and w <= 1.0
         super().check_input()
-- 
2.43.0


From b776e6e423e55479ad8322651aee06437b8210cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 10/39] fix: process a synchronous batch whose last evaluation
 is aborted

---
 pySOT/strategy/srbf_strategy.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pySOT/strategy/srbf_strategy.py b/pySOT/strategy/srbf_strategy.py
index fff1e2d..32711d3 100644
--- a/pySOT/strategy/srbf_strategy.py
+++ b/pySOT/strategy/srbf_strategy.py
@@ -160,6 +160,14 @@ class SRBFStrategy(SurrogateBaseStrategy):
             elif (not self.batch_queue) and self.pending_evals == 0:  # Batch
                 self.adjust_step()
 
+    def on_adapt_aborted(self, record):
+        """Handle aborted feval from sampling phase."""
+        super().on_adapt_aborted(record)
+
+        # The batch may be finished, in which case no completion will trigger the update
+        if not self.asynchronous and self.record_queue and (not self.batch_queue) and self.pending_evals == 0:
+            self.adjust_step()
+
     def get_weights(self, num_pts):
         """Generate the nextw weights."""
         weights = []
-- 
2.43.0


From 52b6bff318099c696ee1ea99db8fd835424e252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 11/39] fix: keep SOP points of the same batch apart from each
 other

---
 pySOT/strategy/sop_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 0733364..3af44c1 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -305,7 +305,7 @@ class SOPStrategy(SurrogateBaseStrategy):
                 weights=weights,
                 sampling_radius=sampling_radius,
                 num_cand=self.num_cand,
-                Xpend=self.Xpend,
+                Xpend=np.vstack((self.Xpend, new_points[:i, :])),
                 prob_perturb=prob_perturb,
                 xbest=X_c,
             )
-- 
2.43.0


From 5c217af98999f7e29aaa93767d937a164f5e313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 12/39] fix: SOP selects centers from up-to-date non-domination
 ranks

---
 pySOT/strategy/sop_strategy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 3af44c1..e84cb35 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -272,8 +272,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         """Generate the next adaptive sample points."""
 
         # Update the list of center points
-        if self.F_ranked is None:  # If this is the start of adaptive phase
-            self.update_ranks()
+        self.update_ranks()
         self.update_center_list()
 
         # Compute dycors perturbation probability
@@ -400,6 +399,8 @@ class SOPStrategy(SurrogateBaseStrategy):
         nmax = 100  # Maximum number of points that may be selected as centers
         ranks = nd_sorting(F[:, self.opt_prob.dim : self.opt_prob.dim + 2].transpose(), nmax)  # Perform ND Sorting
         F[:, self.opt_prob.dim + 3] = ranks.transpose()
+        for i in range(nevals):
+            self.evals[i].rank = ranks[i]
         self.F_ranked = np.copy(F)
 
     def update_center_list(self):
-- 
2.43.0


From acbdc095aee74b5e17da62e537c1c47842be9278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 13/39] fix: SOP frees the centers of rejected, aborted and
 lost evaluations and handles idle and busy centers

---
 pySOT/strategy/sop_strategy.py | 47 +++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index e84cb35..20fb10f 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -109,6 +109,10 @@ class _SopCenter:
         else:
             self._new_point = value
 
+    def release(self):
+        """Forget the new point, the center can be used again"""
+        self._new_point = None
+
     @property
     def new_index(self):
         """Get location / index of new point"""
@@ -258,16 +262,47 @@ class SOPStrategy(SurrogateBaseStrategy):
 
             ncenters = len(self.centers)
             for i in range(ncenters):  # Update location of new point in center
+                if self.centers[i].new_index is not None:  # Already finished
+                    continue
                 if np.array_equal(np.copy(record.params[0]), self.centers[i].new_point):
                     self.centers[i].new_index = self.num_evals - 1
                     center_index = i
                     break
 
             if self.asynchronous:  # Process immediately
-                self.adjust_memory(center_index)
+                if center_index is not None:
+                    self.adjust_memory(center_index)
             elif (not self.batch_queue) and self.pending_evals == 0:  # Batch
                 self.adjust_memory()
 
+    def on_adapt_reject(self, proposal):
+        """Handle rejected proposal from sampling phase."""
+        super().on_adapt_reject(proposal)
+        if self.asynchronous:  # The proposal is dropped, so the center is free again
+            self.release_center(proposal.args[0])
+
+    def on_adapt_aborted(self, record):
+        """Handle aborted feval from sampling phase."""
+        super().on_adapt_aborted(record)
+        self.release_center(record.params[0])
+        if not self.asynchronous and (not self.batch_queue) and self.pending_evals == 0:  # Batch is done
+            self.adjust_memory()
+
+    def resume(self):
+        """Resume a terminated run."""
+        super().resume()
+        for center in self.centers:  # Free the centers of lost evaluations
+            if center.new_point is not None and center.new_index is None:
+                if not any(np.array_equal(center.new_point, x) for x in self.batch_queue):
+                    center.release()
+
+    def release_center(self, x):
+        """Free the center whose new point x will not be evaluated."""
+        for center in self.centers:
+            if center.new_index is None and np.array_equal(x, center.new_point):
+                center.release()
+                break
+
     def generate_evals(self, num_pts):
         """Generate the next adaptive sample points."""
 
@@ -275,6 +310,10 @@ class SOPStrategy(SurrogateBaseStrategy):
         self.update_ranks()
         self.update_center_list()
 
+        # A center is used for at most one new point at a time
+        if not any(center.new_point is None for center in self.centers):
+            return
+
         # Compute dycors perturbation probability
         num_evals = len(self.X) + len(self.Xpend) - self.num_exp + 1.0
         min_prob = np.min([1.0, 1.0 / self.opt_prob.dim])
@@ -323,8 +362,10 @@ class SOPStrategy(SurrogateBaseStrategy):
 
         """
 
-        if index is None:  # Batch mode - update memory for all centers
-            indices = range(self.ncenters)
+        if index is None:  # Batch mode - update memory for all centers with a new evaluation
+            indices = [i for i in range(len(self.centers)) if self.centers[i].new_index is not None]
+            if len(indices) == 0:  # No evaluation in the batch was completed
+                return
         else:  # asynchronous mode
             indices = [index]
 
-- 
2.43.0


From c1d498a54f69d09e6ef3cf0c3f9fa80bf41d17a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 14/39] fix: treat infinite extra_vals as unknown, as
 documented

---
 pySOT/strategy/surrogate_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 1218f65..b335a58 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -243,7 +243,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         # We only evaluate these points before the first restart
         if self.extra_points is not None and len(self.X) == 0:
             for i in range(self.extra_points.shape[0]):
-                if self.extra_vals is None or np.all(np.isnan(self.extra_vals[i])):  # Unknown value
+                if self.extra_vals is None or not np.all(np.isfinite(self.extra_vals[i])):  # Unknown value
                     self.batch_queue.append(self.extra_points[i, :])
                 else:  # Known value, save point and add to surrogate model
                     x = np.copy(self.extra_points[i, :])
-- 
2.43.0


From b76a3a1d5b234b2ae9a87609379d0ba7a4339a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 15/39] fix: known extra points belong to the current run,
 search around them and keep away from them

---
 pySOT/strategy/surrogate_strategy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index b335a58..406607e 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -249,6 +249,8 @@ class SurrogateBaseStrategy(BaseStrategy):
                     x = np.copy(self.extra_points[i, :])
                     self.X = np.vstack((self.X, x))
                     self.fX = np.vstack((self.fX, self.extra_vals[i]))
+                    self._X = np.vstack((self._X, x))
+                    self._fX = np.vstack((self._fX, self.extra_vals[i]))
                     self.surrogate.add_points(x, self.extra_vals[i])
 
     def propose_action(self):
-- 
2.43.0


From c48128d5daca50775ba1e2215101c48682c188ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 16/39] fix: only forget one of several equal pending points
 when it is resolved

---
 pySOT/strategy/surrogate_strategy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 406607e..cd1e724 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -317,9 +317,9 @@ class SurrogateBaseStrategy(BaseStrategy):
         return proposal
 
     def remove_pending(self, x):
-        """Delete a pending point from self.Xpend."""
+        """Delete a pending point from self.Xpend, equal points that are still pending are kept."""
         idx = np.where((self.Xpend == x).all(axis=1))[0]
-        self.Xpend = np.delete(self.Xpend, idx, axis=0)
+        self.Xpend = np.delete(self.Xpend, idx[:1], axis=0)
 
     # == Processing in initial phase ==
 
@@ -348,7 +348,6 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.pending_evals -= 1
         xx = proposal.args[0]
         self.batch_queue.append(xx)  # Add back to queue
-        self.Xpend = np.vstack((self.Xpend, np.copy(xx)))
         self.remove_pending(xx)
 
     def on_initial_update(self, record):
-- 
2.43.0


From 952e01e768d87a1f89a53e8db63c9431ee799e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 17/39] fix: queue copies of the extra points, not views of the
 array of the caller

---
 pySOT/strategy/surrogate_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index cd1e724..33b63b5 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -244,7 +244,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         if self.extra_points is not None and len(self.X) == 0:
             for i in range(self.extra_points.shape[0]):
                 if self.extra_vals is None or not np.all(np.isfinite(self.extra_vals[i])):  # Unknown value
-                    self.batch_queue.append(self.extra_points[i, :])
+                    self.batch_queue.append(np.copy(self.extra_points[i, :]))
                 else:  # Known value, save point and add to surrogate model
                     x = np.copy(self.extra_points[i, :])
                     self.X = np.vstack((self.X, x))
-- 
2.43.0


From 2655cfc398d0d3444623ac90fa255d41f28e1f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 18/39] fix: accept objective values of any scalar type in
 add_points

---
 pySOT/surrogate/surrogate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/surrogate/surrogate.py b/pySOT/surrogate/surrogate.py
index 89edafd..66e956f 100644
--- a/pySOT/surrogate/surrogate.py
+++ b/pySOT/surrogate/surrogate.py
@@ -59,7 +59,7 @@ class Surrogate(ABC):
         :type fx: numpy.array or float
         """
         xx = np.atleast_2d(xx)
-        if isinstance(fx, float):
+        if np.isscalar(fx):
             fx = np.array([fx])
         if fx.ndim == 0:
             fx = np.expand_dims(fx, axis=0)
-- 
2.43.0


From bc4b3346bb088eccb0d1fc3e4f1a0609c07b2e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 19/39] fix: inverted conditions in the input checks never
 refused an invalid budget, dimension or number of centers

---
 pySOT/strategy/random_strategy.py    | 4 ++--
 pySOT/strategy/sop_strategy.py       | 4 ++--
 pySOT/strategy/surrogate_strategy.py | 2 +-
 pySOT/utils.py                       | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pySOT/strategy/random_strategy.py b/pySOT/strategy/random_strategy.py
index c6a5130..5685a41 100644
--- a/pySOT/strategy/random_strategy.py
+++ b/pySOT/strategy/random_strategy.py
@@ -24,8 +24,8 @@ class RandomStrategy(BaseStrategy):
 
     def __init__(self, max_evals, opt_prob):
         check_opt_prob(opt_prob)
-        if not isinstance(max_evals, int) and max_evals > 0:
-            raise ValueError("max_evals must be an integer >= exp_des.num_pts")
+        if not (isinstance(max_evals, int) and max_evals > 0):
+            raise ValueError("max_evals must be a positive integer")
 
         self.opt_prob = opt_prob
         self.max_evals = max_evals
diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 20fb10f..5373cbf 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -234,8 +234,8 @@ class SOPStrategy(SurrogateBaseStrategy):
     def check_input(self):
         """Check inputs."""
         super().check_input()
-        if not isinstance(self.ncenters, int) and self.ncenters > 3:
-            raise ValueError("ncenters should be an integer greater than 3")
+        if not (isinstance(self.ncenters, int) and self.ncenters > 0):
+            raise ValueError("ncenters should be a positive integer")
         if not self.asynchronous:
             if not self.ncenters >= self.batch_size:
                 raise ValueError("Batch size should be less than or equal" " to ncenters")
diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 33b63b5..87a0926 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -160,7 +160,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         check_opt_prob(self.opt_prob)
         if not self.asynchronous and self.batch_size is None:
             raise ValueError("You must specify batch size in synchronous mode " "(use 1 for serial)")
-        if not isinstance(self.max_evals, int) and self.max_evals > 0 and self.max_evals >= self.exp_design.num_pts:
+        if not (isinstance(self.max_evals, int) and self.max_evals > 0 and self.max_evals >= self.exp_design.num_pts):
             raise ValueError("max_evals must be an integer >= exp_des.num_pts")
 
     def save(self, fname):
diff --git a/pySOT/utils.py b/pySOT/utils.py
index e6419d2..049fa52 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -109,7 +109,7 @@ def check_opt_prob(obj):  # pragma: no cover
     if not isinstance(obj, OptimizationProblem):
         raise TypeError("Input does not implement OptimizationProblem")
 
-    if not isinstance(obj.dim, int) and obj.dim() > 0:
+    if not (isinstance(obj.dim, int) and obj.dim > 0):
         raise ValueError("dim must be a positive integer")
 
     if not isinstance(obj.lb, np.ndarray):
-- 
2.43.0


From a7d9ee617c7925269265ced1a7e57babdd6079fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 20/39] fix: the genetic algorithm refused initial populations
 inside the domain and modified the array of the caller

---
 pySOT/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index 049fa52..fbd9c05 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -268,11 +268,11 @@ class GeneticAlgorithm:
         if isinstance(self.start, np.ndarray):
             if self.start.shape[0] != self.nindividuals or self.start.shape[1] != self.nvariables:
                 raise ValueError("Initial population has incorrect size")
-            if any(np.min(self.start, axis=0) >= self.lower_boundary) or any(
-                np.max(self.start, axis=0) <= self.upper_boundary
+            if any(np.min(self.start, axis=0) < self.lower_boundary) or any(
+                np.max(self.start, axis=0) > self.upper_boundary
             ):
                 raise ValueError("Initial population is outside the domain")
-            population = self.start
+            population = np.copy(self.start)
         elif self.start == "SLHD":
             from pySOT.experimental_design import SymmetricLatinHypercube
 
-- 
2.43.0


From 3dd6b9137d21903d77bc8edd5b1458cd976bf6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 21/39] fix: DYCORS candidates respect the subset argument and
 can perturb only the last coordinate

---
 pySOT/auxiliary_problems/candidate_dycors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySOT/auxiliary_problems/candidate_dycors.py b/pySOT/auxiliary_problems/candidate_dycors.py
index 9f80a68..094d6c3 100644
--- a/pySOT/auxiliary_problems/candidate_dycors.py
+++ b/pySOT/auxiliary_problems/candidate_dycors.py
@@ -75,13 +75,13 @@ def candidate_dycors(
     else:
         ar = np.random.rand(num_cand, len(subset)) < prob_perturb
         ind = np.where(np.sum(ar, axis=1) == 0)[0]
-        ar[ind, np.random.randint(0, len(subset) - 1, size=len(ind))] = 1
+        ar[ind, np.random.randint(0, len(subset), size=len(ind))] = 1
 
     cand = np.multiply(np.ones((num_cand, opt_prob.dim)), xbest)
-    for i in subset:
+    for j, i in enumerate(subset):
         lower, upper, sigma = opt_prob.lb[i], opt_prob.ub[i], scalefactors[i]
-        ind = np.where(ar[:, i] == 1)[0]
-        cand[ind, subset[i]] = stats.truncnorm.rvs(
+        ind = np.where(ar[:, j] == 1)[0]
+        cand[ind, i] = stats.truncnorm.rvs(
             a=(lower - xbest[i]) / sigma, b=(upper - xbest[i]) / sigma, loc=xbest[i], scale=sigma, size=len(ind)
         )
 
-- 
2.43.0


From 6b55398d6bfae85bbbbd15de7c7345c65ef1175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 22/39] fix: RandomStrategy rounds integer variables

---
 pySOT/strategy/random_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/random_strategy.py b/pySOT/strategy/random_strategy.py
index 5685a41..56a330a 100644
--- a/pySOT/strategy/random_strategy.py
+++ b/pySOT/strategy/random_strategy.py
@@ -3,7 +3,7 @@ import logging
 import numpy as np
 from poap.strategy import BaseStrategy, RetryStrategy
 
-from ..utils import check_opt_prob
+from ..utils import check_opt_prob, round_vars
 
 # Get module-level logger
 logger = logging.getLogger(__name__)
@@ -32,6 +32,7 @@ class RandomStrategy(BaseStrategy):
         self.retry = RetryStrategy()
         for _ in range(max_evals):  # Generate the random points
             x = np.random.uniform(low=opt_prob.lb, high=opt_prob.ub)
+            x = round_vars(np.atleast_2d(x), opt_prob.int_var, opt_prob.lb, opt_prob.ub).ravel()
             proposal = self.propose_eval(x)
             self.retry.rput(proposal)
 
-- 
2.43.0


From 316e15c1aa4ad4347a55a3bfa9c9c157d7162e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 23/39] fix: round integer variables to an integer also when
 the bounds are fractional

---
 pySOT/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index fbd9c05..8d022d9 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -87,9 +87,9 @@ def round_vars(x, int_var, lb, ub):
         # Make sure we don't violate the bound constraints
         for i in int_var:
             ind = np.where(x[:, i] < lb[i])
-            x[ind, i] = lb[i]
+            x[ind, i] = np.ceil(lb[i])
             ind = np.where(x[:, i] > ub[i])
-            x[ind, i] = ub[i]
+            x[ind, i] = np.floor(ub[i])
     return x
 
 
-- 
2.43.0


From 6960ba25da9fa006d57a192f746f463518437448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 24/39] fix: TPSKernel no longer overwrites the distances of
 the caller

---
 pySOT/surrogate/kernels/tps_kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/surrogate/kernels/tps_kernel.py b/pySOT/surrogate/kernels/tps_kernel.py
index 564c492..ed4ec24 100644
--- a/pySOT/surrogate/kernels/tps_kernel.py
+++ b/pySOT/surrogate/kernels/tps_kernel.py
@@ -25,7 +25,7 @@ class TPSKernel(Kernel):
             :math:`\\|x_i - x_j \\|^2 \\log (\\|x_i - x_j \\|)`
         :rtype: numpy.array
         """
-        dists[dists < np.finfo(float).eps] = np.finfo(float).eps
+        dists = np.maximum(dists, np.finfo(float).eps)
         return (dists ** 2) * np.log(dists)
 
     def deriv(self, dists):
@@ -38,5 +38,5 @@ class TPSKernel(Kernel):
             :math:`\\|x_i - x_j \\|(1 + 2 \\log (\\|x_i - x_j \\|) )`
         :rtype: numpy.array
         """
-        dists[dists < np.finfo(float).eps] = np.finfo(float).eps
+        dists = np.maximum(dists, np.finfo(float).eps)
         return dists * (1 + 2 * np.log(dists))
-- 
2.43.0


From cfe0d09bc51ffa95747ce1ad17ddf7db2b45bdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 25/39] fix: RBFInterpolant keeps the kernel or tail of the
 user when only one of them is given

---
 pySOT/surrogate/rbf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/surrogate/rbf.py b/pySOT/surrogate/rbf.py
index 817118d..0e8a2af 100644
--- a/pySOT/surrogate/rbf.py
+++ b/pySOT/surrogate/rbf.py
@@ -67,8 +67,9 @@ class RBFInterpolant(Surrogate):
     def __init__(self, dim, lb, ub, output_transformation=None, kernel=None, tail=None, eta=1e-6):
         super().__init__(dim=dim, lb=lb, ub=ub, output_transformation=output_transformation)
 
-        if kernel is None or tail is None:
+        if kernel is None:
             kernel = CubicKernel()
+        if tail is None:
             tail = LinearTail(dim)
         assert isinstance(kernel, Kernel) and isinstance(tail, Tail)
 
-- 
2.43.0


From 597c939fc63815db2f439cb258efe9e18b443485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 26/39] fix: Exponential evaluated a permuted point

---
 pySOT/optimization_problems/exponential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/optimization_problems/exponential.py b/pySOT/optimization_problems/exponential.py
index 6f7831d..a713455 100644
--- a/pySOT/optimization_problems/exponential.py
+++ b/pySOT/optimization_problems/exponential.py
@@ -47,5 +47,5 @@ class Exponential(OptimizationProblem):
         self.__check_input__(x)
         total = 0.0
         for i in range(len(x)):
-            total += np.exp((i + 1) * x[i - 1]) - np.exp(-5.12 * (i + 1))
+            total += np.exp((i + 1) * x[i]) - np.exp(-5.12 * (i + 1))
         return total
-- 
2.43.0


From 124ef6386c57860515229be03c4a387a9c49ea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 27/39] fix: Levy skipped the first term of the sum

---
 pySOT/optimization_problems/levy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/optimization_problems/levy.py b/pySOT/optimization_problems/levy.py
index b6b4791..7ca28ca 100644
--- a/pySOT/optimization_problems/levy.py
+++ b/pySOT/optimization_problems/levy.py
@@ -43,6 +43,6 @@ class Levy(OptimizationProblem):
         d = self.dim
         return (
             np.sin(np.pi * w[0]) ** 2
-            + np.sum((w[1 : d - 1] - 1) ** 2 * (1 + 10 * np.sin(np.pi * w[1 : d - 1] + 1) ** 2))
+            + np.sum((w[0 : d - 1] - 1) ** 2 * (1 + 10 * np.sin(np.pi * w[0 : d - 1] + 1) ** 2))
             + (w[d - 1] - 1) ** 2 * (1 + np.sin(2 * np.pi * w[d - 1]) ** 2)
         )
-- 
2.43.0


From cf36a17ee04ba1d823d5c7e16772eab16d65588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 28/39] fix: the domain of Branin contains its global minimizer

---
 pySOT/optimization_problems/branin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/optimization_problems/branin.py b/pySOT/optimization_problems/branin.py
index 19c2a77..703ee1e 100644
--- a/pySOT/optimization_problems/branin.py
+++ b/pySOT/optimization_problems/branin.py
@@ -24,8 +24,8 @@ class Branin(OptimizationProblem):
         self.min = 0.397887
         self.minimum = np.array([-np.pi, 12.275])
         self.dim = 2
-        self.lb = -3.0 * np.ones(2)
-        self.ub = 3.0 * np.ones(2)
+        self.lb = np.array([-5.0, 0.0])
+        self.ub = np.array([10.0, 15.0])
         self.int_var = np.array([])
         self.cont_var = np.arange(0, 2)
         self.info = "2-dimensional Branin function \nGlobal optimum: " + "f(-pi, 12.275) = 0.397887"
-- 
2.43.0


From 2cc812b89f6c23c694d473aa1ee8e12d38f42676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 29/39] fix: draw Latin hypercube designs from the seeded
 random stream of numpy

---
 pySOT/experimental_design/lhd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/experimental_design/lhd.py b/pySOT/experimental_design/lhd.py
index 194693b..1c4eeeb 100644
--- a/pySOT/experimental_design/lhd.py
+++ b/pySOT/experimental_design/lhd.py
@@ -52,6 +52,7 @@ class LatinHypercube(ExperimentalDesign):
             int_var = np.array([])
 
         def wrapper():
-            return pydoe.lhs(self.dim, self.num_pts, iterations=1)
+            seed = np.random.randint(2 ** 31 - 1)  # pyDOE2 ignores the seed of numpy.random otherwise
+            return pydoe.lhs(self.dim, self.num_pts, iterations=1, random_state=seed)
 
         return _expdes_dist(wrapper, self.iterations, lb, ub, int_var)
-- 
2.43.0


From acbdcb11892b369c20873f6b6fda42328800688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 30/39] fix: SOP mistook a best point that is tabu for two
 updates for a center in use

---
 pySOT/strategy/sop_strategy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 5373cbf..fb4fdf5 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -469,7 +469,7 @@ class SOPStrategy(SurrogateBaseStrategy):
                 if self.centers[i].new_index is not None:
                     finished_centers.append(i)
                 else:  # If a center is being processed, tag it as tabu
-                    F[self.centers[i].index, self.opt_prob.dim + 2] = 2
+                    F[self.centers[i].index, self.opt_prob.dim + 2] = POSITIVE_INFINITY
             for index in reversed(finished_centers):
                 self.centers.pop(index)
 
@@ -477,7 +477,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         # i) tabu status, ii) rank, iii) obj value
         ind = np.lexsort((F[:, self.opt_prob.dim], F[:, self.opt_prob.dim + 3], F[:, self.opt_prob.dim + 2]))
         min_index = np.argmin(F[:, self.opt_prob.dim])
-        if min_index == ind[0] or F[min_index, self.opt_prob.dim + 2] == 2:
+        if min_index == ind[0] or F[min_index, self.opt_prob.dim + 2] == POSITIVE_INFINITY:
             ind_new = np.copy(ind)
         else:  # Put xbest at the top of sorted points (ind_new),
             # regardless of tabu status unless it is being processed
-- 
2.43.0


From c1044d97de34d6d04c8bd658cd202f4f8273227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 31/39] fix: median capping of integer values truncated the
 median

---
 pySOT/surrogate/output_transformations/median_capping.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pySOT/surrogate/output_transformations/median_capping.py b/pySOT/surrogate/output_transformations/median_capping.py
index 9b64984..0bd478f 100644
--- a/pySOT/surrogate/output_transformations/median_capping.py
+++ b/pySOT/surrogate/output_transformations/median_capping.py
@@ -10,7 +10,5 @@ def median_capping(x):
     :return: x
     :rtype: numpy.array
     """
-    x = x.copy()
     medf = np.median(x)
-    x[x > medf] = medf
-    return x
+    return np.where(x > medf, medf, x)
-- 
2.43.0


From 8e5d0e139460c8879951e2f7b942711c7f9141fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:13 +0000
Subject: [PATCH 32/39] fix: points mapped from the unit box could exceed the
 upper bound by rounding

---
 pySOT/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index 8d022d9..a37548f 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -45,7 +45,8 @@ def from_unit_box(x, lb, ub):
     :return: Points mapped to the original domain
     :rtype: numpy.array
     """
-    return lb + (ub - lb) * x
+    # Start from the closest bound, lb + (ub - lb) may be different from ub
+    return np.where(x < 0.5, lb + (ub - lb) * x, ub - (ub - lb) * (1 - x))
 
 
 def unit_rescale(x):
@@ -277,12 +278,12 @@ class GeneticAlgorithm:
             from pySOT.experimental_design import SymmetricLatinHypercube
 
             exp_des = SymmetricLatinHypercube(self.nvariables, self.nindividuals)
-            population = self.lower_boundary + exp_des.generate_points() * (self.upper_boundary - self.lower_boundary)
+            population = from_unit_box(exp_des.generate_points(), self.lower_boundary, self.upper_boundary)
         elif self.start == "LHD":
             from pySOT.experimental_design import LatinHypercube
 
             exp_des = LatinHypercube(self.nvariables, self.nindividuals)
-            population = self.lower_boundary + exp_des.generate_points() * (self.upper_boundary - self.lower_boundary)
+            population = from_unit_box(exp_des.generate_points(), self.lower_boundary, self.upper_boundary)
         elif self.start == "Random":
             population = self.lower_boundary + np.random.rand(self.nindividuals, self.nvariables) * (
                 self.upper_boundary - self.lower_boundary
-- 
2.43.0


From 4f02555feda0f15e446cb04742046192e85b5afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:55 +0000
Subject: [PATCH 33/39] fix: resuming during the initial design of a restart
 put points of the previous run into it

---
 pySOT/strategy/surrogate_strategy.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 87a0926..d81c954 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -118,6 +118,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.num_evals = 0  # Number of completed fevals
         self.max_evals = max_evals  # Remaining feval budget
         self.pending_evals = 0  # Number of outstanding fevals
+        self.old_pending = 0  # Number of outstanding fevals started before the last restart
 
         # Completed evaluations
         self.X = np.empty([0, opt_prob.dim])
@@ -183,11 +184,12 @@ class SurrogateBaseStrategy(BaseStrategy):
         """Resume a terminated run."""
         if self.phase == 1:  # Put the points back in the queue in init phase
             self.init_pending = 0
-            for x in self.Xpend:
+            for x in self.Xpend[self.old_pending :]:  # The first ones do not belong to this run
                 self.batch_queue.append(np.copy(x))
 
         # Remove everything that was pending
         self.pending_evals = 0
+        self.old_pending = 0
         self.Xpend = np.empty([0, self.opt_prob.dim])
 
         # The lost evaluations are no longer part of the budget
@@ -203,6 +205,7 @@ class SurrogateBaseStrategy(BaseStrategy):
     def sample_restart(self):
         """Restart a run after convergence."""
         self.ev_last = self.get_ev()
+        self.old_pending = len(self.Xpend)
 
         # Reset data in current run
         self._X = np.empty([0, self.opt_prob.dim])
@@ -316,10 +319,14 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.Xpend = np.vstack((self.Xpend, np.copy(x)))
         return proposal
 
-    def remove_pending(self, x):
+    def remove_pending(self, x, record=None):
         """Delete a pending point from self.Xpend, equal points that are still pending are kept."""
         idx = np.where((self.Xpend == x).all(axis=1))[0]
-        self.Xpend = np.delete(self.Xpend, idx[:1], axis=0)
+        if record is not None and record.ev_id <= self.ev_last:  # Started before the last restart
+            self.Xpend = np.delete(self.Xpend, idx[:1], axis=0)
+            self.old_pending -= 1
+        else:
+            self.Xpend = np.delete(self.Xpend, idx[-1:], axis=0)
 
     # == Processing in initial phase ==
 
@@ -365,7 +372,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         xx, fx = np.copy(record.params[0]), record.value
         self.X = np.vstack((self.X, np.atleast_2d(xx)))
         self.fX = np.vstack((self.fX, fx))
-        self.remove_pending(xx)
+        self.remove_pending(xx, record)
 
         # Only count point if it was proposed after the last restart
         if record.ev_id > self.ev_last:
@@ -381,7 +388,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.pending_evals -= 1
         xx = record.params[0]
         self.batch_queue.append(xx)
-        self.remove_pending(xx)
+        self.remove_pending(xx, record)
         self.fevals.append(record)
 
     # == Processing in adaptive phase ==
@@ -430,7 +437,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         xx, fx = np.copy(record.params[0]), record.value
         self.X = np.vstack((self.X, np.atleast_2d(xx)))
         self.fX = np.vstack((self.fX, fx))
-        self.remove_pending(xx)
+        self.remove_pending(xx, record)
 
         # Only count point if it was proposed after the last restart
         if record.ev_id > self.ev_last:
@@ -445,5 +452,5 @@ class SurrogateBaseStrategy(BaseStrategy):
         """Handle aborted feval from sampling phase."""
         self.pending_evals -= 1
         xx = np.copy(record.params[0])
-        self.remove_pending(xx)
+        self.remove_pending(xx, record)
         self.fevals.append(record)
-- 
2.43.0


From f6bc7c9112eafb55b571aabdb85904fcddf60d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:01 +0000
Subject: [PATCH 34/39] fix: the genetic algorithm failed for an initial
 population of integers

---
 pySOT/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index a37548f..350eec8 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -273,7 +273,7 @@ class GeneticAlgorithm:
                 np.max(self.start, axis=0) > self.upper_boundary
             ):
                 raise ValueError("Initial population is outside the domain")
-            population = np.copy(self.start)
+            population = np.array(self.start, dtype=float)
         elif self.start == "SLHD":
             from pySOT.experimental_design import SymmetricLatinHypercube
 
-- 
2.43.0


From ded0f29a7da4f4d63d25fdc262b969260415c850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:06 +0000
Subject: [PATCH 35/39] fix: a candidate could be selected twice in a batch
 with weight zero and no minimum separation

---
 pySOT/auxiliary_problems/candidate_srbf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySOT/auxiliary_problems/candidate_srbf.py b/pySOT/auxiliary_problems/candidate_srbf.py
index 4bab802..05948f5 100644
--- a/pySOT/auxiliary_problems/candidate_srbf.py
+++ b/pySOT/auxiliary_problems/candidate_srbf.py
@@ -46,6 +46,7 @@ def weighted_distance_merit(num_pts, surrogate, X, fX, cand, weights, Xpend=None
         merit = w * fvals + (1.0 - w) * (1.0 - unit_rescale(np.copy(dmerit)))
 
         merit[dmerit < dtol] = np.inf
+        merit[np.isinf(fvals)] = np.inf  # Already selected (0 * inf is nan)
         jj = np.argmin(merit)
         fvals[jj] = np.inf
         new_points[i, :] = cand[jj, :].copy()
-- 
2.43.0


From 11a57c32f4bd06ce5d85188bc8a9efaa32de4f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:54 +0000
Subject: [PATCH 36/39] fix: lcb_ga failed without a target, its default

---
 pySOT/auxiliary_problems/lcb_ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/auxiliary_problems/lcb_ga.py b/pySOT/auxiliary_problems/lcb_ga.py
index 73cbe1f..18080b4 100644
--- a/pySOT/auxiliary_problems/lcb_ga.py
+++ b/pySOT/auxiliary_problems/lcb_ga.py
@@ -52,7 +52,7 @@ def lcb_ga(num_pts, opt_prob, surrogate, X, fX, Xpend=None, kappa=2.0, dtol=1e-3
         )
         x_best, f_min = ga.optimize()
 
-        if f_min > lcb_target:
+        if lcb_target is not None and f_min > lcb_target:
             return None  # Give up
 
         new_points[i, :] = x_best
-- 
2.43.0


From 7ca8b8cadf93ef4abc02495c26eff1f8e112e695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:46 +0000
Subject: [PATCH 37/39] fix: the expected improvement was nan where the
 standard deviation is zero

---
 pySOT/auxiliary_problems/ei_merit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/auxiliary_problems/ei_merit.py b/pySOT/auxiliary_problems/ei_merit.py
index dbae07c..34a011c 100644
--- a/pySOT/auxiliary_problems/ei_merit.py
+++ b/pySOT/auxiliary_problems/ei_merit.py
@@ -21,9 +21,9 @@ def ei_merit(X, surrogate, fX, XX=None, dtol=0):
     :rtype: numpy.array of length X.shape[0]
     """
     mu, sig = surrogate.predict(X), surrogate.predict_std(X)
-    gamma = (np.min(fX) - mu) / sig
+    gamma = (np.min(fX) - mu) / np.where(sig > 0, sig, 1.0)
     beta = gamma * norm.cdf(gamma) + norm.pdf(gamma)
-    ei = sig * beta
+    ei = np.where(sig > 0, sig * beta, np.maximum(np.min(fX) - mu, 0.0))  # sig = 0 means no uncertainty
 
     if dtol > 0:
         dists = scpspatial.distance.cdist(X, XX)
-- 
2.43.0


From c7e44a33848179ad0ac657ade495bfe377465b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:18 +0000
Subject: [PATCH 38/39] fix: check_opt_prob accepted a variable listed twice in
 place of a missing one

---
 pySOT/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index 350eec8..d870795 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -145,7 +145,7 @@ def check_opt_prob(obj):  # pragma: no cover
             raise AttributeError("Integer variable index can't exceed " "number of dimensions or be negative")
     if not (len(np.intersect1d(contvar, intvar)) == 0):
         raise AttributeError("A variable can't be both " "an integer and continuous")
-    if not (len(contvar) + len(intvar) == obj.dim):
+    if not (len(contvar) + len(intvar) == len(np.union1d(contvar, intvar)) == obj.dim):
         raise AttributeError("All variables must be either " "integer or continuous")
 
 
-- 
2.43.0


From 8748ca5581973d02cbc4a03571af4f3a931e6199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:19 +0000
Subject: [PATCH 39/39] fix: check_opt_prob accepted integer variables without
 an integer between their bounds

---
 pySOT/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index d870795..cff9ff1 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -147,6 +147,8 @@ def check_opt_prob(obj):  # pragma: no cover
         raise AttributeError("A variable can't be both " "an integer and continuous")
     if not (len(contvar) + len(intvar) == len(np.union1d(contvar, intvar)) == obj.dim):
         raise AttributeError("All variables must be either " "integer or continuous")
+    if not (all(np.ceil(obj.lb[i]) <= np.floor(obj.ub[i]) for i in intvar)):
+        raise AttributeError("There must be an integer between the bounds of an integer variable")
 
 
 def progress_plot(controller, title="", interactive=False):  # pragma: no cover
-- 
2.43.0

