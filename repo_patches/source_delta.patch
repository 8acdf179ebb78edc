From 9f3528032091b8fa840ad0abdfcef0c1312e5686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:31 +0000
Subject: [PATCH 01/15] fix: remove_from_graph disconnects the pin to pin
 couplings instead of connecting them again

---
 include/adevs/models.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index af25b54..14848b0 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -567,7 +567,7 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
         g->disconnect(coupling.first, coupling.second);
     }
     for (auto coupling : pin_to_pin) {
-        g->connect(coupling.first, coupling.second);
+        g->disconnect(coupling.first, coupling.second);
     }
     for (auto coupled : coupled_components) {
         coupled->remove_from_graph();
-- 
2.43.0


From 3458e979fde993c8b43664a3897cc6ac5f39459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:31 +0000
Subject: [PATCH 02/15] fix: Coupled::remove_atomic removes the couplings to
 the model as documented

---
 include/adevs/models.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 14848b0..3b1c1c8 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -586,6 +586,18 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_atomic(
     std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     atomic_components.erase(model);
+    // Remove the couplings to the model
+    auto coupling = pin_to_atomic.begin();
+    while (coupling != pin_to_atomic.end()) {
+        if (coupling->second == model) {
+            if (g != nullptr) {
+                g->disconnect(coupling->first, model);
+            }
+            coupling = pin_to_atomic.erase(coupling);
+        } else {
+            coupling++;
+        }
+    }
     if (g != nullptr) {
         g->remove_atomic(model);
     }
-- 
2.43.0


From 977a70e1e5158940f7d0c75e4847e9d59797c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 03/15] fix: a coupled model asks the graph once for each
 component and coupling it holds

---
 include/adevs/models.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 3b1c1c8..f40c0a7 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -510,8 +510,8 @@ class Coupled {
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    pin_to_atomic.insert(std::make_pair(pin, model));
-    if (g != nullptr) {
+    bool is_new = pin_to_atomic.insert(std::make_pair(pin, model)).second;
+    if (is_new && g != nullptr) {
         g->connect(pin, model);
     }
 }
@@ -519,24 +519,24 @@ void Coupled<ValueType, TimeType>::create_coupling(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    pin_to_atomic.erase(std::make_pair(pin, model));
-    if (g != nullptr) {
+    bool existed = pin_to_atomic.erase(std::make_pair(pin, model)) > 0;
+    if (existed && g != nullptr) {
         g->disconnect(pin, model);
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
-    pin_to_pin.insert(std::make_pair(src, dst));
-    if (g != nullptr) {
+    bool is_new = pin_to_pin.insert(std::make_pair(src, dst)).second;
+    if (is_new && g != nullptr) {
         g->connect(src, dst);
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
-    pin_to_pin.erase(std::make_pair(src, dst));
-    if (g != nullptr) {
+    bool existed = pin_to_pin.erase(std::make_pair(src, dst)) > 0;
+    if (existed && g != nullptr) {
         g->disconnect(src, dst);
     }
 }
@@ -576,8 +576,8 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    atomic_components.insert(model);
-    if (g != nullptr) {
+    bool is_new = atomic_components.insert(model).second;
+    if (is_new && g != nullptr) {
         g->add_atomic(model);
     }
 }
@@ -585,7 +585,7 @@ void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType,
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_atomic(
     std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    atomic_components.erase(model);
+    bool existed = atomic_components.erase(model) > 0;
     // Remove the couplings to the model
     auto coupling = pin_to_atomic.begin();
     while (coupling != pin_to_atomic.end()) {
@@ -598,7 +598,7 @@ void Coupled<ValueType, TimeType>::remove_atomic(
             coupling++;
         }
     }
-    if (g != nullptr) {
+    if (existed && g != nullptr) {
         g->remove_atomic(model);
     }
 }
@@ -606,8 +606,8 @@ void Coupled<ValueType, TimeType>::remove_atomic(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
-    coupled_components.insert(model);
-    if (g != nullptr) {
+    bool is_new = coupled_components.insert(model).second;
+    if (is_new && g != nullptr) {
         model->assign_to_graph(g);
     }
 }
@@ -615,8 +615,8 @@ void Coupled<ValueType, TimeType>::add_coupled_model(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
-    coupled_components.erase(model);
-    if (g != nullptr) {
+    bool existed = coupled_components.erase(model) > 0;
+    if (existed && g != nullptr) {
         model->remove_from_graph();
     }
 }
-- 
2.43.0


From 336aa4f788cee7b83168a1f6095a12374ff46329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 04/15] fix: a data dependent cycle of Mealy models raises the
 exception instead of recursing forever

---
 include/adevs/simulator.h | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 1159619..12c7571 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -332,21 +332,23 @@ template <typename ValueType, typename TimeType>
 void Simulator<ValueType, TimeType>::retract_mealy_output(
     MealyAtomic<ValueType,TimeType>* root) {
 
-    auto iter = root->receivers.begin();
-    while (iter != root->receivers.end()) {
-        auto iter2 = (*iter)->revisable_inputs.begin();
-        while (iter2 != (*iter)->revisable_inputs.end()) {
-            if ((*iter2).first == root) {
-                iter2 = (*iter)->revisable_inputs.erase(iter2);
+    // Take each receiver out of the set before following it, because
+    // the receivers of Mealy models that form a cycle lead back to root.
+    while (!root->receivers.empty()) {
+        Atomic<ValueType, TimeType>* receiver = *(root->receivers.begin());
+        root->receivers.erase(root->receivers.begin());
+        auto iter = receiver->revisable_inputs.begin();
+        while (iter != receiver->revisable_inputs.end()) {
+            if ((*iter).first == root) {
+                iter = receiver->revisable_inputs.erase(iter);
             } else {
-                iter2++;
+                iter++;
             }
         }
-        if ((*iter)->isMealyAtomic() != nullptr) {
-            orphaned.insert((*iter)->isMealyAtomic());
-            retract_mealy_output((*iter)->isMealyAtomic());
+        if (receiver->isMealyAtomic() != nullptr) {
+            orphaned.insert(receiver->isMealyAtomic());
+            retract_mealy_output(receiver->isMealyAtomic());
         }
-        iter = root->receivers.erase(iter);
     }
 }
 
-- 
2.43.0


From b0fa8f16d2460720a3361c94a252eaa478bee336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 05/15] fix: a model whose input was withdrawn makes no
 transition

---
 include/adevs/simulator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 12c7571..6dfe279 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -530,6 +530,10 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
     PinValue<ValueType> x;
     TimeType t = tNext + adevs_epsilon<TimeType>();
     for (auto model : active) {
+        // A model that is not imminent and whose input was withdrawn does nothing
+        if (model->inputs.empty() && !(model->tN == tNext)) {
+            continue;
+        }
         // Notify listeners of input events
         for (auto x : model->inputs) {
             for (auto listener : listeners) {
-- 
2.43.0


From 50c8d63f3c5c87fb88a23268083e5a4e65299568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 06/15] fix: adding or removing one of several instances of a
 model keeps its schedule

---
 include/adevs/simulator.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 6dfe279..43d8efa 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -566,13 +566,21 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
         auto op = pending.front();
         pending.pop_front();
         switch (op.op) {
-            case Graph<ValueType, TimeType>::ADD_ATOMIC:
+            case Graph<ValueType, TimeType>::ADD_ATOMIC: {
+                // Another instance of a model does not disturb its schedule
+                bool joins = graph->get_atomics().count(op.model) == 0;
                 graph->add_atomic(op.model);
-                schedule(op.model.get(), t);
+                if (joins) {
+                    schedule(op.model.get(), t);
+                }
                 break;
+            }
             case Graph<ValueType, TimeType>::REMOVE_ATOMIC:
-                sched.schedule(op.model.get(), adevs_inf<TimeType>());
                 graph->remove_atomic(op.model);
+                // The model stays scheduled while it has other instances
+                if (graph->get_atomics().count(op.model) == 0) {
+                    sched.schedule(op.model.get(), adevs_inf<TimeType>());
+                }
                 break;
             case Graph<ValueType, TimeType>::REMOVE_PIN:
                 graph->remove_pin(op.pin[0]);
-- 
2.43.0


From f838253d496cbcd0d47eab4e0572c963933775e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:30 +0000
Subject: [PATCH 07/15] fix: rk_45 releases its trial state on destruction

---
 include/adevs/solvers/rk_45.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/adevs/solvers/rk_45.h b/include/adevs/solvers/rk_45.h
index 5a362a6..c5f4a98 100644
--- a/include/adevs/solvers/rk_45.h
+++ b/include/adevs/solvers/rk_45.h
@@ -120,6 +120,7 @@ rk_45<ValueType>::rk_45(ode_system<ValueType>* sys, double err_tol, double h_max
 template <typename ValueType>
 rk_45<ValueType>::~rk_45() {
     delete[] dq;
+    delete[] qq;
     delete[] t;
     for (int i = 0; i < 6; i++) {
         delete[] k[i];
-- 
2.43.0


From eb287e45d55b804b6afc3fad03f9b10cfc4739eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 08/15] fix: Hybrid::eventHappened was indeterminate before the
 first event

---
 include/adevs/solvers/hybrid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 1534813..bd24aa0 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -414,7 +414,7 @@ class Hybrid : public Atomic<ValueType, TimeType> {
      */
     Hybrid(ode_system<ValueType>* sys, ode_solver<ValueType>* solver,
            event_locator<ValueType>* event_finder)
-        : sys(sys), solver(solver), event_finder(event_finder), e_accum(0.0) {
+        : sys(sys), solver(solver), event_finder(event_finder), event_happened(false), e_accum(0.0) {
         q = new double[sys->numVars()];
         q_trial = new double[sys->numVars()];
         event = new bool[sys->numEvents() + 1];
-- 
2.43.0


From 1b56cbc0e3ee8f218bb0435f749a27895f6295bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:32 +0000
Subject: [PATCH 09/15] fix: Hybrid lost time when the event locator shortened
 the interval before an input

---
 include/adevs/solvers/hybrid.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index bd24aa0..e56dac3 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -501,14 +501,27 @@ class Hybrid : public Atomic<ValueType, TimeType> {
      */
     void delta_ext(TimeType e, std::list<adevs::PinValue<ValueType>> const &xb) {
         bool state_event_exists = false;
+        double e_left = e;  // How far the state q is still behind the input
         event_happened = true;
         // Check that we have not missed a state event
         if (event_exists) {
-            for (int i = 0; i < sys->numVars(); i++) {
-                q_trial[i] = q[i];
+            while (true) {
+                for (int i = 0; i < sys->numVars(); i++) {
+                    q_trial[i] = q[i];
+                }
+                double h = e_left;
+                solver->advance(q_trial, h);
+                state_event_exists = event_finder->find_events(event, q, q_trial, solver, h);
+                if (state_event_exists || h == e_left) {
+                    break;
+                }
+                // There is no event in the first part of the interval; look into the rest of it
+                for (int i = 0; i < sys->numVars(); i++) {
+                    q[i] = q_trial[i];
+                }
+                sys->postStep(q);
+                e_left -= h;
             }
-            solver->advance(q_trial, e);
-            state_event_exists = event_finder->find_events(event, q, q_trial, solver, e);
             // We missed an event
             if (state_event_exists) {
                 output_func(missedOutput);
@@ -520,7 +533,7 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         }
         if (!state_event_exists)  // We didn't miss an event
         {
-            solver->advance(q, e);  // Advance the state q by e
+            solver->advance(q, e_left);  // Advance the state q to the time of the input
             // Let the model adjust algebraic variables, etc. for the new state
             sys->postStep(q);
             // Process the discrete input
-- 
2.43.0


From dd4b5d4f72ca33e00ef87cf763eafb5976ffad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:44 +0000
Subject: [PATCH 10/15] fix: Hybrid reported a time event with a state event
 found at an input before it

---
 include/adevs/solvers/hybrid.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index e56dac3..39f8df8 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -524,6 +524,7 @@ class Hybrid : public Atomic<ValueType, TimeType> {
             }
             // We missed an event
             if (state_event_exists) {
+                event[sys->numEvents()] = false;  // The time event was still ahead
                 output_func(missedOutput);
                 sys->confluent_event(q_trial, event, xb);
                 for (int i = 0; i < sys->numVars(); i++) {
-- 
2.43.0


From 6b7f28bd21377de8b638973ee84edcc3649ec6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:55 +0000
Subject: [PATCH 11/15] fix: an input at the time of a missed event moved a
 Hybrid model ahead of the clock

---
 include/adevs/solvers/hybrid.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 39f8df8..c206143 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -557,8 +557,13 @@ class Hybrid : public Atomic<ValueType, TimeType> {
     void delta_conf(std::list<adevs::PinValue<ValueType>> const &xb) {
         if (!missedOutput.empty()) {
             missedOutput.clear();
+            // The next internal event is still ahead; the input finds the present state
             if (sigma > 0.0) {
                 event_exists = false;
+                sigma = 0.0;
+                for (int i = 0; i < sys->numVars(); i++) {
+                    q_trial[i] = q[i];
+                }
             }
         }
         // Execute any discrete events
-- 
2.43.0


From d43db63b387b1125c2d9e953752f99168024f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 12/15] fix: Hybrid produced the output of an internal event
 twice after a missed event

---
 include/adevs/solvers/hybrid.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index c206143..53aa589 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -476,7 +476,10 @@ class Hybrid : public Atomic<ValueType, TimeType> {
     void delta_int() {
         if (!missedOutput.empty()) {
             missedOutput.clear();
-            return;
+            // The output of an internal event that is due now was produced with the missed output
+            if (sigma > 0.0) {
+                return;
+            }
         }
         e_accum += ta();
         // Execute any discrete events
-- 
2.43.0


From 49290c61706d156543fd95ffe45efcd18e9f74ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:25 +0000
Subject: [PATCH 13/15] fix: ModelExchange::get_jacobian places columns by the
 order of the whole matrix

The matrix has N+1 rows, N for the states of the FMU and one for time, but
columns were written N elements apart, so with two or more states all but
the first column were out of place.
---
 include/adevs/solvers/fmi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 23976ab..e790bc6 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -359,7 +359,7 @@ bool ModelExchange<ValueType>::get_jacobian(double const* q, double* J) {
     // API state_var and jac_col would be in reversed positions.
     for (fmi2_value_reference_t state_var = 0; state_var < N; state_var++) {
         status = fmi2_import_get_directional_derivative(fmu, &state_var, 1, jac_col, N, jac_v,
-                                                        J + state_var * N);
+                                                        J + state_var * (N + 1));
         assert(status == fmi2_status_ok);
     }
     // Partial of time is 1 and nobody else depends on it. This, of course, may
-- 
2.43.0


From 4bcd85d2e49c1fb568262db6a0f45625f280ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:25 +0000
Subject: [PATCH 14/15] fix: ModelExchange::postTrialStep leaves event mode
 after a trial step of zero length

An implicit solver returns at once from a step of zero length (a time event due
immediately after another event) without evaluating the derivatives; without event
functions the FMU is then still in event mode, where the assertion failed and
the continuous states may not be set.
---
 include/adevs/solvers/fmi.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index e790bc6..8018409 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -489,9 +489,15 @@ void ModelExchange<ValueType>::postStep(double* q) {
 
 template <typename ValueType>
 void ModelExchange<ValueType>::postTrialStep(double* q) {
-    assert(cont_time_mode);
     // Restore values changed by der_func and state_event_func
     fmi2_status_t status;
+    // A trial step of zero length might not have evaluated these functions
+    // since the last event
+    if (!cont_time_mode) {
+        status = fmi2_import_enter_continuous_time_mode(fmu);
+        assert(status == fmi2_status_ok);
+        cont_time_mode = true;
+    }
     status = fmi2_import_set_time(fmu, q[this->numVars() - 1]);
     assert(status == fmi2_status_ok);
     status = fmi2_import_set_continuous_states(fmu, q, this->numVars() - 1);
-- 
2.43.0


From 2d6dbd12cf5e08afc5eafa078b7a286453381130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:37 +0000
Subject: [PATCH 15/15] fix: the second schedule keeps index and order when a
 model is removed from inside the heap

---
 include/adevs/schedule2.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/adevs/schedule2.h b/include/adevs/schedule2.h
index 68d0947..6e254f9 100644
--- a/include/adevs/schedule2.h
+++ b/include/adevs/schedule2.h
@@ -226,9 +226,16 @@ class Schedule {
         // Replace the index with the last element and then rebuild the heap.
         // Then remove the last element from the vector; don't need to keep the
         // initial element because it is being removed.
-        model_heap[index] = model_heap.back();
+        size_t last = model_heap.size() - 1;
+        if (index != last) {
+            model_heap[index] = model_heap[last];
+            model_index[model_heap[index].model] = index;
+        }
         model_heap.pop_back();
-        percolate_down(index);
+        // The last element may belong above or below the one it replaces
+        if (index != last) {
+            percolate_down(percolate_up(index));
+        }
     }
 
     // Restore the heap property by moving a model up the tree
-- 
2.43.0

