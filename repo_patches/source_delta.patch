From cb7df75c406817d6dc6d1a230e04fc71cd0080e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 01/30] fix: ignore removal of a model that is not in the Graph

remove_atomic() dereferenced the end iterator of the instance map when the
model had never been added or was already removed.
---
 include/adevs/graph.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/adevs/graph.h b/include/adevs/graph.h
index bb7c7f9..27cbc3d 100644
--- a/include/adevs/graph.h
+++ b/include/adevs/graph.h
@@ -316,6 +316,10 @@ void Graph<ValueType, TimeType>::remove_atomic(std::shared_ptr<Atomic<ValueType,
         return;
     }
     auto instance_iter = atomic_instance_count.find(model.get());
+    if (instance_iter == atomic_instance_count.end()) {
+        // The model is not in the graph so there is nothing to remove.
+        return;
+    }
     // Decrease the instance count and return.
     (*instance_iter).second--;
     if ((*instance_iter).second > 0) {
-- 
2.43.0


From df60ba5c8e679a0a54071e696e3acc270d38cdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 02/30] fix: remove_pin also removes the edges that lead to the
 pin

Only the outgoing edges were removed, so pins kept routing to a removed pin
and came alive again as soon as the pin was reconnected.
---
 include/adevs/graph.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/adevs/graph.h b/include/adevs/graph.h
index 27cbc3d..98c53c2 100644
--- a/include/adevs/graph.h
+++ b/include/adevs/graph.h
@@ -289,6 +289,25 @@ void Graph<ValueType, TimeType>::remove_pin(pin_t pin) {
         // Remove the pin from the pin_to_atomic map.
         pin_to_pin.erase(pin);
     }
+    // Remove the pin from the lists of pins that lead to it
+    auto src_iter = pin_to_pin.begin();
+    while (src_iter != pin_to_pin.end()) {
+        auto &dst_list = src_iter->second;
+        for (auto dst_iter = dst_list.begin(); dst_iter != dst_list.end(); dst_iter++) {
+            if ((*dst_iter).first == pin) {
+                (*dst_iter).second--;
+                if ((*dst_iter).second == 0) {
+                    dst_list.erase(dst_iter);
+                }
+                break;
+            }
+        }
+        if (dst_list.empty()) {
+            src_iter = pin_to_pin.erase(src_iter);
+        } else {
+            src_iter++;
+        }
+    }
 }
 
 template <typename ValueType, typename TimeType>
-- 
2.43.0


From 415265c666562fabcb6f9f23b8c231640b6903b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 03/30] fix: respect the instance count when models are added
 and removed during a run

Adding another instance of a model that is already simulated reset its elapsed
time, and removing one of several instances took the model off the schedule.
---
 include/adevs/simulator.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 1159619..b7569f0 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -561,12 +561,20 @@ TimeType Simulator<ValueType, TimeType>::computeNextState() {
         pending.pop_front();
         switch (op.op) {
             case Graph<ValueType, TimeType>::ADD_ATOMIC:
-                graph->add_atomic(op.model);
-                schedule(op.model.get(), t);
+                // The model is scheduled when its first instance is added
+                if (graph->get_atomics().find(op.model) == graph->get_atomics().end()) {
+                    graph->add_atomic(op.model);
+                    schedule(op.model.get(), t);
+                } else {
+                    graph->add_atomic(op.model);
+                }
                 break;
             case Graph<ValueType, TimeType>::REMOVE_ATOMIC:
-                sched.schedule(op.model.get(), adevs_inf<TimeType>());
                 graph->remove_atomic(op.model);
+                // The model is unscheduled when its last instance is removed
+                if (graph->get_atomics().find(op.model) == graph->get_atomics().end()) {
+                    sched.schedule(op.model.get(), adevs_inf<TimeType>());
+                }
                 break;
             case Graph<ValueType, TimeType>::REMOVE_PIN:
                 graph->remove_pin(op.pin[0]);
-- 
2.43.0


From 75d9857ebfd434d66e8f0e478c36687b8d00544d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 04/30] fix: models whose inputs were all retracted do not
 change state

When a MealyAtomic withdrew the only input of a model that is not imminent the
model stayed in the active set and had its delta_int() called.
---
 include/adevs/simulator.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index b7569f0..ab827c5 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -504,6 +504,20 @@ void Simulator<ValueType, TimeType>::computeNextOutput() {
         auto model = *(orphaned.begin());
         calculate_mealy_output(path,model);
     }
+    // Mealy models that lost all of their input when it was retracted and that
+    // are not imminent do not change state
+    for (auto iter = active.begin(); iter != active.end();) {
+        auto model = *iter;
+        if (model->inputs.empty() && model->revisable_inputs.empty() && !(model->tN == tNext)) {
+            if (model->isMealyAtomic() != nullptr) {
+                model->isMealyAtomic()->receivers.clear();
+            }
+            model->outputs.clear();
+            iter = active.erase(iter);
+        } else {
+            iter++;
+        }
+    }
     // Gather input produced by Mealy models
     for (auto model: active) {
         while (!model->revisable_inputs.empty()) {
-- 
2.43.0


From d6bb62991a0c215cb70fb3106ee17f86f334e53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 05/30] fix: removing a Coupled model disconnects its pins

remove_from_graph() connected the pins a second time instead of disconnecting
them.
---
 include/adevs/models.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index af25b54..14848b0 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -567,7 +567,7 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
         g->disconnect(coupling.first, coupling.second);
     }
     for (auto coupling : pin_to_pin) {
-        g->connect(coupling.first, coupling.second);
+        g->disconnect(coupling.first, coupling.second);
     }
     for (auto coupled : coupled_components) {
         coupled->remove_from_graph();
-- 
2.43.0


From 7f6757ff4a1b7c209a911d5d0f6a5e46ab61cde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 06/30] fix: Coupled::remove_atomic removes the couplings to
 the model

The couplings of the removed model stayed behind, in the Graph if the model had
another instance there, and in the Coupled model in any case.
---
 include/adevs/models.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 14848b0..5fe26da 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -586,6 +586,16 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_atomic(
     std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     atomic_components.erase(model);
+    for (auto iter = pin_to_atomic.begin(); iter != pin_to_atomic.end();) {
+        if ((*iter).second == model) {
+            if (g != nullptr) {
+                g->disconnect((*iter).first, model);
+            }
+            iter = pin_to_atomic.erase(iter);
+        } else {
+            iter++;
+        }
+    }
     if (g != nullptr) {
         g->remove_atomic(model);
     }
-- 
2.43.0


From 4888eeca76855f980fbe56a9364597d8f6f3dd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 07/30] fix: Coupled passes only actual changes on to the Graph

The Graph counts instances but the Coupled model holds sets: repeating an
addition, or removing what the Coupled model does not contain, changed the
counts in the Graph and with them what other models had put there.
---
 include/adevs/models.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 5fe26da..31004a2 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -510,8 +510,8 @@ class Coupled {
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    pin_to_atomic.insert(std::make_pair(pin, model));
-    if (g != nullptr) {
+    bool changed = pin_to_atomic.insert(std::make_pair(pin, model)).second;
+    if (changed && g != nullptr) {
         g->connect(pin, model);
     }
 }
@@ -519,24 +519,24 @@ void Coupled<ValueType, TimeType>::create_coupling(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    pin_to_atomic.erase(std::make_pair(pin, model));
-    if (g != nullptr) {
+    bool changed = pin_to_atomic.erase(std::make_pair(pin, model)) > 0;
+    if (changed && g != nullptr) {
         g->disconnect(pin, model);
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
-    pin_to_pin.insert(std::make_pair(src, dst));
-    if (g != nullptr) {
+    bool changed = pin_to_pin.insert(std::make_pair(src, dst)).second;
+    if (changed && g != nullptr) {
         g->connect(src, dst);
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
-    pin_to_pin.erase(std::make_pair(src, dst));
-    if (g != nullptr) {
+    bool changed = pin_to_pin.erase(std::make_pair(src, dst)) > 0;
+    if (changed && g != nullptr) {
         g->disconnect(src, dst);
     }
 }
@@ -576,8 +576,8 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    atomic_components.insert(model);
-    if (g != nullptr) {
+    bool changed = atomic_components.insert(model).second;
+    if (changed && g != nullptr) {
         g->add_atomic(model);
     }
 }
@@ -585,7 +585,7 @@ void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType,
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_atomic(
     std::shared_ptr<Atomic<ValueType, TimeType>> model) {
-    atomic_components.erase(model);
+    bool changed = atomic_components.erase(model) > 0;
     for (auto iter = pin_to_atomic.begin(); iter != pin_to_atomic.end();) {
         if ((*iter).second == model) {
             if (g != nullptr) {
@@ -596,7 +596,7 @@ void Coupled<ValueType, TimeType>::remove_atomic(
             iter++;
         }
     }
-    if (g != nullptr) {
+    if (changed && g != nullptr) {
         g->remove_atomic(model);
     }
 }
@@ -604,8 +604,8 @@ void Coupled<ValueType, TimeType>::remove_atomic(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
-    coupled_components.insert(model);
-    if (g != nullptr) {
+    bool changed = coupled_components.insert(model).second;
+    if (changed && g != nullptr) {
         model->assign_to_graph(g);
     }
 }
@@ -613,8 +613,8 @@ void Coupled<ValueType, TimeType>::add_coupled_model(
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
-    coupled_components.erase(model);
-    if (g != nullptr) {
+    bool changed = coupled_components.erase(model) > 0;
+    if (changed && g != nullptr) {
         model->remove_from_graph();
     }
 }
-- 
2.43.0


From 7fcec518a116638ab252dc03cdfdddd556b7fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 08/30] fix: Coupled keeps track of the Graph it is part of

A Coupled model that was removed, or whose Simulator is gone, kept a pointer to
the Graph and continued to change it; one that appears under several parents
changed the Graph only once for all of its appearances.
---
 include/adevs/models.h    | 86 +++++++++++++++++++++++++--------------
 include/adevs/simulator.h |  2 +-
 2 files changed, 57 insertions(+), 31 deletions(-)

diff --git a/include/adevs/models.h b/include/adevs/models.h
index 31004a2..4d4a206 100644
--- a/include/adevs/models.h
+++ b/include/adevs/models.h
@@ -405,7 +405,7 @@ class Coupled {
     /**
      * @brief Constructor creates a model without components or couplings.
      */
-    Coupled() : g(nullptr) {}
+    Coupled() : instances(0) {}
     /**
      * @brief Destructor
      *
@@ -495,7 +495,10 @@ class Coupled {
   private:
     friend class Simulator<ValueType, TimeType>;
 
-    Graph<ValueType, TimeType>* g;
+    /// The Graph of the simulation that the model is part of, if any
+    std::weak_ptr<Graph<ValueType, TimeType>> g;
+    /// Number of times that the model appears in the Graph
+    int instances;
     std::set<std::shared_ptr<Atomic<ValueType, TimeType>>> atomic_components;
     std::set<std::shared_ptr<Coupled<ValueType, TimeType>>> coupled_components;
     /// Pins that provide input to the Atomic models
@@ -503,7 +506,7 @@ class Coupled {
     /// Pin to pin connections
     std::set<std::pair<pin_t, pin_t>> pin_to_pin;
 
-    void assign_to_graph(Graph<ValueType, TimeType>* graph);
+    void assign_to_graph(std::shared_ptr<Graph<ValueType, TimeType>> graph);
     void remove_from_graph();
 };
 
@@ -511,8 +514,10 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     bool changed = pin_to_atomic.insert(std::make_pair(pin, model)).second;
-    if (changed && g != nullptr) {
-        g->connect(pin, model);
+    if (auto graph = g.lock()) {
+        for (int i = 0; changed && i < instances; i++) {
+            graph->connect(pin, model);
+        }
     }
 }
 
@@ -520,54 +525,68 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(
     pin_t pin, std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     bool changed = pin_to_atomic.erase(std::make_pair(pin, model)) > 0;
-    if (changed && g != nullptr) {
-        g->disconnect(pin, model);
+    if (auto graph = g.lock()) {
+        for (int i = 0; changed && i < instances; i++) {
+            graph->disconnect(pin, model);
+        }
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::create_coupling(pin_t src, pin_t dst) {
     bool changed = pin_to_pin.insert(std::make_pair(src, dst)).second;
-    if (changed && g != nullptr) {
-        g->connect(src, dst);
+    if (auto graph = g.lock()) {
+        for (int i = 0; changed && i < instances; i++) {
+            graph->connect(src, dst);
+        }
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupling(pin_t src, pin_t dst) {
     bool changed = pin_to_pin.erase(std::make_pair(src, dst)) > 0;
-    if (changed && g != nullptr) {
-        g->disconnect(src, dst);
+    if (auto graph = g.lock()) {
+        for (int i = 0; changed && i < instances; i++) {
+            graph->disconnect(src, dst);
+        }
     }
 }
 
 template <typename ValueType, typename TimeType>
-void Coupled<ValueType, TimeType>::assign_to_graph(Graph<ValueType, TimeType>* graph) {
-    g = graph;
+void Coupled<ValueType, TimeType>::assign_to_graph(
+    std::shared_ptr<Graph<ValueType, TimeType>> graph) {
+    if (g.lock() != graph) {
+        // A new simulation
+        g = graph;
+        instances = 0;
+    }
+    instances++;
     for (auto atomic : atomic_components) {
-        g->add_atomic(atomic);
+        graph->add_atomic(atomic);
     }
     for (auto coupling : pin_to_atomic) {
-        g->connect(coupling.first, coupling.second);
+        graph->connect(coupling.first, coupling.second);
     }
     for (auto coupling : pin_to_pin) {
-        g->connect(coupling.first, coupling.second);
+        graph->connect(coupling.first, coupling.second);
     }
     for (auto coupled : coupled_components) {
-        coupled->assign_to_graph(g);
+        coupled->assign_to_graph(graph);
     }
 }
 
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_from_graph() {
+    instances--;
+    auto graph = g.lock();
     for (auto atomic : atomic_components) {
-        g->remove_atomic(atomic);
+        graph->remove_atomic(atomic);
     }
     for (auto coupling : pin_to_atomic) {
-        g->disconnect(coupling.first, coupling.second);
+        graph->disconnect(coupling.first, coupling.second);
     }
     for (auto coupling : pin_to_pin) {
-        g->disconnect(coupling.first, coupling.second);
+        graph->disconnect(coupling.first, coupling.second);
     }
     for (auto coupled : coupled_components) {
         coupled->remove_from_graph();
@@ -577,8 +596,10 @@ void Coupled<ValueType, TimeType>::remove_from_graph() {
 template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_atomic(std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     bool changed = atomic_components.insert(model).second;
-    if (changed && g != nullptr) {
-        g->add_atomic(model);
+    if (auto graph = g.lock()) {
+        for (int i = 0; changed && i < instances; i++) {
+            graph->add_atomic(model);
+        }
     }
 }
 
@@ -586,18 +607,19 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_atomic(
     std::shared_ptr<Atomic<ValueType, TimeType>> model) {
     bool changed = atomic_components.erase(model) > 0;
+    auto graph = g.lock();
     for (auto iter = pin_to_atomic.begin(); iter != pin_to_atomic.end();) {
         if ((*iter).second == model) {
-            if (g != nullptr) {
-                g->disconnect((*iter).first, model);
+            for (int i = 0; graph && i < instances; i++) {
+                graph->disconnect((*iter).first, model);
             }
             iter = pin_to_atomic.erase(iter);
         } else {
             iter++;
         }
     }
-    if (changed && g != nullptr) {
-        g->remove_atomic(model);
+    for (int i = 0; changed && graph && i < instances; i++) {
+        graph->remove_atomic(model);
     }
 }
 
@@ -605,8 +627,10 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::add_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
     bool changed = coupled_components.insert(model).second;
-    if (changed && g != nullptr) {
-        model->assign_to_graph(g);
+    if (auto graph = g.lock()) {
+        for (int i = 0; changed && i < instances; i++) {
+            model->assign_to_graph(graph);
+        }
     }
 }
 
@@ -614,8 +638,10 @@ template <typename ValueType, typename TimeType>
 void Coupled<ValueType, TimeType>::remove_coupled_model(
     std::shared_ptr<Coupled<ValueType, TimeType>> model) {
     bool changed = coupled_components.erase(model) > 0;
-    if (changed && g != nullptr) {
-        model->remove_from_graph();
+    if (auto graph = g.lock()) {
+        for (int i = 0; changed && i < instances; i++) {
+            model->remove_from_graph();
+        }
     }
 }
 
diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index ab827c5..8817c4e 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -422,7 +422,7 @@ void Simulator<ValueType, TimeType>::calculate_mealy_output(
 template <typename ValueType, typename TimeType>
 Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Coupled<ValueType, TimeType>> model)
     : graph(new Graph<ValueType, TimeType>()) {
-    model->assign_to_graph(graph.get());
+    model->assign_to_graph(graph);
     graph->set_provisional(true);
     for (auto atomic : graph->get_atomics()) {
         schedule(atomic.get(), adevs_zero<TimeType>());
-- 
2.43.0


From 64ce40f03e1331baaade8bdd71b8ecfb1bcefffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 09/30] fix: models can be simulated again after their
 Simulator is destroyed

The models kept their positions in the old schedule, which the schedule of the
next Simulator took for its own, and the Graph kept queueing changes that nobody
would apply.
---
 include/adevs/simulator.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 8817c4e..69afe4d 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -204,6 +204,15 @@ class Simulator {
      */
     Simulator(std::shared_ptr<Coupled<ValueType, TimeType>> model);
 
+    /// Destructor. The models may be simulated again by a new simulator.
+    ~Simulator() {
+        // Models are marked as not scheduled
+        while (!sched.empty()) {
+            sched.removeMinimum();
+        }
+        graph->set_provisional(false);
+    }
+
     /**
      * @brief Get the time of the next event.
      *
-- 
2.43.0


From b7916be116c1a0144ca1aa9f35939a58f1ace4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 10/30] fix: a Schedule with initial capacity zero or one reads
 outside its heap

The heap always needs the sentinel and the element that minPriority() reads.
---
 include/adevs/sched.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/adevs/sched.h b/include/adevs/sched.h
index cec025d..bf31e2b 100644
--- a/include/adevs/sched.h
+++ b/include/adevs/sched.h
@@ -52,7 +52,9 @@ class Schedule {
   public:
     /// Creates a scheduler with the default or specified initial capacity.
     Schedule(unsigned int capacity = 100)
-        : capacity(capacity), size(0), heap(new heap_element[capacity]) {
+        : capacity(capacity < 2 ? 2 : capacity), size(0), heap(nullptr) {
+        // There is always room for the sentinel and for the front of the queue
+        heap = new heap_element[this->capacity];
         heap[0].priority = adevs_sentinel<TimeType>();  // This is a sentinel value
     }
     /// Get the model at the front of the queue.
-- 
2.43.0


From e8318c9391fa57c98187d255fb11ef1c43625051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 11/30] fix: removal from the alternate Schedule keeps the
 index and the heap order

The element that fills the hole kept its old index, was never moved up, and
removing the last element wrote past the end of the heap.
---
 include/adevs/schedule2.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/adevs/schedule2.h b/include/adevs/schedule2.h
index 68d0947..af6804b 100644
--- a/include/adevs/schedule2.h
+++ b/include/adevs/schedule2.h
@@ -226,9 +226,15 @@ class Schedule {
         // Replace the index with the last element and then rebuild the heap.
         // Then remove the last element from the vector; don't need to keep the
         // initial element because it is being removed.
+        if (index == model_heap.size() - 1) {
+            // The last element leaves no hole to fill
+            model_heap.pop_back();
+            return;
+        }
         model_heap[index] = model_heap.back();
         model_heap.pop_back();
-        percolate_down(index);
+        model_index[model_heap[index].model] = index;
+        percolate_down(percolate_up(index));
     }
 
     // Restore the heap property by moving a model up the tree
-- 
2.43.0


From 6e8041ceb1acf9832ae429afa1067f4f7af5a7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 12/30] fix: all comparisons of double_fcmp with double_fcmp
 and double use the tolerance

!= fell back to the exact comparison of the converted doubles, so two values
could be equal and unequal at once, and <=, >, >= with a double were ambiguous.
---
 include/adevs/time.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/adevs/time.h b/include/adevs/time.h
index c0f9636..3cb1dfb 100644
--- a/include/adevs/time.h
+++ b/include/adevs/time.h
@@ -36,6 +36,7 @@
 #include <cmath>
 #include <iostream>
 #include <limits>
+#include <type_traits>
 
 
 /// @brief Returns the maximum value for a time type
@@ -205,15 +206,25 @@ class double_fcmp {
     /// @brief Less than
     bool operator<(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) < 0); }
     /// @brief Less than or equal to
+    bool operator<=(double rhs) const { return (fcmp(d, rhs, epsilon) <= 0); }
+    /// @brief Less than or equal to
     bool operator<=(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) <= 0); }
     /// @brief Greater than
+    bool operator>(double rhs) const { return (fcmp(d, rhs, epsilon) > 0); }
+    /// @brief Greater than
     bool operator>(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) > 0); }
     /// @brief Greater than or equal to
+    bool operator>=(double rhs) const { return (fcmp(d, rhs, epsilon) >= 0); }
+    /// @brief Greater than or equal to
     bool operator>=(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) >= 0); }
     /// @brief Equality
     bool operator==(double rhs) const { return (fcmp(d, rhs, epsilon) == 0); }
     /// @brief Equality
     bool operator==(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) == 0); }
+    /// @brief Inequality
+    bool operator!=(double rhs) const { return (fcmp(d, rhs, epsilon) != 0); }
+    /// @brief Inequality
+    bool operator!=(double_fcmp const &rhs) const { return (fcmp(d, rhs.d, epsilon) != 0); }
     /// @brief Advance this value by a step size t2
     double_fcmp operator+(double_fcmp const &t2) const { return double_fcmp(d + t2.d); }
     /// @brief Advance this value by a step size t2
-- 
2.43.0


From 86f5ed6b8da761b0d2da11638444ab5e98a7a250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 13/30] fix: comparing a number with a double_fcmp uses the
 tolerance on either side

x == t converted t to double and compared exactly while t == x used the
tolerance, so swapping the operands changed the answer.
---
 include/adevs/time.h | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/adevs/time.h b/include/adevs/time.h
index 3cb1dfb..57d2a2c 100644
--- a/include/adevs/time.h
+++ b/include/adevs/time.h
@@ -262,6 +262,32 @@ class double_fcmp {
     static int fcmp(double x1, double x2, double epsilon);
 };
 
+/// @brief Comparisons with a number on the left use the tolerance too
+template <typename N, typename = std::enable_if_t<std::is_arithmetic<N>::value>>
+inline bool operator<(N lhs, double_fcmp const &rhs) {
+    return double_fcmp(lhs) < rhs;
+}
+template <typename N, typename = std::enable_if_t<std::is_arithmetic<N>::value>>
+inline bool operator<=(N lhs, double_fcmp const &rhs) {
+    return double_fcmp(lhs) <= rhs;
+}
+template <typename N, typename = std::enable_if_t<std::is_arithmetic<N>::value>>
+inline bool operator>(N lhs, double_fcmp const &rhs) {
+    return double_fcmp(lhs) > rhs;
+}
+template <typename N, typename = std::enable_if_t<std::is_arithmetic<N>::value>>
+inline bool operator>=(N lhs, double_fcmp const &rhs) {
+    return double_fcmp(lhs) >= rhs;
+}
+template <typename N, typename = std::enable_if_t<std::is_arithmetic<N>::value>>
+inline bool operator==(N lhs, double_fcmp const &rhs) {
+    return double_fcmp(lhs) == rhs;
+}
+template <typename N, typename = std::enable_if_t<std::is_arithmetic<N>::value>>
+inline bool operator!=(N lhs, double_fcmp const &rhs) {
+    return double_fcmp(lhs) != rhs;
+}
+
 }  // namespace adevs
 
 template <>
-- 
2.43.0


From 63324ae6781440d4fb8b8c9e71ca9d592deff4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 14/30] fix: trap keeps its error control when the Euler guess
 satisfies KINSOL

The initial guess is accepted by KINSOL when its residual is small. The
difference between the guess and the solution was then zero, so that the
estimate of the truncation error vanished and the next step was h_max
whatever the error tolerance.
---
 include/adevs/solvers/trap.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/adevs/solvers/trap.h b/include/adevs/solvers/trap.h
index c26a2d4..0f46266 100644
--- a/include/adevs/solvers/trap.h
+++ b/include/adevs/solvers/trap.h
@@ -113,6 +113,7 @@ class trap : public ode_solver<ValueType> {
     // The Euler initial guess which we also
     // use for step size control
     double* guess;
+    double* dq_guess;  // Derivatives at an accepted guess
     double const err_tol;
     double const h_max;  // Maximum time step
     double h_cur;
@@ -286,6 +287,7 @@ template <typename ValueType>
 trap<ValueType>::trap(ode_system<ValueType>* sys, double err_tol, double h_max, bool silent)
     : ode_solver<ValueType>(sys), err_tol(err_tol), h_max(h_max), h_cur(h_max) {
     guess = new double[sys->numVars()];
+    dq_guess = new double[sys->numVars()];
     dq = new double[sys->numVars()];
     k = new double[sys->numVars()];
 
@@ -295,6 +297,7 @@ trap<ValueType>::trap(ode_system<ValueType>* sys, double err_tol, double h_max,
 template <typename ValueType>
 trap<ValueType>::~trap() {
     delete[] guess;
+    delete[] dq_guess;
     delete[] dq;
     delete[] k;
     N_VDestroy(y);
@@ -332,6 +335,14 @@ bool trap<ValueType>::step(double* q, double h, double const* dq0) {
     if (retval < 0) {
         return false;
     }
+    if (retval == KIN_INITIAL_GUESS_OK) {
+        // The Euler guess was returned unchanged. Apply the trapezoidal rule
+        // to it so that the difference still tells us the truncation error.
+        this->sys->der_func(guess, dq_guess);
+        for (int i = 0; i < N; i++) {
+            yd[i] = guess[i] + (h / 2.0) * (dq_guess[i] - dq0[i]);
+        }
+    }
     memcpy(q, yd, sizeof(double) * N);
     return true;
 }
@@ -345,6 +356,8 @@ double trap<ValueType>::integrate(double* q, double h_lim) {
         return h;
     }
     // Next step size guess is our maximum allowed
+    double const h_prev = h_cur;
+    bool have_estimate = false;
     h_cur = h_max;
     // Get the derivatives at the current point
     this->sys->der_func(q, dq);
@@ -371,6 +384,12 @@ double trap<ValueType>::integrate(double* q, double h_lim) {
         double hh = sqrt(err_tol / C);
         // Next step size.
         h_cur = std::min(h_cur, hh);
+        have_estimate = true;
+    }
+    // If the limit left us with a step too small to estimate the error
+    // then the previous choice of a step size still stands
+    if (!have_estimate && h < h_prev) {
+        h_cur = std::min(h_cur, h_prev);
     }
     // Return the step size that we used
     return h;
-- 
2.43.0


From 7ac2d0b9e3f1c72308afec0cfc3557c286ed46da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 15/30] fix: explicit integrators remember a step shrunk to
 control the error

With a limit below the previous step size the shrunken step was forgotten,
so that advance() started every step from the limit and took orders of
magnitude more steps than the tolerance requires.
---
 include/adevs/solvers/corrected_euler.h | 4 +++-
 include/adevs/solvers/rk_45.h           | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/adevs/solvers/corrected_euler.h b/include/adevs/solvers/corrected_euler.h
index 9ce6be3..4a00c41 100644
--- a/include/adevs/solvers/corrected_euler.h
+++ b/include/adevs/solvers/corrected_euler.h
@@ -138,6 +138,7 @@ template <typename ValueType>
 double corrected_euler<ValueType>::integrate(double* q, double h_lim) {
     // Initial error estimate and step size
     double err = DBL_MAX, h = std::min<double>(h_cur * 1.1, std::min<double>(h_max, h_lim));
+    bool shrunk = false;
     for (;;) {
         // Copy q to the trial vector
         for (int i = 0; i < this->sys->numVars(); i++) {
@@ -147,13 +148,14 @@ double corrected_euler<ValueType>::integrate(double* q, double h_lim) {
         err = trial_step(h);
         // If the error is ok, then we have found the proper step size
         if (err <= err_tol) {  // Keep h if shrunk to control the error
-            if (h_lim >= h_cur) {
+            if (shrunk || h_lim >= h_cur) {
                 h_cur = h;
             }
             break;
         }
         // Otherwise shrink the step size and try again
         else {
+            shrunk = true;
             double h_guess = 0.8 * err_tol * h / fabs(err);
             if (h < h_guess) {
                 h *= 0.8;
diff --git a/include/adevs/solvers/rk_45.h b/include/adevs/solvers/rk_45.h
index 5a362a6..48a488c 100644
--- a/include/adevs/solvers/rk_45.h
+++ b/include/adevs/solvers/rk_45.h
@@ -138,6 +138,7 @@ template <typename ValueType>
 double rk_45<ValueType>::integrate(double* q, double h_lim) {
     // Initial error estimate and step size
     double err = DBL_MAX, h = std::min<double>(h_cur * 1.1, std::min<double>(h_max, h_lim));
+    bool shrunk = false;
     for (;;) {
         // Copy q to the trial vector
         for (int i = 0; i < this->sys->numVars(); i++) {
@@ -146,14 +147,15 @@ double rk_45<ValueType>::integrate(double* q, double h_lim) {
         // Make the trial step which will be stored in qq
         err = trial_step(h);
         // If the error is ok, then we have found the proper step size
-        if (err <= err_tol) {
-            if (h_cur <= h_lim) {
+        if (err <= err_tol) {  // Keep h if shrunk to control the error
+            if (shrunk || h_cur <= h_lim) {
                 h_cur = h;
             }
             break;
         }
         // Otherwise shrink the step size and try again
         else {
+            shrunk = true;
             double h_guess = 0.8 * pow(err_tol * pow(h, 4.0) / fabs(err), 0.25);
             if (h < h_guess) {
                 h *= 0.8;
-- 
2.43.0


From 9ddda7f0802a6d04770e080cb048cfb801f43528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 16/30] fix: fast_event_locator stops when its bracket can not
 be made smaller

The search did not end if the event was at the high end of the bracket and
the midpoint was rounded to the low end.
---
 include/adevs/solvers/event_locators.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/adevs/solvers/event_locators.h b/include/adevs/solvers/event_locators.h
index cd8986b..50c7fcc 100644
--- a/include/adevs/solvers/event_locators.h
+++ b/include/adevs/solvers/event_locators.h
@@ -308,6 +308,7 @@ class fast_event_locator : public event_locator<ValueType> {
   private:
     double const err_tol;
     double *z0, *zf, *dq0, *dqh;
+    double* qhh;  // State at the high end of the bracket
     spline* p;
 
     bool is_sign_change() const;
@@ -323,6 +324,7 @@ fast_event_locator<ValueType>::fast_event_locator(ode_system<ValueType>* sys, do
       zf(new double[sys->numEvents()]),
       dq0(NULL),
       dqh(NULL),
+      qhh(new double[sys->numVars()]),
       p(NULL) {
     if (interpolate) {
         p = new spline(sys->numVars());
@@ -335,6 +337,7 @@ template <typename ValueType>
 fast_event_locator<ValueType>::~fast_event_locator() {
     delete[] z0;
     delete[] zf;
+    delete[] qhh;
     if (p != NULL) {
         delete[] dq0;
         delete[] dqh;
@@ -390,6 +393,7 @@ repeat:
         }
         // Otherwise move the high end of the bracket
         hh = hg;
+        memcpy(qhh, qend, sizeof(double) * this->sys->numVars());
     }
     // Event is between guess and high end of the bracket.
     else {
@@ -397,6 +401,14 @@ repeat:
     }
     // New guess is midpoint of low and high guesses
     hg = (hh + hl) / 2.0;
+    // If there is no number between low and high then the event is
+    // at the high end
+    if (hg <= hl || hg >= hh) {
+        hg = hh;
+        memcpy(qend, qhh, sizeof(double) * this->sys->numVars());
+        this->sys->state_event_func(qend, zf);
+        goto success;
+    }
     // Calculate solution at new guess
     if (p != NULL) {
         p->interpolate(qend, hg);
-- 
2.43.0


From 8650799413b16676be93a1be007a3bc110b1d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:25 +0000
Subject: [PATCH 17/30] fix: eventHappened is false before the first transition

It read an uninitialised variable.
---
 include/adevs/solvers/hybrid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 1534813..bd24aa0 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -414,7 +414,7 @@ class Hybrid : public Atomic<ValueType, TimeType> {
      */
     Hybrid(ode_system<ValueType>* sys, ode_solver<ValueType>* solver,
            event_locator<ValueType>* event_finder)
-        : sys(sys), solver(solver), event_finder(event_finder), e_accum(0.0) {
+        : sys(sys), solver(solver), event_finder(event_finder), event_happened(false), e_accum(0.0) {
         q = new double[sys->numVars()];
         q_trial = new double[sys->numVars()];
         event = new bool[sys->numEvents() + 1];
-- 
2.43.0


From 89d0145fa3b218a2a63909a3643690eba9099a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 18/30] fix: Hybrid deletes the objects that it adopts

As documented. The rk_45 destructor also releases its trial solution.
---
 include/adevs/solvers/hybrid.h | 18 ++++++++++++++++++
 include/adevs/solvers/rk_45.h  |  1 +
 2 files changed, 19 insertions(+)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index bd24aa0..aadedf7 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -426,6 +426,24 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         tentative_step();  // Take the first tentative step
     }
 
+    /// The objects adopted by the Hybrid can have only one owner
+    Hybrid(Hybrid const &) = delete;
+    Hybrid &operator=(Hybrid const &) = delete;
+
+    /**
+     * @brief Destructor
+     *
+     * Deletes the ode_system, ode_solver, and event_locator.
+     */
+    ~Hybrid() {
+        delete event_finder;
+        delete solver;
+        delete sys;
+        delete[] q;
+        delete[] q_trial;
+        delete[] event;
+    }
+
     /**
      * @brief Get the value of the kth continuous state variable
      *
diff --git a/include/adevs/solvers/rk_45.h b/include/adevs/solvers/rk_45.h
index 48a488c..80145c6 100644
--- a/include/adevs/solvers/rk_45.h
+++ b/include/adevs/solvers/rk_45.h
@@ -120,6 +120,7 @@ rk_45<ValueType>::rk_45(ode_system<ValueType>* sys, double err_tol, double h_max
 template <typename ValueType>
 rk_45<ValueType>::~rk_45() {
     delete[] dq;
+    delete[] qq;
     delete[] t;
     for (int i = 0; i < 6; i++) {
         delete[] k[i];
-- 
2.43.0


From 16c4878f44d668401b06339ad048737a2cd798c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 19/30] fix: an event at the same time as missed output is
 executed with its output

Its output was produced with the missed output but the event was not
executed, and so the output was produced twice.
---
 include/adevs/solvers/hybrid.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index aadedf7..faa2202 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -494,7 +494,11 @@ class Hybrid : public Atomic<ValueType, TimeType> {
     void delta_int() {
         if (!missedOutput.empty()) {
             missedOutput.clear();
-            return;
+            // The output of an event with sigma equal to zero was produced
+            // together with the missed output
+            if (sigma > 0.0) {
+                return;
+            }
         }
         e_accum += ta();
         // Execute any discrete events
-- 
2.43.0


From 13003b02710a641b9ab2641dca167b1f4995b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 20/30] fix: input arriving with missed output is applied
 without an advance of time

The model received the input with the state and elapsed time of its
tentative step.
---
 include/adevs/solvers/hybrid.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index faa2202..3a8b055 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -563,10 +563,16 @@ class Hybrid : public Atomic<ValueType, TimeType> {
      * confluent events as needed.
      */
     void delta_conf(std::list<adevs::PinValue<ValueType>> const &xb) {
+        // Time since the last discrete event
+        double const e = e_accum + ta();
         if (!missedOutput.empty()) {
             missedOutput.clear();
             if (sigma > 0.0) {
                 event_exists = false;
+                // No time passed since the missed event
+                for (int i = 0; i < sys->numVars(); i++) {
+                    q_trial[i] = q[i];
+                }
             }
         }
         // Execute any discrete events
@@ -574,7 +580,7 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         if (event_exists) {
             sys->confluent_event(q_trial, event, xb);
         } else {
-            sys->external_event(q_trial, e_accum + ta(), xb);
+            sys->external_event(q_trial, e, xb);
         }
         e_accum = 0.0;
         // Copy the new state vector to q
-- 
2.43.0


From 0384f3147c27546bf374ab0c6fd925019ff285e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 21/30] fix: input that meets a missed event acts at its time
 of arrival

The search for the event changed the elapsed time, so that the state did
not match the simulation time, and the flag of a future time event was set.
---
 include/adevs/solvers/hybrid.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 3a8b055..24b5589 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -530,9 +530,16 @@ class Hybrid : public Atomic<ValueType, TimeType> {
                 q_trial[i] = q[i];
             }
             solver->advance(q_trial, e);
-            state_event_exists = event_finder->find_events(event, q, q_trial, solver, e);
+            double h = e;
+            state_event_exists = event_finder->find_events(event, q, q_trial, solver, h);
             // We missed an event
             if (state_event_exists) {
+                // The event and input act on the state at the present time
+                if (h < e) {
+                    solver->advance(q_trial, e - h);
+                }
+                // The time event, if there is one, is in the future
+                event[sys->numEvents()] = false;
                 output_func(missedOutput);
                 sys->confluent_event(q_trial, event, xb);
                 for (int i = 0; i < sys->numVars(); i++) {
-- 
2.43.0


From 490aef9f3854fe5ee7dd4c3f894bdcec36263bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 22/30] fix: models can be simulated again after an exception
 or a lookahead

Input and output left in the models by an output calculation that was not followed
by a state transition was taken for input and output of the next simulation, and
models scheduled by a constructor that failed kept their place in its schedule.
---
 include/adevs/simulator.h | 60 ++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 69afe4d..3ba30f8 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -205,13 +205,7 @@ class Simulator {
     Simulator(std::shared_ptr<Coupled<ValueType, TimeType>> model);
 
     /// Destructor. The models may be simulated again by a new simulator.
-    ~Simulator() {
-        // Models are marked as not scheduled
-        while (!sched.empty()) {
-            sched.removeMinimum();
-        }
-        graph->set_provisional(false);
-    }
+    ~Simulator() { release_models(); }
 
     /**
      * @brief Get the time of the next event.
@@ -312,6 +306,10 @@ class Simulator {
     Schedule<ValueType, TimeType> sched;
     TimeType tNext;
 
+    /// Schedule the models in the graph at the start of the simulation
+    void schedule_models();
+    /// Forget the models in the graph so that they can be simulated again
+    void release_models();
     void schedule(Atomic<ValueType, TimeType>* model, TimeType t);
     void calculate_mealy_output(
         std::set<MealyAtomic<ValueType,TimeType>*>& path, MealyAtomic<ValueType,TimeType>* root);
@@ -319,22 +317,50 @@ class Simulator {
 };
 
 template <typename ValueType, typename TimeType>
-Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Graph<ValueType, TimeType>> model)
-    : graph(model) {
+void Simulator<ValueType, TimeType>::schedule_models() {
     graph->set_provisional(true);
-    for (auto atomic : model->get_atomics()) {
-        schedule(atomic.get(), adevs_zero<TimeType>());
+    try {
+        for (auto atomic : graph->get_atomics()) {
+            schedule(atomic.get(), adevs_zero<TimeType>());
+        }
+    } catch (...) {
+        // The destructor will not be called
+        release_models();
+        throw;
     }
     tNext = sched.minPriority();
 }
 
+template <typename ValueType, typename TimeType>
+void Simulator<ValueType, TimeType>::release_models() {
+    // Models are marked as not scheduled
+    while (!sched.empty()) {
+        sched.removeMinimum();
+    }
+    // Discard input and output left by an output calculation that was
+    // not followed by a state transition
+    for (auto model : graph->get_atomics()) {
+        model->inputs.clear();
+        model->outputs.clear();
+        model->revisable_inputs.clear();
+        if (model->isMealyAtomic() != nullptr) {
+            model->isMealyAtomic()->receivers.clear();
+        }
+    }
+    graph->set_provisional(false);
+}
+
+template <typename ValueType, typename TimeType>
+Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Graph<ValueType, TimeType>> model)
+    : graph(model) {
+    schedule_models();
+}
+
 template <typename ValueType, typename TimeType>
 Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Atomic<ValueType, TimeType>> model)
     : graph(new Graph<ValueType, TimeType>()) {
     graph->add_atomic(model);
-    graph->set_provisional(true);
-    schedule(model.get(), adevs_zero<TimeType>());
-    tNext = sched.minPriority();
+    schedule_models();
 }
 
 template <typename ValueType, typename TimeType>
@@ -432,11 +458,7 @@ template <typename ValueType, typename TimeType>
 Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Coupled<ValueType, TimeType>> model)
     : graph(new Graph<ValueType, TimeType>()) {
     model->assign_to_graph(graph);
-    graph->set_provisional(true);
-    for (auto atomic : graph->get_atomics()) {
-        schedule(atomic.get(), adevs_zero<TimeType>());
-    }
-    tNext = sched.minPriority();
+    schedule_models();
 }
 
 template <class ValueType, class TimeType>
-- 
2.43.0


From 7efa477ab6461bc812330b8a2a9730010a25e712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 23/30] fix: every cycle of Mealy models is reported when it
 forms

A cycle that formed when the output of a model was revised was not noticed
and the retraction of the output did not end.
---
 include/adevs/simulator.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/adevs/simulator.h b/include/adevs/simulator.h
index 3ba30f8..c8adab3 100644
--- a/include/adevs/simulator.h
+++ b/include/adevs/simulator.h
@@ -313,7 +313,8 @@ class Simulator {
     void schedule(Atomic<ValueType, TimeType>* model, TimeType t);
     void calculate_mealy_output(
         std::set<MealyAtomic<ValueType,TimeType>*>& path, MealyAtomic<ValueType,TimeType>* root);
-    void retract_mealy_output(MealyAtomic<ValueType,TimeType>* root);
+    void retract_mealy_output(
+        std::set<MealyAtomic<ValueType,TimeType>*> const& path, MealyAtomic<ValueType,TimeType>* root);
 };
 
 template <typename ValueType, typename TimeType>
@@ -365,6 +366,7 @@ Simulator<ValueType, TimeType>::Simulator(std::shared_ptr<Atomic<ValueType, Time
 
 template <typename ValueType, typename TimeType>
 void Simulator<ValueType, TimeType>::retract_mealy_output(
+    std::set<MealyAtomic<ValueType,TimeType>*> const& path,
     MealyAtomic<ValueType,TimeType>* root) {
 
     auto iter = root->receivers.begin();
@@ -378,8 +380,11 @@ void Simulator<ValueType, TimeType>::retract_mealy_output(
             }
         }
         if ((*iter)->isMealyAtomic() != nullptr) {
+            if (path.find((*iter)->isMealyAtomic()) != path.end()) {
+                throw adevs::exception("Cycles of Mealy models are illegal", *iter);
+            }
             orphaned.insert((*iter)->isMealyAtomic());
-            retract_mealy_output((*iter)->isMealyAtomic());
+            retract_mealy_output(path, (*iter)->isMealyAtomic());
         }
         iter = root->receivers.erase(iter);
     }
@@ -397,7 +402,7 @@ void Simulator<ValueType, TimeType>::calculate_mealy_output(
     active.insert(root);
     orphaned.erase(root);
     // Retract our previous output
-    retract_mealy_output(root);
+    retract_mealy_output(path, root);
     // Clear the output list
     root->outputs.clear();
     // Gather the revisable input to this Mealy model
-- 
2.43.0


From acea5fc515823f037b18cc7ded48708b25ab1a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 24/30] fix: CVODE integrates once for each transition

Asking for the time advance again, as happens when the model is added again to a
simulation or simulated again, integrated past the event that was projected and lost it.
---
 include/adevs/solvers/cvode.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/adevs/solvers/cvode.h b/include/adevs/solvers/cvode.h
index 3bddfa7..c7918d3 100644
--- a/include/adevs/solvers/cvode.h
+++ b/include/adevs/solvers/cvode.h
@@ -196,12 +196,13 @@ class CVODE : public Atomic<ValueType> {
   private:
     N_Vector y_checkpoint;
     bool has_event;
+    bool is_projected;  // The state is that at t_projected
     double t, t_projected;
 };
 
 template <typename ValueType>
 CVODE<ValueType>::CVODE()
-    : Atomic<ValueType, double>(), y_checkpoint(nullptr), has_event(false), t(0.0) {}
+    : Atomic<ValueType, double>(), y_checkpoint(nullptr), has_event(false), is_projected(false), t(0.0), t_projected(0.0) {}
 
 template <typename ValueType>
 CVODE<ValueType>::~CVODE() {
@@ -216,7 +217,12 @@ double CVODE<ValueType>::ta() {
         y_checkpoint = N_VClone(this->cvode_get_state());
         N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);
     }
-    this->cvode_integrate(t_projected, has_event);
+    // Do not integrate past the projected event when asked again,
+    // such as when the model is added again to a simulation
+    if (!is_projected) {
+        this->cvode_integrate(t_projected, has_event);
+        is_projected = true;
+    }
     return t_projected - t;
 }
 
@@ -228,6 +234,7 @@ void CVODE<ValueType>::delta_int() {
     }
     t = t_projected;
     N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);
+    is_projected = false;
 }
 
 template <typename ValueType>
@@ -239,6 +246,7 @@ void CVODE<ValueType>::delta_conf(std::list<PinValue<ValueType>> const &xb) {
     }
     t = t_projected;
     N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);
+    is_projected = false;
 }
 
 template <typename ValueType>
@@ -252,6 +260,7 @@ void CVODE<ValueType>::delta_ext(double e, std::list<PinValue<ValueType>> const
         this->cvode_delta_ext(t, xb);
     }
     N_VAddConst(this->cvode_get_state(), 0.0, y_checkpoint);
+    is_projected = false;
 }
 
 template <typename ValueType>
-- 
2.43.0


From f876100e721d949b675c805b2ef03ad63cf561d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 25/30] fix: place the columns of the FMU's Jacobian at the
 stride of the full matrix

The matrix has N+1 rows, the last for time, but its columns were written N
apart. The derivative of time is constant, so its own partial is 0 and not 1.
---
 include/adevs/solvers/fmi.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 23976ab..16d4100 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -359,14 +359,14 @@ bool ModelExchange<ValueType>::get_jacobian(double const* q, double* J) {
     // API state_var and jac_col would be in reversed positions.
     for (fmi2_value_reference_t state_var = 0; state_var < N; state_var++) {
         status = fmi2_import_get_directional_derivative(fmu, &state_var, 1, jac_col, N, jac_v,
-                                                        J + state_var * N);
+                                                        J + state_var * (N + 1));
         assert(status == fmi2_status_ok);
     }
-    // Partial of time is 1 and nobody else depends on it. This, of course, may
-    // be wrong but FMU does not appear to support partials of f with respect to
-    // time. If you really need this, add dtau/dt = 1 to your equation set and use
-    // tau as your time variable.
-    J[(N + 1) * (N + 1) - 1] = 1.0;
+    // The derivative of time is a constant 1, so its partials are zero, and
+    // nobody else depends on time. This, of course, may be wrong but FMU does
+    // not appear to support partials of f with respect to time. If you really
+    // need this, add dtau/dt = 1 to your equation set and use tau as your time
+    // variable.
     return true;
 }
 
-- 
2.43.0


From 20a902e3b56fb6fde2169acaa7e4d170d8058b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 26/30] fix: do not terminate an FMU that was never initialized

---
 include/adevs/solvers/fmi.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 16d4100..0dd588c 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -177,6 +177,8 @@ class ModelExchange : public ode_system<ValueType> {
     double t_now;
     // Are we in continuous time mode?
     bool cont_time_mode;
+    // Has the FMU been initialized?
+    bool initialized;
 
     void iterate_events();
     /// Identifiers for variables used to calculate the
@@ -250,6 +252,7 @@ ModelExchange<ValueType>::ModelExchange(char const* const fmu_file, double toler
       next_time_event(adevs_inf<double>()),
       t_now(0.0),
       cont_time_mode(false),
+      initialized(false),
       jac_col(nullptr),
       jac_v(nullptr) {
 
@@ -401,6 +404,7 @@ void ModelExchange<ValueType>::init(double* q) {
     // Done with initialization
     status = fmi2_import_exit_initialization_mode(fmu);
     assert(status == fmi2_status_ok);
+    initialized = true;
     // Put into consistent initial state
     iterate_events();
     // Enter continuous time mode to start integration
@@ -553,7 +557,10 @@ void ModelExchange<ValueType>::output_func(double const* q, bool const* state_ev
 
 template <typename ValueType>
 ModelExchange<ValueType>::~ModelExchange() {
-    fmi2_import_terminate(fmu);
+    // Only an FMU that has been initialized can be terminated
+    if (initialized) {
+        fmi2_import_terminate(fmu);
+    }
     fmi2_import_free_instance(fmu);
     fmi2_import_destroy_dllfmu(fmu);
     fmi2_import_free(fmu);
-- 
2.43.0


From 23696aec3788e7c7ea4bc64c3aff089750c7ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 27/30] fix: release the FMU, its context and directory when
 ModelExchange rejects a file

---
 include/adevs/solvers/fmi.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 0dd588c..08e381c 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -273,17 +273,28 @@ ModelExchange<ValueType>::ModelExchange(char const* const fmu_file, double toler
     fmi_import_context_t* context = fmi_import_allocate_context(&callbacks);
     fmi_version_enu_t version = fmi_import_get_fmi_version(context, fmu_file, tmpPath);
 
+    // Release what the constructor holds when the file cannot be used
+    auto const release = [&]() {
+        fmi_import_free_context(context);
+        fmi_import_rmdir(nullptr, tmpPath);
+        free(tmpPath);
+    };
+
     if (version != fmi_version_2_0_enu) {
+        release();
         throw adevs::exception("Only version FMI 2.0 is supported");
     }
 
     fmu = fmi2_import_parse_xml(context, tmpPath, 0);
 
     if (!fmu) {
+        release();
         throw adevs::exception("Error parsing FMI XML");
     }
 
     if (fmi2_import_get_fmu_kind(fmu) == fmi2_fmu_kind_cs) {
+        fmi2_import_free(fmu);
+        release();
         throw adevs::exception("Only ME 2.0 is supported\n");
     }
 
@@ -295,9 +306,7 @@ ModelExchange<ValueType>::ModelExchange(char const* const fmu_file, double toler
     assert(status_enum != jm_status_error);
 
     // Done with the context and temporary directory
-    fmi_import_free_context(context);
-    fmi_import_rmdir(nullptr, tmpPath);
-    free(tmpPath);
+    release();
 
     this->set_num_state_variables(fmi2_import_get_number_of_continuous_states(fmu) + 1);
     this->set_num_event_functions(fmi2_import_get_number_of_event_indicators(fmu));
-- 
2.43.0


From 820f96a97f52d42d317c68bea9d2313d493fbfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 28/30] fix: return an FMU to continuous time mode after an
 immediate event with the trapezoidal solver

A step of size zero does not evaluate the derivatives, which left the FMU in
event mode when its states were set.
---
 include/adevs/solvers/fmi.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/adevs/solvers/fmi.h b/include/adevs/solvers/fmi.h
index 08e381c..b6b5a41 100644
--- a/include/adevs/solvers/fmi.h
+++ b/include/adevs/solvers/fmi.h
@@ -502,9 +502,14 @@ void ModelExchange<ValueType>::postStep(double* q) {
 
 template <typename ValueType>
 void ModelExchange<ValueType>::postTrialStep(double* q) {
-    assert(cont_time_mode);
-    // Restore values changed by der_func and state_event_func
     fmi2_status_t status;
+    // A solver may take a step of size zero without evaluating the derivatives
+    if (!cont_time_mode) {
+        status = fmi2_import_enter_continuous_time_mode(fmu);
+        assert(status == fmi2_status_ok);
+        cont_time_mode = true;
+    }
+    // Restore values changed by der_func and state_event_func
     status = fmi2_import_set_time(fmu, q[this->numVars() - 1]);
     assert(status == fmi2_status_ok);
     status = fmi2_import_set_continuous_states(fmu, q, this->numVars() - 1);
-- 
2.43.0


From 28d04178e9526fd3d3b42cc2d96c531c214c116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 29/30] fix: compare signs rather than the product of state
 event functions in fast_event_locator

---
 include/adevs/solvers/event_locators.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/adevs/solvers/event_locators.h b/include/adevs/solvers/event_locators.h
index 50c7fcc..5d8c8d4 100644
--- a/include/adevs/solvers/event_locators.h
+++ b/include/adevs/solvers/event_locators.h
@@ -312,7 +312,10 @@ class fast_event_locator : public event_locator<ValueType> {
     spline* p;
 
     bool is_sign_change() const;
-    bool is_sign_change(int i) const { return z0[i] * zf[i] <= 0.0; }
+    bool is_sign_change(int i) const {
+        // The product of two small numbers can be zero
+        return (z0[i] < 0.0) != (zf[i] < 0.0) || (z0[i] > 0.0) != (zf[i] > 0.0);
+    }
 };
 
 template <typename ValueType>
-- 
2.43.0


From e672d2dfe438a0cb1459b7ee04e98c1bf280c678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:29 +0000
Subject: [PATCH 30/30] fix: release what a Hybrid has adopted when its
 constructor fails

---
 include/adevs/solvers/hybrid.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/adevs/solvers/hybrid.h b/include/adevs/solvers/hybrid.h
index 24b5589..2f98d5c 100644
--- a/include/adevs/solvers/hybrid.h
+++ b/include/adevs/solvers/hybrid.h
@@ -406,7 +406,8 @@ class Hybrid : public Atomic<ValueType, TimeType> {
     /**
      * @brief Create and initialize solvers for the ode_system.
      * 
-     * All objects are adopted by the Hybrid object and are deleted when it is.
+     * All objects are adopted by the Hybrid object and are deleted when it is,
+     * also if the constructor fails.
      * 
      * @param sys The system of equations to solve
      * @param solver The numerical integrator for taking steps in time
@@ -419,11 +420,22 @@ class Hybrid : public Atomic<ValueType, TimeType> {
         q_trial = new double[sys->numVars()];
         event = new bool[sys->numEvents() + 1];
         event_exists = false;
-        sys->init(q_trial);  // Get the initial state of the model
-        for (int i = 0; i < sys->numVars(); i++) {
-            q[i] = q_trial[i];
+        try {
+            sys->init(q_trial);  // Get the initial state of the model
+            for (int i = 0; i < sys->numVars(); i++) {
+                q[i] = q_trial[i];
+            }
+            tentative_step();  // Take the first tentative step
+        } catch (...) {
+            // The destructor will not be called
+            delete event_finder;
+            delete solver;
+            delete sys;
+            delete[] q;
+            delete[] q_trial;
+            delete[] event;
+            throw;
         }
-        tentative_step();  // Take the first tentative step
     }
 
     /// The objects adopted by the Hybrid can have only one owner
-- 
2.43.0

