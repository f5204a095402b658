From 0ca6e9d97106569779a2a0f284b89dde3b386bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:02 +0000
Subject: [PATCH 01/68] fix: reject models and beliefs with negative
 probabilities

Shape, sum and uniqueness were validated, but a row such as [-0.5, 1.5] was
accepted and only failed later, when sampled from.
---
 task_models/lib/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/task_models/lib/utils.py b/task_models/lib/utils.py
index d8b0c09..92134ea 100644
--- a/task_models/lib/utils.py
+++ b/task_models/lib/utils.py
@@ -7,6 +7,9 @@ def assert_normal(array, name='array'):
     message = "Probabilities in {} should sum to 1."
     if not np.allclose(array.sum(-1), 1.):
         raise ValueError(message.format(name))
+    if (np.asarray(array) < 0).any():
+        raise ValueError(
+            "Probabilities in {} should be non-negative.".format(name))
 
 
 class NPEncoder(JSONEncoder):
-- 
2.43.0


From 7a343deb7bdfe20708c8ae56a9750f7bbe37137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:30 +0000
Subject: [PATCH 02/68] fix: marginalise beliefs over several preferences

Numpy does not accept a list of slices as an index, so belief_preferences
raised with more than one preference.
---
 task_models/supportive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/supportive.py b/task_models/supportive.py
index 800c26e..8adfc24 100644
--- a/task_models/supportive.py
+++ b/task_models/supportive.py
@@ -209,7 +209,7 @@ class _SupportivePOMDPState(object):
         def sum_all_but(arr, axis):
             iii = [slice(None) for _ in arr.shape]
             iii[axis] = -1
-            return arr[iii].sum()
+            return arr[tuple(iii)].sum()
 
         return [sum_all_but(pp, i) for i, _ in enumerate(pp.shape)]
 
-- 
2.43.0


From 4cf917a2a3f896352bd833d1f6e7b5b53cc6a911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:32 +0000
Subject: [PATCH 03/68] fix: a copied supportive state keeps its number of HTM
 states

The copy was built with one HTM state too many, so is_final, n_htm and
n_states of the copy were wrong.
---
 task_models/supportive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/supportive.py b/task_models/supportive.py
index 8adfc24..444c4fd 100644
--- a/task_models/supportive.py
+++ b/task_models/supportive.py
@@ -224,7 +224,7 @@ class _SupportivePOMDPState(object):
             self.set_preference(i, 1 - self.has_preference(i))
 
     def copy(self):
-        return type(self)(self.n_htm + 1, self.n_preferences,
+        return type(self)(self.n_htm, self.n_preferences,
                           self.n_body_features, self.n_objects, s=self.s)
 
 
-- 
2.43.0


From 665cd982c1ad81d7c31fb02bdfc74eca61b9dfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:35 +0000
Subject: [PATCH 04/68] fix: keep the probabilities given to an alternative
 combination

The constructor overwrote them with the uniform default.
---
 task_models/task.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 6c7866e..49e8b4e 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -473,7 +473,6 @@ class AlternativeCombination(Combination):
 
     def __init__(self, children, **xargs):
         super(AlternativeCombination, self).__init__(children, **xargs)
-        self.proba = None
 
     @property
     def proba(self):
-- 
2.43.0


From 94160045019117dea637bcb4ed6cd94bbb808f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:37 +0000
Subject: [PATCH 05/68] fix: copying an action keeps its class and attributes

AbstractAction.copy always returned a bare AbstractAction, so parallel
combinations lost (and then crashed on) the conditions, hold or object of the
supportive and bring-next actions; plain Actions, as loaded from json files,
had no copy at all.
---
 task_models/action.py | 7 +++++++
 task_models/task.py   | 3 ---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/task_models/action.py b/task_models/action.py
index 40e3fd2..77b2ca4 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -8,6 +8,8 @@ simultaneously satisfied.
 """
 
 
+import copy
+
 import numpy as np
 
 
@@ -71,6 +73,11 @@ class Action(object):
         """
         raise NotImplementedError
 
+    def copy(self, rename_format='{}'):
+        new = copy.copy(self)
+        new.name = rename_format.format(self.name)
+        return new
+
 
 class PrePostConditionAction(Action):
     """Action which can apply to states verifying the pre-condition and can
diff --git a/task_models/task.py b/task_models/task.py
index 49e8b4e..71ca616 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -226,9 +226,6 @@ class AbstractAction(Action):
     def check(self, pre, post):
         return True
 
-    def copy(self, rename_format='{}'):
-        return AbstractAction(rename_format.format(self.name))
-
 
 class ConjugateTaskGraph(BaseGraph):
 
-- 
2.43.0


From 16f060fab1ac18bcf7088f4f06d825d006979940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:40 +0000
Subject: [PATCH 06/68] fix: return of an evaluation discounts later rewards

full_return was accumulated backward, hence discounting the first rewards the
most. This makes no difference for discount 1.
---
 task_models/evaluation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/evaluation.py b/task_models/evaluation.py
index b34228f..42d0093 100644
--- a/task_models/evaluation.py
+++ b/task_models/evaluation.py
@@ -70,6 +70,7 @@ def simulate_one_evaluation(model, pol, max_horizon=200, logger=None,
     h_r = []
     horizon = FinishedOrNTransitionsHorizon(model, max_horizon)
     full_return = 0
+    discounting = 1.
     while not horizon.is_reached():
         a = model.actions.index(pol.get_action())
         h_a.append(a)
@@ -79,7 +80,8 @@ def simulate_one_evaluation(model, pol, max_horizon=200, logger=None,
         horizon.decrement(a, h_s[-1], s, o)
         pol.step(model.observations[o])
         h_s.append(s)
-        full_return = r + gamma * full_return
+        full_return += discounting * r
+        discounting *= gamma
     elapsed = get_process_elapsed_time()
     n_calls = model.n_simulator_calls - init_calls
     if logger is not None:
-- 
2.43.0


From 836e1593010d2dd5018d2c916ab3cc66362b61a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:42 +0000
Subject: [PATCH 07/68] fix: copying a FinishedOrNTransitionsHorizon keeps
 completion

The copy of a horizon reached because the task is finished was not reached.
---
 task_models/evaluation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/evaluation.py b/task_models/evaluation.py
index 42d0093..bc8475b 100644
--- a/task_models/evaluation.py
+++ b/task_models/evaluation.py
@@ -31,7 +31,9 @@ class FinishedOrNTransitionsHorizon(NTransitionsHorizon):
         self._is_final = self.model._int_to_state(new_s).is_final()
 
     def copy(self):
-        return FinishedOrNTransitionsHorizon(self.model, self.n)
+        new = FinishedOrNTransitionsHorizon(self.model, self.n)
+        new._is_final = self._is_final
+        return new
 
     @classmethod
     def generator(cls, model, n=100):
-- 
2.43.0


From 4c4d9ee3d6ed4a2da45d8607ab0e8d0fc028d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:29 +0000
Subject: [PATCH 08/68] fix: stopping the asynchronous policy runner

Thread.isAlive does not exist anymore (removed in python 3.9) so that stop
always raised, and _stop is a method of threading.Thread that must not be
overriden: the thread never appeared as stopped.
---
 task_models/lib/pomcp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 4194f96..9bbbce1 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -532,11 +532,11 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
             self._done = False
             self._lock = threading.Lock()
 
-        def _stop(self):
+        def _set_done(self):
             self._done = True
 
         def stop(self):
-            self.execute(self._stop)
+            self.execute(self._set_done)
 
         def execute(self, fun, *args, **kwargs):
             """Waits until current exploration is done and execute fun.
@@ -583,7 +583,7 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
 
     def stop(self):
         self.thread.stop()
-        if self.thread.isAlive():
+        if self.thread.is_alive():
             self.thread.join()
 
     def execute(self, *args, **kwargs):
-- 
2.43.0


From c1c32f9711d248fe627d38b268dc7dbfe050aaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:31 +0000
Subject: [PATCH 09/68] fix: step the asynchronous policy runner between
 explorations

Getting the node for the new history may create it, and was done while the
exploration thread could be creating the same node: one of both was lost.
---
 task_models/lib/pomcp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 9bbbce1..d1b0570 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -568,7 +568,8 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
         self.thread.start()
 
     def step(self, observation):
-        super(AsyncPOMCPPolicyRunner, self).step(observation)
+        self.thread.execute(super(AsyncPOMCPPolicyRunner, self).step,
+                            observation)
         self.thread.execute(self.thread.set_node, self._node)
 
     def reset(self, belief=None):
-- 
2.43.0


From b31a3bcb398e3bb0d3138bbe6b3630683c32b592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:33 +0000
Subject: [PATCH 10/68] fix: return the result of functions executed between
 explorations

---
 task_models/lib/pomcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index d1b0570..647bacf 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -588,7 +588,7 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
             self.thread.join()
 
     def execute(self, *args, **kwargs):
-        self.thread.execute(*args, **kwargs)
+        return self.thread.execute(*args, **kwargs)
 
     def __del__(self):
         self.stop()
-- 
2.43.0


From e6ed552856017620f6b816893bb29ddb38956f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:35 +0000
Subject: [PATCH 11/68] fix: conjugate of graphs with final or outgoing-less
 states

Initial states without outgoing transitions raised KeyError, and the actions
following a state that is terminal for some path and not for others were
dropped.
---
 task_models/task.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/task_models/task.py b/task_models/task.py
index 71ca616..2b1328a 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -238,18 +238,17 @@ class ConjugateTaskGraph(BaseGraph):
         tg.check_only_deterministic_transitions()
         # Add transitions of the form: initial --(s_init)--> a
         for s in tg.initial:
-            for (a, _) in tg.transitions[s]:
+            for (a, _) in tg.transitions.get(s, ()):
                 ctg.add_transition(ctg.initial, s, a)
         for outgoings in tg.transitions.values():  # Whatever origin state
             for (a, next_state) in outgoings:
                 if next_state in tg.terminal:
                     # Add transitions of the form: a --(s_term)--> terminal
                     ctg.add_transition(a, next_state, ctg.terminal)
-                else:
-                    # Look ahead...
-                    for (next_action, _) in tg.transitions[next_state]:
-                        # ...and add transitions of the form: a --(s')--> a'
-                        ctg.add_transition(a, next_state, next_action)
+                # Look ahead (a terminal state may also be intermediate)...
+                for (next_action, _) in tg.transitions.get(next_state, ()):
+                    # ...and add transitions of the form: a --(s')--> a'
+                    ctg.add_transition(a, next_state, next_action)
         return ctg
 
     def compact(self, nodes, new_node):
-- 
2.43.0


From fc9400ea7a99d7ea1ffe56d49065c135e24762ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:37 +0000
Subject: [PATCH 12/68] fix: compare pre and post-condition actions with other
 actions

The comparison raised AttributeError on any action without conditions, such as
the initial and terminal nodes of conjugate graphs.
---
 task_models/action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/action.py b/task_models/action.py
index 77b2ca4..b0a70b6 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -93,7 +93,7 @@ class PrePostConditionAction(Action):
         return hash((self.pre, self.post))
 
     def __eq__(self, other):
-        return (isinstance(other, Action) and
+        return (isinstance(other, PrePostConditionAction) and
                 self.pre == other.pre and
                 self.post == other.post)
 
-- 
2.43.0


From 83332f8b6df3a454319814b19b67d572828583aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:18 +0000
Subject: [PATCH 13/68] fix: compare actions and meta-actions symmetrically

Sub-classes of AbstractAction were equal to a meta action of the same name,
which was not equal to them.
---
 task_models/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 2b1328a..b46fb63 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -221,7 +221,9 @@ class AbstractAction(Action):
         return hash(self.name)
 
     def __eq__(self, other):
-        return isinstance(other, AbstractAction) and self.name == other.name
+        return (isinstance(other, AbstractAction) and
+                not isinstance(other, MetaAction) and
+                self.name == other.name)
 
     def check(self, pre, post):
         return True
-- 
2.43.0


From 99f3570b35bd0868238074021e3094d816fb1926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:20 +0000
Subject: [PATCH 14/68] fix: equal conditions have equal hashes and always
 compare

The hash depended on the numeric type and on the sign of zeros, contrary to
the equality, and comparing conditions of sub-classes of Condition to
MatchAllCondition raised AttributeError.
---
 task_models/action.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/action.py b/task_models/action.py
index b0a70b6..42ffa49 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -26,10 +26,12 @@ class Condition(object):
         self.value = value
 
     def __hash__(self):
-        return hash((self.mask.tostring(), self.value.tostring()))
+        # Adding zero converts to float and removes negative zeros
+        return hash(((self.mask + 0.).tobytes(), (self.value + 0.).tobytes()))
 
     def __eq__(self, other):
         return (isinstance(other, Condition) and
+                not isinstance(other, MatchAllCondition) and
                 np.array_equal(self.mask, other.mask) and
                 np.array_equal(self.value, other.value))
 
-- 
2.43.0


From bda5110dea23d428ee4bcaa1987a6e8729c26501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:22 +0000
Subject: [PATCH 15/68] fix: N-dimensional states compare by features

Comparing two states raised TypeError, so that they could not be used in sets
and graphs, and the hash depended on the numeric type of the features.
---
 task_models/state.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/task_models/state.py b/task_models/state.py
index af9bb40..abba80d 100644
--- a/task_models/state.py
+++ b/task_models/state.py
@@ -6,6 +6,8 @@ with the `task.py` module, states must be hashable and implement a method
 that yield a feature vector from the state.
 """
 
+import numpy as np
+
 
 class State(object):
     """Any kind of state. Must be hashable and are immutable.
@@ -32,7 +34,12 @@ class NDimensionalState(State):
         self.features = vector
 
     def __hash__(self):
-        return hash(self.features.tostring())
+        # Adding zero converts to float and removes negative zeros
+        return hash((self.features + 0.).tobytes())
+
+    def __eq__(self, other):
+        return (isinstance(other, NDimensionalState) and
+                np.array_equal(self.features, other.features))
 
     @property
     def n_dim(self):
-- 
2.43.0


From ce4921eaeec36f7fd0a37b9926927079aff47c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:25 +0000
Subject: [PATCH 16/68] fix: hash of snap circuit states does not depend on the
 order of parts

---
 task_models/snap_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/snap_circuit.py b/task_models/snap_circuit.py
index 3b120c6..88ce6e4 100644
--- a/task_models/snap_circuit.py
+++ b/task_models/snap_circuit.py
@@ -48,7 +48,7 @@ class SnapCircuitState(State):
         self._parts = set(parts)
 
     def __hash__(self):
-        return hash((self._shape, tuple(self.parts)))
+        return hash((self._shape, frozenset(self.parts)))
 
     def __eq__(self, other):
         return (isinstance(other, SnapCircuitState) and
-- 
2.43.0


From c53c22bc1c299c2c92379d702646fc82db74d8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:27 +0000
Subject: [PATCH 17/68] fix: cliques including an action that may follow itself

Self-loops made the search miss cliques.
---
 task_models/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index b46fb63..f03f3e7 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -316,7 +316,7 @@ class ConjugateTaskGraph(BaseGraph):
         unique = set((s, d) for (s, _, d) in self.all_transitions())
         symmetric = {n: set() for n in self.all_nodes()}
         for s, d in unique:
-            if (d, s) in unique:
+            if s != d and (d, s) in unique:
                 symmetric[s].add(d)
                 symmetric[d].add(s)
         return max_cliques(symmetric)
-- 
2.43.0


From 628307fe5aaa1a25ba633ea760fbc950231f7c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:29 +0000
Subject: [PATCH 18/68] fix: search of chains in empty and cyclic graphs

Chains could be reported several times (depending on the order of sets),
the search did not terminate on some cycles and failed on graphs without
transitions from the initial node.
---
 task_models/task.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/task_models/task.py b/task_models/task.py
index f03f3e7..93c2677 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -272,7 +272,7 @@ class ConjugateTaskGraph(BaseGraph):
             if d not in unique_transitions[s]:
                 in_degree[d] = in_degree.get(d, 0) + 1
             unique_transitions[s].add(d)
-        to_explore = set([self.initial])
+        to_explore = set([self.initial]).intersection(unique_transitions)
         explored = set()
         chain = None
 
@@ -293,14 +293,15 @@ class ConjugateTaskGraph(BaseGraph):
                     raise AssertionError()
                 next_node = list(unique_transitions[node])[0]
                 done = False
-                if in_degree[next_node] == 1:
+                if in_degree[next_node] == 1 and next_node not in chain:
                     chain.append(next_node)
                     explored.add(next_node)
                     if len(unique_transitions[next_node]) != 1:
                         done = True
                         explore_successors(next_node)
                 else:
-                    to_explore.add(next_node)
+                    if next_node not in explored:
+                        to_explore.add(next_node)
                     done = True
                 if done:
                     if len(chain) > 1:
-- 
2.43.0


From 9f6a5343ec74afba6b87bf3b1d1e66214e2dc764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:28 +0000
Subject: [PATCH 19/68] fix: graphs with the same transitions are equal

Removing the last transition from a node leaves an empty set of transitions,
which made the graph different from one in which it was never added.
---
 task_models/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 93c2677..23bc5e7 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -99,7 +99,7 @@ class BaseGraph(object):
 
     def __eq__(self, other):
         return (isinstance(other, BaseGraph) and
-                self.transitions == other.transitions)
+                set(self.all_transitions()) == set(other.all_transitions()))
 
     def add_transition(self, source, label, destination):
         if source not in self.transitions:
-- 
2.43.0


From eac9a31b99995f4ef77fd4380a9db83da42dbe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:30 +0000
Subject: [PATCH 20/68] fix: check paths of any length

The recursion failed on paths longer than a few hundred transitions.
---
 task_models/task.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/task_models/task.py b/task_models/task.py
index 23bc5e7..d34c197 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -38,18 +38,14 @@ def check_path(path):
     pre-condition of a and s' its post-conditions.
     Empty paths are allowed.
     """
-    try:
-        return (len(path) == 0 or  # Empty path
-                isinstance(path[0], State) and (
-                    len(path) == 1 or (  # [s] or [s, a, s, ...]
-                        isinstance(path[1], Action) and
-                        isinstance(path[2], State) and
-                        path[1].check(path[0], path[2]) and  # pre/post
-                        check_path(path[2:])
-                    ))
-                )
-    except IndexError:
-        return False
+    if len(path) == 0:  # Empty path
+        return True
+    return (len(path) % 2 == 1 and  # [s] or [s, a, s, ...]
+            isinstance(path[0], State) and
+            all(isinstance(a, Action) and
+                isinstance(s2, State) and
+                a.check(s1, s2)  # pre/post
+                for (s1, a, s2) in split_path(path)))
 
 
 def split_path(path):
-- 
2.43.0


From 4b0701db220e5c592f45bc8770690bf5f9525bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:31 +0000
Subject: [PATCH 21/68] fix: keep the current node on unexpected observations

The runner of policy graphs had lost its current node when raising Impossible.
---
 task_models/lib/pomdp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 338e83d..5152610 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -455,9 +455,10 @@ class GraphPolicyRunner(object):
         return self.gp.get_action(self.current)
 
     def step(self, observation):
-        self.current = self.gp.next(self.current, observation)
-        if self.current is None:
+        new = self.gp.next(self.current, observation)
+        if new is None:
             raise Impossible('Got unexpected observation')
+        self.current = new
 
 
 class GraphPolicyBeliefRunner(GraphPolicyRunner):
-- 
2.43.0


From 769a29ffc7560354eb9f43245c340b7a631b97f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:34 +0000
Subject: [PATCH 22/68] fix: validation of the policies loaded from the solver

Successors out of the graph by one and negative actions or successors were
accepted, and policies without any transition raised ValueError.
---
 task_models/lib/pomdp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 5152610..6132ebc 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -371,8 +371,10 @@ class POMDP:
         with open(policy_graph_file, 'r') as pf:
             actions2, pg = parse_policy_graph(pf)
         assert(actions == actions2)  # policy and value function share actions
-        assert(max(actions) < len(self.actions))  # actions are well-formed
-        assert(max([t for ts in pg for t in ts if t is not None]) <= len(pg))
+        # actions are well-formed
+        assert(all([0 <= a < len(self.actions) for a in actions]))
+        assert(all([0 <= t < len(pg)
+                    for ts in pg for t in ts if t is not None]))
         # (transitions are well-formed)
         action_names = [self.actions[a] for a in actions]
         return GraphPolicy(action_names, self.observations, pg, vf,
-- 
2.43.0


From e1f55abf16c231845eec6544add0a686d8c34420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:36 +0000
Subject: [PATCH 23/68] fix: skip blank lines of policy graph files

Lines are stripped first and an empty string is not a space.
---
 task_models/lib/pomdp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 6132ebc..4f1ae1e 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -44,13 +44,13 @@ def parse_value_function(reader):
 def parse_policy_graph(reader):
     actions = []
     transitions = []
-    for i, line in enumerate(reader):
+    for line in reader:
         line = line.rstrip('\n').rstrip()
-        if not line.isspace():
+        if line:
             # 'N A  Z1 Z2 Z3'.split(' ') -> ['N', 'A', '', 'Z1', 'Z2', 'Z3']
             l = line.split(' ')
             n = int(l[0])  # Node name
-            assert(n == i)
+            assert(n == len(actions))
             actions.append(int(l[1]))
             transitions.append([None if x == '-' else int(x) for x in l[3:]])
     return actions, transitions
-- 
2.43.0


From fb02bed55568b58b7580b10c65d0179fafea34eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:21 +0000
Subject: [PATCH 24/68] fix: spread the compensation of rounding errors in
 solver files

Compensating all rounding errors of a row on its largest coefficient makes it
wrong on large models, and even a negative probability (for instance for a
uniform distribution over 600 states). Now each coefficient is wrong by at most
one unit of the last decimal.
---
 task_models/lib/pomdp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 4f1ae1e..47f2c62 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -87,10 +87,13 @@ def _dump_list_or_count(lst_or_int):
 def _dump_1d_array(a):
     # Make sure that sum stays the same even after trunc
     trunc_sum = np.around(a.sum(), decimals=DECIMALS)
-    trunc = np.around(a, decimals=DECIMALS)
-    imax = np.argmax(trunc)
-    # Compensate on max to avoid negative values
-    trunc[imax] += trunc_sum - trunc.sum()
+    trunc = np.around(np.asarray(a, dtype=float), decimals=DECIMALS)
+    unit = 10. ** -DECIMALS
+    n_units = int(round((trunc_sum - trunc.sum()) / unit))
+    # Compensate on coefficients with worst rounding to avoid negative values
+    sign = np.sign(n_units)
+    worst = np.argsort(sign * (trunc - a), kind='stable')[:abs(n_units)]
+    trunc[worst] += sign * unit
     return ' '.join([NUMBER_FORMAT.format(x) for x in trunc])
 
 
-- 
2.43.0


From a15af3990b434e6e57bfe2ca6cfa8d5a4a05c0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:43 +0000
Subject: [PATCH 25/68] fix: one trajectory tree for each possible start state

All the possible start states were set in the same belief, which was then not a
distribution.
---
 task_models/lib/pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 47f2c62..0b24140 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -511,7 +511,7 @@ class GraphPolicyBeliefRunner(GraphPolicyRunner):
     def trajectory_trees_from_starts(self, horizon=5):
         start = self.pomdp.start
         trees = []
-        for s in start.nonzero():
+        for s in start.nonzero()[0]:
             b = np.zeros(start.shape)
             b[s] = 1.
             self.reset(belief=b)
-- 
2.43.0


From 7b93bfe854546f1c89c501550a827a1f8ee2a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:45 +0000
Subject: [PATCH 26/68] fix: unknown combinations raise ValueError

---
 task_models/task_to_pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index 8293350..fd4f70b 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -118,7 +118,7 @@ class _NodeToPOMDP(object):
                                         subtask_reward=subtask_reward,
                                         flags=flags)
         else:
-            raise ValueError('Unkown combination: ' + type(node))
+            raise ValueError('Unkown combination: ' + str(type(node)))
 
 
 class _LeafToPOMDP(_NodeToPOMDP):
-- 
2.43.0


From ce4c2f2ded08ca785ccf81361a3236c4ff531e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:47 +0000
Subject: [PATCH 27/68] fix: cost of telling intention in structured models

It was read from an attribute that does not exist, hence the structured option
could not be used.
---
 task_models/task_to_pomdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index fd4f70b..1228205 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -270,8 +270,8 @@ class _LeafToPOMDP(_NodeToPOMDP):
         R[a_phy, s_r, :, :] = self.t_rob + intr_cost
         if 'structured' in self.flags:
             R[a_ti, :, :, :] = 100
-            R[a_ti, s_i, s_h, :] = self.t_com + intr_cost
-            R[a_ti, s_i, s_r, :] = self.t_com + intr_cost
+            R[a_ti, s_i, s_h, :] = self.t_tell + intr_cost
+            R[a_ti, s_i, s_r, :] = self.t_tell + intr_cost
         if 'subtask_reward' in self.flags:
             # Value transitions to any other node
             R[:, s_start:(s_start + 3), :s_start, :] -= self.subtask_reward
-- 
2.43.0


From d620822a54d0b804ab69e00983201c8be19ee812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:49 +0000
Subject: [PATCH 28/68] fix: probabilities of next subtasks in deterministic
 models

The transition was uniform over next initial states instead of over
alternatives, contrary to the same transition in non-deterministic models.
---
 task_models/task_to_pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index 1228205..be01963 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -201,7 +201,7 @@ class _LeafToPOMDP(_NodeToPOMDP):
         if 'deterministic' in self.flags:
             T[:, s_h, s_h] = 1.
             T[a_af, s_h, s_h] = 0.
-            T[a_af, s_h, s_next] = uniform(len(s_next))
+            T[a_af, s_h, s_next] = s_next_probas
         else:
             p_h_not_finish = self._h_probas_not_finished_from_d(
                     np.asarray(durations))
-- 
2.43.0


From 78cc5a40dc8205c78c3ea058b512c6f27a3438bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:51 +0000
Subject: [PATCH 29/68] fix: looping tasks restart from the start distribution

The transitions from the end state were not normalized in role assignment
models with several initial states, not set after the reward state, and
ignored the probabilities of nested alternatives in bring-next models.
---
 task_models/bring_next_to_pomdp.py |  6 +++---
 task_models/task_to_pomdp.py       | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/task_models/bring_next_to_pomdp.py b/task_models/bring_next_to_pomdp.py
index 4381b6f..3184ad4 100644
--- a/task_models/bring_next_to_pomdp.py
+++ b/task_models/bring_next_to_pomdp.py
@@ -203,10 +203,10 @@ class HTMToPOMDP:
         if no_answer:
             self.flags.add(NO_ANSWER)
 
-    def update_T_end(self, T, init):
+    def update_T_end(self, T, init, start):
         if LOOP in self.flags:
             # Loop on success
-            T[:, self.end, init] = 1. / len(init)
+            T[:, self.end, init] = start
         else:
             T[:, self.end, self.end] = 1.
 
@@ -241,7 +241,7 @@ class HTMToPOMDP:
         end = n_s - 1
         T = np.zeros((n_a, n_s, n_s))
         n2p.update_T(T, self, 0, [end], [1.])
-        self.update_T_end(T, n2p.init)
+        self.update_T_end(T, n2p.init, n2p.start)
         O = np.zeros((n_a, n_s, n_o))
         self.init_O(O)
         n2p.update_O(O, self, 0, [end])
diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index be01963..aa3c050 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -409,12 +409,12 @@ class HTMToPOMDP:
         if subtask_reward is not None:
             self.flags.add('subtask_reward')
 
-    def update_T_end(self, T, init):
+    def update_T_end(self, T, init, start):
+        if 'reward_state' in self.flags:
+            T[:, self.endr, self.end] = 1.  # go to end after reward
         if 'loop' in self.flags:
-            T[:, self.end, init] = 1.  # go back to start
+            T[:, self.end, init] = start  # go back to start
         else:
-            if 'reward_state' in self.flags:
-                T[:, self.endr, self.end] = 1.  # go to end after reward
             T[:, self.end, self.end] = 1.  # end stats is stable
 
     def update_O_wait(self, O):
@@ -450,7 +450,7 @@ class HTMToPOMDP:
         durations = [self.t_wait] + n2p.durations
         T = np.zeros((n_a, n_s, n_s))
         n2p.update_T(T, self.wait, 1, 0, [end], [1.], durations)
-        self.update_T_end(T, n2p.init)
+        self.update_T_end(T, n2p.init, n2p.start)
         O = np.zeros((n_a, n_s, n_o))
         n2p.update_O(O, 1, 0, [end], [], [end])
         self.update_O_wait(O)
-- 
2.43.0


From 5bdf96a37cbb21e96e7975c5c29c7bcf8b93a0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:53 +0000
Subject: [PATCH 30/68] fix: load exported task files

Leaves were recognized by their attributes so that nodes without agent, that
is most leaves of the files in visualization/htm/json, were taken for
combinations, and highlighted combinations for leaves. The highlighting was
also dropped.
---
 task_models/json_to_htm.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/task_models/json_to_htm.py b/task_models/json_to_htm.py
index 0efbf1a..31ef933 100644
--- a/task_models/json_to_htm.py
+++ b/task_models/json_to_htm.py
@@ -14,10 +14,14 @@ def build_htm(node):
     idx = node['id']
     parent = node['parent']
 
+    highlighted = 'highlighted' in node['attributes']
+
     # Base case, if no children than node is an action
-    if node['attributes']:
+    if 'children' not in node:
         agent = [a for a in node['attributes'] if not a == 'highlighted']
-        return LeafCombination(Action(name=name, agent=agent[0]), idx=idx, parent=parent)
+        action = Action(name, agent[0]) if agent else Action(name)
+        return LeafCombination(action, idx=idx, parent=parent,
+                               highlighted=highlighted)
 
     children = []
     for c in node['children']:
@@ -25,7 +29,9 @@ def build_htm(node):
         children.append(build_htm(c))
 
     # Will wrap subtree in a combination depending on combination attribute
-    return COMBINATION_CLASSES[combination](children, name=name, idx=idx, parent=parent)
+    return COMBINATION_CLASSES[combination](children, name=name, idx=idx,
+                                            parent=parent,
+                                            highlighted=highlighted)
 
 
 def json_to_htm(json_path):
-- 
2.43.0


From d9c0ab019fb32f9a2af36160f695ff8a2bf0c0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:56 +0000
Subject: [PATCH 31/68] fix: report workers killed by a signal

Their exit code is negative and was considered as a success: the missing result
only appeared as an empty queue in the end.
---
 task_models/utils/multiprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/utils/multiprocess.py b/task_models/utils/multiprocess.py
index 5f6ad23..f9700f6 100644
--- a/task_models/utils/multiprocess.py
+++ b/task_models/utils/multiprocess.py
@@ -57,7 +57,7 @@ class RepeatPool:
                         for w in self.workers]
 
     def _clean_job(self, w):
-        if w.exitcode > 0:
+        if w.exitcode != 0:
             raise RuntimeError("A subprocess has failed.")
         w.join()
         return None
-- 
2.43.0


From 6bd9196d586c0733611936a30b824cfb9d58ba53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:58 +0000
Subject: [PATCH 32/68] fix: observed index in trees exported by task steps

It must index the observations of the parent node, as in the trees exported
with full beliefs and as used by visualization/pomcp.
---
 task_models/lib/pomcp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 647bacf..8636562 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -623,8 +623,8 @@ def export_pomcp(policy, destination, belief_as_quotient=False):
                 child = children[i]
                 d['observations'] = child['observations']
                 d['children'] = child['children']
-                for c, o in zip(d['children'], d['observations']):
-                    c['observed'] = model.observations.index(o)
+                for i, c in enumerate(d['children']):
+                    c['observed'] = i
             return d
 
         dic['graphs'] = [policy.tree.map(to_dict, join_children)]
-- 
2.43.0


From 6e30602c9f0b85a536d6c0737968f0abdb056a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:31 +0000
Subject: [PATCH 33/68] fix: equal beliefs have equal hashes and beliefs always
 compare

The hash depended on the numeric type of the array (a start belief given as
integers was different from the same belief reached later) and comparing
beliefs over different numbers of states failed.
---
 task_models/lib/belief.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/belief.py b/task_models/lib/belief.py
index 0e43555..1d7d488 100644
--- a/task_models/lib/belief.py
+++ b/task_models/lib/belief.py
@@ -22,11 +22,12 @@ class ArrayBelief(BaseBelief):
         assert_normal(self.array, name='probabilities')
 
     def __hash__(self):
-        return hash(self.array.tostring())
+        # Adding zero converts to float and removes negative zeros
+        return hash((self.array + 0.).tobytes())
 
     def __eq__(self, other):
         return (isinstance(other, ArrayBelief) and
-                (self.array == other.array).all())
+                np.array_equal(self.array, other.array))
 
     def sample(self):
         return np.random.choice(self.array.shape[0], p=self.array)
-- 
2.43.0


From 88dea673177cbb8663b686dc06716fe1e67c0c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:22 +0000
Subject: [PATCH 34/68] fix: reloaded models with default names are dumped with
 counts

---
 task_models/lib/pomdp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 0b24140..ec87e4d 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -80,6 +80,9 @@ def _dump_list(lst):
 def _dump_list_or_count(lst_or_int):
     if isinstance(lst_or_int, int):
         return str(lst_or_int)
+    elif list(lst_or_int) == list(range(len(lst_or_int))):
+        # Default names, given as a list (mnemonics can not be integers)
+        return str(len(lst_or_int))
     else:
         return _dump_list(lst_or_int)
 
-- 
2.43.0


From 7d2b6e24c6047678a00db8fd9af36b308145bfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:11 +0000
Subject: [PATCH 35/68] fix: copies of collaborative actions keep their class
 and agent

---
 task_models/task_to_pomdp.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index aa3c050..4a10373 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -40,12 +40,6 @@ class CollaborativeAction(AbstractAction):
         self.no_proba = no_probability
         self.fail_proba = fail_probability
 
-    def copy(self, rename_format):
-        return CollaborativeAction(
-            rename_format.format(self.name), self.durations,
-            human_probability=self.h_proba, fail_probability=self.fail_proba,
-            no_probability=self.no_proba)
-
 
 def _name_radix(action):
     return action.name.lower().replace(' ', '-')
-- 
2.43.0


From 43fca9e3aec4ca5e2a274dfa8e5f1cbba3b71f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:13 +0000
Subject: [PATCH 36/68] fix: alternatives need one probability for each child

---
 task_models/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/task_models/task.py b/task_models/task.py
index d34c197..eb4012b 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -479,6 +479,8 @@ class AlternativeCombination(Combination):
             num_children = len(self.children)
             prob = float(1) / num_children
             self._proba = [prob] * num_children
+        elif len(probabilities) != len(self.children):
+            raise ValueError("There should be one prob value per child.")
         elif np.min(probabilities) < 0:
             raise ValueError("At least one prob value is < 0.")
         elif np.max(probabilities) > 1:
-- 
2.43.0


From 869e31741dfd84e2977fb5ac9fc04bf798c1e35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:05 +0000
Subject: [PATCH 37/68] fix: asynchronous get_action honours the requested
 iterations

---
 task_models/lib/pomcp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 8636562..bd1b792 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -578,7 +578,8 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
 
     def get_action(self, iterations=None):
         # Start with minimal number of iterations to have explored all actions
-        a = self.thread.execute(super(AsyncPOMCPPolicyRunner, self).get_action)
+        a = self.thread.execute(super(AsyncPOMCPPolicyRunner, self).get_action,
+                                iterations=iterations)
         self.thread.execute(self.thread.set_action, self._last_action)
         return a
 
-- 
2.43.0


From 2e79b9d36d164ebce00ebed0053ccfc3e4aa865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:25 +0000
Subject: [PATCH 38/68] fix: convert meta-actions to combinations

---
 task_models/task.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index eb4012b..079e487 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -328,6 +328,11 @@ class MetaAction(AbstractAction):
            'alternative': '∨',
            }
 
+    COMBINATIONS = {'sequence': 'Sequential',
+                    'parallel': 'Parallel',
+                    'alternative': 'Alternative',
+                    }
+
     def __init__(self, kind, actions):
         super(MetaAction, self).__init__(self._name(kind, actions))
         self.kind = kind
@@ -353,7 +358,7 @@ class MetaAction(AbstractAction):
         children = [
             a.to_combination() if isinstance(a, MetaAction) else LeafCombination(a)
             for a in self.actions]
-        return COMBINATION_CLASSES[self.kind](children)
+        return COMBINATION_CLASSES[self.COMBINATIONS[self.kind]](children)
 
     @classmethod
     def _name(cls, kind, actions):
-- 
2.43.0


From 5091b11b766b009ed8ff33a624b211af2abd0709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:28 +0000
Subject: [PATCH 39/68] fix: equal meta-actions hash equally

---
 task_models/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 079e487..96c8f04 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -344,7 +344,8 @@ class MetaAction(AbstractAction):
                 self.actions == other.actions)
 
     def __hash__(self):
-        return hash(self.name)
+        # The name depends on the iteration order of sets of actions
+        return hash((self.kind, frozenset(self.actions)))
         # Needs to re-implement __hash__ despite inheritence (see following
         # from datamodels doc).
         # A class that overrides __eq__() and does not define __hash__() will
-- 
2.43.0


From 250c6d37bf651a9fef4ddd335e59d1bb60c39937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:55 +0000
Subject: [PATCH 40/68] fix: ignore self loops in max_cliques

---
 task_models/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/task_models/task.py b/task_models/task.py
index 96c8f04..db5d983 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -62,6 +62,8 @@ def max_cliques(graph):
         (must verify: v in graph[u] => u in graph[v])
     :returns: iterator over cliques (as sets)
     """
+    # A node is not its own neighbour
+    graph = {u: set(graph[u]).difference([u]) for u in graph}
     # yield from
     for clique in _bron_kerbosch(graph, set(), set(graph), set()):
         if len(clique) > 1:  # non-trivial
-- 
2.43.0


From 96f71cdab90b19264beb7334d31b14a1a352963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:39 +0000
Subject: [PATCH 41/68] fix: hashes of features and beliefs do not depend on
 small numeric types

Adding a Python float keeps float32 arrays and converts int8 ones to float16,
so that equal states, conditions or beliefs could hash differently.
---
 task_models/action.py     | 5 +++--
 task_models/lib/belief.py | 4 ++--
 task_models/state.py      | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/task_models/action.py b/task_models/action.py
index 42ffa49..d4a7bda 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -26,8 +26,9 @@ class Condition(object):
         self.value = value
 
     def __hash__(self):
-        # Adding zero converts to float and removes negative zeros
-        return hash(((self.mask + 0.).tobytes(), (self.value + 0.).tobytes()))
+        # Does not depend on the numeric type; adding zero removes negative zeros
+        return hash(((np.asarray(self.mask, dtype=float) + 0.).tobytes(),
+                     (np.asarray(self.value, dtype=float) + 0.).tobytes()))
 
     def __eq__(self, other):
         return (isinstance(other, Condition) and
diff --git a/task_models/lib/belief.py b/task_models/lib/belief.py
index 1d7d488..da38d77 100644
--- a/task_models/lib/belief.py
+++ b/task_models/lib/belief.py
@@ -22,8 +22,8 @@ class ArrayBelief(BaseBelief):
         assert_normal(self.array, name='probabilities')
 
     def __hash__(self):
-        # Adding zero converts to float and removes negative zeros
-        return hash((self.array + 0.).tobytes())
+        # Does not depend on the numeric type; adding zero removes negative zeros
+        return hash((np.asarray(self.array, dtype=float) + 0.).tobytes())
 
     def __eq__(self, other):
         return (isinstance(other, ArrayBelief) and
diff --git a/task_models/state.py b/task_models/state.py
index abba80d..3236dc9 100644
--- a/task_models/state.py
+++ b/task_models/state.py
@@ -34,8 +34,8 @@ class NDimensionalState(State):
         self.features = vector
 
     def __hash__(self):
-        # Adding zero converts to float and removes negative zeros
-        return hash((self.features + 0.).tobytes())
+        # Does not depend on the numeric type; adding zero removes negative zeros
+        return hash((np.asarray(self.features, dtype=float) + 0.).tobytes())
 
     def __eq__(self, other):
         return (isinstance(other, NDimensionalState) and
-- 
2.43.0


From bf753a823ced2832866831608dac431c37733689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:20:33 +0000
Subject: [PATCH 42/68] fix: repeat terminates when a process dies while
 sending its result

All processes shared one queue: when one of them was killed in the middle of a
large result, the caller blocked on the truncated message and the other
processes on the lock of the queue, forever.
---
 task_models/utils/multiprocess.py | 45 ++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/task_models/utils/multiprocess.py b/task_models/utils/multiprocess.py
index f9700f6..62f2e55 100644
--- a/task_models/utils/multiprocess.py
+++ b/task_models/utils/multiprocess.py
@@ -1,8 +1,8 @@
 import os
 import subprocess
-from queue import Empty
 from datetime import timedelta
-from multiprocessing import Process, cpu_count, Queue
+from multiprocessing import Process, cpu_count, Pipe
+from multiprocessing.connection import wait
 
 import numpy as np
 
@@ -18,36 +18,51 @@ class RepeatPool:
         self.n_processes = cpu_count()
         self.target = target
 
-    def work(self, seed):
+    def work(self, seed, connection):
         np.random.seed(seed)
         result = self.target()
-        self.result_queue.put(result)
+        connection.send(result)
 
     def run(self, n):
         self.workers = [None] * self.n_processes
         self.to_go = n  # Number of repetitions still to be run
-        self.result_queue = Queue()
+        # One pipe per process: a process that dies while sending its result
+        # neither blocks the other ones nor the collection of their results.
+        self.connections = []
         results = []
         while self._still_working():
-            self._clean()
             self._fill()
-            try:  # Waits for at least one job to push results.
-                results.append(self.result_queue.get(False, 1))
-            except Empty:  # The timeout prevents blocking if jobs fail to push
-                pass
-        # Collect remaining results just in case
-        results.extend([self.result_queue.get_nowait()
-                        for _ in range(n - len(results))])
+            # Waits for at least one job to push results or to end.
+            ready = wait(self.connections + [w.sentinel for w in self.workers
+                                             if w is not None])
+            results.extend([self._receive(c) for c in list(self.connections)
+                            if c in ready])
+            self._clean()
         return results
 
+    def _receive(self, connection):
+        self.connections.remove(connection)
+        try:
+            return connection.recv()
+        except (EOFError, OSError):  # before or while sending
+            raise RuntimeError("A subprocess has failed.")
+        finally:
+            connection.close()
+
     def _still_working(self):
-        return self.to_go > 0 or any([w is not None for w in self.workers])
+        return (self.to_go > 0 or len(self.connections) > 0 or
+                any([w is not None for w in self.workers]))
 
     def _start_or_None(self):
         if self.to_go > 0:
             self.to_go -= 1
-            p = Process(target=self.work, args=(np.random.randint(2**32),))
+            receiver, sender = Pipe(duplex=False)
+            p = Process(target=self.work,
+                        args=(np.random.randint(2**32), sender))
             p.start()
+            # Only the new process has to keep this end
+            sender.close()
+            self.connections.append(receiver)
             return p
         else:
             return None
-- 
2.43.0


From 8a5f6b448fd077764e32913ddac7e80e54bae30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:10 +0000
Subject: [PATCH 43/68] fix: repeat stops its other processes when a run fails

They were left running, and blocked forever, together with the exit of the
caller, if their results did not fit in the pipe.
---
 task_models/utils/multiprocess.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/task_models/utils/multiprocess.py b/task_models/utils/multiprocess.py
index 62f2e55..adc50e7 100644
--- a/task_models/utils/multiprocess.py
+++ b/task_models/utils/multiprocess.py
@@ -30,14 +30,17 @@ class RepeatPool:
         # neither blocks the other ones nor the collection of their results.
         self.connections = []
         results = []
-        while self._still_working():
-            self._fill()
-            # Waits for at least one job to push results or to end.
-            ready = wait(self.connections + [w.sentinel for w in self.workers
-                                             if w is not None])
-            results.extend([self._receive(c) for c in list(self.connections)
-                            if c in ready])
-            self._clean()
+        try:
+            while self._still_working():
+                self._fill()
+                # Waits for at least one job to push results or to end.
+                ready = wait(self.connections + [w.sentinel for w in self.workers
+                                                 if w is not None])
+                results.extend([self._receive(c) for c in list(self.connections)
+                                if c in ready])
+                self._clean()
+        finally:  # Only finds processes when a run has failed
+            self._stop()
         return results
 
     def _receive(self, connection):
@@ -49,6 +52,12 @@ class RepeatPool:
         finally:
             connection.close()
 
+    def _stop(self):
+        for w in self.workers:
+            if w is not None:
+                w.terminate()
+                w.join()
+
     def _still_working(self):
         return (self.to_go > 0 or len(self.connections) > 0 or
                 any([w is not None for w in self.workers]))
-- 
2.43.0


From d13163f5916009ea5c907bc1af6f6e72e0b66b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:57 +0000
Subject: [PATCH 44/68] fix: never-hold policy of the preference experiment

The action of the scripted policy is a property and could not be assigned.
---
 samples/supportive_evaluation_preference_job.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/supportive_evaluation_preference_job.py b/samples/supportive_evaluation_preference_job.py
index d45ef2e..1da57cd 100644
--- a/samples/supportive_evaluation_preference_job.py
+++ b/samples/supportive_evaluation_preference_job.py
@@ -33,7 +33,7 @@ class Experiment(SupportiveExperiment):
             self.policy = PolicyLongSupportiveSequence(self.model)
         elif self.parameters['policy'] == 'never-hold':
             self.policy = PolicyLongSupportiveSequence(self.model)
-            self.policy._a_next = self.policy._a_wait
+            self.policy._a_next_list = [self.policy._a_wait]
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 2ef9ccfc5f38c5ccad279cea6d9787d13881a598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:51 +0000
Subject: [PATCH 45/68] fix: load exported empty tasks

---
 task_models/json_to_htm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/task_models/json_to_htm.py b/task_models/json_to_htm.py
index 31ef933..684c8c3 100644
--- a/task_models/json_to_htm.py
+++ b/task_models/json_to_htm.py
@@ -36,4 +36,6 @@ def build_htm(node):
 
 def json_to_htm(json_path):
     j = json.load(open(json_path, "r", encoding="utf-8"))
+    if j['nodes'] is None:  # Exported from an empty task
+        return HierarchicalTask()
     return HierarchicalTask(build_htm(j['nodes']))
-- 
2.43.0


From fd2d8ec0bbfa4c49c4e014bd6ccf0fdf88db499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:33:49 +0000
Subject: [PATCH 46/68] fix: width of the counts and clearing of progress bars

---
 task_models/utils/term.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/utils/term.py b/task_models/utils/term.py
index b22460c..bac8698 100644
--- a/task_models/utils/term.py
+++ b/task_models/utils/term.py
@@ -13,7 +13,7 @@ except ImportError:
 
 
 def clear_progress_bar(done, todo, count=True, size=50, color=None, prefix=''):
-    length = 7 + size + 12 * count + len(prefix)
+    length = len(prefix + progress_bar(done, todo, count=count, size=size))
     print(length * ' ', end='\r')
     sys.stdout.flush()
 
@@ -30,7 +30,7 @@ def print_progress_bar(done, todo, count=True, size=50, color=None, prefix=''):
 
 def progress_bar(done, todo, count=True, size=50):
     count_str = ' {:{digits},d}/{:{digits},d}'.format(
-        done, todo, digits=int(todo / 10)
+        done, todo, digits=len('{:,d}'.format(todo))
         ) if count else ''
     return '[{done_bar:.<{size}} {percent:>3d}%] {count}'.format(
         done_bar='#' * int(size * done / todo),
-- 
2.43.0


From bf0297d74daf99181c5958fd9e994cfc8a7a99f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:33:51 +0000
Subject: [PATCH 47/68] fix: removal of tick labels from plots

---
 task_models/utils/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/utils/plot.py b/task_models/utils/plot.py
index b44a103..517ab9f 100644
--- a/task_models/utils/plot.py
+++ b/task_models/utils/plot.py
@@ -208,8 +208,8 @@ def remove_chartjunk(ax, spines, grid=None, ticks=None, ticklabels=None):
     if ticklabels is not None:
         if type(ticklabels) is str:
             ticklabels = [ticklabels]
-        assert set(ticklabels) | set(('x', 'y')) > 0
+        assert set(ticklabels) <= set(('x', 'y'))
         if 'x' in ticklabels:
             ax.set_xticklabels([])
-        elif 'y' in ticklabels:
+        if 'y' in ticklabels:
             ax.set_yticklabels([])
-- 
2.43.0


From 4cbe81e9761b4b560e3af9030b319e66c9af9d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:35:18 +0000
Subject: [PATCH 48/68] fix: grid lines of plots along several axes

---
 task_models/utils/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/utils/plot.py b/task_models/utils/plot.py
index 517ab9f..3375d35 100644
--- a/task_models/utils/plot.py
+++ b/task_models/utils/plot.py
@@ -203,7 +203,7 @@ def remove_chartjunk(ax, spines, grid=None, ticks=None, ticklabels=None):
     if grid is not None:
         for g in grid:
             assert g in ('x', 'y')
-        ax.grid(axis=grid, color='white', linestyle='-', linewidth=0.5)
+            ax.grid(axis=g, color='white', linestyle='-', linewidth=0.5)
 
     if ticklabels is not None:
         if type(ticklabels) is str:
-- 
2.43.0


From b3995f88ff95347fe30af7b53d4539a183411e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:45:44 +0000
Subject: [PATCH 49/68] fix: run a solver found by a relative path

---
 task_models/lib/pomdp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index ec87e4d..917ad5f 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -185,6 +185,8 @@ class POMDP:
                                                   path=solver_path)
         if self._solver_path is None:
             raise ImportError('Could not find executable for pomdp-solve.')
+        # The solver is run from another directory
+        self._solver_path = os.path.abspath(self._solver_path)
 
     def _init_states(self, states, s):
         if states is not None:
-- 
2.43.0


From 6a644d7181fe497e66ed434fa974a854ed95c0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:50:22 +0000
Subject: [PATCH 50/68] fix: refuse NaN as discount factor

---
 task_models/lib/pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 917ad5f..7c5ec19 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -178,7 +178,7 @@ class POMDP:
         self._assert_shapes()
         self._assert_normal()
         self._assert_unique()
-        if discount > 1 or discount < 0:
+        if not 0 <= discount <= 1:
             raise ValueError('Discount factor must be ≤ 1 and ≥ 0.')
         self.discount = discount
         self._solver_path = spawn.find_executable(SOLVER_NAME,
-- 
2.43.0


From f021cac62e7a8bdd7041edd6531edc00b0f39e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:50:44 +0000
Subject: [PATCH 51/68] fix: randomizing a model changed the caller's arrays,
 and raised on integer arrays

---
 task_models/lib/pomdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 7c5ec19..042c326 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -338,9 +338,9 @@ class POMDP:
             return cls.from_dict(d)
 
     def randomize(self, p_unexpected=1.e-3):
-        self.T += p_unexpected
+        self.T = self.T + p_unexpected
         self.T /= self.T.sum(-1)[..., None]
-        self.O += p_unexpected
+        self.O = self.O + p_unexpected
         self.O /= self.O.sum(-1)[..., None]
 
     def solve(self, timeout=None, n_iterations=None, method='incprune',
-- 
2.43.0


From 6e0c71a9cf600fb7ff1cae013a8e70776efbdb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:54:23 +0000
Subject: [PATCH 52/68] fix: garbage collecting a background planner from its
 own thread was a deadlock

---
 task_models/lib/pomcp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index bd1b792..d8e3c0b 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -536,7 +536,12 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
             self._done = True
 
         def stop(self):
-            self.execute(self._set_done)
+            if threading.current_thread() is self:
+                # From the exploration itself, e.g. if it triggers the garbage
+                # collection of the runner: waiting would be a deadlock
+                self._set_done()
+            else:
+                self.execute(self._set_done)
 
         def execute(self, fun, *args, **kwargs):
             """Waits until current exploration is done and execute fun.
@@ -585,7 +590,8 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
 
     def stop(self):
         self.thread.stop()
-        if self.thread.is_alive():
+        if (self.thread.is_alive() and
+                threading.current_thread() is not self.thread):
             self.thread.join()
 
     def execute(self, *args, **kwargs):
-- 
2.43.0


From fde9d2e53ba9b2e1e9727655b6e68ed937fd66da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:15:22 +0000
Subject: [PATCH 53/68] fix: import the online planner from lib.pomcp in the
 samples

---
 samples/pomcp.py      | 2 +-
 samples/supportive.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/samples/pomcp.py b/samples/pomcp.py
index 229285d..9bde2a5 100644
--- a/samples/pomcp.py
+++ b/samples/pomcp.py
@@ -3,7 +3,7 @@ import os
 import json
 from heapq import heappush, heappop
 
-from task_models.lib.pomdp import GraphPolicyBeliefRunner, POMCPPolicyRunner
+from task_models.lib.pomcp import POMCPPolicyRunner
 from task_models.task_to_pomdp import HTMToPOMDP
 from task_models.stool_scenarios import (stool_task_sequential, T_WAIT, T_ASK,
                                          T_TELL, C_INTR)
diff --git a/samples/supportive.py b/samples/supportive.py
index 93f0695..09f4fbc 100644
--- a/samples/supportive.py
+++ b/samples/supportive.py
@@ -6,7 +6,7 @@ import logging
 from task_models.task import SequentialCombination, LeafCombination
 from task_models.supportive import (SupportivePOMDP, AssembleLeg,
                                     AssembleLegToTop, NHTMHorizon)
-from task_models.lib.pomdp import POMCPPolicyRunner, export_pomcp
+from task_models.lib.pomcp import POMCPPolicyRunner, export_pomcp
 
 
 logging.getLogger().setLevel(logging.INFO)
-- 
2.43.0


From f76e8a417a9a9a1ecf3d07b74f881efdd10197fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:15:24 +0000
Subject: [PATCH 54/68] fix: import the converter under its name in the tower
 sample

---
 samples/tower_scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/tower_scenario.py b/samples/tower_scenario.py
index daab940..e93de70 100644
--- a/samples/tower_scenario.py
+++ b/samples/tower_scenario.py
@@ -1,7 +1,7 @@
 import os
 
 from task_models.lib.pomdp import GraphPolicyBeliefRunner
-from task_models.bring_next_to_pomdp import task_modelsToPOMDP
+from task_models.bring_next_to_pomdp import HTMToPOMDP
 from task_models.tower_problem import TowerProblem
 
 
-- 
2.43.0


From 1219f512e3c9a1347f7e504c9657b8a27ddafd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:15:37 +0000
Subject: [PATCH 55/68] fix: announce the robot's telling cost in the htm2pomdp
 sample

---
 samples/htm2pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/htm2pomdp.py b/samples/htm2pomdp.py
index 77fa8c6..c2e35c7 100644
--- a/samples/htm2pomdp.py
+++ b/samples/htm2pomdp.py
@@ -61,7 +61,7 @@ chair_task = HierarchicalTask(root=SequentialCombination(
 
 ## Convert the task into a POMDP
 
-h2p = HTMToPOMDP(T_WAIT, T_COMM, C_INTR, end_reward=R_END, loop=LOOP,
+h2p = HTMToPOMDP(T_WAIT, T_COMM, T_COMM, C_INTR, end_reward=R_END, loop=LOOP,
                  reward_state=False, subtask_reward=R_SUBTASK)
 p = h2p.task_to_pomdp(chair_task)
 #p.discount = .99
-- 
2.43.0


From ffabc97beb0b1d738c482db1bf13e999e9ca51f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:15:39 +0000
Subject: [PATCH 56/68] fix: create the folder the pomcp samples export to

---
 samples/pomcp.py      | 8 +++++---
 samples/supportive.py | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/samples/pomcp.py b/samples/pomcp.py
index 9bde2a5..bce6abf 100644
--- a/samples/pomcp.py
+++ b/samples/pomcp.py
@@ -132,7 +132,9 @@ dic['states'] = pol.tree.model.states
 dic['exploration'] = EXPLORATION
 dic['relative_exploration'] = RELATIVE_EXPLO
 
-with open(os.path.join(
-        os.path.dirname(__file__),
-        '../visualization/pomcp/json/pomcp.json'), 'w') as f:
+destination = os.path.join(os.path.dirname(__file__),
+                           '../visualization/pomcp/json/pomcp.json')
+if not os.path.isdir(os.path.dirname(destination)):
+    os.makedirs(os.path.dirname(destination))  # not in the repository
+with open(destination, 'w') as f:
     json.dump(dic, f, indent=2)
diff --git a/samples/supportive.py b/samples/supportive.py
index 09f4fbc..900ba5d 100644
--- a/samples/supportive.py
+++ b/samples/supportive.py
@@ -22,6 +22,9 @@ POMCP_DESTINATION = os.path.join(os.path.dirname(__file__),
                                  '../visualization/pomcp/json/pomcp.json')
 HORIZON = 3
 
+if not os.path.isdir(os.path.dirname(POMCP_DESTINATION)):
+    os.makedirs(os.path.dirname(POMCP_DESTINATION))  # not in the repository
+
 
 leg_i = 'leg-{}'.format
 htm = SequentialCombination([
-- 
2.43.0


From a7eba31c3f3bf22954f090484aa410e2d720c810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:17:19 +0000
Subject: [PATCH 57/68] fix: end the pairs of a history without an error in the
 pomcp sample

---
 samples/pomcp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/samples/pomcp.py b/samples/pomcp.py
index bce6abf..775c093 100644
--- a/samples/pomcp.py
+++ b/samples/pomcp.py
@@ -63,8 +63,7 @@ def node_search(pol, order='q', max_nodes=None):
 def by_two(l):
     # Note: silently ignores last if number of elements is not pair
     it = l.__iter__()
-    while True:  # will raise StopIteration on empty
-        yield next(it), next(it)
+    return zip(it, it)
 
 
 def short_a(action):
-- 
2.43.0


From 4966944c2150dede25750a8ea955d1e8e3c12223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:17:21 +0000
Subject: [PATCH 58/68] fix: percentages of visits in the plot of the
 exploration term

---
 samples/plot_exploration_term.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/plot_exploration_term.py b/samples/plot_exploration_term.py
index 2610058..2ef6e89 100644
--- a/samples/plot_exploration_term.py
+++ b/samples/plot_exploration_term.py
@@ -11,7 +11,7 @@ percentages = np.array([1, 5, 10, 30, 50, 70, 100])[:, None]
 ns = np.hstack([np.arange(1, 100), np.arange(200, 100000, 100)])
 
 l_ns = np.log(ns)
-ys = np.sqrt(l_ns / (percentages * ns))
+ys = np.sqrt(l_ns / (percentages / 100. * ns))
 
 plt.interactive(True)
 plt.semilogx(ns, ys.T)
-- 
2.43.0


From 8cb759cee259412691c330ff112e82fe42c823b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:18:37 +0000
Subject: [PATCH 59/68] fix: supportive states of tasks with many objects
 (numbers over 64 bits)

---
 task_models/supportive.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/task_models/supportive.py b/task_models/supportive.py
index 444c4fd..5c81a02 100644
--- a/task_models/supportive.py
+++ b/task_models/supportive.py
@@ -123,7 +123,7 @@ class _SupportivePOMDPState(object):
         self._shift_pref = self._shift_body + n_body_features
         self._shift_htm = self._shift_pref + n_preferences
         self._final_htm = n_htm_states - 1
-        self.s = s
+        self.s = int(s)  # numpy integers are limited to 64 bits
 
     def __str__(self):
         return "<{: >{w}}: {} {} {} {}>".format(
@@ -159,6 +159,7 @@ class _SupportivePOMDPState(object):
 
     @htm.setter
     def htm(self, n):
+        n = int(n)
         self.s += (n << self._shift_htm) - (self.htm << self._shift_htm)
 
     @property
@@ -169,9 +170,10 @@ class _SupportivePOMDPState(object):
         return self.htm == self._final_htm
 
     def _get_bit(self, i):
-        return (self.s >> i) % 2
+        return (self.s >> int(i)) % 2
 
     def _set_bit(self, i, b):
+        i, b = int(i), int(b)
         self.s += (b << i) - (self._get_bit(i) << i)
 
     def has_preference(self, i):
-- 
2.43.0


From 4eb18d2568b4035654b698a728fbabd5ca86ac94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:49:44 +0000
Subject: [PATCH 60/68] fix: trajectories page: links show the observation that
 leads to their target

---
 visualization/trajectories/trajectories.js | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/visualization/trajectories/trajectories.js b/visualization/trajectories/trajectories.js
index cc88747..0f39f9d 100644
--- a/visualization/trajectories/trajectories.js
+++ b/visualization/trajectories/trajectories.js
@@ -63,6 +63,11 @@ function loadtrajectory(file)
     update(root);
   });
 
+  // Observation along a link
+  function observation(link) {
+    return link.source.observations[link.source.children.indexOf(link.target)];
+  }
+
   function update(source) {
     // Compute the new tree layout.
     var nodes = tree.nodes(root),
@@ -129,16 +134,13 @@ function loadtrajectory(file)
 
     // Enter any new links at the parent's previous position.
     link.enter().insert('path', 'g')
-        .attr('class', function(d,i) {
-          console.log('Source ',d.source.observations, i, d.source.observations[i]);
-          // console.log('target ',d.target.observations, i, d.target.observations[i]);
-          return 'link ' + d.source.observations[i]; })
+        .attr('class', function(d) { return 'link ' + observation(d); })
         .attr('d', function(d) {
           var o = {x: source.x0, y: source.y0};
 
           return diagonal({source: o, target: o});
         })
-        .attr('marker-end', function(d,i) { return 'url(#arrowhead_'+d.source.observations[i]+')';});
+        .attr('marker-end', function(d) { return 'url(#arrowhead_'+observation(d)+')';});
 
     // Transition links to their new position.
     link.transition()
-- 
2.43.0


From 18878c6889763e81c738aec375cc71eebada9c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:50:05 +0000
Subject: [PATCH 61/68] fix: pomcp page: highlight the initial node

---
 visualization/pomcp/pomcp.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/visualization/pomcp/pomcp.js b/visualization/pomcp/pomcp.js
index 3e7149f..34b476e 100644
--- a/visualization/pomcp/pomcp.js
+++ b/visualization/pomcp/pomcp.js
@@ -149,7 +149,7 @@ function loadpomcp(file)
           });
 
     function node_class(d) {
-        return 'nodecircle' + ((d.initial) ? ' initial': '');
+        return 'nodecircle' + ((d.data.initial) ? ' initial': '');
     }
 
     nodeEnter.append('circle')
@@ -163,9 +163,9 @@ function loadpomcp(file)
         .attr('dx', function(d) { return 0;})
         .attr('dy', function(d) { return '-0.8em';})
         .attr('text-anchor', 'middle')
-        .attr('class', function(d) { if (d.initial) { return 'nodetext initial'; } return 'nodetext ';})
+        .attr('class', function(d) { if (d.data.initial) { return 'nodetext initial'; } return 'nodetext ';})
         .text(function(d) {
-          return ((d.node) ? '['+d.node+'] ' : '') + shorten_action(d.data.action);
+          return ((d.data.node != null) ? '['+d.data.node+'] ' : '') + shorten_action(d.data.action);
         });
 
     // Transition
-- 
2.43.0


From 1a1bbf6391e695a7e16707e1cdb53579fb8f9503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:50:08 +0000
Subject: [PATCH 62/68] fix: pomcp page: the tables follow the file that is
 loaded

---
 visualization/pomcp/pomcp.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/visualization/pomcp/pomcp.js b/visualization/pomcp/pomcp.js
index 34b476e..f6f8040 100644
--- a/visualization/pomcp/pomcp.js
+++ b/visualization/pomcp/pomcp.js
@@ -57,6 +57,10 @@ function loadpomcp(file)
     exploration = (json.exploration == null) ? 1. : json.exploration;
     relative_exploration = json.relative_exploration;
 
+    // Remove what another file left
+    beliefs.selectAll('td, th.state').remove();
+    values.selectAll('td, th.action').remove();
+
     // Init the belief representation
     beliefs.select("tr.states").selectAll('th:not(.legend)').data(states).enter().append('th')
           .attr("class", "state")
-- 
2.43.0


From d9526c6511deec8d9b681c460d9ca60b9d7bdae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:50:10 +0000
Subject: [PATCH 63/68] fix: policy, pomcp and trajectories pages: load the
 file that is selected

---
 visualization/policy/policy.js             | 3 +++
 visualization/pomcp/pomcp.js               | 3 +++
 visualization/trajectories/trajectories.js | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/visualization/policy/policy.js b/visualization/policy/policy.js
index a052db7..98d978d 100644
--- a/visualization/policy/policy.js
+++ b/visualization/policy/policy.js
@@ -10,6 +10,9 @@ function loadpolicy(file, errors)
   if (file == '') { file = defaultjsonfile;}
   else            { defaultjsonfile = file;};
 
+  // Browsers hide the path of a selected file
+  file = file.replace('C:\\fakepath\\', '');
+
   console.log('Loading file: '+file+' Show Errors: '+errors);
 
   var width  = 1110,
diff --git a/visualization/pomcp/pomcp.js b/visualization/pomcp/pomcp.js
index f6f8040..e943c9c 100644
--- a/visualization/pomcp/pomcp.js
+++ b/visualization/pomcp/pomcp.js
@@ -8,6 +8,9 @@ function loadpomcp(file)
   if (file == '') { file = defaultjsonfile;}
   else            { defaultjsonfile = file;};
 
+  // Browsers hide the path of a selected file
+  file = file.replace('C:\\fakepath\\', '');
+
   console.log('Loading file: '+file);
 
   var width  = 1110,
diff --git a/visualization/trajectories/trajectories.js b/visualization/trajectories/trajectories.js
index 0f39f9d..0d0e032 100644
--- a/visualization/trajectories/trajectories.js
+++ b/visualization/trajectories/trajectories.js
@@ -7,6 +7,9 @@ function loadtrajectory(file)
   if (file == '') { file = defaultjsonfile;}
   else            { defaultjsonfile = file;};
 
+  // Browsers hide the path of a selected file
+  file = file.replace('C:\\fakepath\\', '');
+
   console.log('Loading file: '+file);
 
   var width  = 1110,
-- 
2.43.0


From 298ae14a563b7205fba6fa9b9cc6d207cb2ae009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:50:12 +0000
Subject: [PATCH 64/68] fix: htm page: load a task made of one action

---
 visualization/htm/htm.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visualization/htm/htm.js b/visualization/htm/htm.js
index 2dee7ea..1e6652a 100644
--- a/visualization/htm/htm.js
+++ b/visualization/htm/htm.js
@@ -110,7 +110,7 @@ function loadhtm(file) {
       var nodes = tree.nodes(root).reverse(),
           links = tree.links(nodes);
 
-      root.children.forEach(collapseLevel);
+      if (root.children) { root.children.forEach(collapseLevel); }
       update(root);
 
     });
-- 
2.43.0


From 2d37c2b53b4e24f0abc3e320445de8f00e358cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:50:14 +0000
Subject: [PATCH 65/68] fix: htm page: show the combination of nodes that are
 expanded later

---
 visualization/htm/htm.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visualization/htm/htm.js b/visualization/htm/htm.js
index 1e6652a..bc0aad6 100644
--- a/visualization/htm/htm.js
+++ b/visualization/htm/htm.js
@@ -189,7 +189,7 @@ function loadhtm(file) {
 
     // Add combination if there is a combination and the node is not
     // a terminal node (i.e. it does have children)
-    nodeComb = nodeLabel.filter(function(d){ return d.combination && d.children; })
+    nodeComb = nodeLabel.filter(function(d){ return d.combination && (d.children || d._children); })
                         .append('g')
                         .attr('class','combination');
 
-- 
2.43.0


From 8e2ba560655979efba8c234746e3e3237a6053b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:50:16 +0000
Subject: [PATCH 66/68] fix: htm page: do not keep the nodes of another task

---
 visualization/htm/htm.js | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/visualization/htm/htm.js b/visualization/htm/htm.js
index bc0aad6..dd6b649 100644
--- a/visualization/htm/htm.js
+++ b/visualization/htm/htm.js
@@ -103,6 +103,9 @@ function loadhtm(file) {
     {
       if (error) {throw error;}
 
+      // Nodes of another task may have the same ids
+      draw.selectAll('*').remove();
+
       root = json.nodes;
       root.x0 = 0;
       root.y0 = 0;
@@ -118,6 +121,9 @@ function loadhtm(file) {
   else {
     console.log('Loading from'+defaultjsondata+' with depth '+treedepth);
 
+    // Nodes of another task may have the same ids
+    draw.selectAll('*').remove();
+
     root = JSON.parse(defaultjsondata).nodes;
     root.x0 = 0;
     root.y0 = 0;
-- 
2.43.0


From b1afcfd820b85564e0d251cc0a885afffce3d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:19:24 +0000
Subject: [PATCH 67/68] fix: compact nodes given as an iterator in conjugate
 graphs

The iterator was consumed by the base class, so that the initial and
terminal markers were not moved to the new node.
---
 task_models/task.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/task_models/task.py b/task_models/task.py
index db5d983..1091866 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -253,6 +253,7 @@ class ConjugateTaskGraph(BaseGraph):
 
     def compact(self, nodes, new_node):
         # TODO: is this really the desired behavior?
+        nodes = set(nodes)  # Used twice (may be an iterator)
         super(ConjugateTaskGraph, self).compact(nodes, new_node)
         if self.initial in nodes:
             self.initial = new_node
-- 
2.43.0


From 5365f52a81485828b79c21965557a033b862b495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:27:55 +0000
Subject: [PATCH 68/68] fix: export the agents of actions with the hierarchy

Agents of leaves are read by json_to_htm and shown by the htm page, but
they were lost when a hierarchy was exported.
---
 task_models/task.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 1091866..66534cc 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -446,7 +446,10 @@ class LeafCombination(BaseCombination):
         raise ValueError('A leaf does not have children.')
 
     def as_dictionary(self, parent, id_generator):
-        return self._meta_dictionary(parent, id_generator)
+        d = self._meta_dictionary(parent, id_generator)
+        if self.action.agent != 'None':  # As read by json_to_htm
+            d['attributes'].append(self.action.agent)
+        return d
 
     def deep_copy(self, rename_format='{}'):
         return LeafCombination(self.action.copy(rename_format=rename_format),
-- 
2.43.0

