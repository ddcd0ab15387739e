From e62b8a346b9716840d76db52ee2b2222b4a2832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:14 +0000
Subject: [PATCH 01/55] fix: return the result of
 AsyncPOMCPPolicyRunner.execute

---
 task_models/lib/pomcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 4194f96..80376d9 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -587,7 +587,7 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
             self.thread.join()
 
     def execute(self, *args, **kwargs):
-        self.thread.execute(*args, **kwargs)
+        return self.thread.execute(*args, **kwargs)
 
     def __del__(self):
         self.stop()
-- 
2.43.0


From 7388263f49ec82846f2edd3eb989562b47484b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:14 +0000
Subject: [PATCH 02/55] fix: step of the asynchronous runner excludes
 background exploration

The lookup (and creation) of the node for the new history ran outside of the
lock, concurrently with an exploration of the same tree that could then
overwrite the node and lose its visits.
---
 task_models/lib/pomcp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 80376d9..50d04ff 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -568,8 +568,12 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
         self.thread.start()
 
     def step(self, observation):
+        # Looking up the new node may create it: not during an exploration.
+        self.thread.execute(self._step, observation)
+
+    def _step(self, observation):
         super(AsyncPOMCPPolicyRunner, self).step(observation)
-        self.thread.execute(self.thread.set_node, self._node)
+        self.thread.set_node(self._node)
 
     def reset(self, belief=None):
         self._reset(belief=belief)
-- 
2.43.0


From a5ee839799ec4ab1d7c0d7f76734a328e494d6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:14 +0000
Subject: [PATCH 03/55] fix: asynchronous get_action honours its iterations
 argument

---
 task_models/lib/pomcp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 50d04ff..099f788 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -581,7 +581,8 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
 
     def get_action(self, iterations=None):
         # Start with minimal number of iterations to have explored all actions
-        a = self.thread.execute(super(AsyncPOMCPPolicyRunner, self).get_action)
+        a = self.thread.execute(super(AsyncPOMCPPolicyRunner, self).get_action,
+                                iterations=iterations)
         self.thread.execute(self.thread.set_action, self._last_action)
         return a
 
-- 
2.43.0


From aa32c1966a1da6ee14c6a22c8175a9b1b516f01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:14 +0000
Subject: [PATCH 04/55] fix: stopping the asynchronous runner ends its thread

Thread.isAlive no longer exists, and overriding Thread._stop breaks is_alive
and join.
---
 task_models/lib/pomcp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 099f788..7c0ffa7 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -532,11 +532,11 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
             self._done = False
             self._lock = threading.Lock()
 
-        def _stop(self):
+        def _set_done(self):  # Not _stop: used by threading.Thread
             self._done = True
 
         def stop(self):
-            self.execute(self._stop)
+            self.execute(self._set_done)
 
         def execute(self, fun, *args, **kwargs):
             """Waits until current exploration is done and execute fun.
@@ -588,7 +588,7 @@ class AsyncPOMCPPolicyRunner(POMCPPolicyRunner):
 
     def stop(self):
         self.thread.stop()
-        if self.thread.isAlive():
+        if self.thread.is_alive():
             self.thread.join()
 
     def execute(self, *args, **kwargs):
-- 
2.43.0


From ea952605203f7284dee17a79264a35ce32909f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:10 +0000
Subject: [PATCH 05/55] fix: a rejected observation leaves GraphPolicyRunner
 where it was

---
 task_models/lib/pomdp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 338e83d..5152610 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -455,9 +455,10 @@ class GraphPolicyRunner(object):
         return self.gp.get_action(self.current)
 
     def step(self, observation):
-        self.current = self.gp.next(self.current, observation)
-        if self.current is None:
+        new = self.gp.next(self.current, observation)
+        if new is None:
             raise Impossible('Got unexpected observation')
+        self.current = new
 
 
 class GraphPolicyBeliefRunner(GraphPolicyRunner):
-- 
2.43.0


From f2b79926caaa8b09543412f29ef7b5fd0357eebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:48 +0000
Subject: [PATCH 06/55] fix: copies of task actions keep their class and
 attributes

---
 task_models/task.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 6c7866e..873f33a 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -25,6 +25,7 @@ combination.
 """
 
 import numpy as np
+from copy import copy
 from itertools import permutations
 from .state import State
 from .action import Action
@@ -227,7 +228,9 @@ class AbstractAction(Action):
         return True
 
     def copy(self, rename_format='{}'):
-        return AbstractAction(rename_format.format(self.name))
+        action = copy(self)  # keeps class and attributes (e.g. conditions)
+        action.name = rename_format.format(self.name)
+        return action
 
 
 class ConjugateTaskGraph(BaseGraph):
-- 
2.43.0


From 126c860d4d179d60ea3c2c1046099b9c902fbeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:48 +0000
Subject: [PATCH 07/55] fix: copying a supportive state keeps its number of HTM
 states

---
 task_models/supportive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/supportive.py b/task_models/supportive.py
index 800c26e..96035a3 100644
--- a/task_models/supportive.py
+++ b/task_models/supportive.py
@@ -224,7 +224,7 @@ class _SupportivePOMDPState(object):
             self.set_preference(i, 1 - self.has_preference(i))
 
     def copy(self):
-        return type(self)(self.n_htm + 1, self.n_preferences,
+        return type(self)(self.n_htm, self.n_preferences,
                           self.n_body_features, self.n_objects, s=self.s)
 
 
-- 
2.43.0


From 94eb4779ff7d8eba3795e84032f00a0f1a46e4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:30 +0000
Subject: [PATCH 08/55] fix: preferences of a belief are computed with an index
 tuple

---
 task_models/supportive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/supportive.py b/task_models/supportive.py
index 96035a3..444c4fd 100644
--- a/task_models/supportive.py
+++ b/task_models/supportive.py
@@ -209,7 +209,7 @@ class _SupportivePOMDPState(object):
         def sum_all_but(arr, axis):
             iii = [slice(None) for _ in arr.shape]
             iii[axis] = -1
-            return arr[iii].sum()
+            return arr[tuple(iii)].sum()
 
         return [sum_all_but(pp, i) for i, _ in enumerate(pp.shape)]
 
-- 
2.43.0


From c6ff66c0ff190f9ea2408831ad2b65ed1ec9d326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:51 +0000
Subject: [PATCH 09/55] fix: a worker killed by a signal fails the repetition

---
 task_models/utils/multiprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/utils/multiprocess.py b/task_models/utils/multiprocess.py
index 5f6ad23..b06e6e9 100644
--- a/task_models/utils/multiprocess.py
+++ b/task_models/utils/multiprocess.py
@@ -57,7 +57,7 @@ class RepeatPool:
                         for w in self.workers]
 
     def _clean_job(self, w):
-        if w.exitcode > 0:
+        if w.exitcode != 0:  # negative if killed by a signal
             raise RuntimeError("A subprocess has failed.")
         w.join()
         return None
-- 
2.43.0


From f42cc65d384309adbb77b3217e52f15be9a7fac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:25 +0000
Subject: [PATCH 10/55] fix: discount the return of an evaluation from its
 first step

---
 task_models/evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/evaluation.py b/task_models/evaluation.py
index b34228f..58df99a 100644
--- a/task_models/evaluation.py
+++ b/task_models/evaluation.py
@@ -75,11 +75,11 @@ def simulate_one_evaluation(model, pol, max_horizon=200, logger=None,
         h_a.append(a)
         s, o, r = model.sample_transition(a, h_s[-1])  # real transition
         h_o.append(o)
+        full_return += gamma ** len(h_r) * r
         h_r.append(r)
         horizon.decrement(a, h_s[-1], s, o)
         pol.step(model.observations[o])
         h_s.append(s)
-        full_return = r + gamma * full_return
     elapsed = get_process_elapsed_time()
     n_calls = model.n_simulator_calls - init_calls
     if logger is not None:
-- 
2.43.0


From b08e6cceeb569677135e6e795d5f6a4cc2200bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:22 +0000
Subject: [PATCH 11/55] fix: check the range of all actions and nodes in solver
 output

---
 task_models/lib/pomdp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 5152610..2922e42 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -371,9 +371,10 @@ class POMDP:
         with open(policy_graph_file, 'r') as pf:
             actions2, pg = parse_policy_graph(pf)
         assert(actions == actions2)  # policy and value function share actions
-        assert(max(actions) < len(self.actions))  # actions are well-formed
-        assert(max([t for ts in pg for t in ts if t is not None]) <= len(pg))
-        # (transitions are well-formed)
+        assert(all([0 <= a < len(self.actions) for a in actions]))
+        # (actions are well-formed)
+        assert(all([0 <= t < len(pg) for ts in pg for t in ts
+                    if t is not None]))  # transitions are well-formed
         action_names = [self.actions[a] for a in actions]
         return GraphPolicy(action_names, self.observations, pg, vf,
                            start=self.start)
-- 
2.43.0


From e8eb602b9eb0dca298f2a97fcde03e59ad9b3bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:14 +0000
Subject: [PATCH 12/55] fix: reject malformed numbers in the solver's value
 function

---
 task_models/lib/pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 2922e42..5cb6293 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -29,7 +29,7 @@ def parse_value_function(reader):
         if not line.isspace():
             if has_action:
                 # expect vector
-                vectors.append(np.fromstring(line, sep=' '))
+                vectors.append(np.array([float(x) for x in line.split()]))
                 has_action = False
             else:
                 # expect action
-- 
2.43.0


From c8d37ad9375c49f0f2d794dcf8691ab6eb356a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:10 +0000
Subject: [PATCH 13/55] fix: describe unnamed states of a reloaded model by
 their number

---
 task_models/lib/pomdp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 5cb6293..3e3ae45 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -80,6 +80,8 @@ def _dump_list(lst):
 def _dump_list_or_count(lst_or_int):
     if isinstance(lst_or_int, int):
         return str(lst_or_int)
+    elif lst_or_int == list(range(len(lst_or_int))):
+        return str(len(lst_or_int))  # plain numbers are not valid names
     else:
         return _dump_list(lst_or_int)
 
-- 
2.43.0


From c51574da158f4461759222a3982ecf9b11ddf7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:10 +0000
Subject: [PATCH 14/55] fix: loop to the start distribution of tasks with
 several first steps

---
 task_models/task_to_pomdp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index 8293350..8ba9ca4 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -409,9 +409,9 @@ class HTMToPOMDP:
         if subtask_reward is not None:
             self.flags.add('subtask_reward')
 
-    def update_T_end(self, T, init):
+    def update_T_end(self, T, start):
         if 'loop' in self.flags:
-            T[:, self.end, init] = 1.  # go back to start
+            T[:, self.end, :] = start  # go back to start
         else:
             if 'reward_state' in self.flags:
                 T[:, self.endr, self.end] = 1.  # go to end after reward
@@ -450,7 +450,7 @@ class HTMToPOMDP:
         durations = [self.t_wait] + n2p.durations
         T = np.zeros((n_a, n_s, n_s))
         n2p.update_T(T, self.wait, 1, 0, [end], [1.], durations)
-        self.update_T_end(T, n2p.init)
+        self.update_T_end(T, start)
         O = np.zeros((n_a, n_s, n_o))
         n2p.update_O(O, 1, 0, [end], [], [end])
         self.update_O_wait(O)
-- 
2.43.0


From e0e23e894ea29c2ba8089583c2e7aee54a858bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:12:18 +0000
Subject: [PATCH 15/55] fix: one trajectory tree per possible start state

---
 task_models/lib/pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 3e3ae45..0f85c81 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -509,7 +509,7 @@ class GraphPolicyBeliefRunner(GraphPolicyRunner):
     def trajectory_trees_from_starts(self, horizon=5):
         start = self.pomdp.start
         trees = []
-        for s in start.nonzero():
+        for s in start.nonzero()[0]:
             b = np.zeros(start.shape)
             b[s] = 1.
             self.reset(belief=b)
-- 
2.43.0


From 0a542552d7ae7615051d5aa2d7b93321e5881a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:28 +0000
Subject: [PATCH 16/55] fix: hash of a snap circuit state does not depend on
 the order of its parts

---
 task_models/snap_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/snap_circuit.py b/task_models/snap_circuit.py
index 3b120c6..77ea460 100644
--- a/task_models/snap_circuit.py
+++ b/task_models/snap_circuit.py
@@ -48,7 +48,7 @@ class SnapCircuitState(State):
         self._parts = set(parts)
 
     def __hash__(self):
-        return hash((self._shape, tuple(self.parts)))
+        return hash((self._shape, frozenset(self._parts)))
 
     def __eq__(self, other):
         return (isinstance(other, SnapCircuitState) and
-- 
2.43.0


From 6186b3abb58a630dc9777855f366f07661a041ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:28 +0000
Subject: [PATCH 17/55] fix: compare vector states by the value of their
 features

---
 task_models/state.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/task_models/state.py b/task_models/state.py
index af9bb40..3f25065 100644
--- a/task_models/state.py
+++ b/task_models/state.py
@@ -6,6 +6,8 @@ with the `task.py` module, states must be hashable and implement a method
 that yield a feature vector from the state.
 """
 
+import numpy as np
+
 
 class State(object):
     """Any kind of state. Must be hashable and are immutable.
@@ -32,7 +34,12 @@ class NDimensionalState(State):
         self.features = vector
 
     def __hash__(self):
-        return hash(self.features.tostring())
+        # by value: equal states may have features of different types
+        return hash(tuple(np.ravel(self.features).tolist()))
+
+    def __eq__(self, other):
+        return (isinstance(other, NDimensionalState) and
+                np.array_equal(self.features, other.features))
 
     @property
     def n_dim(self):
-- 
2.43.0


From e622a4c7ba6c070ae7f697f1cf29e29e0284bf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:29 +0000
Subject: [PATCH 18/55] fix: conjugate of a graph with a start state that
 nothing leaves

---
 task_models/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 873f33a..31bd99b 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -244,7 +244,7 @@ class ConjugateTaskGraph(BaseGraph):
         tg.check_only_deterministic_transitions()
         # Add transitions of the form: initial --(s_init)--> a
         for s in tg.initial:
-            for (a, _) in tg.transitions[s]:
+            for (a, _) in tg.transitions.get(s, ()):
                 ctg.add_transition(ctg.initial, s, a)
         for outgoings in tg.transitions.values():  # Whatever origin state
             for (a, next_state) in outgoings:
-- 
2.43.0


From 3be0e0ad366fac25f27b4c1268f76b90a8045c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:29 +0000
Subject: [PATCH 19/55] fix: conjugate keeps actions that follow a terminal
 state

---
 task_models/task.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/task_models/task.py b/task_models/task.py
index 31bd99b..3bd59ed 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -251,11 +251,10 @@ class ConjugateTaskGraph(BaseGraph):
                 if next_state in tg.terminal:
                     # Add transitions of the form: a --(s_term)--> terminal
                     ctg.add_transition(a, next_state, ctg.terminal)
-                else:
-                    # Look ahead...
-                    for (next_action, _) in tg.transitions[next_state]:
-                        # ...and add transitions of the form: a --(s')--> a'
-                        ctg.add_transition(a, next_state, next_action)
+                # Look ahead...
+                for (next_action, _) in tg.transitions.get(next_state, ()):
+                    # ...and add transitions of the form: a --(s')--> a'
+                    ctg.add_transition(a, next_state, next_action)
         return ctg
 
     def compact(self, nodes, new_node):
-- 
2.43.0


From 1d72a151f216ba52ef6a8ce209288855aaad633b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:09:20 +0000
Subject: [PATCH 20/55] fix: exported nodes refer to the observations listed by
 their parent

---
 task_models/lib/pomcp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/lib/pomcp.py b/task_models/lib/pomcp.py
index 7c0ffa7..e5b252b 100644
--- a/task_models/lib/pomcp.py
+++ b/task_models/lib/pomcp.py
@@ -627,8 +627,8 @@ def export_pomcp(policy, destination, belief_as_quotient=False):
                 child = children[i]
                 d['observations'] = child['observations']
                 d['children'] = child['children']
-                for c, o in zip(d['children'], d['observations']):
-                    c['observed'] = model.observations.index(o)
+                for i, c in enumerate(d['children']):
+                    c['observed'] = i  # index in observations, as in to_dict
             return d
 
         dic['graphs'] = [policy.tree.map(to_dict, join_children)]
-- 
2.43.0


From 7653e0d06ea51adeb922c709813eca1dde27dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:09:20 +0000
Subject: [PATCH 21/55] fix: compare actions with and without conditions

---
 task_models/action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/action.py b/task_models/action.py
index 40e3fd2..819b33c 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -86,7 +86,7 @@ class PrePostConditionAction(Action):
         return hash((self.pre, self.post))
 
     def __eq__(self, other):
-        return (isinstance(other, Action) and
+        return (isinstance(other, PrePostConditionAction) and
                 self.pre == other.pre and
                 self.post == other.post)
 
-- 
2.43.0


From 0d951716b946e851a64efab7e09e9a603b065b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:09:20 +0000
Subject: [PATCH 22/55] fix: equal conditions with arrays of different types
 hash identically

---
 task_models/action.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/task_models/action.py b/task_models/action.py
index 819b33c..0de65df 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -24,7 +24,9 @@ class Condition(object):
         self.value = value
 
     def __hash__(self):
-        return hash((self.mask.tostring(), self.value.tostring()))
+        # by value: equal conditions may have arrays of different types
+        return hash((tuple(np.ravel(self.mask).tolist()),
+                     tuple(np.ravel(self.value).tolist())))
 
     def __eq__(self, other):
         return (isinstance(other, Condition) and
-- 
2.43.0


From 39fb59494febdfd9e2f893d8f14333febf38e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:09:20 +0000
Subject: [PATCH 23/55] fix: search of maximum chains ends and yields each
 chain once

---
 task_models/task.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/task_models/task.py b/task_models/task.py
index 3bd59ed..b61c0f4 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -276,7 +276,7 @@ class ConjugateTaskGraph(BaseGraph):
             if d not in unique_transitions[s]:
                 in_degree[d] = in_degree.get(d, 0) + 1
             unique_transitions[s].add(d)
-        to_explore = set([self.initial])
+        to_explore = set([self.initial]).intersection(unique_transitions)
         explored = set()
         chain = None
 
@@ -297,14 +297,15 @@ class ConjugateTaskGraph(BaseGraph):
                     raise AssertionError()
                 next_node = list(unique_transitions[node])[0]
                 done = False
-                if in_degree[next_node] == 1:
+                if in_degree[next_node] == 1 and next_node not in explored:
                     chain.append(next_node)
                     explored.add(next_node)
                     if len(unique_transitions[next_node]) != 1:
                         done = True
                         explore_successors(next_node)
                 else:
-                    to_explore.add(next_node)
+                    if next_node not in explored:
+                        to_explore.add(next_node)
                     done = True
                 if done:
                     if len(chain) > 1:
-- 
2.43.0


From 51ec25f50428619355288b2c0c6ccbfba651bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:09:20 +0000
Subject: [PATCH 24/55] fix: maximum cliques of graphs with repeated actions

---
 task_models/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index b61c0f4..72737a7 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -321,7 +321,7 @@ class ConjugateTaskGraph(BaseGraph):
         unique = set((s, d) for (s, _, d) in self.all_transitions())
         symmetric = {n: set() for n in self.all_nodes()}
         for s, d in unique:
-            if (d, s) in unique:
+            if s != d and (d, s) in unique:
                 symmetric[s].add(d)
                 symmetric[d].add(s)
         return max_cliques(symmetric)
-- 
2.43.0


From 476146ccaed23cfdca8966bfece4aa7bfa80a30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:09:20 +0000
Subject: [PATCH 25/55] fix: conversion of meta-actions to combinations

---
 task_models/task.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 72737a7..6ac56fd 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -336,6 +336,11 @@ class MetaAction(AbstractAction):
            'alternative': '∨',
            }
 
+    COMBINATION = {'sequence': 'Sequential',
+                   'parallel': 'Parallel',
+                   'alternative': 'Alternative',
+                   }
+
     def __init__(self, kind, actions):
         super(MetaAction, self).__init__(self._name(kind, actions))
         self.kind = kind
@@ -361,7 +366,7 @@ class MetaAction(AbstractAction):
         children = [
             a.to_combination() if isinstance(a, MetaAction) else LeafCombination(a)
             for a in self.actions]
-        return COMBINATION_CLASSES[self.kind](children)
+        return COMBINATION_CLASSES[self.COMBINATION[self.kind]](children)
 
     @classmethod
     def _name(cls, kind, actions):
-- 
2.43.0


From ba7df8c4ee5a783c94ab7c6fa902dee09c7775c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:09:20 +0000
Subject: [PATCH 26/55] fix: equal meta-actions hash identically

---
 task_models/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 6ac56fd..c87edce 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -352,7 +352,8 @@ class MetaAction(AbstractAction):
                 self.actions == other.actions)
 
     def __hash__(self):
-        return hash(self.name)
+        # (not by name, in which the order of a set of actions may vary)
+        return hash((self.kind, frozenset(self.actions)))
         # Needs to re-implement __hash__ despite inheritence (see following
         # from datamodels doc).
         # A class that overrides __eq__() and does not define __hash__() will
-- 
2.43.0


From b16a098b36c9cf656dce332f622acf354d5b4543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:53 +0000
Subject: [PATCH 27/55] fix: reject models and beliefs with negative
 probabilities

---
 task_models/lib/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/task_models/lib/utils.py b/task_models/lib/utils.py
index d8b0c09..bb0f11b 100644
--- a/task_models/lib/utils.py
+++ b/task_models/lib/utils.py
@@ -1,3 +1,5 @@
+# encoding: utf-8
+
 from json import JSONEncoder
 
 import numpy as np
@@ -7,6 +9,8 @@ def assert_normal(array, name='array'):
     message = "Probabilities in {} should sum to 1."
     if not np.allclose(array.sum(-1), 1.):
         raise ValueError(message.format(name))
+    if (array < -1.e-8).any():
+        raise ValueError("Probabilities in {} should be ≥ 0.".format(name))
 
 
 class NPEncoder(JSONEncoder):
-- 
2.43.0


From 724a51399f892775a99a46c40f1c1d27109a41e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:12:53 +0000
Subject: [PATCH 28/55] fix: reject models with an undefined discount

---
 task_models/lib/pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/pomdp.py b/task_models/lib/pomdp.py
index 0f85c81..aaf89c4 100644
--- a/task_models/lib/pomdp.py
+++ b/task_models/lib/pomdp.py
@@ -174,7 +174,7 @@ class POMDP:
         self._assert_shapes()
         self._assert_normal()
         self._assert_unique()
-        if discount > 1 or discount < 0:
+        if not 0 <= discount <= 1:  # (or not a number)
             raise ValueError('Discount factor must be ≤ 1 and ≥ 0.')
         self.discount = discount
         self._solver_path = spawn.find_executable(SOLVER_NAME,
-- 
2.43.0


From c0647effe5be708e9e0c8c14d8cc35c4f5c832e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:15:41 +0000
Subject: [PATCH 29/55] fix: read highlighted nodes and leaves without agent

---
 task_models/json_to_htm.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/task_models/json_to_htm.py b/task_models/json_to_htm.py
index 0efbf1a..e0f7f1c 100644
--- a/task_models/json_to_htm.py
+++ b/task_models/json_to_htm.py
@@ -15,9 +15,11 @@ def build_htm(node):
     parent = node['parent']
 
     # Base case, if no children than node is an action
-    if node['attributes']:
-        agent = [a for a in node['attributes'] if not a == 'highlighted']
-        return LeafCombination(Action(name=name, agent=agent[0]), idx=idx, parent=parent)
+    agent = [a for a in node['attributes'] if not a == 'highlighted']
+    highlighted = 'highlighted' in node['attributes']
+    if agent or 'children' not in node:
+        action = Action(name=name, agent=agent[0]) if agent else Action(name=name)
+        return LeafCombination(action, idx=idx, parent=parent, highlighted=highlighted)
 
     children = []
     for c in node['children']:
@@ -25,7 +27,8 @@ def build_htm(node):
         children.append(build_htm(c))
 
     # Will wrap subtree in a combination depending on combination attribute
-    return COMBINATION_CLASSES[combination](children, name=name, idx=idx, parent=parent)
+    return COMBINATION_CLASSES[combination](children, name=name, idx=idx, parent=parent,
+                                            highlighted=highlighted)
 
 
 def json_to_htm(json_path):
-- 
2.43.0


From 8fb04c583c5f58c496dd56c8d7cf30264760206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:15:41 +0000
Subject: [PATCH 30/55] fix: alternatives keep their probabilities

---
 task_models/task.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index c87edce..6438fab 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -482,7 +482,6 @@ class AlternativeCombination(Combination):
 
     def __init__(self, children, **xargs):
         super(AlternativeCombination, self).__init__(children, **xargs)
-        self.proba = None
 
     @property
     def proba(self):
-- 
2.43.0


From f1c3e1e80cf1de44d7079e35cd9eb1d8efef3aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:22:27 +0000
Subject: [PATCH 31/55] fix: compare part conditions with the condition that
 always holds

---
 task_models/action.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/task_models/action.py b/task_models/action.py
index 0de65df..e1ba3a0 100644
--- a/task_models/action.py
+++ b/task_models/action.py
@@ -30,6 +30,7 @@ class Condition(object):
 
     def __eq__(self, other):
         return (isinstance(other, Condition) and
+                not isinstance(other, MatchAllCondition) and
                 np.array_equal(self.mask, other.mask) and
                 np.array_equal(self.value, other.value))
 
-- 
2.43.0


From 176e3f00f2ec6b27563eafba82d748ffe47b9119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:23:37 +0000
Subject: [PATCH 32/55] fix: equal beliefs hash identically whatever the type
 of their arrays

---
 task_models/lib/belief.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/task_models/lib/belief.py b/task_models/lib/belief.py
index 0e43555..9720692 100644
--- a/task_models/lib/belief.py
+++ b/task_models/lib/belief.py
@@ -22,7 +22,8 @@ class ArrayBelief(BaseBelief):
         assert_normal(self.array, name='probabilities')
 
     def __hash__(self):
-        return hash(self.array.tostring())
+        # by value: equal beliefs may have arrays of different types
+        return hash(tuple(self.array.tolist()))
 
     def __eq__(self, other):
         return (isinstance(other, ArrayBelief) and
-- 
2.43.0


From 6cb740d4b62ab68dfbdfa427b5a9f89b06f4b6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:34:43 +0000
Subject: [PATCH 33/55] fix: tasks read from a description can be copied

---
 task_models/json_to_htm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/task_models/json_to_htm.py b/task_models/json_to_htm.py
index e0f7f1c..0e8c3b3 100644
--- a/task_models/json_to_htm.py
+++ b/task_models/json_to_htm.py
@@ -1,9 +1,8 @@
 import json
 from io import open
 
-from task_models.action import Action
-from task_models.task import (COMBINATION_CLASSES, AlternativeCombination,
-                              HierarchicalTask, LeafCombination,
+from task_models.task import (COMBINATION_CLASSES, AbstractAction,
+                              AlternativeCombination, HierarchicalTask, LeafCombination,
                               ParallelCombination, SequentialCombination)
 
 
@@ -18,7 +17,8 @@ def build_htm(node):
     agent = [a for a in node['attributes'] if not a == 'highlighted']
     highlighted = 'highlighted' in node['attributes']
     if agent or 'children' not in node:
-        action = Action(name=name, agent=agent[0]) if agent else Action(name=name)
+        action = (AbstractAction(name=name, agent=agent[0]) if agent
+                  else AbstractAction(name=name))
         return LeafCombination(action, idx=idx, parent=parent, highlighted=highlighted)
 
     children = []
-- 
2.43.0


From 0daea07bead784a693f1fd3068ebe90816cc45d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:37:38 +0000
Subject: [PATCH 34/55] fix: alternatives refuse probabilities that are not one
 per branch

---
 task_models/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/task_models/task.py b/task_models/task.py
index 6438fab..2656a9d 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -493,6 +493,8 @@ class AlternativeCombination(Combination):
             num_children = len(self.children)
             prob = float(1) / num_children
             self._proba = [prob] * num_children
+        elif len(probabilities) != len(self.children):
+            raise ValueError("There must be one prob value per child.")
         elif np.min(probabilities) < 0:
             raise ValueError("At least one prob value is < 0.")
         elif np.max(probabilities) > 1:
-- 
2.43.0


From 77701282673b4a6c101dcd1c8d410f4d1267984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:39:36 +0000
Subject: [PATCH 35/55] fix: random changes of states of more than 62 bits do
 not overflow

---
 task_models/supportive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/supportive.py b/task_models/supportive.py
index 444c4fd..02a969e 100644
--- a/task_models/supportive.py
+++ b/task_models/supportive.py
@@ -215,12 +215,12 @@ class _SupportivePOMDPState(object):
 
     def random_object_changes(self, p):
         to_change = np.random.random((self.n_objects)) < p
-        for i in to_change.nonzero()[0]:
+        for i in to_change.nonzero()[0].tolist():
             self._set_bit(i, 1 - self._get_bit(i))
 
     def random_preference_changes(self, p):
         to_change = np.random.random((self.n_preferences)) < p
-        for i in to_change.nonzero()[0]:
+        for i in to_change.nonzero()[0].tolist():
             self.set_preference(i, 1 - self.has_preference(i))
 
     def copy(self):
-- 
2.43.0


From a95f27ce477b3d3aa6dc1790ec82896ac2c04273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:18:04 +0000
Subject: [PATCH 36/55] fix: graphs with the same transitions are equal after
 removals and mergings

---
 task_models/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task.py b/task_models/task.py
index 2656a9d..bf16f58 100644
--- a/task_models/task.py
+++ b/task_models/task.py
@@ -100,7 +100,7 @@ class BaseGraph(object):
 
     def __eq__(self, other):
         return (isinstance(other, BaseGraph) and
-                self.transitions == other.transitions)
+                set(self.all_transitions()) == set(other.all_transitions()))
 
     def add_transition(self, source, label, destination):
         if source not in self.transitions:
-- 
2.43.0


From 2d6e0503f646cddc42017e83af75e2781e51d824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:31:55 +0000
Subject: [PATCH 37/55] fix: beliefs over different numbers of states compare
 different

The comparison of their arrays raised ValueError.
---
 task_models/lib/belief.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/lib/belief.py b/task_models/lib/belief.py
index 9720692..bcfe8bf 100644
--- a/task_models/lib/belief.py
+++ b/task_models/lib/belief.py
@@ -27,7 +27,7 @@ class ArrayBelief(BaseBelief):
 
     def __eq__(self, other):
         return (isinstance(other, ArrayBelief) and
-                (self.array == other.array).all())
+                np.array_equal(self.array, other.array))
 
     def sample(self):
         return np.random.choice(self.array.shape[0], p=self.array)
-- 
2.43.0


From 2c09a8b63e70b3025f90e2b993e9b0685a66f311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:40:21 +0000
Subject: [PATCH 38/55] fix: the never-hold policy of the preference experiment
 can be built

Its next action is computed and could not be assigned (AttributeError).
---
 samples/supportive_evaluation_preference_job.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/supportive_evaluation_preference_job.py b/samples/supportive_evaluation_preference_job.py
index d45ef2e..5b0ba0b 100644
--- a/samples/supportive_evaluation_preference_job.py
+++ b/samples/supportive_evaluation_preference_job.py
@@ -33,7 +33,7 @@ class Experiment(SupportiveExperiment):
             self.policy = PolicyLongSupportiveSequence(self.model)
         elif self.parameters['policy'] == 'never-hold':
             self.policy = PolicyLongSupportiveSequence(self.model)
-            self.policy._a_next = self.policy._a_wait
+            self.policy._a_next_list = [self.policy.actions.index('wait')]
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 72fc54c61628cfc3f2e8748f1c02da7eb09d1b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:42:55 +0000
Subject: [PATCH 39/55] fix: curves with error bars can also be filled

matplotlib gives back the abscissas of error bars as objects, which
fill_between refuses.
---
 task_models/utils/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/utils/plot.py b/task_models/utils/plot.py
index b44a103..8a77080 100644
--- a/task_models/utils/plot.py
+++ b/task_models/utils/plot.py
@@ -104,7 +104,7 @@ def plot_var(y, x=None, color=None, var=True, var_style='fill', **kwargs):
     lines = plot_fun(x, mean, **kwargs)
     if color is None:
         color = lines[0].get_color()
-    x = lines[0].get_xdata()
+    x = lines[0].get_xdata(orig=False)
     if var and var_style in ('fill', 'both'):
         ax.fill_between(x, mean - std, mean + std, alpha=.2, linewidth=0, color=color)
     remove_chartjunk(ax, ['top', 'right'])
-- 
2.43.0


From 8131bb109fee3cd997d580990d26e5463fa3bc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:44:09 +0000
Subject: [PATCH 40/55] fix: figures for print use parameters that matplotlib
 knows

text.latex.unicode is not a parameter any more (KeyError); it is how LaTeX
is always run.
---
 task_models/evaluation.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/task_models/evaluation.py b/task_models/evaluation.py
index 58df99a..ef87cb1 100644
--- a/task_models/evaluation.py
+++ b/task_models/evaluation.py
@@ -235,7 +235,6 @@ class ExpLauncher(Launcher):
         'font.size': 10,
         'font.serif': 'Computer Modern Roman',
         'text.usetex': 'True',
-        'text.latex.unicode': 'True',
         'axes.titlesize': 'medium',
         'xtick.labelsize': 'xx-small',
         'ytick.labelsize': 'xx-small',
-- 
2.43.0


From 98d621383b72f147eb8926bde984e8e1114fb234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:02:11 +0000
Subject: [PATCH 41/55] fix: what follows a subtask does not depend on who
 performed it

With the deterministic option, a subtask finished by the human was followed by
all possible next subtasks uniformly, and not with the probabilities used when
the robot finishes it (they differ for nested alternatives).
---
 task_models/task_to_pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index 8ba9ca4..62d4ee6 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -201,7 +201,7 @@ class _LeafToPOMDP(_NodeToPOMDP):
         if 'deterministic' in self.flags:
             T[:, s_h, s_h] = 1.
             T[a_af, s_h, s_h] = 0.
-            T[a_af, s_h, s_next] = uniform(len(s_next))
+            T[a_af, s_h, s_next] = s_next_probas
         else:
             p_h_not_finish = self._h_probas_not_finished_from_d(
                     np.asarray(durations))
-- 
2.43.0


From 83cf1c9f4153639a079aee2320a05fd28f931722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:02:11 +0000
Subject: [PATCH 42/55] fix: structured models of human-robot tasks can be
 built

The attribute holding the duration of telling intentions is t_tell.
---
 task_models/task_to_pomdp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/task_models/task_to_pomdp.py b/task_models/task_to_pomdp.py
index 62d4ee6..70585d6 100644
--- a/task_models/task_to_pomdp.py
+++ b/task_models/task_to_pomdp.py
@@ -270,8 +270,8 @@ class _LeafToPOMDP(_NodeToPOMDP):
         R[a_phy, s_r, :, :] = self.t_rob + intr_cost
         if 'structured' in self.flags:
             R[a_ti, :, :, :] = 100
-            R[a_ti, s_i, s_h, :] = self.t_com + intr_cost
-            R[a_ti, s_i, s_r, :] = self.t_com + intr_cost
+            R[a_ti, s_i, s_h, :] = self.t_tell + intr_cost
+            R[a_ti, s_i, s_r, :] = self.t_tell + intr_cost
         if 'subtask_reward' in self.flags:
             # Value transitions to any other node
             R[:, s_start:(s_start + 3), :s_start, :] -= self.subtask_reward
-- 
2.43.0


From 08619e49527ca04556032cba9533ec03880ad00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:31:36 +0000
Subject: [PATCH 43/55] fix: file names chosen in browsers come with a fake
 path

---
 visualization/policy/policy.js             | 2 ++
 visualization/pomcp/pomcp.js               | 2 ++
 visualization/trajectories/trajectories.js | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/visualization/policy/policy.js b/visualization/policy/policy.js
index a052db7..44590ec 100644
--- a/visualization/policy/policy.js
+++ b/visualization/policy/policy.js
@@ -10,6 +10,8 @@ function loadpolicy(file, errors)
   if (file == '') { file = defaultjsonfile;}
   else            { defaultjsonfile = file;};
 
+  file = file.replace('C:\\fakepath\\', '');
+
   console.log('Loading file: '+file+' Show Errors: '+errors);
 
   var width  = 1110,
diff --git a/visualization/pomcp/pomcp.js b/visualization/pomcp/pomcp.js
index 3e7149f..31ead7a 100644
--- a/visualization/pomcp/pomcp.js
+++ b/visualization/pomcp/pomcp.js
@@ -8,6 +8,8 @@ function loadpomcp(file)
   if (file == '') { file = defaultjsonfile;}
   else            { defaultjsonfile = file;};
 
+  file = file.replace('C:\\fakepath\\', '');
+
   console.log('Loading file: '+file);
 
   var width  = 1110,
diff --git a/visualization/trajectories/trajectories.js b/visualization/trajectories/trajectories.js
index cc88747..bf75795 100644
--- a/visualization/trajectories/trajectories.js
+++ b/visualization/trajectories/trajectories.js
@@ -7,6 +7,8 @@ function loadtrajectory(file)
   if (file == '') { file = defaultjsonfile;}
   else            { defaultjsonfile = file;};
 
+  file = file.replace('C:\\fakepath\\', '');
+
   console.log('Loading file: '+file);
 
   var width  = 1110,
-- 
2.43.0


From b5f27e7e1f5e82da04efb80108ff428f92fab493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:32:52 +0000
Subject: [PATCH 44/55] fix: pages show policies whose actions are numbers

---
 visualization/policy/policy.js             | 2 +-
 visualization/pomcp/pomcp.js               | 2 +-
 visualization/trajectories/trajectories.js | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/visualization/policy/policy.js b/visualization/policy/policy.js
index 44590ec..341a600 100644
--- a/visualization/policy/policy.js
+++ b/visualization/policy/policy.js
@@ -62,7 +62,7 @@ function loadpolicy(file, errors)
     // Assign the nodes from the json file
     for (var i = 0; i < json.actions.length; i++)
     {
-      nodes[i] = {name: '['+i+'] '+ json.actions[i].replace('intention','int')
+      nodes[i] = {name: '['+i+'] '+ String(json.actions[i]).replace('intention','int')
                                                    .replace('phy','P ')
                                                    .replace('com-','C ')
                                                    .replace('-get',' Get')
diff --git a/visualization/pomcp/pomcp.js b/visualization/pomcp/pomcp.js
index 31ead7a..d7dd533 100644
--- a/visualization/pomcp/pomcp.js
+++ b/visualization/pomcp/pomcp.js
@@ -92,7 +92,7 @@ function loadpomcp(file)
   });
 
   function shorten_action(a) {
-    return a.replace('intention','int')
+    return String(a).replace('intention','int')
             .replace('phy','P-')
             .replace('com-','C-')
             .replace('-get',' Get')
diff --git a/visualization/trajectories/trajectories.js b/visualization/trajectories/trajectories.js
index bf75795..898261d 100644
--- a/visualization/trajectories/trajectories.js
+++ b/visualization/trajectories/trajectories.js
@@ -92,7 +92,7 @@ function loadtrajectory(file)
         .attr('dy', function(d) { return '-0.8em';})
         .attr('text-anchor', 'middle')
         .attr('class', function(d) { if (d.initial) { return 'nodetext initial'; } return 'nodetext ';})
-        .text(function(d) { return '['+d.node+'] '+ d.action.replace('intention','int')
+        .text(function(d) { return '['+d.node+'] '+ String(d.action).replace('intention','int')
                                                        .replace('phy','P ')
                                                        .replace('com-','C ')
                                                        .replace('-get',' Get')
-- 
2.43.0


From 84419e024002cc4c5805cf6a103288f70c56a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:33:41 +0000
Subject: [PATCH 45/55] fix: tasks of one action can be displayed from a file

---
 visualization/htm/htm.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visualization/htm/htm.js b/visualization/htm/htm.js
index 2dee7ea..1e6652a 100644
--- a/visualization/htm/htm.js
+++ b/visualization/htm/htm.js
@@ -110,7 +110,7 @@ function loadhtm(file) {
       var nodes = tree.nodes(root).reverse(),
           links = tree.links(nodes);
 
-      root.children.forEach(collapseLevel);
+      if (root.children) { root.children.forEach(collapseLevel); }
       update(root);
 
     });
-- 
2.43.0


From 873a86ff49a97379b4c663a49bd528759d8c4122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:34:44 +0000
Subject: [PATCH 46/55] fix: nodes of a task that is displayed already are
 updated as well

---
 visualization/htm/htm.js | 75 +++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 39 deletions(-)

diff --git a/visualization/htm/htm.js b/visualization/htm/htm.js
index 1e6652a..79ae9db 100644
--- a/visualization/htm/htm.js
+++ b/visualization/htm/htm.js
@@ -139,14 +139,6 @@ function loadhtm(file) {
     // Normalize for fixed-depth.
     nodes.forEach(function(d) { d.y = d.depth * 100; });
 
-    // Cleanup names
-    nodes.forEach(function(d) { d.name = d.name.replace('REQUEST-ACTION',' ')
-                                               .replace('-OF-OBJECT',' ')
-                                               .replace('ARTIFACT-',' ')
-                                               .replace(' ARTIFACT',' ')
-                                               .replace('Parallelized Subtasks of ',' ')
-                                               .replace('FOOT_BRACKET','bracket-foot'); });
-
     // Declare the nodes.
     var node = draw.selectAll('g.node')
                    .data(nodes, function(d) { return d.id; });
@@ -154,28 +146,33 @@ function loadhtm(file) {
 
     // Enter the nodes.
     var nodeLabel = node.enter().append('g')
-                        .attr('class', function(d) {
-                          var res='node';
-                          if (d.attributes) {res=res+' '+d.attributes.join(' ');}
-                          if (d._children)  {res=res+' collapsed';}
-                          return res;
-                        })
                         .attr('transform', function(d) {
                           return 'translate(' + source.x0 + ',' + source.y0 + ')';
                         })
                         .on('click', click);
 
-    var nodeRect = nodeLabel.append('rect')
-                            .attr( 'width',   rectW)
-                            .attr('height',   rectH)
-                            .attr( 'class', 'label');
+    nodeLabel.append('rect')
+             .attr( 'width',   rectW)
+             .attr('height',   rectH)
+             .attr( 'class', 'label');
+
+    nodeLabel.append('text')
+             .attr('x', rectW / 2)
+             .attr('y', rectH / 2)
+             .attr('dy', '.35em')
+             .attr('text-anchor', 'middle');
+
+    // The nodes that were already displayed may have changed as well
+    node.attr('class', function(d) {
+      var res='node';
+      if (d.attributes) {res=res+' '+d.attributes.join(' ');}
+      if (d._children)  {res=res+' collapsed';}
+      return res;
+    });
+
+    var nodeText = node.select('text').text(cleanName);
 
-    var nodeText = nodeLabel.append('text')
-                            .attr('x', rectW / 2)
-                            .attr('y', rectH / 2)
-                            .attr('dy', '.35em')
-                            .attr('text-anchor', 'middle')
-                            .text(function (d) { return d.name; });
+    var nodeRect = node.select('rect');
 
     nodeRect.attr('width',  function(d) {
               d.rectWidth = this.nextSibling.getComputedTextLength() + 20;
@@ -189,9 +186,11 @@ function loadhtm(file) {
 
     // Add combination if there is a combination and the node is not
     // a terminal node (i.e. it does have children)
-    nodeComb = nodeLabel.filter(function(d){ return d.combination && d.children; })
-                        .append('g')
-                        .attr('class','combination');
+    node.selectAll('g.combination').remove();
+
+    nodeComb = node.filter(function(d){ return d.combination && d.children; })
+                   .append('g')
+                   .attr('class','combination');
 
     nodeComb.append('rect')
             .attr('width', 36)
@@ -215,18 +214,6 @@ function loadhtm(file) {
     node.call( function setupupdate(sel) { upcnt = sel.size(); })
         .transition().duration(time)
         .attr('transform', function(d) { return 'translate(' + d.x + ',' + d.y + ')'; })
-        .attr(    'class', function(d) {
-            var cl=d3.select(this).attr('class');
-            if (d._children) {
-                if (cl.indexOf(' collapsed')==-1) { return cl+' collapsed';}
-            }
-            else {
-                if (cl.indexOf(' collapsed')!=-1) {
-                    return cl.replace(' collapsed','');
-                }
-            }
-            return cl;
-        })
         .each('end', onUpdate);
 
 
@@ -280,6 +267,16 @@ function loadhtm(file) {
 
   };
 
+  // Cleanup names
+  function cleanName(d) {
+    return d.name.replace('REQUEST-ACTION',' ')
+                 .replace('-OF-OBJECT',' ')
+                 .replace('ARTIFACT-',' ')
+                 .replace(' ARTIFACT',' ')
+                 .replace('Parallelized Subtasks of ',' ')
+                 .replace('FOOT_BRACKET','bracket-foot');
+  }
+
   function onUpdate() {
     // console.log('up', upcnt)
     upcnt--;
-- 
2.43.0


From 39ff98ffeedb72e0fb23431a4491f2d04698f82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:40 +0000
Subject: [PATCH 47/55] fix: links of trajectories show their own observation

---
 visualization/trajectories/trajectories.js | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/visualization/trajectories/trajectories.js b/visualization/trajectories/trajectories.js
index 898261d..9ff856b 100644
--- a/visualization/trajectories/trajectories.js
+++ b/visualization/trajectories/trajectories.js
@@ -131,16 +131,13 @@ function loadtrajectory(file)
 
     // Enter any new links at the parent's previous position.
     link.enter().insert('path', 'g')
-        .attr('class', function(d,i) {
-          console.log('Source ',d.source.observations, i, d.source.observations[i]);
-          // console.log('target ',d.target.observations, i, d.target.observations[i]);
-          return 'link ' + d.source.observations[i]; })
+        .attr('class', function(d) { return 'link ' + observation(d); })
         .attr('d', function(d) {
           var o = {x: source.x0, y: source.y0};
 
           return diagonal({source: o, target: o});
         })
-        .attr('marker-end', function(d,i) { return 'url(#arrowhead_'+d.source.observations[i]+')';});
+        .attr('marker-end', function(d) { return 'url(#arrowhead_'+observation(d)+')';});
 
     // Transition links to their new position.
     link.transition()
@@ -163,6 +160,11 @@ function loadtrajectory(file)
     });
   };
 
+  // Observation that leads from the source of a link to its target.
+  function observation(link) {
+    return link.source.observations[link.source.children.indexOf(link.target)];
+  };
+
   // Toggle children on click.
   function click(d) {
     if (d.children) {
-- 
2.43.0


From 46f55ca6e63667497b641e53decedda4bd759035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:40 +0000
Subject: [PATCH 48/55] fix: the first node of a search is marked

---
 visualization/pomcp/pomcp.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visualization/pomcp/pomcp.js b/visualization/pomcp/pomcp.js
index d7dd533..e3c0d7b 100644
--- a/visualization/pomcp/pomcp.js
+++ b/visualization/pomcp/pomcp.js
@@ -151,7 +151,7 @@ function loadpomcp(file)
           });
 
     function node_class(d) {
-        return 'nodecircle' + ((d.initial) ? ' initial': '');
+        return 'nodecircle' + ((d.data.initial) ? ' initial': '');
     }
 
     nodeEnter.append('circle')
@@ -165,7 +165,7 @@ function loadpomcp(file)
         .attr('dx', function(d) { return 0;})
         .attr('dy', function(d) { return '-0.8em';})
         .attr('text-anchor', 'middle')
-        .attr('class', function(d) { if (d.initial) { return 'nodetext initial'; } return 'nodetext ';})
+        .attr('class', function(d) { if (d.data.initial) { return 'nodetext initial'; } return 'nodetext ';})
         .text(function(d) {
           return ((d.node) ? '['+d.node+'] ' : '') + shorten_action(d.data.action);
         });
-- 
2.43.0


From 5f2825a383b4b717e0d73f791f3d469fec01cd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:56 +0000
Subject: [PATCH 49/55] fix: tables of beliefs and values follow the file that
 is displayed

---
 visualization/pomcp/pomcp.js | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/visualization/pomcp/pomcp.js b/visualization/pomcp/pomcp.js
index e3c0d7b..e4b3cf2 100644
--- a/visualization/pomcp/pomcp.js
+++ b/visualization/pomcp/pomcp.js
@@ -19,7 +19,9 @@ function loadpomcp(file)
       duration = 500,
       root,
       actions,
-      states;
+      states,
+      exploration,
+      relative_exploration;
 
   var tree = d3.tree()
                .size([.8 * height, .8 * width]);
@@ -59,6 +61,10 @@ function loadpomcp(file)
     exploration = (json.exploration == null) ? 1. : json.exploration;
     relative_exploration = json.relative_exploration;
 
+    // Remove what is left from a file displayed before
+    beliefs.selectAll('th.state, td').remove();
+    values.selectAll('th.action, td').remove();
+
     // Init the belief representation
     beliefs.select("tr.states").selectAll('th:not(.legend)').data(states).enter().append('th')
           .attr("class", "state")
-- 
2.43.0


From 535c6f14c64c467a5016dac74817fdbcffc269ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:00 +0000
Subject: [PATCH 50/55] fix: answers to requests that were superseded are
 ignored

---
 visualization/htm/htm.js                   | 7 ++++++-
 visualization/policy/policy.js             | 5 +++++
 visualization/pomcp/pomcp.js               | 6 ++++++
 visualization/trajectories/trajectories.js | 6 ++++++
 4 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/visualization/htm/htm.js b/visualization/htm/htm.js
index 79ae9db..d153a1a 100644
--- a/visualization/htm/htm.js
+++ b/visualization/htm/htm.js
@@ -1,7 +1,8 @@
 // Initialize global variables (I know , it's bad)
 var defaultjsonfile = 'full_chair.json',
     treedepth = 3,
-    defaultjsondata = '';
+    defaultjsondata = '',
+    lastload = 0;  // number of tasks asked for
 
 var width  = 1500,
     height =  600;
@@ -95,12 +96,16 @@ function loadhtm(file) {
 
   svg.call(zoombehavior);
 
+  var load = ++lastload;
+
   if (defaultjsondata == '') {
     console.log('Loading file: '+file+' with depth '+treedepth);
 
     // load the external data
     d3.json('json/'+file, function(error, json)
     {
+      // Another task has been asked for since
+      if (load != lastload) {return;}
       if (error) {throw error;}
 
       root = json.nodes;
diff --git a/visualization/policy/policy.js b/visualization/policy/policy.js
index 341a600..9f4ecb9 100644
--- a/visualization/policy/policy.js
+++ b/visualization/policy/policy.js
@@ -1,6 +1,7 @@
 
 var defaultjsonfile = 'test.json';
 var show_done = true;
+var lastload = 0;  // number of files asked for
 loadpolicy('');
 
 function loadpolicy(file, errors)
@@ -44,8 +45,12 @@ function loadpolicy(file, errors)
               + ' scale(' + d3.event.scale + ')');
   }
 
+  var load = ++lastload;
+
   d3.json('json/'+file, function(error, json)
   {
+    // Another file has been asked for since
+    if (load != lastload) {return;}
     if (error) {throw error;}
 
     var nodes = Array();
diff --git a/visualization/pomcp/pomcp.js b/visualization/pomcp/pomcp.js
index e4b3cf2..41a6d87 100644
--- a/visualization/pomcp/pomcp.js
+++ b/visualization/pomcp/pomcp.js
@@ -1,6 +1,8 @@
 defaultjsonfile = 'pomcp.json';
 var defaultColor = '#3c3c3c';
 
+var lastload = 0;  // number of files asked for
+
 loadpomcp('');
 
 function loadpomcp(file)
@@ -52,8 +54,12 @@ function loadpomcp(file)
 
   appendmarkers();
 
+  var load = ++lastload;
+
   d3.json('json/'+file, function(error, json)
   {
+    // Another file has been asked for since
+    if (load != lastload) {return;}
     if (error) {throw error;}
 
     actions = json.actions;
diff --git a/visualization/trajectories/trajectories.js b/visualization/trajectories/trajectories.js
index 9ff856b..04e2d26 100644
--- a/visualization/trajectories/trajectories.js
+++ b/visualization/trajectories/trajectories.js
@@ -1,5 +1,7 @@
 var defaultjsonfile = 'trajectories.json';
 
+var lastload = 0;  // number of files asked for
+
 loadtrajectory('');
 
 function loadtrajectory(file)
@@ -44,8 +46,12 @@ function loadtrajectory(file)
 
   appendmarkers();
 
+  var load = ++lastload;
+
   d3.json('json/'+file, function(error, json)
   {
+    // Another file has been asked for since
+    if (load != lastload) {return;}
     if (error) {throw error;}
 
     root = json.graphs[0];
-- 
2.43.0


From 395a77065277c9ad2f5ac95481e8295c92745fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 51/55] fix: samples/htm2pomdp.py charges interruptions instead
 of passing their cost as the time to tell

---
 samples/htm2pomdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/htm2pomdp.py b/samples/htm2pomdp.py
index 77fa8c6..c2e35c7 100644
--- a/samples/htm2pomdp.py
+++ b/samples/htm2pomdp.py
@@ -61,7 +61,7 @@ chair_task = HierarchicalTask(root=SequentialCombination(
 
 ## Convert the task into a POMDP
 
-h2p = HTMToPOMDP(T_WAIT, T_COMM, C_INTR, end_reward=R_END, loop=LOOP,
+h2p = HTMToPOMDP(T_WAIT, T_COMM, T_COMM, C_INTR, end_reward=R_END, loop=LOOP,
                  reward_state=False, subtask_reward=R_SUBTASK)
 p = h2p.task_to_pomdp(chair_task)
 #p.discount = .99
-- 
2.43.0


From 85c0fe9be7f23ae41a23ea479c269b8c919e3c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 52/55] fix: samples/tower_scenario.py imports the converter
 that exists

---
 samples/tower_scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/tower_scenario.py b/samples/tower_scenario.py
index daab940..e93de70 100644
--- a/samples/tower_scenario.py
+++ b/samples/tower_scenario.py
@@ -1,7 +1,7 @@
 import os
 
 from task_models.lib.pomdp import GraphPolicyBeliefRunner
-from task_models.bring_next_to_pomdp import task_modelsToPOMDP
+from task_models.bring_next_to_pomdp import HTMToPOMDP
 from task_models.tower_problem import TowerProblem
 
 
-- 
2.43.0


From 9aeab96e42a2fa02dd4f7a8a5e7ddc93b723fd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 53/55] fix: samples/supportive.py imports the planner from
 where it is

---
 samples/supportive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/supportive.py b/samples/supportive.py
index 93f0695..09f4fbc 100644
--- a/samples/supportive.py
+++ b/samples/supportive.py
@@ -6,7 +6,7 @@ import logging
 from task_models.task import SequentialCombination, LeafCombination
 from task_models.supportive import (SupportivePOMDP, AssembleLeg,
                                     AssembleLegToTop, NHTMHorizon)
-from task_models.lib.pomdp import POMCPPolicyRunner, export_pomcp
+from task_models.lib.pomcp import POMCPPolicyRunner, export_pomcp
 
 
 logging.getLogger().setLevel(logging.INFO)
-- 
2.43.0


From 822bf14486be823e94764132c0582cc201cffa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 54/55] fix: samples/pomcp.py imports the planner from where it
 is

---
 samples/pomcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/pomcp.py b/samples/pomcp.py
index 229285d..9bde2a5 100644
--- a/samples/pomcp.py
+++ b/samples/pomcp.py
@@ -3,7 +3,7 @@ import os
 import json
 from heapq import heappush, heappop
 
-from task_models.lib.pomdp import GraphPolicyBeliefRunner, POMCPPolicyRunner
+from task_models.lib.pomcp import POMCPPolicyRunner
 from task_models.task_to_pomdp import HTMToPOMDP
 from task_models.stool_scenarios import (stool_task_sequential, T_WAIT, T_ASK,
                                          T_TELL, C_INTR)
-- 
2.43.0


From 4dcc5cb26172f751c8c5a1c07ce6eaa8cd5bf306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:29 +0000
Subject: [PATCH 55/55] fix: the directory the searches are exported to exists

---
 visualization/pomcp/json/.gitkeep | 0
 1 file changed, 0 insertions(+), 0 deletions(-)
 create mode 100644 visualization/pomcp/json/.gitkeep

diff --git a/visualization/pomcp/json/.gitkeep b/visualization/pomcp/json/.gitkeep
new file mode 100644
index 0000000..e69de29
-- 
2.43.0

