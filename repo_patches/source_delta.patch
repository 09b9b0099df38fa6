From 070e82622faf7215a307e9c57edce89e414bd8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 01/33] fix: parallel simulate() reports assertion hits like
 the sequential one

The result of a simulation task did not carry the assertion hits, so with
parallel=True they stayed on the worker's copy of the node and every
violation found by simulate() was lost.
---
 verse/analysis/simulator.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 4c9f185..a4e1eed 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -204,7 +204,9 @@ class Simulator:
         later: int,
         remain_time: float,
         consts: SimConsts,
-    ) -> Tuple[int, int, List[AnalysisTreeNode], Dict[str, TraceType], list]:
+    ) -> Tuple[
+        int, int, List[AnalysisTreeNode], Dict[str, TraceType], Optional[Dict[str, List[str]]], list
+    ]:
         if config.print_level >= 1:
             print("=============================================================")
             print(f"node {node.id} start: {node.start_time}")
@@ -252,6 +254,7 @@ class Simulator:
                 later,
                 [], 
                 node.trace,
+                asserts,
                 cache_updates
             )
 
@@ -267,7 +270,7 @@ class Simulator:
                 node.trace[agent_idx] = node.trace[agent_idx][: transition_idx + 1]
 
         if asserts != None:  # FIXME
-            return (node.id, later, [], node.trace, cache_updates)
+            return (node.id, later, [], node.trace, asserts, cache_updates)
             # print(transition_idx)
             # pp({a: len(t) for a, t in node.trace.items()})
         else:
@@ -288,7 +291,7 @@ class Simulator:
                         )
                 # print(red("no trans"))
                 # print(f"node {node.id} dur {timeit.default_timer() - t}")
-                return (node.id, later, [], node.trace, cache_updates)
+                return (node.id, later, [], node.trace, asserts, cache_updates)
 
             transit_agents = transitions.keys()
             # pp(("transit agents", transit_agents))
@@ -347,14 +350,15 @@ class Simulator:
                 next_nodes.append(tmp)
             # print(len(next_nodes))
             # print(f"node {node.id} dur {timeit.default_timer() - t}")
-            return (node.id, later, next_nodes, node.trace, cache_updates)
+            return (node.id, later, next_nodes, node.trace, asserts, cache_updates)
 
-    def proc_result(self, id, later, next_nodes, traces, cache_updates):
+    def proc_result(self, id, later, next_nodes, traces, assert_hits, cache_updates):
         t = timeit.default_timer()
         # print("got id:", id)
         done_node = self.nodes[id]
         done_node.child = next_nodes
         done_node.trace = traces
+        done_node.assert_hits = assert_hits
         last_id = self.nodes[-1].id
         # assert max(n.id for n in self.nodes) == last_id
         for i, node in enumerate(next_nodes):
@@ -489,8 +493,7 @@ class Simulator:
                 break
             if wait:
                 [res], remaining = ray.wait(self.result_refs)
-                id, later, next_nodes, traces, cache_updates = ray.get(res)
-                self.proc_result(id, later, next_nodes, traces, cache_updates)
+                self.proc_result(*ray.get(res))
                 self.result_refs = remaining
         # print("cached", self.num_cached)
         # pp(self.cache.get_cached_inits(3))
-- 
2.43.0


From 886c33fb2f8a6213623fae19740f069d6d4348f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 02/33] fix: a scenario can be switched to parallel with
 update_config()

The remote simulation function only existed if the configuration was
parallel when the Simulator was created, so simulate() raised an
AttributeError after update_config(parallel=True).
---
 verse/analysis/simulator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index a4e1eed..66dd8db 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -190,10 +190,7 @@ class Simulator:
         self.cache = SimTraceCache()
         self.config = config
         self.cache_hits = (0, 0)
-        if self.config.parallel:
-            import ray
-
-            self.simulate_one_remote = ray.remote(Simulator.simulate_one)
+        self.simulate_one_remote = None
 
     @staticmethod
     def simulate_one(
@@ -421,6 +418,9 @@ class Simulator:
         if self.config.parallel:
             import ray
 
+            # the config can be switched to parallel after the simulator was created
+            if self.simulate_one_remote is None:
+                self.simulate_one_remote = ray.remote(Simulator.simulate_one)
             consts_ref = ray.put(consts)
         while True:
             wait = False
-- 
2.43.0


From 804c746088163ea417eff0f8576b25682ab5f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 03/33] fix: a transition the map does not permit no longer
 ends the guard and safety checks

When every satisfied guard at a time step was refused by the map, simulate()
stopped looking at the rest of the trace: later transitions and assertion
violations of all agents were missed.
---
 verse/analysis/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 66dd8db..d882784 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -773,7 +773,9 @@ class Simulator:
                             print("cond_veri", unparse(paths[0].cond_veri))
                             print("val_veri", unparse(paths[0].val_veri))
                         transitions[agent_idx].append((agent_idx, dest, next_init, paths))
-                break
+                # Keep going when the map permits none of them
+                if transitions:
+                    break
         transitions = {aid: dedup(v, lambda p: p[1]) for aid, v in transitions.items()}
         return None, transitions, idx
 
-- 
2.43.0


From 32675da3460093b271fcb3f0d016bbcd68b4cf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 04/33] fix: simulate() keeps branches which differ only in the
 reset of continuous variables

Successors of one agent were de-duplicated by their mode alone, so of several
enabled transitions to the same mode only the first was explored.
---
 verse/analysis/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index d882784..bf37c5b 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -776,7 +776,7 @@ class Simulator:
                 # Keep going when the map permits none of them
                 if transitions:
                     break
-        transitions = {aid: dedup(v, lambda p: p[1]) for aid, v in transitions.items()}
+        transitions = {aid: dedup(v, lambda p: (p[1], list(p[2]))) for aid, v in transitions.items()}
         return None, transitions, idx
 
     @staticmethod
-- 
2.43.0


From 22fc1dd0aaf4caa1acd1589f2a784482552bd4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 05/33] fix: simulate() checks the assertions of agents that
 have no transitions

Safety conditions were only evaluated for agents with at least one path in
their decision logic, so a pure observer never reported a violation.
---
 verse/analysis/simulator.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index bf37c5b..f1f573e 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -711,6 +711,11 @@ class Simulator:
             )
             agent_guard_dict[agent_id].append((path, discrete_variable_dict))
 
+        # An agent without transitions still has its assertions checked
+        for agent in node.agent.values():
+            if agent.decision_logic.asserts:
+                agent_guard_dict[agent.id]
+
         transitions = defaultdict(list)
         # TODO: We can probably rewrite how guard hit are detected and resets are handled for simulation
         for idx in range(trace_length):
@@ -807,6 +812,11 @@ class Simulator:
             )
             agent_guard_dict[agent_id].append((path, discrete_variable_dict))
 
+        # An agent without transitions still has its assertions checked
+        for agent in node.agent.values():
+            if agent.decision_logic.asserts:
+                agent_guard_dict[agent.id]
+
         transitions = defaultdict(list)
         # TODO: We can probably rewrite how guard hit are detected and resets are handled for simulation
         for idx in range(trace_length):
-- 
2.43.0


From fbb3f6ab38c9cc1082e650785649d589963f5bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:27 +0000
Subject: [PATCH 06/33] fix: verify() does not merge the different resets of
 one destination into one initial set

---
 verse/analysis/verifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 09ebcbc..9986f22 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1014,7 +1014,7 @@ class Verifier:
         # for aid, trace in node.trace.items():
         #     if len(trace) < 2:
         #         pp(("weird state", aid, trace))
-        for agent, path in paths:
+        for path_idx, (agent, path) in enumerate(paths):
             if len(agent.decision_logic.args) == 0:
                 continue
             agent_id = agent.id
@@ -1030,7 +1030,7 @@ class Verifier:
             cont_var_dict_template, discrete_variable_dict, length_dict = sensor.sense(agent, state_dict, track_map, False)
             # TODO-PARSER: Get equivalent for this function
             # Construct the guard expression
-            guard_expression = GuardExpressionAst([path.cond_veri])
+            guard_expression = GuardExpressionAst([path.cond_veri], path_idx)
 
             cont_var_updater = guard_expression.parse_any_all_new(
                 cont_var_dict_template, discrete_variable_dict, length_dict
-- 
2.43.0


From f6a5b3e9327a1fe4f259189963f97e3a6cc5a52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 07/33] fix: verify() keeps checking guards until the last
 initial set has entered the tube

---
 verse/analysis/verifier.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 9986f22..4c6a5a1 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1059,6 +1059,11 @@ class Verifier:
             trace_length = int(min(len(v) for v in node.trace.values()) // 2)
             reduction_queue = [(i, i+1, 1) for i in range(0, trace_length)]
             reduction_queue.reverse()
+        # States can enter the tube until the last of the (staggered) initial sets has been added to it
+        last_entry = 0
+        if config.reachability_method != ReachabilityMethod.STAR_SETS:
+            seg_length = config.init_seg_length
+            last_entry = max((len(inits) - 1) // seg_length * seg_length for inits in node.init.values())
         # for idx, end_idx,combine_len in reduction_queue:
         hits = []
         while reduction_queue:
@@ -1211,7 +1216,7 @@ class Verifier:
                 guard_hit = True
             elif guard_hit:
                 break
-            if any_contained:
+            if any_contained and idx >= last_entry:
                 break
         reset_func = Verifier.apply_reset
         if config.reachability_method == ReachabilityMethod.STAR_SETS:
-- 
2.43.0


From 167b022332e41b5435d4e053ecc2b10d29bf37ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 08/33] fix: verify() follows each guard that can fire alone,
 not only all of them together

---
 verse/analysis/verifier.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 4c6a5a1..9a14267 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1109,6 +1109,7 @@ class Verifier:
                 #     pp(("weird state", agent_id, agent_state))
                 cont_vars, disc_vars, len_dict = sensor.sense(agent, state_dict, track_map, False)
                 resets = defaultdict(list)
+                contained_guards = set()
                 # Check safety conditions
                 for i, a in enumerate(agent.decision_logic.asserts_veri):
                     pre_expr = a.pre
@@ -1171,6 +1172,8 @@ class Verifier:
                     )
                     if combine_len == 1:
                         any_contained = any_contained or is_contained
+                        if is_contained:
+                            contained_guards.add(unparse(path.cond_veri))
                     # TODO: Can we also store the cont and disc var dict so we don't have to call sensor again?
                     if guard_satisfied and combine_len == 1:
                         reset_expr = ResetExpression((path.var, path.val_veri))
@@ -1196,8 +1199,8 @@ class Verifier:
                     break
                 if combine_len == 1:
                     # Perform combination over all possible resets to generate all possible real resets
-                    combined_reset_list = list(itertools.product(*resets.values()))
-                    if len(combined_reset_list) == 1 and combined_reset_list[0] == ():
+                    combined_reset_list = Verifier.combine_resets(resets, contained_guards)
+                    if not combined_reset_list:
                         continue
                     for i in range(len(combined_reset_list)):
                         # Compute reset_idx
@@ -1282,6 +1285,26 @@ class Verifier:
         # Return result
         return None, possible_transitions + cached_trans
 
+    @staticmethod
+    def combine_resets(resets, contained_guards):
+        """
+        All joint resets that can happen in a set. Guards which contain the set always fire, each of
+        the others may fire or not, and the resets of one guard are applied together.
+
+        :param resets: per variable, the resets whose guards can be satisfied in the set
+        :param contained_guards: the guards which are satisfied everywhere in the set
+        """
+        combined = []
+        for choice in itertools.product(*([*options, None] for options in resets.values())):
+            chosen = tuple(reset for reset in choice if reset is not None)
+            fired = contained_guards.union(unparse(reset[-1].cond_veri) for reset in chosen)
+            if chosen and not any(
+                reset is None and any(unparse(option[-1].cond_veri) in fired for option in options)
+                for reset, options in zip(choice, resets.values())
+            ):
+                combined.append(chosen)
+        return combined
+
     @staticmethod
     def apply_cont_var_updater(cont_var_dict, updater):
         for variable in updater:
-- 
2.43.0


From c88be2a369fe98053b548121ce98afd32a9a1a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 09/33] fix: verify() checks an assertion wherever its
 precondition can hold

---
 verse/analysis/verifier.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 9a14267..5f72656 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1126,24 +1126,25 @@ class Verifier:
                                 sat = sat and contained
                         return sat
 
-                    if eval_expr(pre_expr):
-                        if not eval_expr(a.cond):
-                            if combine_len == 1:
-                                label = a.label if a.label != None else f"<assert {i}>"
-                                if config.print_level >= 1:
-                                    print(f'assert hit for {agent_id}: "{label}"')
-                                    print("index", idx)
-                                    print("start_time", node.start_time)
-                                asserts[agent_id].append(label)
-                            else:
-                                new_len = int(np.ceil(combine_len / reduction_rate))
-                                next_list = [
-                                    (i, min(i + new_len, end_idx), new_len)
-                                    for i in range(idx, end_idx, new_len)
-                                ]
-                                reduction_queue.extend(next_list[::-1])
-                                reduction_needed = True
-                                break
+                    # The assertion has to hold in every state in which its precondition does
+                    implication = ast.BoolOp(ast.Or(), [ast.UnaryOp(ast.Not(), pre_expr), a.cond])
+                    if not eval_expr(implication):
+                        if combine_len == 1:
+                            label = a.label if a.label != None else f"<assert {i}>"
+                            if config.print_level >= 1:
+                                print(f'assert hit for {agent_id}: "{label}"')
+                                print("index", idx)
+                                print("start_time", node.start_time)
+                            asserts[agent_id].append(label)
+                        else:
+                            new_len = int(np.ceil(combine_len / reduction_rate))
+                            next_list = [
+                                (i, min(i + new_len, end_idx), new_len)
+                                for i in range(idx, end_idx, new_len)
+                            ]
+                            reduction_queue.extend(next_list[::-1])
+                            reduction_needed = True
+                            break
                 if reduction_needed:
                     break
                 if agent_id in asserts:
-- 
2.43.0


From 2a796e510f8da11c4370ef5c03994782b7edd94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:25 +0000
Subject: [PATCH 10/33] fix: verify() substitutes whole variable names in
 resets

---
 verse/analysis/verifier.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 5f72656..a34780d 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1,7 +1,7 @@
 from enum import Enum, auto
 from dataclasses import dataclass
 from collections import defaultdict
-import copy, itertools, functools, pprint
+import copy, itertools, functools, pprint, re
 from typing import Dict, List, Optional, Tuple
 import numpy as np
 import warnings
@@ -1376,9 +1376,10 @@ class Verifier:
                     raise ValueError(f"Reset continuous variable {lhs} not found")
                 # substituting low variables
 
+                # Only whole names, as one variable's name may be the beginning of another's
                 symbols = []
                 for var in cont_var_dict:
-                    if var in expr:
+                    if re.search(rf"{re.escape(var)}(?!\w)", expr):
                         symbols.append(var)
 
                 # TODO: Implement this function
@@ -1394,7 +1395,7 @@ class Verifier:
                     val_dict = {}
                     tmp = copy.deepcopy(expr)
                     for symbol_idx, symbol in enumerate(symbols):
-                        tmp = tmp.replace(symbol, str(comb[symbol_idx]))
+                        tmp = re.sub(rf"{re.escape(symbol)}(?!\w)", f"({comb[symbol_idx]})", tmp)
                     res = eval(tmp, {}, val_dict)
                     lb = min(lb, res)
                     ub = max(ub, res)
-- 
2.43.0


From 3238f756e5bb65b238be9ffd36f29706d0b6da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 11/33] fix: verify() reports an assertion hit with
 unsafe_continue instead of failing

---
 verse/analysis/verifier.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index a34780d..4a63228 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -571,9 +571,11 @@ class Verifier:
         )
         node.assert_hits = asserts
 
-        if not config.unsafe_continue and asserts != None:
+        if asserts != None:
             asserts, idx = asserts
-            if not consts.reachability_method == ReachabilityMethod.STAR_SETS:
+            if config.unsafe_continue:
+                pass  # keep the trace after the violation
+            elif not consts.reachability_method == ReachabilityMethod.STAR_SETS:
                 for agent in node.agent:
                     node.trace[agent] = node.trace[agent][: (idx + 1) * 2]
             else:
@@ -1699,10 +1701,11 @@ class Verifier:
         )
         node.assert_hits = asserts
 
-        if not config.unsafe_continue and asserts != None:
+        if asserts != None:
             asserts, idx = asserts
-            for agent in node.agent:
-                node.trace[agent] = node.trace[agent][: (idx + 1) * 2]
+            if not config.unsafe_continue:
+                for agent in node.agent:
+                    node.trace[agent] = node.trace[agent][: (idx + 1) * 2]
             return (
                 node.id,
                 later,
-- 
2.43.0


From 6d3f679dc9bc9cd998ac90e063dc718c3b0f0e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:01 +0000
Subject: [PATCH 12/33] fix: verify_partitioned() partitions the whole hitting
 set, not its first rectangle

---
 verse/analysis/verifier.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 4a63228..99e6313 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1721,11 +1721,14 @@ class Verifier:
             for transition in all_possible_transitions:
                 transit_agent_idx, src_mode, dest_mode, next_init, idx, path = transition
 
-                # NOTE: is this correct, or do I need indices from start to end as well 
-                start_idx = idx[0]  # Use start_idx as the hitting index, end_idx = idx[1] exists sometimes
-                
-                # Get the hitting set at start_idx
-                hitting_rect = combine_rect([node.trace[transit_agent_idx][start_idx * 2], node.trace[transit_agent_idx][start_idx * 2 + 1]])
+                start_idx, end_idx = idx[0], idx[-1]
+
+                # Get the hitting set, over all of the indices at which the guard can be hit
+                hitting_state = {
+                    aid: combine_rect(node.trace[aid][start_idx * 2 : (end_idx + 1) * 2])
+                    for aid in node.agent
+                }
+                hitting_rect = hitting_state[transit_agent_idx]
                 
                 # Partition the hitting rect -- NOTE: fixing partitioning of time (0th dim always) and adding option to only partition a select number of partitions 
                 partitions = Verifier._partition_rect(hitting_rect, n, partition_dims)
@@ -1735,7 +1738,7 @@ class Verifier:
                 for part in partitions:
                     # Update state_dict with the partition for transit_agent_idx
                     state_dict = {
-                        aid: (node.trace[aid][start_idx * 2 : start_idx * 2 + 2], node.mode[aid], node.static.get(aid, []))
+                        aid: (hitting_state[aid], node.mode[aid], node.static.get(aid, []))
                         for aid in node.agent
                     }
                     state_dict[transit_agent_idx] = ([part[0], part[1]], node.mode[transit_agent_idx], node.static.get(transit_agent_idx, []))
-- 
2.43.0


From 169ececcd82f1d5725c57b87f08bc3f9a5b10a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:08 +0000
Subject: [PATCH 13/33] fix: verify() keeps checking guards past a transition
 which the map does not permit

---
 verse/analysis/verifier.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index 99e6313..cef3a31 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -1067,6 +1067,9 @@ class Verifier:
             seg_length = config.init_seg_length
             last_entry = max((len(inits) - 1) // seg_length * seg_length for inits in node.init.values())
         # for idx, end_idx,combine_len in reduction_queue:
+        reset_func = Verifier.apply_reset
+        if config.reachability_method == ReachabilityMethod.STAR_SETS:
+            reset_func = Verifier.apply_reset_stars
         hits = []
         while reduction_queue:
             idx, end_idx, combine_len = reduction_queue.pop()
@@ -1174,7 +1177,6 @@ class Verifier:
                         agent, new_cont_var_dict, track_map, config.reachability_method == ReachabilityMethod.STAR_SETS
                     )
                     if combine_len == 1:
-                        any_contained = any_contained or is_contained
                         if is_contained:
                             contained_guards.add(unparse(path.cond_veri))
                     # TODO: Can we also store the cont and disc var dict so we don't have to call sensor again?
@@ -1212,6 +1214,13 @@ class Verifier:
                             reset_idx.append(reset_info[3])
                         # a list of reset expression
                         hits.append((agent_id, tuple(reset_idx), combined_reset_list[i]))
+                        # All of the states leave the mode if the guards hold in all of them and the
+                        # map permits the transition
+                        if all(unparse(r[-1].cond_veri) in contained_guards for r in combined_reset_list[i]):
+                            dest_list, _ = reset_func(agent, combined_reset_list[i], state_dict, track_map)
+                            any_contained = any_contained or any(
+                                Verifier.map_permits(node, agent_id, dest, track_map) for dest in dest_list
+                            )
 
             if reduction_needed or combine_len > 1:
                 continue
@@ -1224,9 +1233,6 @@ class Verifier:
                 break
             if any_contained and idx >= last_entry:
                 break
-        reset_func = Verifier.apply_reset
-        if config.reachability_method == ReachabilityMethod.STAR_SETS:
-            reset_func = Verifier.apply_reset_stars
         reset_dict = {}  # defaultdict(lambda: defaultdict(list))
         for hits, all_agent_state, hit_idx in guard_hits:
             for agent_id, reset_idx, reset_list in hits:
@@ -1267,12 +1273,11 @@ class Verifier:
                     src_track = node.get_track(agent, node.mode[agent])
                     dest_mode = node.get_mode(agent, dest)
                     dest_track = node.get_track(agent, dest)
-                    map_modes = [[src_mode, src_track, dest_mode, dest_track]]
 
                     # if a map transition is being initiated but the map does not permit the transition, don't add to transition list
                     # a map transition for now is defined as any transition that changes either the trackmode or agentmode
                     # could potentially change to be any transition that changes both trackmode and agentmode 
-                    if all(map_mode is not None for map_mode in map_modes) and (src_mode!=dest_mode or src_track!=dest_track) and dest_track != track_map.h(src_track, src_mode, dest_mode): 
+                    if not Verifier.map_permits(node, agent, dest, track_map):
                         continue
                     else:
                         if config.print_level >= 2:
@@ -1308,6 +1313,16 @@ class Verifier:
                 combined.append(chosen)
         return combined
 
+    @staticmethod
+    def map_permits(node, agent_id, dest, track_map) -> bool:
+        src_mode = node.get_mode(agent_id, node.mode[agent_id])
+        src_track = node.get_track(agent_id, node.mode[agent_id])
+        dest_mode = node.get_mode(agent_id, dest)
+        dest_track = node.get_track(agent_id, dest)
+        if src_mode == dest_mode and src_track == dest_track:
+            return True
+        return dest_track == track_map.h(src_track, src_mode, dest_mode)
+
     @staticmethod
     def apply_cont_var_updater(cont_var_dict, updater):
         for variable in updater:
-- 
2.43.0


From 70c05fc6deb16438165dfd86e106dde0f7d8cad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:06 +0000
Subject: [PATCH 14/33] fix: a tree keeps its agents when agents are added to
 the scenario later

---
 verse/analysis/analysis_tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 41e5fa7..e51931d 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -133,8 +133,9 @@ class AnalysisTreeNode:
             init=init,
             mode=mode,
             static=static,
-            uncertain_param=uncertain_param,
-            agent=agent,
+            # agents added to the scenario later are not part of this tree
+            uncertain_param=dict(uncertain_param),
+            agent=dict(agent),
             ndigits=ndigits,
             type=type,
             trace={},
-- 
2.43.0


From acb7d766395e9965cb4a036499086a621c00ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:06 +0000
Subject: [PATCH 15/33] fix: simulate_multi() does not share the caller's
 initial states with the trees

---
 verse/scenario/scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/scenario/scenario.py b/verse/scenario/scenario.py
index 69e4cdb..f714335 100644
--- a/verse/scenario/scenario.py
+++ b/verse/scenario/scenario.py
@@ -275,7 +275,7 @@ class Scenario:
         else:
             for init_dict in init_dict_list:
                 root = AnalysisTreeNode.root_from_inits(
-                    init=init_dict,
+                    init=copy.deepcopy(init_dict),
                     mode={
                         aid: tuple(elem if isinstance(elem, str) else elem.name for elem in modes)
                         for aid, modes in self.init_mode_dict.items()
-- 
2.43.0


From 04ec832d2fcfa8c34fc1fa3bb67adf71abceb5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:31 +0000
Subject: [PATCH 16/33] fix: load() reads simulation trees with nodes that were
 not expanded

---
 verse/analysis/analysis_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index e51931d..6ce5a4c 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -228,7 +228,7 @@ class AnalysisTreeNode:
     def _from_dict(data: Dict[str, Any]) -> "AnalysisTreeNode":
         return AnalysisTreeNode(
             trace=(
-                {aid: np.array(data["trace"][aid]) for aid in data["agent"].keys()}
+                {aid: np.array(trace) for aid, trace in data["trace"].items()}
                 if data["type"] == "simtrace"
                 else data["trace"]
             ),
-- 
2.43.0


From 9d5bfad85af21100bad3215304820988fc4ec34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:31 +0000
Subject: [PATCH 17/33] fix: contains() compares the points of simulation trees

---
 verse/analysis/analysis_tree.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 6ce5a4c..5abdbd6 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -336,13 +336,18 @@ class AnalysisTree:
             or (not strict and cur_agents.issuperset(other_agents))
         ):
             return False
-        if types[0] == "simtrace":  # Simulation
+        if types[0] == AnalysisTreeNodeType.SIM_TRACE:  # Simulation
             if len(self.nodes) != len(other.nodes):
                 return False
 
             def sim_seg_contains(a: Dict[str, TraceType], b: Dict[str, TraceType]) -> bool:
+                # nodes at the depth limit do not have traces for all of the agents
                 return all(
-                    a[aid].shape == b[aid].shape
+                    aid not in a
+                    and aid not in b
+                    or aid in a
+                    and aid in b
+                    and a[aid].shape == b[aid].shape
                     and bool(np.all(np.abs(a[aid][:, 1:] - b[aid][:, 1:]) < tol))
                     for aid in min_agents
                 )
-- 
2.43.0


From f8871e716790363d07437aa981c2e72a9f5183b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:46 +0000
Subject: [PATCH 18/33] fix: contains() of verification trees with nodes that
 were not expanded or were cut off

---
 verse/analysis/analysis_tree.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 5abdbd6..85452bb 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -386,19 +386,21 @@ class AnalysisTree:
                     ]
                     for aid in min_agents
                 }
-                if len(n.child) == 0:
+                # nodes at the depth limit have no tubes for some of the agents
+                computed = [c for c in n.child if all(aid in c.trace for aid in min_agents)]
+                if len(computed) == 0:
                     return {aid: cur[aid] for aid in other_agents}
                 else:
-                    children = [collect_ranges(c) for c in n.child]
+                    children = [collect_ranges(c) for c in computed]
                     child_num = len(children)
                     time_step = round(
                         n.trace[min_agents[0]][-1][0] - n.trace[min_agents[0]][-2][0],
                         10,
                     )
-                    start_time_list = [c.start_time for c in n.child]
+                    start_time_list = [c.start_time for c in computed]
                     min_start_time = min(start_time_list)
                     bias_list = [
-                        round((c.start_time - min_start_time) / time_step) for c in n.child
+                        round((c.start_time - min_start_time) / time_step) for c in computed
                     ]
                     trace_len_list = [len(children[i][min_agents[0]]) for i in range(child_num)]
                     trace_len = max(trace_len_list)
@@ -427,8 +429,12 @@ class AnalysisTree:
                     overlap = {
                         aid: [
                             [
-                                portion.Interval.union(
-                                    cur[aid][i][j], combined[aid][overlap_len + i][j]
+                                (
+                                    portion.Interval.union(
+                                        cur[aid][i][j], combined[aid][overlap_len + i][j]
+                                    )
+                                    if overlap_len + i < trace_len
+                                    else cur[aid][i][j]
                                 )
                                 for j in range(cont_num)
                             ]
@@ -443,7 +449,8 @@ class AnalysisTree:
 
             this_tree, other_tree = collect_ranges(self.root), collect_ranges(other.root)
             total_len = len(other_tree[min_agents[0]])
-            assert total_len <= len(this_tree[min_agents[0]])
+            if total_len > len(this_tree[min_agents[0]]):
+                return False
             # bloat and containment
             return all(
                 other_tree[aid][i][j]
-- 
2.43.0


From 86c9fb37d092999fdbcb40218b0313b9d28bf30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:46 +0000
Subject: [PATCH 19/33] fix: simulate_simple() gives every node an id of its
 own

---
 verse/analysis/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index f1f573e..5106b1c 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -517,6 +517,7 @@ class Simulator:
 
         simulation_queue = []
         simulation_queue.append(root)
+        next_id = root.id + 1
         # Perform BFS through the simulation tree to loop through all possible transitions
         while simulation_queue != []:
             node: AnalysisTreeNode = simulation_queue.pop(0)
@@ -610,8 +611,9 @@ class Simulator:
                         init=next_node_init,
                         mode=next_node_mode,
                         start_time=next_node_start_time,
-                        id=-1,
+                        id=next_id,
                     )
+                    next_id += 1
                     node.child.append(tmp)
                     simulation_queue.append(tmp)
                 # print(red("end sim"))
-- 
2.43.0


From b3248f1f754d1c3b4deb2740281330cad47d61b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:40 +0000
Subject: [PATCH 20/33] fix: load() keeps the shape of empty traces

---
 verse/analysis/analysis_tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 85452bb..45b4283 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -228,7 +228,10 @@ class AnalysisTreeNode:
     def _from_dict(data: Dict[str, Any]) -> "AnalysisTreeNode":
         return AnalysisTreeNode(
             trace=(
-                {aid: np.array(trace) for aid, trace in data["trace"].items()}
+                {
+                    aid: np.array(trace) if trace else np.empty((0, len(data["init"][aid]) + 1))
+                    for aid, trace in data["trace"].items()
+                }
                 if data["type"] == "simtrace"
                 else data["trace"]
             ),
-- 
2.43.0


From f0bfe4a02ef86dcd68f05438dc87a358b14bb55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 21/33] fix: contains() of verification trees whose root was
 not expanded

---
 verse/analysis/analysis_tree.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 45b4283..94030cf 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -373,6 +373,13 @@ class AnalysisTree:
 
             return sim_node_contains(self.root, other.root)
         else:  # Reachability
+
+            def has_tubes(n: AnalysisTreeNode) -> bool:
+                return all(aid in n.trace for aid in min_agents)
+
+            # with a depth limit of 1 not even the root has tubes
+            if not has_tubes(self.root) or not has_tubes(other.root):
+                return not has_tubes(other.root)
             cont_num = len(other.nodes[0].trace[min_agents[0]][0])
 
             def collect_ranges(
@@ -390,7 +397,7 @@ class AnalysisTree:
                     for aid in min_agents
                 }
                 # nodes at the depth limit have no tubes for some of the agents
-                computed = [c for c in n.child if all(aid in c.trace for aid in min_agents)]
+                computed = [c for c in n.child if has_tubes(c)]
                 if len(computed) == 0:
                     return {aid: cur[aid] for aid in other_agents}
                 else:
-- 
2.43.0


From f46ba37a2b9a96154c8e1c535686f8a45ded1eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 22/33] fix: contains() keeps the end of branches which start
 later than others

---
 verse/analysis/analysis_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 94030cf..5706eea 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -413,7 +413,7 @@ class AnalysisTree:
                         round((c.start_time - min_start_time) / time_step) for c in computed
                     ]
                     trace_len_list = [len(children[i][min_agents[0]]) for i in range(child_num)]
-                    trace_len = max(trace_len_list)
+                    trace_len = max(l + b for l, b in zip(trace_len_list, bias_list))
                     combined = {
                         aid: [
                             [
-- 
2.43.0


From 2915b265c363a4de5f3c8ba4f2c5d1ea8162710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 23/33] fix: verify() does not share the scenario's initial
 sets with its trees

---
 verse/scenario/scenario.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/scenario/scenario.py b/verse/scenario/scenario.py
index f714335..29b343a 100644
--- a/verse/scenario/scenario.py
+++ b/verse/scenario/scenario.py
@@ -341,7 +341,7 @@ class Scenario:
         root = AnalysisTreeNode.root_from_inits(
             init={
                 #KB: todo: must fix this!!!
-                aid: [init] #[[init, init] if np.array(init).ndim < 2 else init]
+                aid: [copy.deepcopy(init)] #[[init, init] if np.array(init).ndim < 2 else init]
                 for aid, init in self.init_dict.items()
             },
             mode={
@@ -387,7 +387,7 @@ class Scenario:
         self._check_init()
         root = AnalysisTreeNode.root_from_inits(
             init={
-                aid: [init]
+                aid: [copy.deepcopy(init)]
                 for aid, init in self.init_dict.items()
             },
             mode={
-- 
2.43.0


From abfe86d62bd453e6958937d997bc02bd3a89ba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 24/33] fix: a value which both branches of an if assign is not
 lost

---
 verse/parser/parser.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 63be923..597fc90 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -579,7 +579,8 @@ ScopeValueMap = Dict[str, ScopeValue]
 
 def merge_if(test: ast.expr, trues: Env, falses: Env, env: Env):
     # `true`, `false` and `env` should have the same level
-    for true, false in zip(trues.scopes, falses.scopes):
+    for true, false, orig in zip(trues.scopes, falses.scopes, env.scopes):
+        merge_equal(true.v, false.v, orig.v)
         merge_if_single(test, true.v, false.v, env)
     env.scopes[0].asserts = merge_assert(
         test, trues.scopes[0].asserts, falses.scopes[0].asserts, env.scopes[0].asserts
@@ -645,6 +646,20 @@ def merge_if_single(
             assign(scope, var, copy.deepcopy(if_val))
 
 
+def merge_equal(true: ScopeValueMap, false: ScopeValueMap, scope: ScopeValueMap):
+    """Keep the values which both branches of an if give to a variable"""
+    for var in true:
+        val, orig = true[var], scope.get(var)
+        if isinstance(val, dict) and isinstance(false.get(var), dict) and isinstance(orig, dict):
+            merge_equal(val, false[var], orig)
+        elif ControllerIR.ir_eq(val, false.get(var)) and not ControllerIR.ir_eq(val, orig):
+            if orig != None and not isinstance(val, dict) and not isinstance(orig, dict):
+                cases = val.elems if isinstance(val, CondVal) else [CondValCase([], val)]
+                orig_cases = orig.elems if isinstance(orig, CondVal) else [CondValCase([], orig)]
+                val = CondVal(cases + [case for case in orig_cases if case not in cases])
+            scope[var] = copy.deepcopy(val)
+
+
 def merge_if_val(
     test, true: Optional[ScopeValue], false: Optional[ScopeValue], orig: Optional[ScopeValue]
 ) -> CondVal:
-- 
2.43.0


From e3c8bd7f582782ca53b4987937da35485236aaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:04 +0000
Subject: [PATCH 25/33] fix: GLOBAL bloating of a single time step

With one step left dryvr fits its exponential through a single point, and
the convex hull of it raises QhullError: verify() failed whenever a
transition happened one step before the horizon. With one step there is no
curve to fit, so such a segment is bloated piecewise.
---
 verse/analysis/dryvr.py      | 2 +-
 verse/analysis/dryvr_disc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/dryvr.py b/verse/analysis/dryvr.py
index 1af652d..3ae7637 100644
--- a/verse/analysis/dryvr.py
+++ b/verse/analysis/dryvr.py
@@ -62,7 +62,7 @@ def get_reachtube_segment(
     normalizing_initial_set_radii: np.ndarray = initial_radii.copy()
     normalizing_initial_set_radii[np.where(normalizing_initial_set_radii == 0)] = 1.0
     df: np.ndarray = np.zeros((trace_len, ndims))
-    if method == "PW":
+    if method == "PW" or trace_len <= 2:  # One step is no curve to fit
         df[:, 1:] = np.transpose(
             points[:, :, 1]
             * np.reshape(normalizing_initial_set_radii, (normalizing_initial_set_radii.size, 1))
diff --git a/verse/analysis/dryvr_disc.py b/verse/analysis/dryvr_disc.py
index 7a3c6a6..ab6f6a2 100644
--- a/verse/analysis/dryvr_disc.py
+++ b/verse/analysis/dryvr_disc.py
@@ -49,7 +49,7 @@ def get_reachtube_segment(training_traces: np.ndarray, initial_radii: np.ndarray
     normalizing_initial_set_radii: np.ndarray = initial_radii.copy()
     normalizing_initial_set_radii[np.where(normalizing_initial_set_radii == 0)] = 1.0
     df: np.ndarray = np.zeros((trace_len, ndims))
-    if method == 'PW':
+    if method == 'PW' or trace_len <= 2:  # One step is no curve to fit
         df[:, 1:] = np.transpose(
             points[:, :, 1] * np.reshape(normalizing_initial_set_radii, (normalizing_initial_set_radii.size, 1)))
     elif method == 'PWGlobal':
-- 
2.43.0


From 2092c0c44c1638ebb5e71b9de1d250a0ba7e4b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:17 +0000
Subject: [PATCH 26/33] fix: DRYVR_DISC starts from all the initial sets of a
 node

A mode entered from several guard segments has one initial rectangle per
segment. DRYVR_DISC computed the tube of the first of them only (there was a
FIXME), so states reachable from the others were missing from the tree and
unsafe runs were reported safe. Its tubes are now merged like those of DRYVR.
---
 verse/analysis/verifier.py | 48 +++++++++-----------------------------
 1 file changed, 11 insertions(+), 37 deletions(-)

diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index cef3a31..a70628f 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -311,6 +311,7 @@ class Verifier:
         guard_checker=None,
         guard_str="",
         lane_map=None,
+        calc_tube=calc_bloated_tube,
     ):
         """
         Get the full bloated tube. use cached tubes, calculate noncached tubes
@@ -346,7 +347,7 @@ class Verifier:
                     combined_rect[0, :] = np.minimum(combined_rect[0, :], rect[0, :])
                     combined_rect[1, :] = np.maximum(combined_rect[1, :], rect[1, :])
             combined_rect = combined_rect.tolist()
-            cur_bloated_tube = calc_bloated_tube(
+            cur_bloated_tube = calc_tube(
                 mode_label,
                 combined_rect,
                 time_horizon,
@@ -456,9 +457,6 @@ class Verifier:
                 
                 elif consts.reachability_method == ReachabilityMethod.DRYVR_DISC:
                     from verse.analysis.dryvr_disc import calc_bloated_tube_dryvr
-                    bloating_method = 'PW'
-                    if 'bloating_method' in params:
-                        bloating_method = params['bloating_method']
                     traces = None
                     if 'traces' in params:
                         traces = params['traces']     
@@ -467,46 +465,22 @@ class Verifier:
                     else:
                         sim_trace_num = SIMTRACENUM              
 
-                    init = inits[0] # FIXME: this makes no sense, should instead mirror what regular dryvr does; assuming this was put here as a placeholder
-                    if isinstance(init, np.ndarray):
-                        init = init.tolist()
-                    cur_bloated_tube = calc_bloated_tube_dryvr(
+                    cur_bloated_tube, _ = Verifier.calculate_full_bloated_tube_simple(
+                        agent_id,
+                        None,
+                        False,
                         mode,
-                        init,
+                        inits,
                         remain_time,
                         consts.time_step,
                         node.agent[agent_id].TC_simulate,
-                        bloating_method, 
+                        params,
                         100,
                         sim_trace_num,
-                        lane_map = consts.lane_map,
-                        traces = traces
+                        combine_seg_length=consts.init_seg_length,
+                        lane_map=consts.lane_map,
+                        calc_tube=functools.partial(calc_bloated_tube_dryvr, traces=traces),
                     )
-                    if isinstance(cur_bloated_tube, np.ndarray):
-                        cur_bloated_tube = cur_bloated_tube.tolist()
-
-                    # NOTE: fixing the issue listed above, current solution is the tighest but also slowest and has no compatibility with the combine_seg_length parameter
-                    # TODO: add compatibility with init_combine_seg or whatever
-                    # combined_inits = []
-                    # print(f'{len(inits)} traces to combine')
-                    # for init in inits:
-                    #     if isinstance(init, np.ndarray):
-                    #         init = init.tolist()
-                    #     combined_inits.append(init)
-
-                    # partitioned_traces = []
-                    # # TODO: parallelize this
-                    # for init in combined_inits:
-                    #     cur_bloated_tube = calc_bloated_tube_dryvr(
-                    #         mode, init, remain_time, consts.time_step, node.agent[agent_id].TC_simulate, 
-                    #         bloating_method, 100, sim_trace_num, lane_map=consts.lane_map, traces=traces
-                    #     )
-                    #     if isinstance(cur_bloated_tube, np.ndarray):
-                    #         cur_bloated_tube = cur_bloated_tube.tolist()
-                    #     partitioned_traces.append(cur_bloated_tube)
-                    
-                    # # Combine the results together
-                    # cur_bloated_tube = Verifier._union_traces(partitioned_traces, consts.reachability_method)
 
                 elif consts.reachability_method == ReachabilityMethod.NEU_REACH:
                     # pylint: disable=E0401
-- 
2.43.0


From 94632ee195563b8e815d1bddf35c2f78c4aa572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:12 +0000
Subject: [PATCH 27/33] fix: incremental simulate() gives what simulate() gives

Cached traces were found by agent, mode and initial state only, though they
also depend on the time they start at, how long they are and their step, and
the trees of later runs shared (and the user could change) their arrays. Of
the transitions, a node kept those of one earlier run: the paths which the
new decision logic added were checked only together with those of agents
whose transitions had been found, a path whose reset changed kept its old
guard's time, assertions were not checked again, an earlier hit which the map
refused hid the later ones, and other agents' initial states were ignored.

A trace is now cached with its span, copied in and out, and a node keeps
which decision logic it was checked with and the first sample at which a
guard holds. Up to that sample only paths with a new condition are checked,
from there on everything is.
---
 verse/analysis/incremental.py | 133 ++++++++++----------
 verse/analysis/simulator.py   | 224 +++++++++-------------------------
 2 files changed, 125 insertions(+), 232 deletions(-)

diff --git a/verse/analysis/incremental.py b/verse/analysis/incremental.py
index 46a18b7..b68d930 100644
--- a/verse/analysis/incremental.py
+++ b/verse/analysis/incremental.py
@@ -14,20 +14,18 @@ from verse.parser.parser import ControllerIR, ModePath
 
 
 @dataclass
-class CachedTransition:
-    inits: Dict[str, List[float]]
-    transition: int
-    disc: List[str]
-    cont: List[float]
-    paths: List[ModePath]
+class CachedSegment:
+    trace: nptyp.NDArray[np.double]
 
 
 @dataclass
-class CachedSegment:
-    trace: nptyp.NDArray[np.double]
-    asserts: List[str]
-    transitions: List[CachedTransition]
-    node_ids: Set[Tuple[int, int]]
+class CheckedNode:
+    """A simulation node in which no assertion failed"""
+
+    inits: Dict[str, List[float]]
+    static: Dict[str, List[str]]
+    controllers: Dict[str, ControllerIR]
+    first_hit: int  # No guard holds before this sample
 
 
 @dataclass
@@ -51,8 +49,8 @@ class CachedRTTrans:
 def to_simulate(
     old_agents: Dict[str, BaseAgent],
     new_agents: Dict[str, BaseAgent],
-    cached: Dict[str, CachedSegment],
-) -> Tuple[Dict[str, CachedSegment], Any]:  # s/Any/PathDiffs/
+    cached: Dict[str, CachedRTTrans],
+) -> Tuple[Dict[str, CachedRTTrans], Any]:  # s/Any/PathDiffs/
     assert set(old_agents.keys()) == set(new_agents.keys())
     new_cache = {}
     total_added_paths = []
@@ -98,16 +96,20 @@ def to_simulate(
     return new_cache, total_added_paths
 
 
-def convert_sim_trans(agent_id, transit_agents, inits, transition, trans_ind):
-    if agent_id in transit_agents:
-        return [
-            CachedTransition(
-                {k: list(v) for k, v in inits.items()}, trans_ind, mode, list(init), paths
-            )
-            for _id, mode, init, paths in transition
+def changed_paths(
+    old_ctlrs: Dict[str, ControllerIR], new_agents: Dict[str, BaseAgent]
+) -> Dict[str, List[ModePath]]:
+    """For each agent whose decision logic changed, the paths which have a new condition"""
+    res = {}
+    for agent_id, agent in new_agents.items():
+        old_ctlr, new_ctlr = old_ctlrs[agent_id], agent.decision_logic
+        if old_ctlr is new_ctlr:
+            continue
+        old_conds = [ControllerIR.dump(path.cond_veri) for path in old_ctlr.paths]
+        res[agent_id] = [
+            path for path in new_ctlr.paths if ControllerIR.dump(path.cond_veri) not in old_conds
         ]
-    else:
-        return []
+    return res
 
 
 def convert_reach_trans(agent_id, transit_agents, inits, transition, trans_ind):
@@ -134,8 +136,9 @@ def combine_all(inits, stars=False):
 
 
 def sim_trans_suit(a: Dict[str, List[float]], b: Dict[str, List[float]]) -> bool:
-    assert set(a.keys()) == set(b.keys())
-    return all(abs(av - bv) < _EPSILON for aid in a.keys() for av, bv in zip(a[aid], b[aid]))
+    return set(a.keys()) == set(b.keys()) and all(
+        abs(av - bv) < _EPSILON for aid in a.keys() for av, bv in zip(a[aid], b[aid])
+    )
 
 
 def reach_trans_suit(
@@ -167,30 +170,26 @@ class CachedTube:
 class SimTraceCache:
     def __init__(self):
         self.cache: DefaultDict[tuple, IntervalTree] = defaultdict(IntervalTree)
+        self.checked: DefaultDict[tuple, List[CheckedNode]] = defaultdict(list)
+
+    @staticmethod
+    def span(start_time: float, remain_time: float, time_step: float) -> Tuple[float, float, float]:
+        return round(float(start_time), 10), remain_time, time_step
 
     def add_segment(
         self,
         agent_id: str,
-        node: AnalysisTreeNode,
-        transit_agents: List[str],
+        mode: Tuple[str],
+        init: List[float],
+        span: Tuple[float, float, float],
         trace: nptyp.NDArray[np.double],
-        transition,
-        trans_ind: int,
-        run_num: int,
     ):
-        key = (agent_id,) + tuple(node.mode[agent_id])
-        init = node.init[agent_id]
-        tree = self.cache[key]
-        assert_hits = node.assert_hits or {}
-        # pp(('add seg', agent_id, *node.mode[agent_id], *init))
+        tree = self.cache[(agent_id,) + tuple(mode) + span]
+        # pp(('add seg', agent_id, *mode, *init))
         for i, val in enumerate(init):
             if i == len(init) - 1:
-                transitions = convert_sim_trans(
-                    agent_id, transit_agents, node.init, transition, trans_ind
-                )
-                entry = CachedSegment(
-                    trace, assert_hits.get(agent_id), transitions, set([(run_num, node.id)])
-                )
+                # The trace in the analysis tree belongs to the user
+                entry = CachedSegment(np.array(trace))
                 tree[val - _EPSILON : val + _EPSILON] = entry
                 return entry
             else:
@@ -202,17 +201,7 @@ class SimTraceCache:
     @staticmethod
     def iter_tree(tree, depth: int) -> List[List[float]]:
         if depth == 0:
-            return [
-                [
-                    (i.begin + i.end) / 2,
-                    (
-                        i.data.node_ids,
-                        [t.transition for t in i.data.transitions],
-                        len(i.data.trace),
-                    ),
-                ]
-                for i in tree
-            ]
+            return [[(i.begin + i.end) / 2, len(i.data.trace)] for i in tree]
         res = []
         for i in tree:
             mid = (i.begin + i.end) / 2
@@ -241,23 +230,41 @@ class SimTraceCache:
             ]
 
     def check_hit(
-        self, agent_id: str, mode: Tuple[str], init: List[float], inits: Dict[str, List[float]]
+        self, agent_id: str, mode: Tuple[str], init: List[float], span: Tuple[float, float, float]
     ) -> Optional[CachedSegment]:
-        key = (agent_id,) + tuple(mode)
+        key = (agent_id,) + tuple(mode) + span
         if key not in self.cache:
             return None
-        tree = self.cache[key]
-        entries = self.query_cont(tree, init)
-        if len(entries) == 0:
-            return None
+        entries = self.query_cont(self.cache[key], init)
+        return entries[0] if len(entries) > 0 else None
 
-        def num_trans_suit(e: CachedSegment) -> int:
-            return sum(1 if sim_trans_suit(t.inits, inits) else 0 for t in e.transitions)
+    @staticmethod
+    def checked_key(node: AnalysisTreeNode, span: Tuple[float, float, float]):
+        return tuple(sorted((aid, tuple(mode)) for aid, mode in node.mode.items())) + span
 
-        entries = list(sorted([(e, -num_trans_suit(e)) for e in entries], key=lambda p: p[1]))
-        # pp(("check hit entries", len(entries), entries[0][1]))
-        assert isinstance(entries[0][0], (type(None), CachedSegment))
-        return entries[0][0]
+    def add_checked(
+        self, node: AnalysisTreeNode, span: Tuple[float, float, float], first_hit: int
+    ):
+        old = self.find_checked(node, span)
+        checked = self.checked[self.checked_key(node, span)]
+        if old != None:
+            checked.remove(old)
+        checked.append(
+            CheckedNode(
+                {aid: list(init) for aid, init in node.init.items()},
+                copy.deepcopy(node.static),
+                {aid: agent.decision_logic for aid, agent in node.agent.items()},
+                first_hit,
+            )
+        )
+
+    def find_checked(
+        self, node: AnalysisTreeNode, span: Tuple[float, float, float]
+    ) -> Optional[CheckedNode]:
+        for checked in self.checked.get(self.checked_key(node, span), []):
+            if sim_trans_suit(checked.inits, node.init) and checked.static == node.static:
+                return checked
+        return None
 
 
 class TubeCache:
diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 5106b1c..0dd6fe5 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -14,24 +14,19 @@ from enum import Enum
 import numpy as np
 
 from verse.agents.base_agent import BaseAgent
-from verse.analysis.incremental import CachedSegment, SimTraceCache, convert_sim_trans, to_simulate
+from verse.analysis.incremental import CachedSegment, SimTraceCache, changed_paths
 from verse.utils.utils import dedup
 from verse.map.lane_map import LaneMap
 from verse.parser.parser import ModePath, find, unparse
-from verse.analysis.incremental import (
-    CachedRTTrans,
-    CachedSegment,
-    combine_all,
-    reach_trans_suit,
-    sim_trans_suit,
-)
 
 pp = functools.partial(pprint.pprint, compact=True, width=130)
 
 # from verse.agents.base_agent import BaseAgent
 from verse.analysis.analysis_tree import AnalysisTreeNode, AnalysisTree, TraceType
 
-PathDiffs = List[Tuple[BaseAgent, ModePath]]
+# No guard holds before the sample with this index, except those of these new paths of agents whose
+# decision logic was changed
+CheckedPaths = Tuple[int, Dict[str, List[ModePath]]]
 
 EGO, OTHERS = "ego", "others"
 
@@ -197,7 +192,7 @@ class Simulator:
         config: "ScenarioConfig",
         cached_segments: Dict[str, CachedSegment],
         node: AnalysisTreeNode,
-        old_node_id: Optional[Tuple[int, int]],
+        checked: Optional[CheckedPaths],
         later: int,
         remain_time: float,
         consts: SimConsts,
@@ -209,11 +204,11 @@ class Simulator:
             print(f"node {node.id} start: {node.start_time}")
             print(node.mode)
         # print(f"node id: {node.id}")
-        cache_updates = []
+        cache_updates = None
         for agent_id in node.agent:
             if agent_id not in node.trace:
                 if agent_id in cached_segments:
-                    node.trace[agent_id] = cached_segments[agent_id].trace
+                    node.trace[agent_id] = np.array(cached_segments[agent_id].trace)
                 else:
                     # pp(("sim", agent_id, *mode, *init))
                     # Simulate the trace starting from initial condition
@@ -225,19 +220,8 @@ class Simulator:
                     trace[:, 0] += node.start_time ### breakpoints here
                     node.trace[agent_id] = trace
         # pp(("cached_segments", cached_segments.keys()))
-        # TODO: for now, make sure all the segments comes from the same node; maybe we can do
-        # something to combine results from different nodes in the future
-        new_cache, paths_to_sim = {}, []
-        if old_node_id != None:
-            if old_node_id[0] != consts.run_num:
-                old_node = find(
-                    consts.past_runs[old_node_id[0]].nodes, lambda n: n.id == old_node_id[1]
-                )
-                assert old_node != None
-                new_cache, paths_to_sim = to_simulate(old_node.agent, node.agent, cached_segments)
-
-        asserts, transitions, transition_idx = Simulator.get_transition_simulate(
-            new_cache, paths_to_sim, node, consts.lane_map, consts.sensor, consts.agent_dict, config.print_level
+        asserts, transitions, transition_idx, first_hit = Simulator.get_transition_simulate(
+            checked, node, consts.lane_map, consts.sensor, consts.agent_dict, config.print_level
         )
         node.assert_hits = asserts
         
@@ -271,42 +255,16 @@ class Simulator:
             # print(transition_idx)
             # pp({a: len(t) for a, t in node.trace.items()})
         else:
+            if config.incremental:
+                span = SimTraceCache.span(node.start_time, remain_time, consts.time_step)
+                new_traces = {a: t for a, t in full_traces.items() if a not in cached_segments}
+                cache_updates = (span, new_traces, first_hit)
             # If there's no transitions (returned transitions is empty), continue
             if not transitions:
-                if config.incremental:
-                    for agent_id in node.agent:
-                        cache_updates.append(
-                            (
-                                agent_id not in cached_segments,
-                                agent_id,
-                                [],
-                                full_traces[agent_id],
-                                [],
-                                transition_idx,
-                                consts.run_num,
-                            )
-                        )
                 # print(red("no trans"))
                 # print(f"node {node.id} dur {timeit.default_timer() - t}")
                 return (node.id, later, [], node.trace, asserts, cache_updates)
 
-            transit_agents = transitions.keys()
-            # pp(("transit agents", transit_agents))
-            if config.incremental:
-                for agent_id in node.agent:
-                    transition = transitions[agent_id] if agent_id in transit_agents else []
-                    # TODO: update current transitions
-                    cache_updates.append(
-                        (
-                            agent_id not in cached_segments,
-                            agent_id,
-                            transit_agents,
-                            full_traces[agent_id],
-                            transition,
-                            transition_idx,
-                            consts.run_num,
-                        )
-                    )
             # pp(("cached inits", self.cache.get_cached_inits(3)))
             # Generate the transition combinations if multiple agents can transit at the same time step
             transition_list = list(transitions.values())
@@ -364,34 +322,14 @@ class Simulator:
             self.simulation_queue.append((node, later))
         self.simulation_queue.sort(key=lambda p: p[1:])
         self.nodes.extend(next_nodes)
-        for (
-            new,
-            aid,
-            transit_agents,
-            full_trace,
-            transition,
-            transition_idx,
-            run_num,
-        ) in cache_updates:
-            cached = self.cache.check_hit(
-                aid, done_node.mode[aid], done_node.init[aid], done_node.init
-            )
-            if new and not cached:
-                self.cache.add_segment(
-                    aid, done_node, transit_agents, full_trace, transition, transition_idx, run_num
-                )
-                self.num_cached += 1
-            else:
-                assert cached != None
-                cached.transitions.extend(
-                    convert_sim_trans(
-                        aid, transit_agents, done_node.init, transition, transition_idx
-                    )
-                )
-                cached.transitions = dedup(cached.transitions, lambda i: (i.disc, i.cont, i.inits))
-                cached.node_ids.add((run_num, done_node.id))
-            # pre_len = len(cached_segments[aid].transitions)
-            # pp(("dedup!", pre_len, len(cached_segments[aid].transitions)))
+        if cache_updates != None:
+            span, new_traces, first_hit = cache_updates
+            for aid, trace in new_traces.items():
+                mode, init = done_node.mode[aid], done_node.init[aid]
+                if not self.cache.check_hit(aid, mode, init, span):
+                    self.cache.add_segment(aid, mode, init, span, trace)
+                    self.num_cached += 1
+            self.cache.add_checked(done_node, span, first_hit)
         # print(f"proc dur {timeit.default_timer() - t}")
 
     def simulate(
@@ -437,28 +375,23 @@ class Simulator:
                     continue
                 # For trace not already simulated
                 cached_segments = {}
-                for agent_id in node.agent:
-                    mode = node.mode[agent_id]
-                    init = node.init[agent_id]
-                    if self.config.incremental:
+                checked = None
+                if self.config.incremental:
+                    span = SimTraceCache.span(node.start_time, remain_time, time_step)
+                    for agent_id in node.agent:
+                        mode = node.mode[agent_id]
+                        init = node.init[agent_id]
                         # pp(("check hit", agent_id, mode, init))
-                        cached = self.cache.check_hit(agent_id, mode, init, node.init)
+                        cached = self.cache.check_hit(agent_id, mode, init, span)
                         if cached != None:
                             self.cache_hits = self.cache_hits[0] + 1, self.cache_hits[1]
+                            cached_segments[agent_id] = cached
                         else:
                             self.cache_hits = self.cache_hits[0], self.cache_hits[1] + 1
-                        # pp(("check hit res", agent_id, len(cached.transitions) if cached != None else None))
-                        if cached != None:
-                            cached_segments[agent_id] = cached
-                old_node_id = None
-                if len(cached_segments) == len(node.agent):
-                    all_node_ids = [s.node_ids for s in cached_segments.values()]
-                    node_ids = list(functools.reduce(lambda a, b: a.intersection(b), all_node_ids))
-                    if len(node_ids) > 0:
-                        old_node_id = node_ids[0]
-                    # else:
-                    #     print(f"not full {node.id}: {node_ids}, {len(cached_segments) == len(node.agent)} | {all_node_ids}")
-                if not self.config.parallel or old_node_id != None:
+                    old = self.cache.find_checked(node, span)
+                    if old != None:
+                        checked = old.first_hit, changed_paths(old.controllers, node.agent)
+                if not self.config.parallel or checked != None:
                     # print(f"local {node.id}")
                     t = timeit.default_timer()
                     self.proc_result(
@@ -466,7 +399,7 @@ class Simulator:
                             self.config,
                             cached_segments,
                             node,
-                            old_node_id,
+                            checked,
                             later,
                             remain_time,
                             consts,
@@ -479,7 +412,7 @@ class Simulator:
                             self.config,
                             cached_segments,
                             node,
-                            old_node_id,
+                            checked,
                             later,
                             remain_time,
                             consts_ref,
@@ -626,8 +559,7 @@ class Simulator:
 
     @staticmethod
     def get_transition_simulate(
-        cache: Dict[str, CachedSegment],
-        paths: PathDiffs,
+        checked: Optional[CheckedPaths],
         node: AnalysisTreeNode,
         track_map: LaneMap,
         sensor,
@@ -637,67 +569,14 @@ class Simulator:
         Optional[Dict[str, List[str]]],
         Optional[Dict[str, List[Tuple[str, List[str], List[float]]]]],
         int,
+        int,
     ]:
         trace_length = len(list(node.trace.values())[0])
 
         # For each agent
         agent_guard_dict = defaultdict(list)
-        cached_guards = defaultdict(list)
-        min_trans_ind = None
-        cached_trans = defaultdict(list)
-
-        if not cache:
-            paths = [
-                (agent, p) for agent in node.agent.values() for p in agent.decision_logic.paths
-            ]
-        else:
-            _transitions = [
-                (aid, trans)
-                for aid, seg in cache.items()
-                for trans in seg.transitions
-                if sim_trans_suit(trans.inits, node.init)
-            ]
-            # pp(("cached trans", _transitions))
-            if len(_transitions) > 0:
-                min_trans_ind = min([t.transition for _, t in _transitions])
-                # pp(("min", min_trans_ind))
-                for aid, trans in _transitions:
-                    # TODO: check for asserts
-                    if trans.transition == min_trans_ind:
-                        # pp(("chosen tran", aid, trans))
-                        cached_trans[aid].append((aid, trans.disc, trans.cont, trans.paths))
-                for agent_id in cached_trans:
-                    cached_trans[agent_id] = dedup(cached_trans[agent_id], lambda p: p[:3])
-                if len(paths) == 0:
-                    # print(red("full cache"))
-                    return None, dict(cached_trans), min_trans_ind
-
-                path_transitions = defaultdict(int)
-                for seg in cache.values():
-                    for tran in seg.transitions:
-                        for p in tran.paths:
-                            path_transitions[p.cond] = max(
-                                path_transitions[p.cond], tran.transition
-                            )
-                for agent_id, segment in cache.items():
-                    agent = node.agent[agent_id]
-                    if len(agent.decision_logic.args) == 0:
-                        continue
-                    state_dict = {
-                        aid: (node.trace[aid][0], node.mode[aid], node.static[aid])
-                        for aid in node.agent
-                    }
-                    agent_paths = dedup(
-                        [p for tran in segment.transitions for p in tran.paths],
-                        lambda i: (i.var, i.cond, i.val),
-                    )
-                    cont_var_dict_template, discrete_variable_dict, len_dict = sensor.sense(
-                        agent, state_dict, track_map
-                    )
-                    for path in agent_paths:
-                        cached_guards[agent_id].append(
-                            (path, discrete_variable_dict, path_transitions[path.cond])
-                        )
+
+        paths = [(agent, p) for agent in node.agent.values() for p in agent.decision_logic.paths]
 
         for agent, path in paths:
             # Get guard
@@ -719,13 +598,21 @@ class Simulator:
                 agent_guard_dict[agent.id]
 
         transitions = defaultdict(list)
+        # The first sample with a guard that holds, even when the map does not permit its transition
+        first_hit = None
         # TODO: We can probably rewrite how guard hit are detected and resets are handled for simulation
         for idx in range(trace_length):
-            if min_trans_ind != None and idx >= min_trans_ind:
-                return None, dict(cached_trans), min_trans_ind
+            guards_to_check = agent_guard_dict
+            if checked != None and idx < checked[0]:
+                # The assertions of agents whose decision logic was changed, and their new paths
+                guards_to_check = {
+                    aid: [g for g in guards if g[0] in checked[1][aid]]
+                    for aid, guards in agent_guard_dict.items()
+                    if aid in checked[1]
+                }
             satisfied_guard = []
             all_asserts = defaultdict(list)
-            for agent_id in agent_guard_dict:
+            for agent_id in guards_to_check:
                 agent: BaseAgent = agent_dict[agent_id]
                 state_dict = {
                     aid: (node.trace[aid][idx], node.mode[aid], node.static[aid])
@@ -736,12 +623,9 @@ class Simulator:
                 continuous_variable_dict, orig_disc_vars, _ = sensor.sense(
                     agent, state_dict, track_map
                 )
-                unchecked_cache_guards = [
-                    g[:2] for g in cached_guards[agent_id] if g[2] < idx
-                ]  # FIXME: off by 1?
                 asserts, satisfied = check_sim_transitions(
                     agent,
-                    agent_guard_dict[agent_id] + unchecked_cache_guards,
+                    guards_to_check[agent_id],
                     continuous_variable_dict,
                     orig_disc_vars,
                     track_map,
@@ -755,8 +639,10 @@ class Simulator:
                     satisfied_guard.extend(satisfied)
                     # assert all(len(s[2]) == 4 for s in satisfied)
             if len(all_asserts) > 0:
-                return all_asserts, dict(transitions), idx
+                return all_asserts, dict(transitions), idx, idx
             if len(satisfied_guard) > 0:
+                if first_hit is None:
+                    first_hit = idx
                 if print_level >= 1:
                     print(f"Length of satisfied guard: {len(satisfied_guard)}")
                 for agent_idx, dest, next_init, paths in satisfied_guard:
@@ -784,7 +670,7 @@ class Simulator:
                 if transitions:
                     break
         transitions = {aid: dedup(v, lambda p: (p[1], list(p[2]))) for aid, v in transitions.items()}
-        return None, transitions, idx
+        return None, transitions, idx, idx if first_hit is None else first_hit
 
     @staticmethod
     def get_transition_simulate_simple(
-- 
2.43.0


From 3b8198bc22c89cf4205f23c752c88858491299e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:12 +0000
Subject: [PATCH 28/33] fix: incremental verify() gives what verify() gives

Cached tubes were found by agent, mode and initial set only, though they also
depend on how long they are and their step; cached and computed segments of
the initial sets were merged in a different order than without the cache,
into an array which belonged to the cache. The transitions of a node were
taken from one whose initial sets only resembled it, and were lost, repeated
or given an old reset when the decision logic changed; assertions were not
checked again.

A tube is now cached with its span, copied in and out, and merged in order. A
node whose tubes are the same as those of an earlier one takes the
transitions of that one if the decision logic is the same as well; otherwise
only paths and assertions with a new condition are checked before the first
segment at which anything could hold there, and everything from there on.
---
 verse/analysis/incremental.py | 249 ++++---------------
 verse/analysis/verifier.py    | 434 +++++++++-------------------------
 2 files changed, 169 insertions(+), 514 deletions(-)

diff --git a/verse/analysis/incremental.py b/verse/analysis/incremental.py
index b68d930..c9dde48 100644
--- a/verse/analysis/incremental.py
+++ b/verse/analysis/incremental.py
@@ -29,71 +29,31 @@ class CheckedNode:
 
 
 @dataclass
-class CachedReachTrans:
-    inits: Dict[str, List[float]]
-    transition: int
-    mode: List[str]
-    dest: List[float]
-    reset: List[float]
-    reset_idx: List[int]
-    paths: List[ModePath]
+class CheckedTubes:
+    """The transitions found in a verification node"""
 
+    traces: Dict[str, nptyp.NDArray[np.double]]
+    static: Dict[str, List[str]]
+    controllers: Dict[str, ControllerIR]
+    asserts: Any
+    transitions: Any
+    first_hit: int  # No guard and no negated assertion can hold before this segment
 
-@dataclass
-class CachedRTTrans:
-    asserts: List[str]
-    transitions: List[CachedReachTrans]
-    node_ids: Set[Tuple[int, int]]  # run_num, node_id
-
-
-def to_simulate(
-    old_agents: Dict[str, BaseAgent],
-    new_agents: Dict[str, BaseAgent],
-    cached: Dict[str, CachedRTTrans],
-) -> Tuple[Dict[str, CachedRTTrans], Any]:  # s/Any/PathDiffs/
-    assert set(old_agents.keys()) == set(new_agents.keys())
-    new_cache = {}
-    total_added_paths = []
-    for agent_id, segment in cached.items():
-        if not segment.transitions:
-            new_cache[agent_id] = segment
-            continue
-        segment = copy.deepcopy(segment)
-        removed_paths, added_paths, reset_changed_paths = [], [], []
-        old_agent, new_agent = old_agents[agent_id], new_agents[agent_id]
-        old_ctlr, new_ctlr = old_agent.decision_logic, new_agent.decision_logic
-        assert old_ctlr.args == new_ctlr.args
-
-        def group_by_var(ctlr: ControllerIR) -> Dict[str, List[ModePath]]:
-            grouped = defaultdict(list)
-            for path in ctlr.paths:
-                grouped[path.var].append(path)
-            return dict(grouped)
-
-        old_grouped, new_grouped = group_by_var(old_ctlr), group_by_var(new_ctlr)
-        if set(old_grouped.keys()) != set(new_grouped.keys()):
-            raise NotImplementedError("different variable outputs")
-        for var, old_paths in old_grouped.items():
-            new_paths = new_grouped[var]
-            for i, (old, new) in enumerate(itertools.zip_longest(old_paths, new_paths)):
-                if new == None:
-                    removed_paths.append(old)
-                elif not ControllerIR.ir_eq(old.cond_veri, new.cond_veri):
-                    removed_paths.append(old)
-                    added_paths.append(new)
-                elif not ControllerIR.ir_eq(old.val_veri, new.val_veri):
-                    reset_changed_paths.append(new)
-        removed = False
-        for trans in segment.transitions:
-            for path in trans.paths:
-                removed = removed or (path in removed_paths)
-                for rcp in reset_changed_paths:
-                    if path.cond == rcp.cond:
-                        path.val = rcp.val
-        if not removed:
-            new_cache[agent_id] = segment
-        total_added_paths.extend((new_agent, p) for p in added_paths)
-    return new_cache, total_added_paths
+    def suits(self, node: AnalysisTreeNode) -> bool:
+        return self.static == node.static and all(
+            np.array_equal(trace, np.array(node.trace[aid])) for aid, trace in self.traces.items()
+        )
+
+    def unchanged(self, node: AnalysisTreeNode) -> bool:
+        return all(self.controllers[aid] is agent.decision_logic for aid, agent in node.agent.items())
+
+    def result(self) -> Tuple[Any, Any]:
+        # What is put into a tree belongs to the user
+        if self.transitions is None:
+            return copy.deepcopy(self.asserts), None
+        return copy.deepcopy(self.asserts), [
+            (*copy.deepcopy(trans[:-1]), trans[-1]) for trans in self.transitions
+        ]
 
 
 def changed_paths(
@@ -112,51 +72,12 @@ def changed_paths(
     return res
 
 
-def convert_reach_trans(agent_id, transit_agents, inits, transition, trans_ind):
-    if agent_id in transit_agents:
-        return [
-            CachedReachTrans(inits, trans_ind, mode, dest, reset, reset_idx, paths)
-            for _id, mode, dest, reset, reset_idx, paths in transition
-        ]
-    else:
-        return []
-
-def combine_all(inits, stars=False):
-    if stars:
-        from  verse.stars.starset import StarSet
-        #breakpoint()
-        while type(inits[0]) == list:
-            #KB : todo: fix this weird workaround
-            inits = inits[0]
-        return StarSet.combine_stars(inits)
-    return [
-        [min(a) for a in np.transpose(np.array(inits)[:, 0])],
-        [max(a) for a in np.transpose(np.array(inits)[:, 1])],
-    ]
-
-
 def sim_trans_suit(a: Dict[str, List[float]], b: Dict[str, List[float]]) -> bool:
     return set(a.keys()) == set(b.keys()) and all(
         abs(av - bv) < _EPSILON for aid in a.keys() for av, bv in zip(a[aid], b[aid])
     )
 
 
-def reach_trans_suit(
-    a: Dict[str, List[List[List[float]]]], b: Dict[str, List[List[List[float]]]]
-) -> bool:
-    # FIXME include discrete stuff
-    assert set(a.keys()) == set(b.keys())
-
-    def transp(a):
-        return list(map(list, zip(*a)))
-
-    def suits(a: List[List[float]], b: List[List[float]]) -> bool:
-        at, bt = transp(a), transp(b)
-        return all(al <= bl and ah >= bh for (al, ah), (bl, bh) in zip(at, bt))
-
-    return all(suits(av, bv) for aid in a.keys() for av, bv in zip(a[aid], b[aid]))
-
-
 @dataclass
 class CachedTube:
     tube: List[List[List[float]]]
@@ -277,8 +198,9 @@ class TubeCache:
         mode: Tuple[str],
         init: List[List[float]],
         trace: List[List[List[float]]],
+        span: Tuple = (),
     ):
-        key = (agent_id,) + tuple(mode)
+        key = (agent_id,) + tuple(mode) + span
         init = list(map(list, zip(*init)))
         tree = self.cache[key]
         for i, (low, high) in enumerate(init):
@@ -293,9 +215,9 @@ class TubeCache:
         raise Exception("???")
 
     def check_hit(
-        self, agent_id: str, mode: Tuple[str], init: List[List[float]]
+        self, agent_id: str, mode: Tuple[str], init: List[List[float]], span: Tuple = ()
     ) -> Optional[CachedTube]:
-        key = (agent_id,) + tuple(mode)
+        key = (agent_id,) + tuple(mode) + span
         if key not in self.cache:
             return None
         tree = self.cache[key]
@@ -312,98 +234,31 @@ class TubeCache:
 
 class ReachTubeCache:
     def __init__(self):
-        self.cache: DefaultDict[tuple, IntervalTree] = defaultdict(IntervalTree)
-
-    def add_tube(
-        self,
-        agent_id: str,
-        init: Dict[str, List[List[float]]],
-        node: AnalysisTreeNode,
-        transit_agents: List[str],
-        transition,
-        trans_ind: int,
-        run_num: int,
-    ):
-        key = (agent_id,) + tuple(node.mode[agent_id])
-        tree = self.cache[key]
-        # pp(('add seg', agent_id, node.mode[agent_id], init))
-        assert_hits = node.assert_hits or {}
-        init = list(map(tuple, zip(*init[agent_id])))
-        for i, (low, high) in enumerate(init):
-            if i == len(init) - 1:
-                transitions = convert_reach_trans(
-                    agent_id, transit_agents, node.init, transition, trans_ind
-                )
-                entry = CachedRTTrans(
-                    assert_hits.get(agent_id), transitions, set([(run_num, node.id)])
-                )
-                tree[low : high + _EPSILON] = entry
-                return entry
-            else:
-                next_level_tree = IntervalTree()
-                tree[low : high + _EPSILON] = next_level_tree
-                tree = next_level_tree
-        raise Exception("???")
+        self.checked: DefaultDict[tuple, List[CheckedTubes]] = defaultdict(list)
 
     @staticmethod
-    def query_cont(tree: IntervalTree, cont: List[Tuple[float, float]]) -> List[CachedRTTrans]:
-        assert isinstance(tree, IntervalTree)
-        low, high = cont[0]
-        next_level_entries = [
-            t.data for t in tree[low : high + _EPSILON] if t.begin <= low and high <= t.end
-        ]
-        if len(cont) == 1:
-            for ent in next_level_entries:
-                assert isinstance(ent, CachedRTTrans)
-            return next_level_entries
-        else:
-            return [
-                ent for t in next_level_entries for ent in ReachTubeCache.query_cont(t, cont[1:])
-            ]
-
-    def check_hit(
-        self,
-        agent_id: str,
-        mode: Tuple[str],
-        init: List[float],
-        inits: Dict[str, List[List[List[float]]]],
-    ) -> Optional[CachedRTTrans]:
-        key = (agent_id,) + tuple(mode)
-        if key not in self.cache:
-            return None
-        tree = self.cache[key]
-        entries = self.query_cont(tree, list(map(tuple, zip(*init))))
-        if len(entries) == 0:
-            return None
-
-        def num_trans_suit(e: CachedRTTrans) -> int:
-            return sum(1 if reach_trans_suit(t.inits, inits) else 0 for t in e.transitions)
-
-        entries = list(sorted([(e, -num_trans_suit(e)) for e in entries], key=lambda p: p[1]))
-        # pp(("check hit entries", len(entries), entries[0][1]))
-        assert isinstance(entries[0][0], CachedRTTrans)
-        return entries[0][0]
-
-    @staticmethod
-    def iter_tree(tree, depth: int) -> List[List[float]]:
-        if depth == 0:
-            return [
-                [
-                    (i.begin + i.end) / 2,
-                    (i.data.run_num, i.data.node_id, [t.transition for t in i.data.transitions]),
-                ]
-                for i in tree
-            ]
-        res = []
-        for i in tree:
-            mid = (i.begin + i.end) / 2
-            subs = ReachTubeCache.iter_tree(i.data, depth - 1)
-            res.extend([mid] + sub for sub in subs)
-        return res
+    def key(config, node: AnalysisTreeNode) -> tuple:
+        return (
+            tuple(sorted((aid, tuple(mode)) for aid, mode in node.mode.items())),
+            tuple(sorted((aid, len(inits)) for aid, inits in node.init.items())),
+            round(float(node.start_time), 10),
+            config.init_seg_length,
+            config.reachability_method,
+            config.unsafe_continue,
+        )
 
-    def get_cached_inits(self, n: int):
-        inits = defaultdict(list)
-        for key, tree in self.cache.items():
-            inits[key[0]].extend((*key[1:], *init) for init in self.iter_tree(tree, n))
-        inits = dict(inits)
-        return inits
+    def candidates(self, config, node: AnalysisTreeNode) -> List[CheckedTubes]:
+        """Entries which can be used when the tubes of the node are the same"""
+        return sorted(self.checked.get(self.key(config, node), []), key=lambda entry: not entry.unchanged(node))
+
+    def add(self, config, node: AnalysisTreeNode, traces, asserts, transitions, first_hit: int):
+        entry = CheckedTubes(
+            traces,
+            copy.deepcopy(node.static),
+            {aid: agent.decision_logic for aid, agent in node.agent.items()},
+            asserts,
+            transitions,
+            first_hit,
+        )
+        entry.asserts, entry.transitions = entry.result()
+        self.checked[self.key(config, node)].append(entry)
diff --git a/verse/analysis/verifier.py b/verse/analysis/verifier.py
index a70628f..40b4170 100644
--- a/verse/analysis/verifier.py
+++ b/verse/analysis/verifier.py
@@ -11,15 +11,7 @@ from verse.parser import unparse
 
 from verse.analysis.analysis_tree import AnalysisTreeNode, AnalysisTree, TraceType
 from verse.analysis.dryvr import calc_bloated_tube, SIMTRACENUM
-from verse.analysis.incremental import (
-    ReachTubeCache,
-    TubeCache,
-    convert_reach_trans,
-    to_simulate,
-    combine_all,
-)
-from verse.analysis.incremental import CachedRTTrans, combine_all, reach_trans_suit
-from verse.utils.utils import dedup
+from verse.analysis.incremental import CheckedTubes, ReachTubeCache, TubeCache, changed_paths
 from verse.map.lane_map import LaneMap
 from verse.parser.parser import find, ModePath, unparse
 from verse.agents.base_agent import BaseAgent
@@ -28,7 +20,6 @@ from tqdm import tqdm
 
 pp = functools.partial(pprint.pprint, compact=True, width=130)
 
-PathDiffs = List[Tuple[BaseAgent, ModePath]]
 EGO, OTHERS = "ego", "others"
 
 
@@ -235,64 +226,44 @@ class Verifier:
         
         return reach_tube, cache_tube_updates
 
+    @staticmethod
+    def combine_segment(initial_set, combine_seg_idx, combine_seg_length):
+        """The smallest rectangle around a segment of initial rectangles"""
+        rect_seg = initial_set[combine_seg_idx : combine_seg_idx + combine_seg_length]
+        combined_rect = None
+        for rect in rect_seg:
+            rect = np.array(rect)
+            if combined_rect is None:
+                combined_rect = rect
+            else:
+                combined_rect[0, :] = np.minimum(combined_rect[0, :], rect[0, :])
+                combined_rect[1, :] = np.maximum(combined_rect[1, :], rect[1, :])
+        return combined_rect.tolist()
+
     def check_cache_bloated_tube(
         self,
         agent_id,
         mode_label,
         initial_set,
+        span,
         combine_seg_length=1000,
     ):
         """
         Check the bloated tubes cached already
 
         :param TBA
-        :return:    the combined bloated tube with all cached tube segs
-                    a list of indexs of missing segs
+        :return:    the cached tubes, by the index of the segment of initial sets they start from
         """
-        missing_seg_idx_list = []
-        res_tube = None
-        tube_length = 0
+        cached_tubes = {}
         for combine_seg_idx in range(0, len(initial_set), combine_seg_length):
-            rect_seg = initial_set[combine_seg_idx : combine_seg_idx + combine_seg_length]
-            combined_rect = None
-            for rect in rect_seg:
-                rect = np.array(rect)
-                if combined_rect is None:
-                    combined_rect = rect
-                else:
-                    combined_rect[0, :] = np.minimum(combined_rect[0, :], rect[0, :])
-                    combined_rect[1, :] = np.maximum(combined_rect[1, :], rect[1, :])
-            combined_rect = combined_rect.tolist()
-            if self.config.incremental:
-                cached = self.cache.check_hit(agent_id, mode_label, combined_rect)
-                if cached != None:
-                    self.tube_cache_hits = self.tube_cache_hits[0] + 1, self.tube_cache_hits[1]
-                    # print('cache', agent_id, time_horizon, self.tube_cache_hits )
-                else:
-                    self.tube_cache_hits = self.tube_cache_hits[0], self.tube_cache_hits[1] + 1
-                    # print('noncache', agent_id, time_horizon, self.tube_cache_hits )
-            else:
-                cached = None
+            combined_rect = self.combine_segment(initial_set, combine_seg_idx, combine_seg_length)
+            cached = self.cache.check_hit(agent_id, mode_label, combined_rect, span)
             if cached != None:
-                cur_bloated_tube = cached.tube
+                self.tube_cache_hits = self.tube_cache_hits[0] + 1, self.tube_cache_hits[1]
+                cached_tubes[combine_seg_idx] = cached.tube
             else:
-                missing_seg_idx_list.append(combine_seg_idx)
-                continue
-            # FIXME
-            if res_tube is None:
-                res_tube = cur_bloated_tube
-                tube_length = cur_bloated_tube.shape[0]
-            else:
-                cur_bloated_tube = cur_bloated_tube[: tube_length - combine_seg_idx * 2, :]
-                # Handle Lower Bound
-                res_tube[combine_seg_idx * 2 :: 2, 1:] = np.minimum(
-                    res_tube[combine_seg_idx * 2 :: 2, 1:], cur_bloated_tube[::2, 1:]
-                )
-                # Handle Upper Bound
-                res_tube[combine_seg_idx * 2 + 1 :: 2, 1:] = np.maximum(
-                    res_tube[combine_seg_idx * 2 + 1 :: 2, 1:], cur_bloated_tube[1::2, 1:]
-                )
-        return res_tube, missing_seg_idx_list
+                self.tube_cache_hits = self.tube_cache_hits[0], self.tube_cache_hits[1] + 1
+        return cached_tubes
 
     @staticmethod
     def calculate_full_bloated_tube_simple(
@@ -325,47 +296,37 @@ class Verifier:
         if "bloating_method" in params:
             bloating_method = params["bloating_method"]
         cache_tube_updates = []
-        if incremental:
-            cached_tube, missing_seg_idx_list = cached_tube_info
-        else:
-            cached_tube, missing_seg_idx_list = None, range(0, len(initial_set), combine_seg_length)
-        res_tube = cached_tube
-        if res_tube is None:
-            tube_length = 0
-        else:
-            tube_length = res_tube.shape[0]
-        # print(f'{len(missing_seg_idx_list)} inits to combine')
-        # for combine_seg_idx in tqdm(missing_seg_idx_list): # NOTE: is it possible to parallelize this
-        for combine_seg_idx in missing_seg_idx_list: # NOTE: is it possible to parallelize this
-            rect_seg = initial_set[combine_seg_idx : combine_seg_idx + combine_seg_length]
-            combined_rect = None
-            for rect in rect_seg:
-                rect = np.array(rect)
-                if combined_rect is None:
-                    combined_rect = rect
-                else:
-                    combined_rect[0, :] = np.minimum(combined_rect[0, :], rect[0, :])
-                    combined_rect[1, :] = np.maximum(combined_rect[1, :], rect[1, :])
-            combined_rect = combined_rect.tolist()
-            cur_bloated_tube = calc_tube(
-                mode_label,
-                combined_rect,
-                time_horizon,
-                time_step,
-                sim_func,
-                bloating_method,
-                kvalue,
-                sim_trace_num,
-                lane_map=lane_map,
-            )
-            if incremental:
-                cache_tube_updates.append((agent_id, mode_label, combined_rect, cur_bloated_tube))
+        res_tube = None
+        tube_length = 0
+        # for combine_seg_idx in tqdm(...): # NOTE: is it possible to parallelize this
+        for combine_seg_idx in range(0, len(initial_set), combine_seg_length):
+            if res_tube is not None and tube_length <= 2 * combine_seg_idx:
+                break
+            if incremental and combine_seg_idx in cached_tube_info:
+                cur_bloated_tube = np.array(cached_tube_info[combine_seg_idx])
+            else:
+                combined_rect = Verifier.combine_segment(
+                    initial_set, combine_seg_idx, combine_seg_length
+                )
+                cur_bloated_tube = calc_tube(
+                    mode_label,
+                    combined_rect,
+                    time_horizon,
+                    time_step,
+                    sim_func,
+                    bloating_method,
+                    kvalue,
+                    sim_trace_num,
+                    lane_map=lane_map,
+                )
+                if incremental:
+                    cache_tube_updates.append(
+                        (agent_id, mode_label, combined_rect, np.array(cur_bloated_tube), (time_horizon, time_step))
+                    )
             if res_tube is None:
                 res_tube = cur_bloated_tube
                 tube_length = cur_bloated_tube.shape[0]
             else:
-                if tube_length <= 2 * combine_seg_idx:
-                    break
                 cur_bloated_tube = cur_bloated_tube[: tube_length - combine_seg_idx * 2, :]
                 # Handle Lower Bound
                 res_tube[combine_seg_idx * 2 :: 2, 1:] = np.minimum(
@@ -380,10 +341,9 @@ class Verifier:
     @staticmethod
     def compute_full_reachtube_step(
         config: "ScenarioConfig",
-        cached_trans_tubes: Dict[str, CachedRTTrans],
+        checked_tubes: List[CheckedTubes],
         cached_tubes: Dict[str, Tuple],
         node: AnalysisTreeNode,
-        old_node_id: Optional[Tuple[int, int]],
         later: int,
         remain_time: float,
         consts: ReachConsts,
@@ -396,7 +356,7 @@ class Verifier:
             print(f"node {node.id} start: {node.start_time}")
             # print(f"node id: {node.id}")
             print(node.mode)
-        cache_trans_tube_updates = []
+        cache_trans_update = None
         cache_tube_updates = []
         if max_height == None:
             max_height = float("inf")
@@ -525,24 +485,19 @@ class Verifier:
                 trace = np.array(cur_bloated_tube)
                 trace[:, 0] += node.start_time
                 node.trace[agent_id] = trace.tolist()
-        # pp(("cached tubes", cached_tubes.keys()))
-        new_cache, paths_to_sim = {}, []
-        if old_node_id != None:
-            if old_node_id[0] != consts.run_num:
-                old_node = find(
-                    consts.past_runs[old_node_id[0]].nodes, lambda n: n.id == old_node_id[1]
-                )
-                assert old_node != None
-                new_cache, paths_to_sim = to_simulate(
-                    old_node.agent, node.agent, cached_trans_tubes
-                )
-                # pp(("to sim", new_cache.keys(), len(paths_to_sim)))
-
         # Get all possible transitions to next mode
         # FIXME: weird bug using new dryvr_disc where length of next_init is 4096 even though all inits are the same
-        asserts, all_possible_transitions = Verifier.get_transition_verify_opt(
-            config, new_cache, paths_to_sim, node, consts.lane_map, consts.sensor
-        )
+        checked = find(checked_tubes, lambda c: c.suits(node))
+        if checked != None and checked.unchanged(node):
+            asserts, all_possible_transitions = checked.result()
+        else:
+            asserts, all_possible_transitions, first_hit = Verifier.get_transition_verify_opt(
+                config, node, consts.lane_map, consts.sensor, checked
+            )
+            if config.incremental and consts.reachability_method != ReachabilityMethod.STAR_SETS:
+                # The node's traces are truncated below
+                full_traces = {a: np.array(trace) for a, trace in node.trace.items()}
+                cache_trans_update = (full_traces, asserts, all_possible_transitions, first_hit)
         node.assert_hits = asserts
 
         if asserts != None:
@@ -562,34 +517,9 @@ class Verifier:
                 node.trace,
                 asserts,
                 cache_tube_updates,
-                cache_trans_tube_updates,
+                cache_trans_update,
             )
 
-        # pp(("transitions:", [(t[0], t[2]) for t in all_possible_transitions]))
-        transit_map = {
-            k: list(l) for k, l in itertools.groupby(all_possible_transitions, key=lambda p: p[0])
-        }
-        transit_agents = transit_map.keys()
-        # pp(("transit agents", transit_agents))
-        if config.incremental:
-            transit_ind = (
-                min(l[-2][-1] for l in all_possible_transitions)
-                if len(all_possible_transitions) > 0
-                else len(list(node.trace.values())[0])
-            )
-            for agent_id in node.agent:
-                transition = transit_map[agent_id] if agent_id in transit_agents else []
-                cache_trans_tube_updates.append(
-                    (
-                        agent_id not in cached_trans_tubes,
-                        agent_id,
-                        transit_agents,
-                        transition,
-                        transit_ind,
-                        consts.run_num,
-                    )
-                )
-
         if node.height >= max_height:
             print("max depth reached")
             return (
@@ -599,7 +529,7 @@ class Verifier:
                 node.trace,
                 asserts,
                 cache_tube_updates,
-                cache_trans_tube_updates,
+                cache_trans_update,
             )
         max_end_idx = 0
         for transition in all_possible_transitions:
@@ -666,7 +596,7 @@ class Verifier:
             node.trace,
             asserts,
             cache_tube_updates,
-            cache_trans_tube_updates,
+            cache_trans_update,
         )
 
     def proc_result(
@@ -677,7 +607,7 @@ class Verifier:
         traces,
         assert_hits,
         cache_tube_updates,
-        cache_trans_tube_updates,
+        cache_trans_update,
         max_height
         ):
         # t = timeit.default_timer()
@@ -696,40 +626,14 @@ class Verifier:
         self.verification_queue.sort(key=lambda p: p[1:])
         if done_node.height <= max_height:
             self.nodes.extend(next_nodes)
-        combined_inits = {a: combine_all(inits,self.config.reachability_method == ReachabilityMethod.STAR_SETS) for a, inits in done_node.init.items()}
-        for (
-            new,
-            aid,
-            transit_agents,
-            transition,
-            transition_idx,
-            run_num,
-        ) in cache_trans_tube_updates:
-            cached = self.trans_cache.check_hit(
-                aid, done_node.mode[aid], combine_all(done_node.init[aid]), done_node.init
-            )
-            if new and not cached:
-                self.trans_cache.add_tube(
-                    aid,
-                    combined_inits,
-                    done_node,
-                    transit_agents,
-                    transition,
-                    transition_idx,
-                    run_num,
-                )
-                self.num_cached += 1
-            else:
-                assert cached != None
-                cached.transitions.extend(
-                    convert_reach_trans(
-                        aid, transit_agents, done_node.init, transition, transition_idx
-                    )
-                )
-                cached.transitions = dedup(cached.transitions, lambda i: (i.mode, i.dest, i.inits))
-                cached.node_ids.add((run_num, done_node.id))
-        for agent_id, mode_label, combined_rect, cur_bloated_tube in cache_tube_updates:
-            self.cache.add_tube(agent_id, mode_label, combined_rect, cur_bloated_tube)
+        if cache_trans_update != None:
+            self.trans_cache.add(self.config, done_node, *cache_trans_update)
+            self.num_cached += 1
+            self.trans_cache_hits = self.trans_cache_hits[0], self.trans_cache_hits[1] + 1
+        elif self.config.incremental:
+            self.trans_cache_hits = self.trans_cache_hits[0] + 1, self.trans_cache_hits[1]
+        for update in cache_tube_updates:
+            self.cache.add_tube(*update)
         # print(f"proc dur {timeit.default_timer() - t}")
 
     def compute_full_reachtube(
@@ -782,28 +686,13 @@ class Verifier:
                 remain_time = round(time_horizon - node.start_time, 10)
                 if remain_time <= 0:
                     continue
-                cached_trans_tubes = {}
+                checked_tubes = []
                 cached_tubes = {}
-                for agent_id in node.agent:
-                    mode = node.mode[agent_id]
-                    inits = node.init[agent_id]
-                    combined = combine_all(inits, reachability_method == ReachabilityMethod.STAR_SETS)
-                    if self.config.incremental:
-                        # CachedRTTrans
-                        cached = self.trans_cache.check_hit(agent_id, mode, combined, node.init)
-                        if cached != None:
-                            self.trans_cache_hits = (
-                                self.trans_cache_hits[0] + 1,
-                                self.trans_cache_hits[1],
-                            )
-                        else:
-                            self.trans_cache_hits = (
-                                self.trans_cache_hits[0],
-                                self.trans_cache_hits[1] + 1,
-                            )
-                        # pp(("check hit", agent_id, mode, combined))
-                        if cached != None:
-                            cached_trans_tubes[agent_id] = cached
+                if self.config.incremental:
+                    checked_tubes = self.trans_cache.candidates(self.config, node)
+                    for agent_id in node.agent:
+                        mode = node.mode[agent_id]
+                        inits = node.init[agent_id]
                         if agent_id not in node.trace and reachability_method == ReachabilityMethod.STAR_SETS:
                             print("in check bloat tube")
                             # uncertain_param = node.uncertain_param[agent_id]
@@ -814,33 +703,23 @@ class Verifier:
                             cached_tubes[agent_id] = (cur_bloated_tube, miss_seg_idx_list)
                             print("done")
 
-						# if incremental and DRYVR, check cache tube first
+                        # if incremental and DRYVR, check cache tube first
                         elif agent_id not in node.trace and reachability_method == ReachabilityMethod.DRYVR:
                             # uncertain_param = node.uncertain_param[agent_id]
-                            # CachedTube.tube
-                            cur_bloated_tube, miss_seg_idx_list = self.check_cache_bloated_tube(
-                                agent_id, mode, inits, combine_seg_length=init_seg_length
+                            cached_tubes[agent_id] = self.check_cache_bloated_tube(
+                                agent_id,
+                                mode,
+                                inits,
+                                (remain_time, time_step),
+                                combine_seg_length=init_seg_length,
                             )
-                            cached_tubes[agent_id] = (cur_bloated_tube, miss_seg_idx_list)
-                # FIXME
-                old_node_id = None
-                if len(cached_trans_tubes) == len(node.agent):
-                    all_node_ids = [s.node_ids for s in cached_trans_tubes.values()]
-                    # print('all_node_ids', all_node_ids)
-                    node_ids = list(functools.reduce(lambda a, b: a.intersection(b), all_node_ids))
-                    # print('node_ids', node_ids)
-                    if len(node_ids) > 0:
-                        old_node_id = node_ids[0]
-                    # else:
-                    #     print(f"not full {node.id}: {node_ids}, {len(cached_trans_tubes) == len(node.agent)} | {all_node_ids}")
-                if not self.config.parallel or (old_node_id != None and self.config.try_local):
+                if not self.config.parallel or (checked_tubes and self.config.try_local):
                     self.proc_result(
                         *self.compute_full_reachtube_step(
                             self.config,
-                            cached_trans_tubes,
+                            checked_tubes,
                             cached_tubes,
                             node,
-                            old_node_id,
                             later,
                             remain_time,
                             consts,
@@ -853,10 +732,9 @@ class Verifier:
                     self.result_refs.append(
                         self.compute_full_reachtube_step_remote.remote(
                             self.config,
-                            cached_trans_tubes,
+                            checked_tubes,
                             cached_tubes,
                             node,
-                            old_node_id,
                             later,
                             remain_time,
                             consts_ref,
@@ -880,7 +758,7 @@ class Verifier:
                     traces,
                     assert_hits,
                     cache_tube_updates,
-                    cache_trans_tube_updates,
+                    cache_trans_update,
                 ) = ray.get(res)
                 # TODO: may add pipelining
                 self.proc_result(
@@ -890,7 +768,7 @@ class Verifier:
                     traces,
                     assert_hits,
                     cache_tube_updates,
-                    cache_trans_tube_updates,
+                    cache_trans_update,
                     max_height,
                 )
         self.reachtube_tree = AnalysisTree(root)
@@ -903,89 +781,18 @@ class Verifier:
 
     @staticmethod
     def get_transition_verify_opt(
-        config: "ScenarioConfig", cache: Dict[str, CachedRTTrans], paths: PathDiffs, node: AnalysisTreeNode, track_map, sensor
+        config: "ScenarioConfig", node: AnalysisTreeNode, track_map, sensor, checked: Optional[CheckedTubes] = None
     ) -> Tuple[
         Optional[Dict[str, List[str]]],
         Optional[Dict[str, List[Tuple[str, List[str], List[float]]]]],
+        int,
     ]:
         # For each agent
         agent_guard_dict = defaultdict(list)
-        cached_guards = defaultdict(list)
-        min_trans_ind = None
-        cached_trans = []
         agent_dict = node.agent
+        changed = changed_paths(checked.controllers, agent_dict) if checked != None else {}
 
-        if not cache:
-            paths = [
-                (agent, p) for agent in node.agent.values() for p in agent.decision_logic.paths
-            ]
-        else:
-            # _transitions = [trans.transition for seg in cache.values() for trans in seg.transitions]
-            _transitions = [
-                (aid, trans)
-                for aid, seg in cache.items()
-                for trans in seg.transitions
-                if reach_trans_suit(trans.inits, node.init)
-            ]
-            # pp(("cached trans", len(_transitions)))
-            if len(_transitions) > 0:
-                min_trans_ind = min([t.transition for _, t in _transitions])
-                # TODO: check for asserts
-                cached_trans = [
-                    (aid, tran.mode, tran.dest, tran.reset, tran.reset_idx, tran.paths)
-                    for aid, tran in dedup(_transitions, lambda p: (p[0], p[1].mode, p[1].dest))
-                    if tran.transition == min_trans_ind
-                ]
-                if len(paths) == 0:
-                    # print(red("full cache"))
-                    return None, cached_trans
-
-                path_transitions = defaultdict(int)
-                for seg in cache.values():
-                    for tran in seg.transitions:
-                        for p in tran.paths:
-                            path_transitions[p.cond] = max(
-                                path_transitions[p.cond], tran.transition
-                            )
-                for agent_id, segment in cache.items():
-                    agent = node.agent[agent_id]
-                    if len(agent.decision_logic.args) == 0:
-                        continue
-                    state_dict = {
-                        aid: (node.trace[aid][0], node.mode[aid], node.static[aid])
-                        for aid in node.agent
-                    }
-
-                    agent_paths = dedup(
-                        [p for tran in segment.transitions for p in tran.paths],
-                        lambda i: (i.var, i.cond, i.val),
-                    )
-                    for path in agent_paths:
-                        cont_var_dict_template, discrete_variable_dict, length_dict = sensor.sense(
-                            agent, state_dict, track_map, False
-                        )
-                        reset = (path.var, path.val_veri)
-                        guard_expression = GuardExpressionAst([path.cond_veri])
-
-                        cont_var_updater = guard_expression.parse_any_all_new(
-                            cont_var_dict_template, discrete_variable_dict, length_dict
-                        )
-                        Verifier.apply_cont_var_updater(cont_var_dict_template, cont_var_updater)
-                        guard_can_satisfied = guard_expression.evaluate_guard_disc(
-                            agent, discrete_variable_dict, cont_var_dict_template, track_map
-                        )
-                        if not guard_can_satisfied:
-                            continue
-                        cached_guards[agent_id].append(
-                            (
-                                path,
-                                guard_expression,
-                                cont_var_updater,
-                                copy.deepcopy(discrete_variable_dict),
-                                reset,
-                                path_transitions[path.cond],
-                            )
-                        )
+        paths = [(agent, p) for agent in node.agent.values() for p in agent.decision_logic.paths]
 
         # for aid, trace in node.trace.items():
         #     if len(trace) < 2:
@@ -1045,8 +852,11 @@ class Verifier:
         if config.reachability_method == ReachabilityMethod.STAR_SETS:
             reset_func = Verifier.apply_reset_stars
         hits = []
+        first_hit = trace_length
         while reduction_queue:
             idx, end_idx, combine_len = reduction_queue.pop()
+            # Until then only what has changed since the same tubes were checked can hold
+            only_changed = checked != None and idx < checked.first_hit
             reduction_needed = False
             # print((idx, combine_len))
             any_contained = False
@@ -1070,13 +880,6 @@ class Verifier:
 					)
 					for aid in node.agent
 				}
-            if min_trans_ind != None and idx > min_trans_ind:
-                if hits:
-                    guard_hits.append((hits, state_dict, idx))
-                    guard_hit = True
-                    break
-                else:
-                    return None, cached_trans
             hits = []
 
             asserts = defaultdict(list)
@@ -1084,6 +887,8 @@ class Verifier:
                 agent: BaseAgent = agent_dict[agent_id]
                 if len(agent.decision_logic.args) == 0:
                     continue
+                if only_changed and agent_id not in changed:
+                    continue
                 # if np.array(agent_state).ndim != 2:
                 #     pp(("weird state", agent_id, agent_state))
                 cont_vars, disc_vars, len_dict = sensor.sense(agent, state_dict, track_map, False)
@@ -1131,13 +936,12 @@ class Verifier:
                 if agent_id not in agent_guard_dict:
                     continue
 
-                unchecked_cache_guards = [
-                    g[:-1] for g in cached_guards[agent_id] if g[-1] < idx
-                ]  # FIXME: off by 1?
                 for guard_expression, continuous_variable_updater, discrete_variable_dict, path in (
-                    agent_guard_dict[agent_id] + unchecked_cache_guards
+                    agent_guard_dict[agent_id]
                 ):
                     assert isinstance(path, ModePath)
+                    if only_changed and not any(path is p for p in changed[agent_id]):
+                        continue
                     new_cont_var_dict = copy.deepcopy(cont_vars)
                     one_step_guard: GuardExpressionAst = copy.deepcopy(guard_expression)
 
@@ -1198,8 +1002,10 @@ class Verifier:
 
             if reduction_needed or combine_len > 1:
                 continue
+            if len(asserts) > 0 or hits != []:
+                first_hit = min(first_hit, idx)
             if len(asserts) > 0:
-                return (asserts, idx), None
+                return (asserts, idx), None, first_hit
             if hits != []:
                 guard_hits.append((hits, state_dict, idx))
                 guard_hit = True
@@ -1265,7 +1071,7 @@ class Verifier:
                         possible_transitions.append(transition)
                         # print(transition[4])
         # Return result
-        return None, possible_transitions + cached_trans
+        return None, possible_transitions, first_hit
 
     @staticmethod
     def combine_resets(resets, contained_guards):
@@ -1587,10 +1393,7 @@ class Verifier:
                     *self.compute_full_reachtube_step_partitioned(
                         self.config,
                         # NOTE: not worrying about caching right now
-                        {},  # cached_trans_tubes (simplified) 
-                        {},  # cached_tubes
                         node,
-                        None,  # old_node_id
                         later,
                         remain_time,
                         consts,
@@ -1617,7 +1420,7 @@ class Verifier:
                     traces,
                     assert_hits,
                     cache_tube_updates,
-                    cache_trans_tube_updates,
+                    cache_trans_update,
                 ) = ray.get(res)
                 self.proc_result(
                     id,
@@ -1626,7 +1429,7 @@ class Verifier:
                     traces,
                     assert_hits,
                     cache_tube_updates,
-                    cache_trans_tube_updates,
+                    cache_trans_update,
                     max_height,
                 )
         self.reachtube_tree = AnalysisTree(root)
@@ -1636,10 +1439,7 @@ class Verifier:
     @staticmethod
     def compute_full_reachtube_step_partitioned(
         config: "ScenarioConfig",
-        cached_trans_tubes: Dict[str, CachedRTTrans],
-        cached_tubes: Dict[str, Tuple],
         node: AnalysisTreeNode,
-        old_node_id: Optional[Tuple[int, int]],
         later: int,
         remain_time: float,
         consts: ReachConsts,
@@ -1654,7 +1454,7 @@ class Verifier:
             print(f"node {node.id} start: {node.start_time}")
             print(node.mode)
         
-        cache_trans_tube_updates = []
+        cache_trans_update = None
         cache_tube_updates = []
         next_nodes = []
         
@@ -1685,8 +1485,8 @@ class Verifier:
                 node.trace[agent_id] = trace.tolist()
     
         # Check guards once (no loop)
-        asserts, all_possible_transitions = Verifier.get_transition_verify_opt(
-            config, {}, [], node, consts.lane_map, consts.sensor
+        asserts, all_possible_transitions, _ = Verifier.get_transition_verify_opt(
+            config, node, consts.lane_map, consts.sensor
         )
         node.assert_hits = asserts
 
@@ -1702,7 +1502,7 @@ class Verifier:
                 node.trace,
                 asserts,
                 cache_tube_updates,
-                cache_trans_tube_updates,
+                cache_trans_update,
             )
 
         # If guards hit, partition next_init for each transition and create children
@@ -1806,7 +1606,7 @@ class Verifier:
             node.trace,
             asserts,
             cache_tube_updates,
-            cache_trans_tube_updates,
+            cache_trans_update,
         )
 
     @staticmethod
-- 
2.43.0


From d78310969252eaf35fbf66585d39d726153e43a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:36 +0000
Subject: [PATCH 29/33] fix: a single filter of any()/all() and the names in it

---
 verse/parser/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verse/parser/parser.py b/verse/parser/parser.py
index 597fc90..e324c83 100644
--- a/verse/parser/parser.py
+++ b/verse/parser/parser.py
@@ -941,7 +941,8 @@ def proc(node: ast.AST, env: Env) -> Any:
                     raise NotImplementedError(f"Reduction type {op} not supported in cond_trans")
 
             expr = proc(expr, env)
-            expr = cond_trans(expr, ast.BoolOp(ast.And(), ifs)) if len(ifs) > 0 else expr
+            if len(ifs) > 0:
+                expr = cond_trans(expr, merge_conds([proc(cond, env) for cond in ifs]))
             ret = Reduction(op, expr, target.id, proc(iter, env))
             env.pop()
             return ret
-- 
2.43.0


From 7cde03dd341edda7d54ffb620d13507352f18be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:36 +0000
Subject: [PATCH 30/33] fix: simulate_simple() with static parameters

---
 verse/analysis/simulator.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/verse/analysis/simulator.py b/verse/analysis/simulator.py
index 0dd6fe5..70c7c43 100644
--- a/verse/analysis/simulator.py
+++ b/verse/analysis/simulator.py
@@ -149,6 +149,12 @@ def convertStrToEnum(inp, agent: BaseAgent, dl):
                 field_type = agent.decision_logic.state_defs[state_def_name].disc_type[idx]
                 enum_class = getattr(dl, field_type)
                 setattr(res, field, enum_class[getattr(res, field)])
+            elif field in agent.decision_logic.state_defs[state_def_name].static:
+                idx = agent.decision_logic.state_defs[state_def_name].static.index(field)
+                field_type = agent.decision_logic.state_defs[state_def_name].static_type[idx]
+                if field_type in agent.decision_logic.mode_defs:
+                    enum_class = getattr(dl, field_type)
+                    setattr(res, field, enum_class[getattr(res, field)])
     return res
 
 
@@ -169,6 +175,14 @@ def disc_field(field: str, agent: BaseAgent):
     return False
 
 
+def static_field(field: str, agent: BaseAgent):
+    for state_def_name in agent.decision_logic.state_defs:
+        state_def = agent.decision_logic.state_defs[state_def_name]
+        if field in state_def.static:
+            return True
+    return False
+
+
 @dataclass
 class SimConsts:
     time_step: float
@@ -760,7 +774,7 @@ class Simulator:
                         for field in env[EGO].__dict__:
                             if disc_field(field, agent):
                                 pure_dest.append(getattr(output, field))
-                            else:
+                            elif not static_field(field, agent):
                                 next_init.append(getattr(output, field))
                         satisfied_guard.append((agent_id, pure_dest, next_init, []))
                 except AssertionError:
-- 
2.43.0


From c16a2679c6243c248445cbb9151a4e5c7fd19a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:02 +0000
Subject: [PATCH 31/33] fix: the range of longitudinal positions on a circular
 lane

---
 verse/automaton/guard.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index 953eee8..58d5e11 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -619,25 +619,18 @@ class GuardExpressionAst:
             # Delta upper
             delta1 = position[1, :] - lane_seg.center
 
-            phi0 = np.min(
-                [
-                    np.arctan2(delta0[1], delta0[0]),
-                    np.arctan2(delta0[1], delta1[0]),
-                    np.arctan2(delta1[1], delta0[0]),
-                    np.arctan2(delta1[1], delta1[0]),
-                ]
-            )
-            phi1 = np.max(
-                [
-                    np.arctan2(delta0[1], delta0[0]),
-                    np.arctan2(delta0[1], delta1[0]),
-                    np.arctan2(delta1[1], delta0[0]),
-                    np.arctan2(delta1[1], delta1[0]),
-                ]
-            )
-
-            phi0 = lane_seg.start_phase + wrap_to_pi(phi0 - lane_seg.start_phase)
-            phi1 = lane_seg.start_phase + wrap_to_pi(phi1 - lane_seg.start_phase)
+            # Angles from the start of the lane, as in CircularLane.local_coordinates
+            phi = [
+                wrap_to_pi(np.arctan2(y, x) - lane_seg.start_phase)
+                for x in (delta0[0], delta1[0])
+                for y in (delta0[1], delta1[1])
+            ]
+            phi0, phi1 = np.min(phi), np.max(phi)
+            if phi1 - phi0 > np.pi:
+                # The set contains the center or points on both sides of the end of the lane
+                phi0, phi1 = -np.pi, np.pi
+            phi0 = lane_seg.start_phase + phi0
+            phi1 = lane_seg.start_phase + phi1
             longitudinal_low = (
                 min(
                     lane_seg.direction * (phi0 - lane_seg.start_phase) * lane_seg.radius,
-- 
2.43.0


From 732045cf7fe31d4f886216221c7665d4fb1ecbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:57 +0000
Subject: [PATCH 32/33] fix: guards on lanes of several segments

The positions of a set along and off a lane were computed for the
segments of two of its corners only. Other states of the set may belong
to other segments, so transitions and assertion violations were missed.
---
 verse/automaton/guard.py | 59 ++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/verse/automaton/guard.py b/verse/automaton/guard.py
index 58d5e11..91eaca5 100644
--- a/verse/automaton/guard.py
+++ b/verse/automaton/guard.py
@@ -2,6 +2,7 @@ from pprint import pp
 from typing import Any
 import pickle
 import ast
+import itertools
 
 from z3 import *
 
@@ -464,17 +465,19 @@ class GuardExpressionAst:
                         vehicle_pos = (arg1_lower, arg1_upper)
 
                         # Get corresponding lane segments with respect to the set of vehicle pos
-                        lane_seg1 = track_map.get_lane_segment(vehicle_lane, arg1_lower)
-                        lane_seg2 = track_map.get_lane_segment(vehicle_lane, arg1_upper)
+                        lane_segs = self._get_lane_segments(
+                            track_map, vehicle_lane, np.array(vehicle_pos)
+                        )
 
                         # Compute the set of possible lateral values with respect to all possible segments
-                        lateral_set1 = self._handle_lateral_set(lane_seg1, np.array(vehicle_pos))
-                        lateral_set2 = self._handle_lateral_set(lane_seg2, np.array(vehicle_pos))
+                        lateral_sets = [
+                            self._handle_lateral_set(seg, np.array(vehicle_pos)) for seg in lane_segs
+                        ]
 
-                        # Use the union of two sets as the set of possible lateral positions
+                        # Use the union of the sets as the set of possible lateral positions
                         lateral_set = [
-                            min(lateral_set1[0], lateral_set2[0]),
-                            max(lateral_set1[1], lateral_set2[1]),
+                            min(low for low, _ in lateral_sets),
+                            max(high for _, high in lateral_sets),
                         ]
                         if agent_vars != {}: #stars:
                             from verse.stars.starset import StarSet
@@ -534,20 +537,19 @@ class GuardExpressionAst:
                         vehicle_pos = (arg1_lower, arg1_upper)
 
                         # Get corresponding lane segments with respect to the set of vehicle pos
-                        lane_seg1 = track_map.get_lane_segment(vehicle_lane, arg1_lower)
-                        lane_seg2 = track_map.get_lane_segment(vehicle_lane, arg1_upper)
+                        lane_segs = self._get_lane_segments(
+                            track_map, vehicle_lane, np.array(vehicle_pos)
+                        )
 
                         # Compute the set of possible longitudinal values with respect to all possible segments
-                        longitudinal_set1 = self._handle_longitudinal_set(
-                            lane_seg1, np.array(vehicle_pos)
-                        )
-                        longitudinal_set2 = self._handle_longitudinal_set(
-                            lane_seg2, np.array(vehicle_pos)
-                        )
-                        # Use the union of two sets as the set of possible longitudinal positions
+                        longitudinal_sets = [
+                            self._handle_longitudinal_set(seg, np.array(vehicle_pos))
+                            for seg in lane_segs
+                        ]
+                        # Use the union of the sets as the set of possible longitudinal positions
                         longitudinal_set = [
-                            min(longitudinal_set1[0], longitudinal_set2[0]),
-                            max(longitudinal_set1[1], longitudinal_set2[1]),
+                            min(low for low, _ in longitudinal_sets),
+                            max(high for _, high in longitudinal_sets),
                         ]
 
                         if agent_vars != {}: #stars:
@@ -595,6 +597,27 @@ class GuardExpressionAst:
         else:
             raise ValueError(f"Node type {root} from {unparse(root)} is not supported")
 
+    def _get_lane_segments(
+        self, track_map: LaneMap, lane_idx: str, position: np.ndarray
+    ) -> List[AbstractLane]:
+        """The lane segments that positions in a rectangle may belong to"""
+        corners = itertools.product(*position.T)
+        segs = [track_map.get_lane_segment(lane_idx, np.array(corner)) for corner in corners]
+        lane = track_map.lane_dict[LaneMap.get_phys_lane(lane_idx)]
+        if len(lane.segment_list) > 1:
+            # Segments that lie beside some position, see Lane.get_lane_segment
+            beside, nearest = [], float("inf")
+            for seg in lane.segment_list:
+                low, high = self._handle_longitudinal_set(seg, position)
+                low, high = low - seg.longitudinal_start, high - seg.longitudinal_start
+                if high >= -lane.COMPENSATE and low < seg.length:
+                    lateral_low, lateral_high = self._handle_lateral_set(seg, position)
+                    beside.append((seg, lateral_low))
+                    if low >= -lane.COMPENSATE and high < seg.length:
+                        nearest = min(nearest, lateral_high)
+            segs.extend(seg for seg, lateral_low in beside if lateral_low <= nearest)
+        return segs
+
     def _handle_longitudinal_set(self, lane_seg: AbstractLane, position: np.ndarray) -> List[float]:
         if lane_seg.type == "Straight":
             # Delta lower
-- 
2.43.0


From 30350f42a9d48dced1a8d495d1ff3aa4881ccedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:26 +0000
Subject: [PATCH 33/33] fix: trees shared the scenario's lists of uncertain
 parameters

---
 verse/analysis/analysis_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verse/analysis/analysis_tree.py b/verse/analysis/analysis_tree.py
index 5706eea..887683b 100644
--- a/verse/analysis/analysis_tree.py
+++ b/verse/analysis/analysis_tree.py
@@ -1,7 +1,7 @@
 from enum import Enum, auto
 from functools import reduce
 from typing import Any, Iterable, List, Dict, Optional, Sequence, TypeVar, Literal
-import json
+import copy, json
 import numpy.typing as nptyp, numpy as np, portion
 import networkx as nx
 from matplotlib import colors
@@ -134,7 +134,7 @@ class AnalysisTreeNode:
             mode=mode,
             static=static,
             # agents added to the scenario later are not part of this tree
-            uncertain_param=dict(uncertain_param),
+            uncertain_param=copy.deepcopy(uncertain_param),
             agent=dict(agent),
             ndigits=ndigits,
             type=type,
-- 
2.43.0

