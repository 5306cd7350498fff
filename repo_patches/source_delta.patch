From 0e19acb80d314ebf90476ac6fe7d9ac7f36b3866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 01/27] fix: run uses the default context and no base context
 unless told otherwise

The defaults of None made every new context start from a copy of context None
(or fail if there is none), and ignored default_execution_id.
---
 src/graph_scheduler/scheduler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index d4d4edb..c067f74 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -856,8 +856,8 @@ class Scheduler:
     def run(
         self,
         termination_conds=None,
-        execution_id=None,
-        base_execution_id=None,
+        execution_id=NotImplemented,
+        base_execution_id=NotImplemented,
         skip_environment_state_update_time_increment=False,
         **kwargs,
     ):
@@ -868,6 +868,9 @@ class Scheduler:
         :param termination_conds: (dict) - a mapping from `TimeScale`\\s to `Condition`\\s that when met
                terminate the execution of the specified `TimeScale`
         """
+        if execution_id is NotImplemented:
+            execution_id = self.default_execution_id
+
         self._validate_run_state()
 
         if termination_conds is None:
-- 
2.43.0


From bfe109d141ed3ea20f87a90ed844e2456fe0d99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 02/27] fix: a context started from a base context also copies
 the base clock

get_clock created an empty clock before _init_counts could copy the base one.
---
 src/graph_scheduler/scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index c067f74..d26d24e 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -878,6 +878,8 @@ class Scheduler:
         else:
             termination_conds = self._combine_termination_conditions(termination_conds)
 
+        self._init_counts(execution_id, base_execution_id)
+
         current_time = self.get_clock(execution_id).time
         is_satisfied_kwargs = {
             'scheduler': self,
@@ -908,7 +910,6 @@ class Scheduler:
 
         current_time.absolute_enabled = in_absolute_time_mode
 
-        self._init_counts(execution_id, base_execution_id)
         self._reset_counts_useable(execution_id)
         self._reset_counts_total(TimeScale.ENVIRONMENT_STATE_UPDATE, execution_id)
 
-- 
2.43.0


From fb2f8b2e010af3486830f2f1163b65dba2e9181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 03/27] fix: record timestamps in every execution context

execution_timestamps was only initialized for the default context, so absolute
time runs in any other context raised KeyError.
---
 src/graph_scheduler/scheduler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index d26d24e..f596c0f 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -579,6 +579,12 @@ class Scheduler:
             else:
                 self.execution_list[execution_id] = []
 
+        if execution_id not in self.execution_timestamps:
+            if base_execution_id is not NotImplemented:
+                self.execution_timestamps[execution_id] = list(self.execution_timestamps.get(base_execution_id, []))
+            else:
+                self.execution_timestamps[execution_id] = []
+
         self._init_clock(execution_id, base_execution_id)
 
     def _init_clock(self, execution_id, base_execution_id=NotImplemented):
-- 
2.43.0


From 32f617020d984c4210d87da9410cd5d4698220c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 04/27] fix: parse termination conditions given by scale name
 without changing the dictionary

Adding keys while iterating raised RuntimeError and modified the given dictionary.
---
 src/graph_scheduler/scheduler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index f596c0f..7deb190 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -640,10 +640,11 @@ class Scheduler:
             " GraphStructureCondition."
         )
 
-        # parse string representation of TimeScale
+        # parse string representation of TimeScale, on a copy
+        termination_conds = copy.copy(termination_conds)
         parsed_conds = termination_conds
         delkeys = set()
-        for scale in termination_conds:
+        for scale in list(termination_conds):
             try:
                 parsed_conds[getattr(TimeScale, scale.upper())] = termination_conds[scale]
                 delkeys.add(scale)
-- 
2.43.0


From 67c42ad2a38039848a059588d9349bea7b377284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 05/27] fix: JustRan is not satisfied before anything has run

It raised IndexError on an empty execution list.
---
 src/graph_scheduler/condition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index e57feca..741b467 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2182,6 +2182,9 @@ class JustRan(_DependencyValidation, Condition):
             logger.debug(f'checking if {dependency} in previous execution step set')
             try:
                 return dependency in scheduler.execution_list[execution_id][-1]
+            except IndexError:
+                # nothing has run yet
+                return False
             except TypeError:
                 return dependency == scheduler.execution_list[execution_id][-1]
         super().__init__(func, dependency)
-- 
2.43.0


From 94658749c4e80655e2fbad11288a3e81aa89d802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 06/27] fix: compare TimeInterval start and end as times

They were compared as given: strings alphabetically, and mixed types raised TypeError.
---
 src/graph_scheduler/condition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 741b467..15a6c67 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1368,13 +1368,13 @@ class TimeInterval(AbsoluteCondition):
                 'At least one of "repeat", "start", "end" must be specified'
             )
 
-        if start is not None and end is not None and start > end:
-            raise ConditionError(f'Start ({start}) is later than {end}')
-
         repeat = _parse_absolute_unit(repeat, unit)
         start = _parse_absolute_unit(start, unit)
         end = _parse_absolute_unit(end, unit)
 
+        if start is not None and end is not None and start > end:
+            raise ConditionError(f'Start ({start}) is later than {end}')
+
         def func(scheduler, execution_id):
             satisfied = True
             clock = scheduler.get_clock(execution_id)
-- 
2.43.0


From 3c2479c058744eb4e5aea88ef2f3761683b0b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 07/27] fix: ConditionSet item assignment replaces structural
 conditions

It called remove_condition with two arguments, raising TypeError.
---
 src/graph_scheduler/condition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 15a6c67..a8985a9 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -705,8 +705,8 @@ class ConditionSet(object):
 
     def __setitem__(self, key, value):
         if key in self.conditions_structural:
-            for cond in reversed(self.conditions_structural[key]):
-                self.remove_condition(key, cond)
+            for cond in list(reversed(self.conditions_structural[key])):
+                self.remove_condition(cond)
 
         self.add_condition(key, value)
 
-- 
2.43.0


From 04e02089f4ebea3f474fdb323188d8b4b2586798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 08/27] fix: remove_condition returns the condition it removed

Removing by owner always returned None.
---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index a8985a9..33f9e3a 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -845,7 +845,7 @@ class ConditionSet(object):
         else:
             warnings.warn(f'Condition {condition} not found for owner {owner}.')
 
-        return condition
+        return condition_found
 
     def add_condition_set(
         self, conditions: Union['ConditionSet', typing_dict_condition_set]
-- 
2.43.0


From 6fd176c51697c54a9026d837114536e57e067965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 09/27] fix: Operation KEEP and REPLACE return a new set

They returned their argument, so nodes of a resulting graph could share one
sender set with each other and with the input graph.
---
 src/graph_scheduler/condition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 33f9e3a..46cb648 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -568,10 +568,10 @@ class Operation(enum.Enum):
 
     """
     def _keep(s, c):
-        return s
+        return set(s)
 
     def _replace(s, c):
-        return c
+        return set(c)
 
     def _discard(s, c):
         return set()
-- 
2.43.0


From f9848b2c49912cb8af64887df91bf432ee399742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 10/27] fix: report operation conflicts between nodes that are
 not strings

Formatting the ConditionError raised TypeError.
---
 src/graph_scheduler/condition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 46cb648..2b60dcf 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2907,8 +2907,8 @@ class _GSCWithOperations(_GSCUsingNodes):
         except TypeError:
             pass
 
-        sources_str = ','.join(sources) if len(sources) else '{}'
-        comparisons_str = ','.join(comparisons) if len(comparisons) else '{}'
+        sources_str = ','.join(str(n) for n in sources) if len(sources) else '{}'
+        comparisons_str = ','.join(str(n) for n in comparisons) if len(comparisons) else '{}'
 
         return '\t{0} {1} applied on {2} with {3} against {4}'.format(
             str(operation_arg_name).ljust(self._operations_names_max_length()),
-- 
2.43.0


From 0eec0eaa20731d8ac612416a587b5a15064cfac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 11/27] fix: prune arguments correctly for positional-only and
 keyword-only parameters

Positional-only parameters received no argument, and keyword-only parameters let
surplus positional arguments through.
---
 src/graph_scheduler/utilities.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 33496dc..23b2e84 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -62,10 +62,11 @@ def prune_unused_args(func, args=None, kwargs=None):
             has_args_param = True
         elif param.kind is inspect.Parameter.VAR_KEYWORD:
             has_kwargs_param = True
-        elif param.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD or param.kind is inspect.Parameter.KEYWORD_ONLY:
-            if param.default is inspect.Parameter.empty:
+        else:
+            if param.kind is not inspect.Parameter.KEYWORD_ONLY and param.default is inspect.Parameter.empty:
                 count_positional += 1
-            func_kwargs_names.add(name)
+            if param.kind is not inspect.Parameter.POSITIONAL_ONLY:
+                func_kwargs_names.add(name)
 
     if args is not None:
         try:
-- 
2.43.0


From a76da1683474691f461fb23c35ab2731b7093bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 12/27] fix: compare nodes by equality in graph structure
 conditions

With owners equal but not identical to the nodes of the graph, required edges
were pruned.
---
 src/graph_scheduler/condition.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 2b60dcf..418efa9 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2921,7 +2921,7 @@ class _GSCWithOperations(_GSCUsingNodes):
     def _get_edge_conflicts(
         self, sender, receiver, new_sender_nodes, new_receiver_nodes, old_sender_nodes, old_receiver_nodes
     ):
-        if receiver is self.owner:
+        if receiver == self.owner:
             sender_operation = 'owner_senders'
             sender_sources = old_sender_nodes[self.owner]
             sender_comparisons = set().union(*[old_sender_nodes[n] for n in self.nodes])
@@ -2930,7 +2930,7 @@ class _GSCWithOperations(_GSCUsingNodes):
             sender_sources = old_sender_nodes[receiver]
             sender_comparisons = old_sender_nodes[self.owner]
 
-        if sender is self.owner:
+        if sender == self.owner:
             receiver_operation = 'owner_receivers'
             receiver_sources = old_receiver_nodes[self.owner]
             receiver_comparisons = set().union(*[old_receiver_nodes[n] for n in self.nodes])
@@ -3018,7 +3018,7 @@ class _GSCWithOperations(_GSCUsingNodes):
 
     def _prune_owner_edge(self, owner_idx, cycle, graph, base_graph):
         len_cycle = len(cycle)
-        assert cycle[owner_idx % len_cycle] is self.owner
+        assert cycle[owner_idx % len_cycle] == self.owner
 
         owner_is_full_ancestor = True
         owner_is_full_descendant = True
@@ -3069,11 +3069,11 @@ class _GSCWithOperations(_GSCUsingNodes):
                     receiver_idx = (i + 1) % len_c
                     receiver = c[receiver_idx]
 
-                    if receiver is self.owner:
+                    if receiver == self.owner:
                         self._prune_owner_edge(receiver_idx, c, graph, base_graph)
                     elif (
                         receiver in base_graph[sender]
-                        and sender is not self.owner
+                        and sender != self.owner
                         and not self._is_required_edge(sender, receiver)
                     ):
                         # may have been removed in another cycle
@@ -3306,7 +3306,7 @@ class BeforeNodes(_GSCReposition, _GSCWithOperations):
         return [n for n in self.nodes if self.owner in graph[n]]
 
     def _is_required_edge(self, sender, receiver):
-        return sender is self.owner and receiver in self.nodes
+        return sender == self.owner and receiver in self.nodes
 
     def _process(self, graph):
         graph = super()._process(graph)
@@ -3363,7 +3363,7 @@ class WithNode(_GSCReposition, _GSCWithOperations, _GSCSingleNode):
         return [n for n in self.nodes if graph[n] == graph[self.owner]]
 
     def _is_required_edge(self, sender, receiver):
-        return receiver is self.node or receiver is self.owner
+        return receiver == self.node or receiver == self.owner
 
     def _process(self, graph):
         graph = super()._process(graph)
@@ -3412,7 +3412,7 @@ class AfterNodes(_GSCReposition, _GSCWithOperations):
         return [n for n in self.nodes if n in graph[self.owner]]
 
     def _is_required_edge(self, sender, receiver):
-        return sender in self.nodes and receiver is self.owner
+        return sender in self.nodes and receiver == self.owner
 
     def _process(self, graph):
         graph = super()._process(graph)
-- 
2.43.0


From 8f972639d2fb888c046bb5260420f172a6039461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 13/27] fix: do not apply structural conditions twice when a
 later one fails

The graphs pushed before the failure were kept but not recorded as handled.
---
 src/graph_scheduler/scheduler.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 7deb190..6f9fa95 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1115,15 +1115,18 @@ class Scheduler:
                 for cond in self._last_handled_structural_condition_order[common_index + 1:]:
                     self._pop_graph()
 
+            # record each condition when it is handled, in case a later
+            # one raises an exception
+            self._last_handled_structural_condition_order = (
+                self.conditions.structural_condition_order[:common_index + 1]
+            )
+
             # add dependency dicts for new structural conditions
             cur_graph = self._graphs[-1]
             for cond in self.conditions.structural_condition_order[common_index + 1:]:
                 cur_graph = cond.modify_graph(cur_graph)
                 self._push_graph(cur_graph)
-
-            self._last_handled_structural_condition_order = copy.copy(
-                self.conditions.structural_condition_order
-            )
+                self._last_handled_structural_condition_order.append(cond)
 
     def _push_graph(self, graph):
         try:
-- 
2.43.0


From 108cf85e3c24c0edbc8fd398379e8c2ed20bf39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 14/27] fix: isolate the graph function cache from changes to
 graphs and results

The cache kept the caller's own sender sets as keys and handed out the cached
result itself, so changing either could change later answers.
---
 src/graph_scheduler/utilities.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 23b2e84..404605c 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 import functools
 import inspect
 import logging
@@ -275,7 +276,13 @@ def cached_graph_function(func):
     """
     @functools.wraps(func)
     def graph_function_wrapper(graph: typing_graph_dependency_dict):
-        return cached_hashable_graph_function(func, HashableDict(graph))
+        # cache on a snapshot and return a copy, so that later changes to
+        # graph or the result do not affect the cache
+        res = cached_hashable_graph_function(func, HashableDict(clone_graph(graph)))
+        if isinstance(res, dict):
+            return {k: copy.copy(v) for k, v in res.items()}
+        else:
+            return [copy.copy(v) for v in res]
 
     return graph_function_wrapper
 
-- 
2.43.0


From c914faf0b300060ad1b47e31641538f97bccf869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 15/27] fix: TimeInterval with repeat can be used without an
 owner in the graph

As a termination condition it raised UnboundLocalError.
---
 src/graph_scheduler/condition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 418efa9..383bb5a 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1382,6 +1382,8 @@ class TimeInterval(AbsoluteCondition):
             if scheduler._in_exact_time_mode and start is not None:
                 offset = start
             else:
+                # reference for an owner with no consideration set
+                offset = 0 * clock.time.absolute_interval
                 for i, cs in enumerate(scheduler.consideration_queue):
                     if self.owner in cs:
                         offset = i * clock.time.absolute_interval
-- 
2.43.0


From 9c8c4aeba76e56ac22c0857943f1801a6005234b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 16/27] fix: conditions accept functions that cannot be kept in
 the signature cache

---
 src/graph_scheduler/utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 404605c..db605ba 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -52,6 +52,9 @@ def prune_unused_args(func, args=None, kwargs=None):
     except KeyError:
         sig = inspect.signature(func)
         _unused_args_sig_cache[func] = sig
+    except TypeError:
+        # func is not hashable or not weakly referable
+        sig = inspect.signature(func)
 
     has_args_param = False
     has_kwargs_param = False
-- 
2.43.0


From 55ae7a39f94b983ff6d5df0893f95c9aef9f8c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 17/27] fix: remove_condition of the only structural condition
 of an owner

The condition was read from the list after it had been removed, so that
an IndexError was raised.
---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 383bb5a..23805bf 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -831,8 +831,8 @@ class ConditionSet(object):
                         )
                     )
                 elif len(owner_struct_conds) == 1:
-                    remove_structural_condition(owner_struct_conds[0])
                     condition_found = owner_struct_conds[0]
+                    remove_structural_condition(condition_found)
         else:
             if condition is owner_basic_cond:
                 remove_basic_condition(condition)
-- 
2.43.0


From f4fb2bae18f8a2b1eda158d8592dc27ca2957997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 18/27] fix: reconnecting receivers does not create
 self-referential edges

---
 src/graph_scheduler/condition.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 23805bf..a6c161e 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2992,6 +2992,7 @@ class _GSCWithOperations(_GSCUsingNodes):
                 for receiver in orig_receivers_old[self.owner]:
                     if (
                         receiver not in self.nodes
+                        and receiver != sender
                         and self.owner in base_graph[receiver]
                         and sender in base_graph[self.owner]
                         and (
-- 
2.43.0


From 92fe221bbfad4a91cc8867b808f2c105d5a7b50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 19/27] fix: reconnecting receivers leaves the senders of the
 owner as placed

---
 src/graph_scheduler/condition.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index a6c161e..1462de7 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2992,6 +2992,7 @@ class _GSCWithOperations(_GSCUsingNodes):
                 for receiver in orig_receivers_old[self.owner]:
                     if (
                         receiver not in self.nodes
+                        and receiver != self.owner
                         and receiver != sender
                         and self.owner in base_graph[receiver]
                         and sender in base_graph[self.owner]
-- 
2.43.0


From 6e3b04fff30935d5c1fe9860d96a7528080bb3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 20/27] fix: removing self-referential edges keeps WithNode's
 owner and node together

---
 src/graph_scheduler/condition.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 1462de7..c451196 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3369,6 +3369,16 @@ class WithNode(_GSCReposition, _GSCWithOperations, _GSCSingleNode):
     def _is_required_edge(self, sender, receiver):
         return receiver == self.node or receiver == self.owner
 
+    def _handle_remove_new_self_referential_edges(self, graph, base_graph):
+        graph = super()._handle_remove_new_self_referential_edges(graph, base_graph)
+        # owner and node keep the same senders
+        for n in graph:
+            if n == self.owner:
+                graph[n].intersection_update(graph[self.node])
+            elif n == self.node:
+                graph[n].intersection_update(graph[self.owner])
+        return graph
+
     def _process(self, graph):
         graph = super()._process(graph)
 
-- 
2.43.0


From 41d15ea73fed942cd6f7792f85bc669b31c3d702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 21/27] fix: absolute times are stored in units a power of ten
 apart

---
 src/graph_scheduler/condition.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index c451196..e06b62b 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -430,11 +430,24 @@ _additional__all__ = ['ConditionError', 'ConditionSet', 'Operation']
 
 logger = logging.getLogger(__name__)
 
+
+def _is_decimal_time_unit(u):
+    exponent = round(
+        np.log10(float((1 * u).to(_unit_registry.s).m)), _unit_registry.precision
+    )
+    return exponent == int(exponent)
+
+
+# only units a power of ten apart, so that quantities in different units
+# can be converted to each other exactly
 _pint_all_time_units = sorted(
-    set([
-        getattr(_unit_registry, f'{x}s')
-        for x in _unit_registry._prefixes.keys()
-    ]),
+    filter(
+        _is_decimal_time_unit,
+        set([
+            getattr(_unit_registry, f'{x}s')
+            for x in _unit_registry._prefixes.keys()
+        ])
+    ),
     reverse=True
 )
 
-- 
2.43.0


From 667c0817779121a8811c08e9a66194d06c94833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 22/27] fix: the absolute step is not zero when only time zero
 must occur

---
 src/graph_scheduler/scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 6f9fa95..95d9661 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1018,7 +1018,8 @@ class Scheduler:
             if self.mode is SchedulingMode.EXACT_TIME:
                 intervals.extend(c.absolute_fixed_points)
 
-        if len(intervals) == 0:
+        # if only time 0 must occur, any step includes it
+        if all(interval.m == 0 for interval in intervals):
             return self.default_absolute_time_unit
         else:
             min_time_unit = min(intervals, key=lambda x: x.u).u
-- 
2.43.0


From 21a7b1b78c3c26bcda6113264e7bab7784677496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 23/27] fix: an end time alone does not delay the start of an
 absolute time run

---
 src/graph_scheduler/condition.py | 26 ++++++++++++++++++++++++++
 src/graph_scheduler/scheduler.py |  3 +--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index e06b62b..4deb923 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1043,6 +1043,14 @@ class Condition(ConditionBase):
         """
         return []
 
+    @property
+    def absolute_first_point(self):
+        """
+        In absolute time, a time before which this Condition and those
+        it contains do not need to be considered
+        """
+        return 0
+
     @property
     def is_absolute(self):
         return False
@@ -1175,6 +1183,13 @@ class CompositeCondition(Condition):
             for c in filter(lambda a: a.is_absolute, self.args)
         ]))
 
+    @property
+    def absolute_first_point(self):
+        return min(
+            [c.absolute_first_point for c in self.args if c.is_absolute],
+            default=0
+        )
+
     @property
     def is_absolute(self):
         return any(a.is_absolute for a in self.args)
@@ -1445,6 +1460,13 @@ class TimeInterval(AbsoluteCondition):
 
         return fp
 
+    @property
+    def absolute_first_point(self):
+        if self.start_inclusive and self.start is not None:
+            return self.start
+        else:
+            return 0
+
 
 class TimeTermination(AbsoluteCondition):
     """TimeTermination
@@ -1489,6 +1511,10 @@ class TimeTermination(AbsoluteCondition):
     def absolute_fixed_points(self):
         return [self.t] if self.inclusive else []
 
+    @property
+    def absolute_first_point(self):
+        return self.t if self.inclusive else 0
+
 
 class BeforeConsiderationSetExecution(Condition):
     """BeforeConsiderationSetExecution
diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 95d9661..8c634bd 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -901,8 +901,7 @@ class Scheduler:
             current_time.absolute = max(
                 current_time.absolute,
                 min([
-                    min(c.absolute_fixed_points)
-                    if len(c.absolute_fixed_points) > 0 else 0
+                    c.absolute_first_point
                     for c in self.get_absolute_conditions(termination_conds).values()
                 ])
             )
-- 
2.43.0


From 6b82fecf70449cc8275b72fce4b0f12412620d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 24/27] fix: exact time runs start on a multiple of their step

---
 src/graph_scheduler/scheduler.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 8c634bd..587462b 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -908,6 +908,16 @@ class Scheduler:
             # convert to interval time unit to avoid pint floating point issues
             current_time.absolute = current_time.absolute.to(current_time.absolute_interval.u)
 
+            if self.mode is SchedulingMode.EXACT_TIME:
+                # a previous run may have ended at a time from which the
+                # interval does not lead to the points in time of this run
+                remainder = round(
+                    current_time.absolute % current_time.absolute_interval,
+                    _unit_registry.precision
+                )
+                if remainder != 0:
+                    current_time.absolute += current_time.absolute_interval - remainder
+
             # .to auto converts to float even if magnitude is an int, undo
             try:
                 current_time.absolute = _quantity_as_integer(current_time.absolute)
-- 
2.43.0


From db51df0a5713248d50b7cf987625739ee7fc5f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 25/27] fix: exact time steps reach repeats after an exclusive
 start

---
 src/graph_scheduler/condition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 4deb923..59c0916 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1453,7 +1453,8 @@ class TimeInterval(AbsoluteCondition):
     @property
     def absolute_fixed_points(self):
         fp = []
-        if self.start_inclusive and self.start is not None:
+        # repeats are relative to start, even if exclusive
+        if self.start is not None and (self.start_inclusive or self.repeat is not None):
             fp.append(self.start)
         if self.end_inclusive and self.end is not None:
             fp.append(self.end)
-- 
2.43.0


From d6f162e1eb3e2c79563c2adc0c3fa8b48af210db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:27 +0000
Subject: [PATCH 26/27] fix: fractional absolute steps do not overflow

The numerator of the step was a numpy integer, with which products in
comparisons of fractions.Fraction overflow.
---
 src/graph_scheduler/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 587462b..eb0c669 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1040,7 +1040,7 @@ class Scheduler:
 
             # numerator is the largest possible length of a pass
             # denominator evenly divides this length by number of consideration set executions
-            numerator = np.gcd.reduce([interval.m for interval in intervals])
+            numerator = int(np.gcd.reduce([interval.m for interval in intervals]))
             if self.mode == SchedulingMode.STANDARD:
                 denominator = len(self.consideration_queue)
             elif self.mode == SchedulingMode.EXACT_TIME:
-- 
2.43.0


From 80a0dd3ce8e479865de1303c767b1f90d5326836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:27 +0000
Subject: [PATCH 27/27] fix: absolute times in different units are compared
 exactly

Conversion and comparison of quantities in different units by pint have
floating point errors, so that equal times were found different.
---
 src/graph_scheduler/condition.py | 32 ++++++++++++++++++++++++--------
 src/graph_scheduler/scheduler.py |  4 ++--
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 59c0916..7d85b1c 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -408,6 +408,7 @@ import abc
 import collections
 import copy
 import enum
+import fractions
 import functools
 import inspect
 import itertools
@@ -485,6 +486,20 @@ def _reduce_quantity_to_integer(q):
     return q
 
 
+def _convert_exactly(q, unit):
+    # conversion and comparison by pint have floating point errors for
+    # different units
+    exponent = round(np.log10((1 * q.u).to(unit).m))
+    if exponent >= 0:
+        return (q.m * 10 ** exponent) * unit
+    else:
+        return (fractions.Fraction(q.m) / 10 ** -exponent) * unit
+
+
+def _time_difference(a, b):
+    return round(a - _convert_exactly(b, a.u), _unit_registry.precision)
+
+
 def _parse_absolute_unit(n, unit=None):
     def _get_quantity(n, unit):
         if isinstance(n, _unit_registry.Quantity):
@@ -1400,7 +1415,7 @@ class TimeInterval(AbsoluteCondition):
         start = _parse_absolute_unit(start, unit)
         end = _parse_absolute_unit(end, unit)
 
-        if start is not None and end is not None and start > end:
+        if start is not None and end is not None and _time_difference(start, end) > 0:
             raise ConditionError(f'Start ({start}) is later than {end}')
 
         def func(scheduler, execution_id):
@@ -1418,21 +1433,22 @@ class TimeInterval(AbsoluteCondition):
 
             if repeat is not None:
                 satisfied &= round(
-                    (clock.time.absolute - offset) % repeat,
+                    _time_difference(clock.time.absolute, offset)
+                    % _convert_exactly(repeat, clock.time.absolute.u),
                     _unit_registry.precision
                 ) == 0
 
             if start is not None:
                 if start_inclusive:
-                    satisfied &= clock.time.absolute >= start
+                    satisfied &= _time_difference(clock.time.absolute, start) >= 0
                 else:
-                    satisfied &= clock.time.absolute > start
+                    satisfied &= _time_difference(clock.time.absolute, start) > 0
 
             if end is not None:
                 if end_inclusive:
-                    satisfied &= clock.time.absolute <= end
+                    satisfied &= _time_difference(clock.time.absolute, end) <= 0
                 else:
-                    satisfied &= clock.time.absolute < end
+                    satisfied &= _time_difference(clock.time.absolute, end) < 0
 
             return satisfied
 
@@ -1502,9 +1518,9 @@ class TimeTermination(AbsoluteCondition):
             clock = scheduler.get_clock(execution_id)
 
             if inclusive:
-                return clock.time.absolute >= t
+                return _time_difference(clock.time.absolute, t) >= 0
             else:
-                return clock.time.absolute > t
+                return _time_difference(clock.time.absolute, t) > 0
 
         super().__init__(func, t=t, inclusive=inclusive)
 
diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index eb0c669..ea29c23 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -324,7 +324,7 @@ from toposort import CircularDependencyError, toposort
 from graph_scheduler import _unit_registry
 from graph_scheduler.condition import (
     AddEdgeTo, All, AllHaveRun, Always, Condition, ConditionSet, EveryNCalls,
-    Never, RemoveEdgeFrom, _parse_absolute_unit,
+    Never, RemoveEdgeFrom, _convert_exactly, _parse_absolute_unit,
     _quantity_as_integer, typing_condition_base,
 )
 from graph_scheduler.time import _get_pint_unit, Clock, TimeScale
@@ -906,7 +906,7 @@ class Scheduler:
                 ])
             )
             # convert to interval time unit to avoid pint floating point issues
-            current_time.absolute = current_time.absolute.to(current_time.absolute_interval.u)
+            current_time.absolute = _convert_exactly(current_time.absolute, current_time.absolute_interval.u)
 
             if self.mode is SchedulingMode.EXACT_TIME:
                 # a previous run may have ended at a time from which the
-- 
2.43.0

