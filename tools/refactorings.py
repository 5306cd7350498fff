"""Edits of the code that keep its behaviour, on which the checks have to stay quiet.

NAME: (checks that look at the edited code, [(file, old text, new text), ...])
usage: refactorings.py [NAME...]  - applies each to a scratch copy, runs its checks there (GS_SRC), prints what they say
"""
import os
import re
import shutil
import subprocess
import sys

S, C, T, U = 'scheduler.py', 'condition.py', 'time.py', 'utilities.py'
R = {}

R['run_record_helper'] = ('C01 C02 C03 C04 C05 C06 C07 C08 C15 C22 C24', [
    (S, """                                for ts in TimeScale:
                                    self.counts_total[execution_id][ts][current_node] += 1
                                # current_node's node is added to the execution queue, so we now need to
                                # reset all of the counts useable by current_node's node to 0
                                for n in self.counts_useable[execution_id]:
                                    self.counts_useable[execution_id][n][current_node] = 0
                                # and increment all of the counts of current_node's node useable by other
                                # nodes by 1
                                for n in self.counts_useable[execution_id]:
                                    self.counts_useable[execution_id][current_node][n] += 1
""", """                                self._record_execution(current_node, execution_id)
"""),
    (S, """    def _increment_time(self, time_scale, execution_id):""", """    def _record_execution(self, node, execution_id):
        total = self.counts_total[execution_id]
        for ts in TimeScale:
            total[ts][node] = total[ts][node] + 1

        useable = self.counts_useable[execution_id]
        for other in useable:
            useable[other][node] = 0
        for other in useable:
            useable[node][other] += 1

    def _increment_time(self, time_scale, execution_id):""")])

R['run_layer_helper'] = ('C01 C02 C03 C04 C05 C06 C07 C08 C15 C22 C24', [
    (S, """                # do-while, on cur_consideration_set_has_changed
                # we check whether each node in the current consideration set is allowed to run,
                # and nodes can cause cascading adds within this set
                while True:
                    cur_consideration_set_has_changed = False
                    for current_node in cur_consideration_set:
                        # only add each node once during a single consideration set execution, this also serves
                        # to prevent infinitely cascading adds
                        if current_node not in cur_consideration_set_execution_exec:
                            if self.conditions.conditions_basic[current_node].is_satisfied(**is_satisfied_kwargs):
                                cur_consideration_set_execution_exec.add(current_node)
                                execution_list_has_changed = True
                                cur_consideration_set_has_changed = True

                                for ts in TimeScale:
                                    self.counts_total[execution_id][ts][current_node] += 1
                                # current_node's node is added to the execution queue, so we now need to
                                # reset all of the counts useable by current_node's node to 0
                                for n in self.counts_useable[execution_id]:
                                    self.counts_useable[execution_id][n][current_node] = 0
                                # and increment all of the counts of current_node's node useable by other
                                # nodes by 1
                                for n in self.counts_useable[execution_id]:
                                    self.counts_useable[execution_id][current_node][n] += 1
                    # do-while condition
                    if not cur_consideration_set_has_changed:
                        break
""", """                self._consider(cur_consideration_set, cur_consideration_set_execution_exec, execution_id, is_satisfied_kwargs)
                if len(cur_consideration_set_execution_exec) > 0:
                    execution_list_has_changed = True
"""),
    (S, """    def _increment_time(self, time_scale, execution_id):""", """    def _consider(self, layer, chosen, execution_id, is_satisfied_kwargs):
        changed = True
        while changed:
            changed = False
            for node in layer:
                if node in chosen:
                    continue
                if not self.conditions.conditions_basic[node].is_satisfied(**is_satisfied_kwargs):
                    continue
                chosen.add(node)
                changed = True
                for ts in TimeScale:
                    self.counts_total[execution_id][ts][node] += 1
                for n in self.counts_useable[execution_id]:
                    self.counts_useable[execution_id][n][node] = 0
                for n in self.counts_useable[execution_id]:
                    self.counts_useable[execution_id][node][n] += 1

    def _increment_time(self, time_scale, execution_id):""")])

R['run_stop_helper'] = ('C01 C02 C03 C04 C05 C06 C07 C08 C15 C22 C24', [
    (S, """        while (
            not termination_conds[TimeScale.ENVIRONMENT_STATE_UPDATE].is_satisfied(**is_satisfied_kwargs)
            and not termination_conds[TimeScale.ENVIRONMENT_SEQUENCE].is_satisfied(**is_satisfied_kwargs)
        ):
""", """        while not self._is_done(termination_conds, is_satisfied_kwargs):
"""), (S, """                cur_index_consideration_queue < len(self.consideration_queue)
                and not termination_conds[TimeScale.ENVIRONMENT_STATE_UPDATE].is_satisfied(**is_satisfied_kwargs)
                and not termination_conds[TimeScale.ENVIRONMENT_SEQUENCE].is_satisfied(**is_satisfied_kwargs)
""", """                cur_index_consideration_queue < len(self.consideration_queue)
                and not self._is_done(termination_conds, is_satisfied_kwargs)
"""), (S, """    def _increment_time(self, time_scale, execution_id):""", """    @staticmethod
    def _is_done(termination_conds, is_satisfied_kwargs):
        for scale in (TimeScale.ENVIRONMENT_STATE_UPDATE, TimeScale.ENVIRONMENT_SEQUENCE):
            if termination_conds[scale].is_satisfied(**is_satisfied_kwargs):
                return True
        return False

    def _increment_time(self, time_scale, execution_id):""")])

R['run_rewritten'] = ('C01 C02 C03 C04 C05 C06 C07 C08 C15 C22 C24', [
    (S, """            execution_list_has_changed = False
            cur_index_consideration_queue = 0

            while (
                cur_index_consideration_queue < len(self.consideration_queue)
                and not termination_conds[TimeScale.ENVIRONMENT_STATE_UPDATE].is_satisfied(**is_satisfied_kwargs)
                and not termination_conds[TimeScale.ENVIRONMENT_SEQUENCE].is_satisfied(**is_satisfied_kwargs)
            ):
""", """            cur_index_consideration_queue = 0
            execution_list_has_changed = False

            while True:
                if cur_index_consideration_queue >= len(self.consideration_queue):
                    break
                if termination_conds[TimeScale.ENVIRONMENT_STATE_UPDATE].is_satisfied(**is_satisfied_kwargs):
                    break
                if termination_conds[TimeScale.ENVIRONMENT_SEQUENCE].is_satisfied(**is_satisfied_kwargs):
                    break
"""), (S, """                if len(cur_consideration_set_execution_exec) >= 1 or in_absolute_time_mode:
                    self.execution_list[execution_id].append(cur_consideration_set_execution_exec)
                    if in_absolute_time_mode:
                        self.execution_timestamps[execution_id].append(
                            copy.copy(current_time)
                        )
                    yield self.execution_list[execution_id][-1]

                    self.get_clock(execution_id)._increment_time(TimeScale.CONSIDERATION_SET_EXECUTION)
""", """                if in_absolute_time_mode or cur_consideration_set_execution_exec:
                    if in_absolute_time_mode:
                        timestamp = copy.copy(current_time)
                        self.execution_timestamps[execution_id].append(timestamp)
                    self.execution_list[execution_id].append(cur_consideration_set_execution_exec)
                    yield cur_consideration_set_execution_exec

                    self._increment_time(TimeScale.CONSIDERATION_SET_EXECUTION, execution_id)
"""), (S, """            if not execution_list_has_changed and not in_absolute_time_mode:
                self.execution_list[execution_id].append(set())
                yield self.execution_list[execution_id][-1]

                self.get_clock(execution_id)._increment_time(TimeScale.CONSIDERATION_SET_EXECUTION)

            self.get_clock(execution_id)._increment_time(TimeScale.PASS)
""", """            if not (execution_list_has_changed or in_absolute_time_mode):
                nothing = set()
                self.execution_list[execution_id].append(nothing)
                yield nothing

                self._increment_time(TimeScale.CONSIDERATION_SET_EXECUTION, execution_id)

            self._increment_time(TimeScale.PASS, execution_id)
""")])

R['run_for_layers'] = ('C01 C02 C03 C04 C05 C06 C07 C08 C15 C22 C24', [
    (S, """            execution_list_has_changed = False
            cur_index_consideration_queue = 0

            while (
                cur_index_consideration_queue < len(self.consideration_queue)
                and not termination_conds[TimeScale.ENVIRONMENT_STATE_UPDATE].is_satisfied(**is_satisfied_kwargs)
                and not termination_conds[TimeScale.ENVIRONMENT_SEQUENCE].is_satisfied(**is_satisfied_kwargs)
            ):
""", """            execution_list_has_changed = False

            for cur_consideration_set in self.consideration_queue:
                if (
                    termination_conds[TimeScale.ENVIRONMENT_STATE_UPDATE].is_satisfied(**is_satisfied_kwargs)
                    or termination_conds[TimeScale.ENVIRONMENT_SEQUENCE].is_satisfied(**is_satisfied_kwargs)
                ):
                    break
"""), (S, """                # the current "layer/group" of nodes that MIGHT be added during this consideration set execution
                cur_consideration_set = self.consideration_queue[cur_index_consideration_queue]
""", ""), (S, """                cur_index_consideration_queue += 1

""", "")])

R['contexts_rewritten'] = ('C03 C04 C07 C08 C24', [
    (S, """                self.counts_total[execution_id] = {
                    ts: {n: 0 for n in self.nodes} for ts in TimeScale
                }
""", """                totals = {}
                for ts in TimeScale:
                    totals[ts] = dict.fromkeys(self.nodes, 0)
                self.counts_total[execution_id] = totals
"""), (S, """                self.execution_list[execution_id] = list(self.execution_list[base_execution_id])
""", """                self.execution_list[execution_id] = self.execution_list[base_execution_id][:]
"""), (S, """            if ts.value <= time_scale.value:
                for c in self.counts_total[execution_id][ts]:
                    self.counts_total[execution_id][ts][c] = 0
""", """            if ts > time_scale:
                continue
            counts = self.counts_total[execution_id][ts]
            for node in counts:
                counts[node] = 0
"""), (S, """        for obj in [
            self.counts_useable,
            self.counts_total,
            self.clocks,
            self.execution_list,
            self.execution_timestamps
        ]:
            try:
                del obj[execution_id]
            except KeyError:
                pass
""", """        for obj in (self.execution_timestamps, self.execution_list, self.clocks, self.counts_total, self.counts_useable):
            obj.pop(execution_id, None)
""")])

R['contexts_helper'] = ('C03 C04 C07 C08', [
    (S, """        if execution_id not in self.execution_list:
            if base_execution_id is not NotImplemented:
                if base_execution_id not in self.execution_list:
                    raise SchedulerError('execution_id {0} not in {1}.execution_list'.format(base_execution_id, self))

                self.execution_list[execution_id] = list(self.execution_list[base_execution_id])
            else:
                self.execution_list[execution_id] = []
""", """        self._init_execution_list(execution_id, base_execution_id)
"""), (S, """    def _init_clock(self, execution_id, base_execution_id=NotImplemented):""", """    def _init_execution_list(self, execution_id, base_execution_id):
        if execution_id in self.execution_list:
            return
        if base_execution_id is NotImplemented:
            self.execution_list[execution_id] = []
            return
        if base_execution_id not in self.execution_list:
            raise SchedulerError('execution_id {0} not in {1}.execution_list'.format(base_execution_id, self))
        self.execution_list[execution_id] = list(self.execution_list[base_execution_id])

    def _init_clock(self, execution_id, base_execution_id=NotImplemented):""")])

R['merge_rewritten'] = ('C24 C05', [
    (S, """        termination_conds = Scheduler._parse_termination_conditions(termination_conds)
        new_conds = self.termination_conds.copy()
        new_conds.update(termination_conds)

        return new_conds
""", """        return {**self.termination_conds, **Scheduler._parse_termination_conditions(termination_conds)}
"""), (S, """        if termination_conds is None:
            termination_conds = self.termination_conds
        else:
            termination_conds = self._combine_termination_conditions(termination_conds)

        self._init_counts(""", """        if termination_conds is not None:
            termination_conds = self._combine_termination_conditions(termination_conds)
        else:
            termination_conds = self.termination_conds

        self._init_counts(""")])

R['parse_rewritten'] = ('C24', [
    (S, """        try:
            parsed_conds = {
                k: parsed_conds[k]
                for k in parsed_conds
                if (
                    isinstance(k, TimeScale)
                    and isinstance(parsed_conds[k], Condition)
                    and k not in delkeys
                )
            }
        except TypeError:
            raise TypeError(err_msg)
""", """        try:
            valid = {}
            for k in parsed_conds:
                if k in delkeys or not isinstance(k, TimeScale):
                    continue
                if isinstance(parsed_conds[k], Condition):
                    valid[k] = parsed_conds[k]
            parsed_conds = valid
        except TypeError:
            raise TypeError(err_msg)
""")])

R['defaults_helper'] = ('C15', [
    (S, """                dependencies = list(self.graph[node])
                if len(dependencies) == 0:
                    cond = Always()
                elif len(dependencies) == 1:
                    cond = EveryNCalls(dependencies[0], 1)
                else:
                    cond = All(*[EveryNCalls(x, 1) for x in dependencies])

                self.add_condition(node, cond)
                unspecified_nodes.append(node)
""", """                self.add_condition(node, self._default_condition(node))
                unspecified_nodes.append(node)
"""), (S, """    def _validate_conditions(self):
""", """    def _default_condition(self, node):
        each_sender = [EveryNCalls(sender, 1) for sender in self.graph[node]]
        if not each_sender:
            return Always()
        if len(each_sender) == 1:
            return each_sender[0]
        return All(*each_sender)

    def _validate_conditions(self):
""")])

R['stacks_rewritten'] = ('C17 C01', [
    (S, """            common_index = -1
            for i, cond in enumerate(self.conditions.structural_condition_order):
                try:
                    if self._last_handled_structural_condition_order[i] == cond:
                        common_index = i
                    else:
                        break
                except (IndexError, TypeError):
                    break
""", """            handled = self._last_handled_structural_condition_order
            if handled is None:
                handled = []
            common_index = -1
            for cond, old in zip(self.conditions.structural_condition_order, handled):
                if old != cond:
                    break
                common_index += 1
""")])

R['stacks_helper'] = ('C17 C01', [
    (S, """            cur_graph = self._graphs[-1]
            for cond in self.conditions.structural_condition_order[common_index + 1:]:
                cur_graph = cond.modify_graph(cur_graph)
                self._push_graph(cur_graph)
                self._last_handled_structural_condition_order.append(cond)
""", """            for cond in self.conditions.structural_condition_order[common_index + 1:]:
                self._apply_structural_condition(cond)
"""), (S, """    def _push_graph(self, graph):
        try:""", """    def _apply_structural_condition(self, cond):
        self._push_graph(cond.modify_graph(self._graphs[-1]))
        self._last_handled_structural_condition_order.append(cond)

    def _push_graph(self, graph):
        try:""")])

R['stacks_reordered'] = ('C17 C01', [
    (S, """        self._graphs.append(graph)
        self._consideration_queues.append(consideration_queue)
        self._consideration_queue_indices.append(
            _generate_consideration_queue_indices(consideration_queue)
        )
""", """        indices = _generate_consideration_queue_indices(consideration_queue)
        self._consideration_queue_indices.append(indices)
        self._consideration_queues.append(consideration_queue)
        self._graphs.append(graph)
""")])

R['absolute_rewritten'] = ('C22', [
    (S, """        return {
            owner: cond
            for owner, cond
            in [*self.conditions.conditions_basic.items(), *termination_conds.items()]
            if cond.is_absolute
        }
""", """        res = {}
        for conds in (self.conditions.conditions_basic, termination_conds):
            for owner, cond in conds.items():
                if cond.is_absolute:
                    res[owner] = cond
        return res
"""), (S, """            if self.mode == SchedulingMode.STANDARD:
                denominator = len(self.consideration_queue)
            elif self.mode == SchedulingMode.EXACT_TIME:
                denominator = 1
""", """            if self.mode is SchedulingMode.EXACT_TIME:
                denominator = 1
            else:
                denominator = len(self.consideration_queue)
"""), (S, """            for i, a in enumerate(intervals):
                unit_conversion = round(np.log10((1 * a.u).to(min_time_unit).m))
                intervals[i] = (int(a.m) * 10 ** unit_conversion) * min_time_unit
""", """            for i in range(len(intervals)):
                interval = intervals[i]
                exponent = round(np.log10((1 * interval.u).to(min_time_unit).m))
                magnitude = int(interval.m) * 10 ** exponent
                intervals[i] = magnitude * min_time_unit
""")])

R['start_helper'] = ('C22 C07 C06', [
    (S, """            # advance absolute clock time to first necessary time
            current_time.absolute = max(
                current_time.absolute,
                min([
                    c.absolute_first_point
                    for c in self.get_absolute_conditions(termination_conds).values()
                ])
            )
""", """            # advance absolute clock time to first necessary time
            current_time.absolute = max(
                current_time.absolute,
                self._get_first_point(termination_conds)
            )
"""), (S, """    def _increment_time(self, time_scale, execution_id):""", """    def _get_first_point(self, termination_conds):
        return min([
            c.absolute_first_point
            for c in self.get_absolute_conditions(termination_conds).values()
        ])

    def _increment_time(self, time_scale, execution_id):""")])

R['interval_rewritten'] = ('C22', [
    (C, """            satisfied = True
            clock = scheduler.get_clock(execution_id)
""", """            clock = scheduler.get_clock(execution_id)
            now = clock.time.absolute
"""), (C, """                for i, cs in enumerate(scheduler.consideration_queue):
                    if self.owner in cs:
                        offset = i * clock.time.absolute_interval
""", """                for i, cs in enumerate(scheduler.consideration_queue):
                    if self.owner not in cs:
                        continue
                    offset = i * clock.time.absolute_interval
"""), (C, """            if repeat is not None:
                satisfied &= round(
                    _time_difference(clock.time.absolute, offset)
                    % _convert_exactly(repeat, clock.time.absolute.u),
                    _unit_registry.precision
                ) == 0

            if start is not None:
                if start_inclusive:
                    satisfied &= _time_difference(clock.time.absolute, start) >= 0
                else:
                    satisfied &= _time_difference(clock.time.absolute, start) > 0

            if end is not None:
                if end_inclusive:
                    satisfied &= _time_difference(clock.time.absolute, end) <= 0
                else:
                    satisfied &= _time_difference(clock.time.absolute, end) < 0

            return satisfied
""", """            if repeat is not None:
                elapsed = _time_difference(now, offset)
                rest = elapsed % _convert_exactly(repeat, now.u)
                if round(rest, _unit_registry.precision) != 0:
                    return False

            if start is not None:
                since_start = _time_difference(now, start)
                if since_start < 0 or (since_start == 0 and not start_inclusive):
                    return False

            if end is not None:
                since_end = _time_difference(now, end)
                if since_end > 0 or (since_end == 0 and not end_inclusive):
                    return False

            return True
""")])

R['points_rewritten'] = ('C22', [
    (C, """        fp = []
        # repeats are relative to start, even if exclusive
        if self.start is not None and (self.start_inclusive or self.repeat is not None):
            fp.append(self.start)
        if self.end_inclusive and self.end is not None:
            fp.append(self.end)
        return fp
""", """        uses_start = self.start is not None and (self.repeat is not None or self.start_inclusive)
        uses_end = self.end is not None and self.end_inclusive
        return ([self.start] if uses_start else []) + ([self.end] if uses_end else [])
"""), (C, """    def absolute_intervals(self):
        return list(itertools.chain.from_iterable([
            c.absolute_intervals
            for c in filter(lambda a: a.is_absolute, self.args)
        ]))
""", """    def absolute_intervals(self):
        intervals = []
        for c in self.args:
            if c.is_absolute:
                intervals.extend(c.absolute_intervals)
        return intervals
""")])

R['units_rewritten'] = ('C22', [
    (C, """    for u in filter(lambda u: u <= q.u, _pint_all_time_units):
        try:
            return _quantity_as_integer(q.to(u))
        except ValueError:
            pass

    return q
""", """    for u in _pint_all_time_units:
        if u > q.u:
            continue
        try:
            return _quantity_as_integer(q.to(u))
        except ValueError:
            continue

    return q
"""), (C, """    if rounded == int(rounded):
        return int(rounded) * q.u
    else:
        raise ValueError(f'{q} cannot be safely converted to integer magnitude')
""", """    integer = int(rounded)
    if rounded != integer:
        raise ValueError(f'{q} cannot be safely converted to integer magnitude')
    return integer * q.u
""")])

R['time_rewritten'] = ('C09 C10', [
    (T, """        for relative_time_scale in sorted(TimeScale):
            # this works because the enum is set so that higher granularities of time have lower values
            if relative_time_scale >= time_scale:
                continue

            self._set_by_time_scale(relative_time_scale, 0)
""", """        for finer in [ts for ts in TimeScale if ts < time_scale]:
            self._set_by_time_scale(finer, 0)
"""), (T, """        self._set_by_time_scale(time_scale, self._get_by_time_scale(time_scale) + 1)
        self._reset_by_time_scale(time_scale)

        if (
            self.absolute_enabled
            and time_scale is self.absolute_time_unit_scale
        ):
            self.absolute += self.absolute_interval
""", """        value = self._get_by_time_scale(time_scale)
        self._reset_by_time_scale(time_scale)
        self._set_by_time_scale(time_scale, value + 1)

        if (
            time_scale is self.absolute_time_unit_scale
            and self.absolute_enabled
        ):
            self.absolute = self.absolute + self.absolute_interval
""")])

R['tree_rewritten'] = ('C10 C11', [
    (T, """        if self.child_time_scale >= self.max_depth:
            if time_scale == self.child_time_scale:
                self.children.append(
                    TimeHistoryTree(
                        self.child_time_scale,
                        max_depth=self.max_depth,
                        index=len(self.children),
                        parent=self,
                        enable_current_time=False
                    )
                )
            else:
                self.children[-1].increment_time(time_scale)
        self.total_times[time_scale] += 1
""", """        self.total_times[time_scale] = self.total_times[time_scale] + 1
        if self.child_time_scale >= self.max_depth:
            if time_scale != self.child_time_scale:
                self.children[-1].increment_time(time_scale)
            else:
                self._add_child()
"""), (T, """    def get_total_times_relative(
        self,
        query_time_scale,
        base_indices=None
    ):
        \"\"\"
        Arguments
        ---------
            query_time_scale : :class:`TimeScale`
                the :class:`TimeScale` of units to be returned

            base_indices : dict""", """    def _add_child(self):
        child = TimeHistoryTree(
            self.child_time_scale,
            max_depth=self.max_depth,
            index=len(self.children),
            parent=self,
            enable_current_time=False
        )
        self.children.append(child)

    def get_total_times_relative(
        self,
        query_time_scale,
        base_indices=None
    ):
        \"\"\"
        Arguments
        ---------
            query_time_scale : :class:`TimeScale`
                the :class:`TimeScale` of units to be returned

            base_indices : dict"""), (T, """        if base_indices is None:
            base_indices = default_base_indices
        else:
            default_base_indices.update(base_indices)
            base_indices = default_base_indices
""", """        base_indices = {**default_base_indices, **({} if base_indices is None else base_indices)}
""")])

R['composites_rewritten'] = ('C13', [
    (C, """        for cond in conds:
            if not cond.is_satisfied(**kwargs):
                return False
        return True
""", """        return all(cond.is_satisfied(**kwargs) for cond in conds)
"""), (C, """        for cond in conds:
            if cond.is_satisfied(**kwargs):
                return True
        return False
""", """        satisfied = False
        for cond in conds:
            if cond.is_satisfied(**kwargs):
                satisfied = True
                break
        return satisfied
"""), (C, """        if execution_id not in self.satisfactions:
            self.satisfactions[execution_id] = 0
        if self.satisfactions[execution_id] < n:
            if call_with_pruned_args(condition.is_satisfied, *args, scheduler=scheduler, execution_id=execution_id, **kwargs):
                self.satisfactions[execution_id] += 1
                return True
        return False
""", """        count = self.satisfactions.setdefault(execution_id, 0)
        if count >= n:
            return False
        if not call_with_pruned_args(condition.is_satisfied, *args, scheduler=scheduler, execution_id=execution_id, **kwargs):
            return False
        self.satisfactions[execution_id] += 1
        return True
""")])

R['calls_rewritten'] = ('C12 C04', [
    (C, """            count_sum = 0
            for d in dependencies:
                try:
                    count_sum += scheduler.counts_total[execution_id][time_scale][d]
                    logger.debug('{0} has reached {1} num_calls in {2}'.
                                 format(d, scheduler.counts_total[execution_id][time_scale][d], time_scale.name))
                except AttributeError as e:
                    raise ConditionError(f'{type(self).__name__}: scheduler must be supplied to is_satisfied: {e}.')
            return count_sum >= n
""", """            try:
                count_sum = sum(scheduler.counts_total[execution_id][time_scale][d] for d in dependencies)
            except AttributeError as e:
                raise ConditionError(f'{type(self).__name__}: scheduler must be supplied to is_satisfied: {e}.')
            return n <= count_sum
"""), (C, """            for d in dependencies:
                try:
                    if d.is_finished(execution_id):
                        return True
                except AttributeError as e:
                    raise ConditionError(f'WhenFinishedAny: Unsupported dependency type: {type(d)}; ({e}).')
            return False
""", """            finished = False
            for d in dependencies:
                try:
                    finished = d.is_finished(execution_id)
                except AttributeError as e:
                    raise ConditionError(f'WhenFinishedAny: Unsupported dependency type: {type(d)}; ({e}).')
                if finished:
                    return True
            return False
"""), (C, """            try:
                num_calls = scheduler.counts_useable[execution_id][dependency][self.owner]
                logger.debug('{0} has reached {1} num_calls'.format(dependency, num_calls))
                return num_calls >= n
""", """            try:
                useable = scheduler.counts_useable[execution_id][dependency]
                return not (useable[self.owner] < n)
""")])

R['passes_helper'] = ('C11', [
    (C, """class BeforePass(Condition):
""", """def _get_elapsed(scheduler, execution_id, unit, scale):
    clock = scheduler.get_clock(execution_id)
    return clock.get_total_times_relative(unit, scale)


class BeforePass(Condition):
"""), (C, """                return scheduler.get_clock(execution_id).get_total_times_relative(TimeScale.PASS, time_scale) >= n
""", """                return _get_elapsed(scheduler, execution_id, TimeScale.PASS, time_scale) >= n
"""), (C, """                return scheduler.get_clock(execution_id).get_total_times_relative(TimeScale.PASS, time_scale) % n == 0
""", """                elapsed = _get_elapsed(scheduler, execution_id, TimeScale.PASS, time_scale)
                return elapsed % n == 0
""")])

R['set_rewritten'] = ('C16 C17 C15', [
    (C, """        if isinstance(condition, GraphStructureCondition):
            if owner not in self.conditions_structural:
                self.conditions_structural[owner] = []

            self.conditions_structural[owner].append(condition)
            self.structural_condition_order.append(condition)
        else:
            try:
                old_condition = self.conditions_basic[owner]
            except KeyError:
                pass
            else:
                warnings.warn(
                    f'Replacing basic condition for {owner}. old: {old_condition} new: {condition}'
                )
            self.conditions_basic[owner] = condition
        self._rebuild_conditions = True
""", """        self._rebuild_conditions = True
        if not isinstance(condition, GraphStructureCondition):
            if owner in self.conditions_basic:
                old_condition = self.conditions_basic[owner]
                warnings.warn(
                    f'Replacing basic condition for {owner}. old: {old_condition} new: {condition}'
                )
            self.conditions_basic[owner] = condition
            return

        self.structural_condition_order.append(condition)
        self.conditions_structural.setdefault(owner, []).append(condition)
"""), (C, """        for owner in conditions:
            if isinstance(conditions[owner], collections.abc.Iterable):
                for c in conditions[owner]:
                    self.add_condition(owner, c)
            else:
                self.add_condition(owner, conditions[owner])
""", """        for owner in conditions:
            added = conditions[owner]
            if not isinstance(added, collections.abc.Iterable):
                added = [added]
            for c in added:
                self.add_condition(owner, c)
""")])

R['remove_rewritten'] = ('C16 C17', [
    (C, """        condition_found = None
        try:
            owner_struct_conds = self.conditions_structural[owner]
        except KeyError:
            owner_struct_conds = None

        try:
            owner_basic_cond = self.conditions_basic[owner]
        except KeyError:
            owner_basic_cond = None
""", """        condition_found = None
        owner_struct_conds = self.conditions_structural.get(owner)
        owner_basic_cond = self.conditions_basic.get(owner)
""")])

R['view_rewritten'] = ('C16', [
    (C, """            conds = self.conditions_basic

            if len(self.conditions_structural) != 0:
                conds = copy.copy(conds)

            for node, struct_conds in self.conditions_structural.items():
                if node in conds:
                    conds[node] = [conds[node]] + struct_conds
                elif""", """            conds = self.conditions_basic

            if self.conditions_structural:
                conds = dict(conds)

            for node in self.conditions_structural:
                struct_conds = self.conditions_structural[node]
                if node in conds:
                    conds[node] = [conds[node], *struct_conds]
                elif""")])

R['operations_rewritten'] = ('C20 C18 C19', [
    (C, """        for receiver in new_sender_nodes:
            if not self.ignore_conflicts:
                for sender in new_sender_nodes[receiver]:
                    edge_conflicts = self._get_edge_conflicts(
                        sender, receiver, new_sender_nodes, new_receiver_nodes, graph, old_receiver_nodes
                    )
                    conflict_strings.extend(edge_conflicts)
            result_graph[receiver] = new_sender_nodes[receiver]
""", """        for receiver, senders in new_sender_nodes.items():
            result_graph[receiver] = senders
            if self.ignore_conflicts:
                continue
            for sender in senders:
                conflict_strings.extend(self._get_edge_conflicts(
                    sender, receiver, new_sender_nodes, new_receiver_nodes, graph, old_receiver_nodes
                ))
"""), (C, """                else:
                    try:
                        result_graph[node].remove(sender)
                    except KeyError:
                        pass
                    else:
                        logger.debug(
                            f'{node} is not a new receiver of {sender} - discarding from modified graph.'
                        )
""", """                else:
                    result_graph[node].discard(sender)
""")])

R['operations_helper'] = ('C20 C18 C19', [
    (C, """        for n in self.nodes:
            subject_senders_n = self._get_subject_operation(self.subject_senders, n)
            subject_receivers_n = self._get_subject_operation(self.subject_receivers, n)

            logger.debug(f'Apply subject_senders ({subject_senders_n}) to {n}')
            new_sender_nodes[n] = subject_senders_n(
                old_subject_sender_nodes[n],
                old_owner_sender_nodes,
            )

            logger.debug(f'Apply subject_receivers ({subject_receivers_n}) to {n}')
            new_receiver_nodes[n] = subject_receivers_n(
                old_receiver_nodes[n],
                old_receiver_nodes[self.owner],
            )
""", """        for n in self.nodes:
            new_receiver_nodes[n] = self._apply_to_subject(
                self.subject_receivers, n, old_receiver_nodes[n], old_receiver_nodes[self.owner]
            )
            new_sender_nodes[n] = self._apply_to_subject(
                self.subject_senders, n, old_subject_sender_nodes[n], old_owner_sender_nodes
            )
"""), (C, """    @staticmethod
    def _parse_operation_arg(operation):""", """    def _apply_to_subject(self, operation, subject, source, comparison):
        return self._get_subject_operation(operation, subject)(source, comparison)

    @staticmethod
    def _parse_operation_arg(operation):""")])

R['placing_rewritten'] = ('C18 C19 C20', [
    (C, """            for node in graph:
                if node not in base_graph[node]:
                    if node in graph[node]:
                        graph[node].remove(node)
                        logger.debug(f'New self-referential edge removed for {node}')
""", """            for node, senders in graph.items():
                if node in senders and node not in base_graph[node]:
                    senders.discard(node)
"""), (C, """        for n in self.nodes:
            graph[n].discard(self.owner)
            graph[self.owner].discard(n)
        return graph
""", """        owner_senders = graph[self.owner]
        owner_senders.difference_update(self.nodes)
        for n in self.nodes:
            graph[n].discard(self.owner)
        return graph
"""), (C, """        all_senders = graph[self.owner].union(graph[self.node])
        graph[self.owner] = all_senders
        graph[self.node] = copy.copy(all_senders)
        return graph
""", """        graph[self.owner] = graph[self.owner] | graph[self.node]
        graph[self.node] = set(graph[self.owner])
        return graph
"""), (C, """        try:
            graph[self.owner].remove(self.node)
        except KeyError as e:
            warnings.warn(
                f'{self}: there was no edge from {self.node} to {self.owner}: {e}'
            )
        return graph
""", """        if self.node not in graph[self.owner]:
            warnings.warn(
                f'{self}: there was no edge from {self.node} to {self.owner}'
            )
        else:
            graph[self.owner].remove(self.node)
        return graph
""")])

R['placing_helper'] = ('C18 C19', [
    (C, """        len_cycle = len(cycle)
        assert cycle[owner_idx % len_cycle] == self.owner

        owner_is_full_ancestor = True
        owner_is_full_descendant = True
""", """        len_cycle = len(cycle)
        assert cycle[owner_idx % len_cycle] == self.owner

"""), (C, """        for n in nodes_to_check:
            if self.owner not in ancestors[n]:
                owner_is_full_ancestor = False
            if self.owner not in descendants[n]:
                owner_is_full_descendant = False
""", """        owner_is_full_ancestor = all(self.owner in ancestors[n] for n in nodes_to_check)
        owner_is_full_descendant = all(self.owner in descendants[n] for n in nodes_to_check)
""")])

R['threshold_rewritten'] = ('C23', [
    (C, """            if comparator == '==':
                return np.isclose(param_value, threshold, atol=atol, rtol=rtol)
            elif comparator == '!=':
                return not np.isclose(param_value, threshold, atol=atol, rtol=rtol)
            else:
                return comparison_operators[comparator](param_value, threshold)
""", """            if comparator in {'==', '!='}:
                close = np.isclose(param_value, threshold, rtol=rtol, atol=atol)
                return close if comparator == '==' else not close
            return comparison_operators[comparator](param_value, threshold)
"""), (C, """        if self.custom_parameter_getter is not None:
            return call_with_pruned_args(
                self.custom_parameter_getter,
                self.dependency,
                self.parameter,
                execution_id=execution_id
            )
        else:
            return getattr(self.dependency, self.parameter)
""", """        if self.custom_parameter_getter is None:
            return getattr(self.dependency, self.parameter)

        return call_with_pruned_args(
            self.custom_parameter_getter,
            self.dependency,
            self.parameter,
            execution_id=execution_id
        )
""")])

R['prune_rewritten'] = ('C14', [
    (U, """            filtered = set()
            for kw in kwargs:
                if kw not in func_kwargs_names:
                    filtered.add(kw)
            for kw in filtered:
                del kwargs[kw]
""", """            kwargs = {kw: v for kw, v in kwargs.items() if kw in func_kwargs_names}
"""), (C, """        kwargs_to_pass = self.kwargs.copy()
        kwargs_to_pass.update(kwargs)

        return call_with_pruned_args(
            self.func,
            *self.args,
            *args,
            execution_id=execution_id,
            **kwargs_to_pass
        )
""", """        all_args = (*self.args, *args)
        all_kwargs = {**self.kwargs, **kwargs}

        return call_with_pruned_args(self.func, *all_args, execution_id=execution_id, **all_kwargs)
""")])

R['utilities_rewritten'] = ('C21 C20 C01 C18', [
    (U, """    res = {}
    for k, v in graph.items():
        if isinstance(v, collections.abc.Iterable) and not isinstance(v, str):
            v = set(v)
        else:
            v = set([v])
        res[k] = v
    return res
""", """    def senders(v):
        if isinstance(v, str) or not isinstance(v, collections.abc.Iterable):
            return {v}
        return set(v)

    return {k: senders(v) for k, v in graph.items()}
"""), (U, """    receivers = {node: set() for node in graph}
    for node, senders in graph.items():
        for s in senders:
            # sender may not be in graph
            if s not in receivers:
                receivers[s] = set()
            receivers[s].add(node)
    return receivers
""", """    receivers = {}
    for node in graph:
        receivers[node] = set()
    for node, senders in graph.items():
        for s in senders:
            # sender may not be in graph
            receivers.setdefault(s, set()).add(node)
    return receivers
"""), (U, """        if add_missing and sender not in res_graph:
            res_graph[sender] = set()
        for rec in receivers:
            if rec not in res_graph:
                res_graph[rec] = set()
            res_graph[rec].add(sender)
""", """        if add_missing:
            res_graph.setdefault(sender, set())
        for rec in receivers:
            res_graph.setdefault(rec, set()).add(sender)
""")])

R['run_generator'] = ('C01 C02 C05 C06 C07 C22', [
    (S, """                    self.execution_list[execution_id].append(cur_consideration_set_execution_exec)
                    if in_absolute_time_mode:
                        self.execution_timestamps[execution_id].append(
                            copy.copy(current_time)
                        )
                    yield self.execution_list[execution_id][-1]

                    self.get_clock(execution_id)._increment_time(TimeScale.CONSIDERATION_SET_EXECUTION)
""", """                    if in_absolute_time_mode:
                        self.execution_timestamps[execution_id].append(
                            copy.copy(current_time)
                        )
                    yield from self._execute(cur_consideration_set_execution_exec, execution_id)
"""), (S, """                self.execution_list[execution_id].append(set())
                yield self.execution_list[execution_id][-1]

                self.get_clock(execution_id)._increment_time(TimeScale.CONSIDERATION_SET_EXECUTION)
""", """                yield from self._execute(set(), execution_id)
"""), (S, """    def _increment_time(self, time_scale, execution_id):""", """    def _execute(self, nodes, execution_id):
        self.execution_list[execution_id].append(nodes)
        yield self.execution_list[execution_id][-1]
        self.get_clock(execution_id)._increment_time(TimeScale.CONSIDERATION_SET_EXECUTION)

    def _increment_time(self, time_scale, execution_id):""")])

R['run_pass_generator'] = ('C01 C02 C03 C04 C05 C06 C07 C08', [
    (S, """                while True:
                    cur_consideration_set_has_changed = False
                    for current_node in cur_consideration_set:
                        # only add each node once during a single consideration set execution, this also serves
                        # to prevent infinitely cascading adds
                        if current_node not in cur_consideration_set_execution_exec:
                            if self.conditions.conditions_basic[current_node].is_satisfied(**is_satisfied_kwargs):
""", """                while True:
                    cur_consideration_set_has_changed = False
                    for current_node in self._not_in(cur_consideration_set, cur_consideration_set_execution_exec):
                            if self.conditions.conditions_basic[current_node].is_satisfied(**is_satisfied_kwargs):
"""), (S, """    def _increment_time(self, time_scale, execution_id):""", """    @staticmethod
    def _not_in(nodes, executed):
        for n in nodes:
            if n not in executed:
                yield n

    def _increment_time(self, time_scale, execution_id):""")])

R['counts_conditions'] = ('C12 C04', [
    (C, """        self.time_scale = time_scale

        def func(dependency, n, scheduler=None, execution_id=None):
            try:
                num_calls = scheduler.counts_total[execution_id][time_scale][dependency]
                logger.debug('{0} has reached {1} num_calls in {2}'.format(dependency, num_calls, time_scale.name))
                return num_calls < n
            except AttributeError as e:
                raise ConditionError(f'{type(self).__name__}: scheduler must be supplied to is_satisfied: {e}.')
        super().__init__(func, dependency, n)
""", """        self.time_scale = time_scale

        def func(dependency, n, scheduler=None, execution_id=None):
            return _number_of_calls(self, scheduler, execution_id, time_scale, dependency) < n

        super().__init__(func, dependency, n)
"""), (C, """        self.time_scale = time_scale

        def func(dependency, n, scheduler=None, execution_id=None):
            try:
                num_calls = scheduler.counts_total[execution_id][time_scale][dependency]
                logger.debug('{0} has reached {1} num_calls in {2}'.format(dependency, num_calls, time_scale.name))
                return num_calls == n
            except AttributeError as e:
                raise ConditionError(f'{type(self).__name__}: scheduler must be supplied to is_satisfied: {e}.')
        super().__init__(func, dependency, n)
""", """        self.time_scale = time_scale

        def func(dependency, n, scheduler=None, execution_id=None):
            return n == _number_of_calls(self, scheduler, execution_id, time_scale, dependency)

        super().__init__(func, dependency, n)
"""), (C, """            count_sum = 0
            for d in dependencies:
                try:
                    count_sum += scheduler.counts_total[execution_id][time_scale][d]
                    logger.debug('{0} has reached {1} num_calls in {2}'.
                                 format(d, scheduler.counts_total[execution_id][time_scale][d], time_scale.name))
                except AttributeError as e:
                    raise ConditionError(f'{type(self).__name__}: scheduler must be supplied to is_satisfied: {e}.')
            return count_sum >= n
""", """            total = sum(_number_of_calls(self, scheduler, execution_id, time_scale, d) for d in dependencies)
            return not total < n
"""), (C, """            logger.debug(f'checking if {dependency} in previous execution step set')
            try:
                return dependency in scheduler.execution_list[execution_id][-1]
            except IndexError:
                # nothing has run yet
                return False
            except TypeError:
                return dependency == scheduler.execution_list[execution_id][-1]
""", """            history = scheduler.execution_list[execution_id]
            if len(history) == 0:
                # nothing has run yet
                return False

            last = history[-1]
            try:
                return dependency in last
            except TypeError:
                return dependency == last
"""), (C, """            for d in dependencies:
                try:
                    if not d.is_finished(execution_id):
                        return False
                except AttributeError as e:
                    raise ConditionError(f'WhenFinishedAll: Unsupported dependency type: {type(d)}; ({e})')
            return True
""", """            try:
                return all(d.is_finished(execution_id) for d in dependencies)
            except AttributeError as e:
                raise ConditionError(f'WhenFinishedAll: Unsupported dependency type; ({e})')
"""), (C, """class BeforeNCalls(""", """def _number_of_calls(condition, scheduler, execution_id, time_scale, dependency):
    try:
        return scheduler.counts_total[execution_id][time_scale][dependency]
    except AttributeError as e:
        raise ConditionError(f'{type(condition).__name__}: scheduler must be supplied to is_satisfied: {e}.')


class BeforeNCalls(""")])

R['operations_class'] = ('C20 C18 C19', [
    (C, """        try:
            return operation[subject]
        except TypeError:
            return operation
        except KeyError as e:
            raise ConditionError(
                'If specifying subject operations in a dict, must include an'
                f' operation for each subject node. Missing: {e}'
            ) from e
""", """        if not isinstance(operation, dict):
            return operation
        if subject not in operation:
            raise ConditionError(
                'If specifying subject operations in a dict, must include an'
                f' operation for each subject node. Missing: {subject}'
            )
        return operation[subject]
"""), (C, """        res = self.value(source_neighbors, comparison_neighbors)
""", """        combine = self.value
        res = combine(source_neighbors, comparison_neighbors)
"""), (C, """        if (
            receiver in new_sender_nodes
            and (
                sender in new_sender_nodes[receiver]
                and (sender in new_receiver_nodes and receiver not in new_receiver_nodes[sender])
            )
        ):
            conflict_strings.append(
""", """        if receiver not in new_sender_nodes or sender not in new_receiver_nodes:
            return conflict_strings

        is_sender = sender in new_sender_nodes[receiver]
        is_receiver = receiver in new_receiver_nodes[sender]

        if is_sender == is_receiver:
            return []

        if is_sender:
            conflict_strings.append(
"""), (C, """        elif (
            sender in new_receiver_nodes
            and (
                receiver in new_receiver_nodes[sender]
                and (receiver in new_sender_nodes and sender not in new_sender_nodes[receiver])
            )
        ):
            conflict_strings.append(
""", """        else:
            conflict_strings.append(
"""), (C, """                    try:
                        result_graph[node].remove(sender)
                    except KeyError:
                        pass
                    else:
                        logger.debug(
                            f'{node} is not a new receiver of {sender} - discarding from modified graph.'
                        )
""", """                    result_graph[node].discard(sender)
""")])

R['structure_rewritten'] = ('C18 C19 C20', [
    (C, """        nodes_used = {self.owner}.union(self.nodes)
        nodes_not_in_graph = set.difference(nodes_used, set(graph.keys()))
        if len(nodes_not_in_graph) > 0:
""", """        nodes_not_in_graph = {n for n in (self.owner, *self.nodes) if n not in graph}
        if nodes_not_in_graph:
"""), (C, """        unhashable = []
        for n in nodes:
            try:
                hash(n)
            except Exception:
                unhashable.append(n)
        if len(unhashable) > 0:
""", """        def is_unhashable(n):
            try:
                hash(n)
            except Exception:
                return True
            return False

        unhashable = [n for n in nodes if is_unhashable(n)]
        if unhashable:
"""), (C, """        graph = super()._process(graph)

        for n in self.nodes:
            graph[n].add(self.owner)

        return graph
""", """        res = super()._process(graph)
        owner = self.owner
        for n in self.nodes:
            res[n] = res[n] | {owner}
        return res
"""), (C, """        graph[self.owner] = graph[self.owner].union(self.nodes)
""", """        graph[self.owner].update(self.nodes)
"""), (C, """        graph = clone_graph(graph)
        if len(self._nodes_already_valid(graph)) == len(self.nodes):
            return graph

        return super()._modify_graph(graph)
""", """        copied = clone_graph(graph)
        if len(self._nodes_already_valid(copied)) != len(self.nodes):
            copied = super()._modify_graph(copied)
        return copied
"""), (C, """        result_graph = self._preprocess(clone_graph(graph))
        logger.debug(f'Modified graph after _preprocess: {result_graph}')

        result_graph = self._process(result_graph)
        logger.debug(f'Modified graph after _process: {result_graph}')

        result_graph = self._postprocess(result_graph, graph)
        logger.debug(f'Modified graph after _postprocess: {result_graph}')

        return result_graph
""", """        return self._postprocess(self._process(self._preprocess(clone_graph(graph))), graph)
""")])

R['cycles_rewritten'] = ('C19 C18', [
    (C, """            for c in sorted(prev_cycles, key=lambda x: -len(x)):
                if c not in cycles:
                    logger.debug(f'Cycle {c} already resolved')
                    continue

                len_c = len(c)
                for i in range(len_c):
                    sender = c[i]
                    receiver_idx = (i + 1) % len_c
                    receiver = c[receiver_idx]

                    if receiver == self.owner:
                        self._prune_owner_edge(receiver_idx, c, graph, base_graph)
                    elif (
                        receiver in base_graph[sender]
                        and sender != self.owner
                        and not self._is_required_edge(sender, receiver)
                    ):
                        # may have been removed in another cycle
                        if sender in graph[receiver]:
                            graph[receiver].remove(sender)
                            logger.debug(
                                f'Pruning edge {sender} to {receiver} in simple'
                                f'cycle not involving owner {c}'
                            )
""", """            for c in sorted(prev_cycles, key=len, reverse=True):
                if c not in cycles:
                    continue

                for i, sender in enumerate(c):
                    self._prune_cycle_edge(c, sender, (i + 1) % len(c), graph, base_graph)
"""), (C, """    def _handle_prune_cycles(self, graph, base_graph):""", """    def _prune_cycle_edge(self, cycle, sender, receiver_idx, graph, base_graph):
        receiver = cycle[receiver_idx]

        if receiver == self.owner:
            self._prune_owner_edge(receiver_idx, cycle, graph, base_graph)
            return

        if sender == self.owner or self._is_required_edge(sender, receiver):
            return

        if receiver in base_graph[sender]:
            graph[receiver].discard(sender)

    def _handle_prune_cycles(self, graph, base_graph):""")])

R['reconnect_rewritten'] = ('C19 C18', [
    (C, """        if self.reconnect_non_subject_receivers:
            orig_owner_sender_nodes = base_graph[self.owner]
            orig_receivers_old = get_receivers(base_graph)

            for sender in orig_owner_sender_nodes:
                for receiver in orig_receivers_old[self.owner]:
                    if (
                        receiver not in self.nodes
                        and receiver != self.owner
                        and receiver != sender
                        and self.owner in base_graph[receiver]
                        and sender in base_graph[self.owner]
                        and (
                            self.owner not in graph[receiver]
                            or sender not in graph[self.owner]
                        )
                        and sender not in get_descendants(graph)[receiver]
                    ):
                        graph[receiver].add(sender)
                        logger.debug(
                            f'Reconnecting {receiver} as receiver of {sender}'
                        )
        return graph
""", """        if not self.reconnect_non_subject_receivers:
            return graph

        receivers = [
            r for r in get_receivers(base_graph)[self.owner]
            if r not in self.nodes and r != self.owner
        ]

        for sender in base_graph[self.owner]:
            for receiver in receivers:
                if receiver == sender:
                    continue
                if self.owner in graph[receiver] and sender in graph[self.owner]:
                    # still connected
                    continue
                if sender in get_descendants(graph)[receiver]:
                    continue
                graph[receiver].add(sender)
        return graph
""")])

R['clock_rewritten'] = ('C09 C10 C11', [
    (T, """        if base_index is None:
            base_index = self.get_time_by_time_scale(base_time_scale)
        return self.history.get_total_times_relative(
            query_time_scale,
            {base_time_scale: base_index}
        )
""", """        units = {
            base_time_scale: self.get_time_by_time_scale(base_time_scale) if base_index is None else base_index
        }
        return self.history.get_total_times_relative(query_time_scale, units)
"""), (T, """        return self.time._get_by_time_scale(time_scale)
""", """        return self.history.current_time[time_scale]
"""), (T, """    attr = time_scale.name.lower()
    if keyword.iskeyword(attr):
        return f'{attr}_'
    else:
        return attr
""", """    attr = time_scale.name.lower()
    return attr + ('_' if keyword.iskeyword(attr) else '')
""")])

R['scheduler_methods'] = ('C17 C15 C16 C24 C08 C06 C01', [
    (S, """        cond = AddEdgeTo(receiver)
        self.add_condition(sender, cond)
        return cond
""", """        return self._add_edge_condition(sender, AddEdgeTo(receiver))

    def _add_edge_condition(self, owner, condition):
        self.add_condition(owner, condition)
        return condition
"""), (S, """        cond = RemoveEdgeFrom(sender)
        self.add_condition(receiver, cond)
        return cond
""", """        return self._add_edge_condition(receiver, RemoveEdgeFrom(sender))
"""), (S, """            self._termination_conds = self.default_termination_conds.copy()
        else:
            self._termination_conds = self._combine_termination_conditions(
                termination_conds
            )
""", """            self._termination_conds = dict(self.default_termination_conds)
            return

        self._termination_conds = self._combine_termination_conditions(termination_conds)
"""), (S, """        try:
            return self.clocks[execution_id.default_execution_id]
        except AttributeError:
            if execution_id not in self.clocks:
                self._init_clock(execution_id)
            return self.clocks[execution_id]
        except KeyError:
            self._init_clock(execution_id.default_execution_id)
            return self.clocks[execution_id.default_execution_id]
""", """        try:
            execution_id = execution_id.default_execution_id
        except AttributeError:
            pass

        if execution_id not in self.clocks:
            self._init_clock(execution_id)
        return self.clocks[execution_id]
"""), (S, """            return [set(self.graph.keys())]
        else:
            return self._consideration_queues[-1]
""", """            return [set(self.graph)]
        return self._consideration_queues[-1]
"""), (S, """        consideration_queue_indices.update({
            n: i for n in cs
        })
""", """        for n in cs:
            consideration_queue_indices[n] = i
""")])

R['cache_rewritten'] = ('C21 C20 C19', [
    (U, """        res = cached_hashable_graph_function(func, HashableDict(clone_graph(graph)))
        if isinstance(res, dict):
            return {k: copy.copy(v) for k, v in res.items()}
        else:
            return [copy.copy(v) for v in res]
""", """        snapshot = clone_graph(graph)
        res = cached_hashable_graph_function(func, HashableDict(snapshot))
        if not isinstance(res, dict):
            return list(map(copy.copy, res))

        copied = {}
        for node in res:
            copied[node] = copy.copy(res[node])
        return copied
"""), (U, """    nx_graph = dependency_dict_to_networkx_digraph(graph)
    return {node: nx.descendants(nx_graph, node) for node in graph}
""", """    return _related_nodes(graph, nx.descendants)


def _related_nodes(graph, relation):
    nx_graph = dependency_dict_to_networkx_digraph(graph)
    res = {}
    for node in graph:
        res[node] = relation(nx_graph, node)
    return res
"""), (U, """    nx_graph = dependency_dict_to_networkx_digraph(graph)
    return {node: nx.ancestors(nx_graph, node) for node in graph}
""", """    return _related_nodes(graph, nx.ancestors)
""")])

R['owner_rewritten'] = ('C13 C22', [
    (C, """        for cond in self.args:
            logger.debug('owner setter: Setting owner of {0} to ({1})'.format(cond, value))
            if cond.owner is None:
                cond.owner = value
""", """        unowned = [cond for cond in self.args if cond.owner is None]
        for cond in unowned:
            cond.owner = value
"""), (C, """        return list(itertools.chain.from_iterable([
            c.absolute_fixed_points
            for c in filter(lambda a: a.is_absolute, self.args)
        ]))
""", """        return [
            p for c in self.args if c.is_absolute for p in c.absolute_fixed_points
        ]
"""), (C, """        return min(
            [c.absolute_first_point for c in self.args if c.is_absolute],
            default=0
        )
""", """        points = [c.absolute_first_point for c in self.args if c.is_absolute]
        if not points:
            return 0
        return min(points)
""")])

R['convert_rewritten'] = ('C22', [
    (C, """    exponent = round(np.log10((1 * q.u).to(unit).m))
    if exponent >= 0:
        return (q.m * 10 ** exponent) * unit
    else:
        return (fractions.Fraction(q.m) / 10 ** -exponent) * unit
""", """    ratio = (1 * q.u).to(unit).m
    exponent = round(np.log10(ratio))
    if exponent < 0:
        magnitude = fractions.Fraction(q.m) / 10 ** -exponent
    else:
        magnitude = q.m * 10 ** exponent
    return magnitude * unit
"""), (C, """        if self.start_inclusive and self.start is not None:
            return self.start
        else:
            return 0
""", """        if self.start is None or not self.start_inclusive:
            return 0
        return self.start
""")])

R['condition_set_rewritten'] = ('C16 C17', [
    (C, """        if key in self.conditions_structural:
            for cond in list(reversed(self.conditions_structural[key])):
                self.remove_condition(cond)
        self.add_condition(key, value)
""", """        previous = list(self.conditions_structural.get(key, []))
        while previous:
            self.remove_condition(previous.pop())
        self.add_condition(key, value)
""")])


def main():
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    tests = '--tests' in sys.argv
    names = [a for a in sys.argv[1:] if not a.startswith('-')] or list(R)
    skip = {a[6:] for a in sys.argv if a.startswith('--not=')}
    for name in names:
        checks, edits = R[name]
        d = f'/tmp/refactorings/{name}'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
        for f, old, new in edits:
            p = f'{d}/src/graph_scheduler/{f}'
            s = open(p).read()
            # blank lines do not matter
            m = re.search('\n(?:[ \t]*\n)*'.join(re.escape(x.rstrip()) for x in old.split('\n') if x.strip()) + ('\n' if old.endswith('\n') else ''), s)
            if m is None:
                print(name, 'DOES NOT APPLY', f, old[:60].strip())
                break
            open(p, 'w').write(s[:m.start()] + new + s[m.end():])
        else:
            if tests:
                r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--no-cov', '-n', '4', '--ignore', 'tests/integration', 'tests'], cwd=d, env=dict(os.environ, PYTHONPATH=f'{d}/src'), capture_output=True, text=True)
                print(name, 'tests', r.stdout.strip().split('\n')[-1], flush=True)
            else:
                for c in [c for c in checks.split() if c not in skip]:
                    r = subprocess.run(['timeout', '900', 'python3-vt', '-O', 'check.py', c], cwd=verif, env=dict(os.environ, GS_SRC=f'{d}/src/graph_scheduler'), capture_output=True, text=True)
                    out = r.stdout.strip().split('\n')
                    print(name, c, 'rc', r.returncode, *out[-4:], sep='\n    ' if r.returncode or 'not decided:' in r.stdout else ' | ', flush=True)
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
