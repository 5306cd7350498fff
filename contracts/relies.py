"""Contracts of callees that a property's own tasks only assume, and whose failure breaks the property itself.

NEEDS[property] lists (property whose module proves the contract, tasks, obligations); the obligations (all, or those
containing one of the given texts) are discharged again by the check of the dependent property, so that a change to the
callee is reported under every property it breaks.

PROVED maps the qualified names of contracts to the properties whose checks discharge them on the real bodies.
"""
import importlib

RUN = 'run/{}/default context/own termination/no base', 'run/{}/named context/given termination/with base'


def run(part):
    return tuple(r.format(part) for r in RUN)


QUEUE = 'queue/build', 'queue/current', 'queue/push'
STACKS = 'stacks/consideration_queue/none', 'stacks/consideration_queue/list'
TICK = 'C10', ('tick', 'new'), ('the current time is advanced by the tick', 'new clock: time zero', 'the clock keeps its current time object')
MERGE = 'C24', ('combine', 'parse', 'assign', 'constructor'), ('a named scale has the condition given', 'a scale not named keeps its condition', 'exactly the scales named', 'by default')

NEEDS = {
    # a pass considers every node: the queue has them all
    'C02': [('C01', QUEUE, ())],
    'C05': [MERGE],
    'C06': [TICK],
    # the list before the run is that of the context
    'C07': [('C08', ('context/without base', 'context/with base'), ('existing execution_list', 'existing execution_timestamps', 'the context has execution'))],
    'C11': [('C10', ('new', 'tick', 'query', 'read'), ()), ('C08', ('context/clock',), ('get_clock returns', 'an existing clock'))],
    # the last set executed and the counts are those of the history
    'C12': [('C07', run('D'), ('execution list',)), ('C03', run('B') + ('counts/reset', 'counts/start'), ())],
    # the default is stored; its counts are those of the history; passes consider every node
    'C15': [('C16', ('add',), ()), ('C04', run('C'), ()), ('C02', run('A'), ()), ('C01', QUEUE, ())],
    'C17': [('C16', ('add', 'add again', 'remove/condition', 'remove/owner', 'add set'), ()), ('C21', ('clone', 'from digraph'), ())],
    'C20': [('C21', ('get_receivers/computed', 'get_receivers/remembered', 'memo/new'), ())],
    'C22': [('C08', ('context/clock',), ('get_clock returns', 'an existing clock')), ('C10', ('read',), ()), ('C01', ('queue/indices',), ())],
}

PROVED = {}
for _p, _names in {
    'C01': 'scheduler.Scheduler.consideration_queue scheduler.Scheduler._validate_run_state scheduler._generate_consideration_queue_indices scheduler.Scheduler.graph '
           'scheduler.Scheduler._push_graph scheduler._build_consideration_queue scheduler.Scheduler.consideration_queue_indices',
    'C08': 'scheduler.Scheduler._init_counts scheduler.Scheduler.get_clock',
    'C09': 'time.Clock.time',
    'C10': 'time.Clock time.Clock.__init__ time.Clock._increment_time time.Clock.get_total_times_relative time.Clock.time',
    'C13': 'condition.All condition.Always',
    'C04': 'condition.EveryNCalls',
    'C14': 'utilities.prune_unused_args',
    'C15': 'scheduler.Scheduler._validate_conditions condition.All condition.Always condition.EveryNCalls',
    'C16': 'condition.ConditionSet condition.ConditionSet.add_condition condition.ConditionSet.add_condition_set condition.ConditionSet.conditions condition.ConditionSet.remove_condition',
    'C17': 'scheduler.Scheduler._handle_modified_structural_conditions scheduler.Scheduler.add_condition scheduler.Scheduler.add_condition_set scheduler.Scheduler.graph scheduler.Scheduler._push_graph',
    'C18': 'condition.GraphStructureCondition.modify_graph',
    'C19': 'condition.AddEdgeTo condition.RemoveEdgeFrom',
    'C20': 'condition.Operation.__call__ condition._GSCWithOperations._get_edge_conflicts condition._GSCWithOperations._get_subject_operation',
    'C21': 'utilities.clone_graph utilities.networkx_digraph_to_dependency_dict utilities.dependency_dict_to_networkx_digraph utilities.cached_graph_function.graph_function_wrapper '
           'utilities.get_receivers utilities.get_ancestors utilities.get_descendants utilities.get_simple_cycles',
    'C22': 'condition._quantity_as_integer condition._convert_exactly condition._parse_absolute_unit condition._reduce_quantity_to_integer '
           'scheduler.Scheduler.get_absolute_conditions scheduler.Scheduler._get_absolute_consideration_set_execution_unit',
    'C24': 'scheduler.Scheduler._combine_termination_conditions scheduler.Scheduler.termination_conds scheduler.Scheduler._parse_termination_conditions',
}.items():
    for _n in _names.split():
        PROVED.setdefault(_n, []).append(_p)


def tasks(pid):
    return [f'relies on {o}: {n}' for o, names, _ in NEEDS.get(pid, []) for n in names]


def find(pid, name):
    """-> (function, texts of obligations) of a task named as tasks() does, or None."""
    for o, names, texts in NEEDS.get(pid, []):
        for n in names:
            if name == f'relies on {o}: {n}':
                return dict(importlib.import_module('contracts.' + o.lower()).TASKS)[n], texts
    return None
