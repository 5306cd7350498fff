"""C19: placement conditions place their owner as documented."""
from .common import *
from . import placing

LEVEL = 'proof'
LIMIT = 400
NOTE = ('any graph, owner, list of nodes (also listed twice) and options: for each class, modify_graph is proved against the contracts of its steps (_preprocess, _process, self edges, pruning, reconnection), each proved separately; '
        '_process relies on the operations making some graph of the same nodes or refusing (C20), pruning on cycles being lists of nodes (C21). Termination of pruning is not proved')
TASKS = placing.tasks('C19')
