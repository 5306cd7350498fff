"""C05: a run stops exactly when a termination condition is satisfied."""
from . import runs

LEVEL = 'proof'
LIMIT = 400
NOTE = 'Every schedule, graph, condition behaviour and context: where termination conditions are evaluated and when a run ends are proved against a ghost monitor over Scheduler.run (loop invariants inferred, no bound). Assumed: the layers of the queue partition the nodes and are not empty (C01; the empty graph in exact-time mode is excluded), conditions and the consumer do not modify the running context of the scheduler, additional keyword arguments are represented by one arbitrary argument; Python builtins as modelled by pyvc.'
TASKS = runs.tasks('A', 'C05')
