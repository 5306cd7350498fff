"""C04: EveryNCalls sees executions since its owner last executed."""
from . import runs, ctx, conds

LEVEL = 'proof'
LIMIT = 400
NOTE = 'The useable counts are proved equal to a ghost count of executions since the consumer last executed at every condition evaluation and every yield of every run (loop invariants inferred, no bound), and EveryNCalls is proved to compare exactly that count. Counts of a node with itself are not specified ("another node"). Assumed: conditions and the consumer do not modify the running context of the scheduler; the layers of the queue are disjoint (C01); Python builtins as modelled by pyvc.'
TASKS = runs.tasks('C', 'C04') + [('useable counts/reset', ctx.reset_useable('C04')), ('EveryNCalls', conds.every_n_calls('C04'))]
