"""C03: per-scale execution counts equal the execution history."""
from . import runs, ctx

LEVEL = 'proof'
LIMIT = 400
NOTE = 'The counts of pass, run, sequence and life are proved equal to ghost counts of executions at every condition evaluation and every yield of every run (loop invariants inferred, no bound); the count at the scale of consideration set executions is not specified. Assumed: conditions and the consumer do not modify the running context of the scheduler; the layers of the queue are disjoint (C01); Python builtins as modelled by pyvc.'
TASKS = runs.tasks('B', 'C03') + [('counts/reset', ctx.resets('C03')), ('counts/start', ctx.counts_start('C03', 0)), ('counts/start from base', ctx.counts_start('C03', 1))]
