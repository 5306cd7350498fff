"""C07: the recorded execution list is exactly what was yielded."""
from . import runs

LEVEL = 'proof'
LIMIT = 400
NOTE = 'At every yield and at the end of every run the execution list and timestamps of the context are proved equal to a ghost history (list before the run followed by the sets yielded, and the clock at each yield; loop invariants inferred, no bound). Assumed: conditions and the consumer do not modify the running context of the scheduler or the yielded sets; Python builtins as modelled by pyvc.'
TASKS = runs.tasks('D', 'C07')
