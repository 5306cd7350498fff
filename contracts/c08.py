"""C08: execution contexts are independent of each other."""
from . import runs, ctx

LEVEL = 'proof'
LIMIT = 400
NOTE = 'Every write of a run is proved to touch only its own context and only after that context is initialised; creation (with and without a base), clock access, resets and deletion are proved function by function to leave every other context unchanged, to keep existing state and to start empty or with separate copies (no bound). Assumed: the state of a clock is opaque and copied by copy.deepcopy; conditions and the consumer do not modify the running context; Python builtins as modelled by pyvc.'
TASKS = runs.tasks('F', 'C08') + ctx.TASKS
