from serspec import TUS
import serspec
from Z01 import TRUSTED, ASSUMPTIONS
_Z2 = ('reports-', 'no-dangling', 'fails-when-short', 'short-read', 'memory-safety', 'reachable', 'no-exception', 'stream/')
TASKS = [(n, f) for n, f in serspec.TASKS if 'decode' in n or 'read' in n or 'stream' in n]
SELECT = lambda n: any(x in n for x in _Z2)
DRIVERS = [('serial',)]
