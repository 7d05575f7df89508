from sockspec import RECEIVER as TASKS, TUS
from F01 import DRIVERS
TRUSTED = ['select, accept, read and close behave as their contracts in dv/sockspec.py (any short count, end of stream or error at any call)',
           'select reports only descriptors that were put in the set']
ASSUMPTIONS = ['the 4 bytes of the length arrive in one piece (the sender writes them with one call)', 'descriptors are below FD_SETSIZE, descriptor 0 is not a connection',
               'one loop per receiver (single-threaded); the stop flag may be raised at any moment']
