from serspec import TASKS, TUS
_Z2 = ('reports-', 'no-dangling', 'fails-when-short', 'short-read', 'memory-safety')
SELECT = lambda n: not any(x in n for x in _Z2)
DRIVERS = [('serial',)]
TRUSTED = ['element types are opaque: encode/decode/size of an element are assumed to satisfy the same contract (structural induction over the type)',
           'std::variant and std::tuple are verified in place from libstdc++ (not trusted)']
ASSUMPTIONS = ['containers, strings and announced sizes below 4 GiB / 2^32 elements (the width of the size field)',
               'keys of a set or map are distinct and element types copy faithfully',
               'encoder and decoder run on machines with the same representation of arithmetic types',
               'instantiated for the listed type constructors; flat records of 1-10 and 20 members, tuples of 3']
