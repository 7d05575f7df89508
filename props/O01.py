from obsspec import O01 as TASKS, TUS
DRIVERS = [('observable', [], [])]
TRUSTED = ['std::tuple, std::function, std::vector, std::shared_ptr executed from their library code or as modelled in dv/stl.py']
ASSUMPTIONS = ['the notification of the slots and the connection of a slot obey their contracts (properties S01, S02)',
               'comparison of state values is deterministic and equal values are indistinguishable',
               'arithmetic on observables does not overflow or divide by zero']
