from signalspec import S02 as TASKS, TUS
DRIVERS = [('signals', [], [])]
TRUSTED = ['std::function, std::list, std::variant, std::shared_ptr and std::weak_ptr as modelled in dv/stl.py (function targets are arbitrary code)']
ASSUMPTIONS = ['the functions given to connect() are callable', 'weak references may expire at any moment they are asked',
               'the slot argument type is int; connection-aware slots get the connection by shared pointer']
