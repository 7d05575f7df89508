from signalspec import S01 as TASKS, TUS
DRIVERS = [('signals', [], [])]
TRUSTED = ['std::function, std::list, std::variant, std::shared_ptr and std::weak_ptr as modelled in dv/stl.py (function targets are arbitrary code)']
ASSUMPTIONS = ['a slot object is connected at most once to one list, and holds a function',
               'a signal is not emitted from one of its own slots (the library asserts this)',
               'slots change the signal only through its operations, whose effect while notifying is proved: append or empty an entry']
