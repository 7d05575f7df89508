from obsspec import L01 as TASKS, TUS
DRIVERS = [('observable', [], [])]
TRUSTED = ['std::mutex and std::lock_guard as modelled in dv/stl.py']
ASSUMPTIONS = ['instantiated with std::mutex and a reference to one, and an element type whose operations are arbitrary']
