import waitspec
from waitspec import TASKS, TUS
DRIVERS = [('wait', [], ['-fno-sanitize=vptr'])]
TRUSTED = ['std::mutex, std::condition_variable, std::unique_lock, the steady clock: as modelled in dv/stl.py',
           'the proxy that a signal is registered with: it tells every change of the status (D01, B02)']
ASSUMPTIONS = ['the scheduler is fair and a condition variable wakes every waiter on notify_all (that a wait ends is reduced to: nobody blocks while its status is there, every change wakes all)',
               'a time limit is between -4 s and 36 years in the unit given, so that the deadline does not overflow the clock; time limits are integral',
               'a signal outlives the threads that wait on it']
