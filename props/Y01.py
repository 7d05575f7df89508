import timerspec
from timerspec import TASKS, TUS
DRIVERS = [('timer', ['src/common/maf/messaging/SyncTimer.cpp', 'src/common/maf/logging/Logger.cpp'], ['-fno-sanitize=vptr'])]
TRUSTED = ['std::recursive_mutex, std::condition_variable_any, std::unique_lock, std::function, std::atomic, the steady clock: as modelled in dv/stl.py',
           'executors and callbacks: stand-ins that count the calls; they may stop the timer, start it again and change its kind']
ASSUMPTIONS = ['the scheduler is fair and a condition variable wakes a waiter per notification',
               'a timer is not destroyed while one of its runs goes on; a callback does not throw',
               'fewer than 2^62 starts; a period is at most 36 years',
               'a callback that starts its own timer blocks the others until that run ends (the lock is recursive): proved is that the outer run ends then']
