import poolspec
from poolspec import TASKS, TUS
TP = 'src/common/maf/threading/threadpool/'
DRIVERS = [('pool', [TP + x for x in ('DynamicCountThreadPool.cpp', 'PriorityThreadPool.cpp', 'StableThreadPool.cpp', 'ThreadPoolFactory.cpp')] + ['src/common/maf/logging/Logger.cpp'], ['-fno-sanitize=vptr'])]
TRUSTED = ['std::list, std::vector, std::thread, std::function, std::mutex, std::call_once (pthread_once): as modelled in dv/stl.py and dv/poolspec.py',
           'the queue of a pool: its contract is what Q01 and Q02 prove',
           'runnables: stand-ins that count the calls']
ASSUMPTIONS = ['a runnable is in a pool at most once at a time',
               'a runnable does not throw, does not end its own pool, and ends soon after it is stopped (that a shutdown returns depends on it)',
               'a lock is released by who took it; other threads change the running tasks and the threads only under their locks']
