from provspec import C02 as TASKS, TUS
from C01 import DRIVERS, TRUSTED
ASSUMPTIONS = ['each request is stored once; requests of one client have different numbers while they are pending',
               'the abort callback of a request is an object of its own',
               'a lock is released by who took it; other threads change the tables only under the lock']
