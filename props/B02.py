import basespec, ipcspec, itcspec
from B01 import DRIVERS, TRUSTED, TUS
TASKS = basespec.STASKS + ipcspec.ATASKS + itcspec.ATASKS
ASSUMPTIONS = ['the job thread runs each job it takes, later, on one thread (P01); the timer calls back once after a start',
               'providers and requesters are stand-ins that obey the contracts proved for C02 and C03 (requesters tell their observers)',
               'the order in which concurrent changes of one service reach a client is not covered',
               'a lock is released by who took it; other threads change the tables only under the lock']
