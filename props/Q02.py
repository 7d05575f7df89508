from queuespec import COMMON as TASKS, TUS
SELECT = lambda n: 'wakeup/' in n or n.endswith('/closes') or n.endswith('/reopens') or '/delivery/blocks' in n or 'not-after-close' in n or '/delivery/declines' in n or '/reachable/' in n
DRIVERS = [('queue',)]
ASSUMPTIONS = ['the scheduler is fair and condition variables wake a waiter per notify (progress is reduced to: nobody '
               'blocks unless empty and open, every insertion and close notifies after the change)']
