from queuespec import COMMON as TASKS, TUS
SELECT = lambda n: 'wakeup/' not in n and not n.endswith('/closes') and not n.endswith('/reopens')
DRIVERS = [('queue',)]
ASSUMPTIONS = ['the element type copies and moves faithfully (its value survives copy and move)',
               'fewer than 2^47 elements']
