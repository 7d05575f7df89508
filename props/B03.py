import factspec
from factspec import TASKS, TUS
CS = 'src/common/maf/messaging/client-server/'
DRIVERS = [('factory', [CS + x for x in ('ClientFactory.cpp', 'ServerFactory.cpp', 'CSMgmt.cpp', 'Address.cpp')] + ['src/common/maf/logging/Logger.cpp'], ['-fno-sanitize=vptr,alignment'])]
TRUSTED = ['std::map, std::string, std::shared_ptr, std::mutex: as modelled in dv/stl.py',
           'clients and servers: stand-ins; what init, start, stop and deinit do is B01']
ASSUMPTIONS = ['a client or server that is kept under several addresses (the one of the process) is counted once per address',
               'code of clients and servers that runs while they are made or ended does not use the factory',
               'a lock is released by who took it; other threads change the tables only under the lock']
