from provspec import C01 as TASKS, TUS
DRIVERS = [('service', ['src/common/maf/messaging/client-server/' + x for x in ('ServiceProvider.cpp', 'ServiceRequester.cpp', 'Request.cpp', 'CSMessage.cpp', 'CSError.cpp', 'Address.cpp')]
            + ['src/common/maf/logging/Logger.cpp', 'src/common/maf/utils/DirectExecutor.cpp'], [])]
TRUSTED = ['std::map, std::set, std::list, std::vector, std::string, std::function, std::shared_ptr: as modelled in dv/stl.py',
           'the server (transport): an arbitrary result per message, called with no lock held']
ASSUMPTIONS = ['the server does not vanish in the middle of a broadcast',
               'contents compare equal to themselves',
               'a lock is released by who took it; other threads change the tables only under the lock',
               'the order in which concurrent calls of setStatus for one property reach the clients is not covered']
