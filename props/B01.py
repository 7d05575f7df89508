import basespec, ipcspec, itcspec
CS = 'src/common/maf/messaging/client-server/'
TUS = ipcspec.TUS + [x for x in itcspec.TUS if x not in ipcspec.TUS]
TASKS = basespec.TASKS + ipcspec.BTASKS + ipcspec.LTASKS + itcspec.BTASKS
DRIVERS = [('base', [CS + x for x in ('ServerBase.cpp', 'ClientBase.cpp', 'ServiceProvider.cpp', 'ServiceRequester.cpp', 'Request.cpp', 'CSMessage.cpp', 'CSError.cpp', 'Address.cpp', 'ipc/LocalIPCMessage.cpp',
                                      'ipc/LocalIPCBufferSender.cpp', 'ipc/LocalIPCBufferReceiver.cpp', 'itc/Client.cpp', 'itc/Server.cpp')]
            + ['src/common/maf/logging/Logger.cpp', 'src/common/maf/utils/DirectExecutor.cpp'] + ['src/platforms/unix/maf/' + x for x in (
                'messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp', 'messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp', 'utils/Process.cpp')], ['-fno-sanitize=vptr'])]
TRUSTED = ['std::map, std::set, std::string, std::function, std::shared_ptr, std::thread: as modelled in dv/stl.py; a thread runs its function, join waits for it',
           'senders, receivers, messages as bytes: stand-ins that obey the contracts proved for F01, F02 and M01']
ASSUMPTIONS = ['the job thread runs each job it takes, later, on one thread (P01)',
               'providers and requesters are stand-ins that obey the contracts proved for C01, C02 and C03',
               'a client is stopped before the last reference to it goes',
               'messages handed to a connection between processes were created for it or carry nothing beyond a plain message',
               'a lock is released by who took it; other threads change the tables only under the lock']
