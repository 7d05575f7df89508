from sockspec import SENDER as TASKS, TUS
DRIVERS = [('sock', ['src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp', 'src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp',
                     'src/common/maf/messaging/client-server/Address.cpp', 'src/common/maf/logging/Logger.cpp'])]
TRUSTED = ['socket, connect, send and close behave as their contracts in dv/sockspec.py (POSIX stream sockets: short counts and errors at any call)']
ASSUMPTIONS = ['payloads shorter than 4 GiB (the width of the length field)', 'receiver names contain no NUL byte',
               'handed over means accepted by the operating system; a receiver that dies before reading loses what the kernel held']
