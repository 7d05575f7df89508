from msgspec import TASKS, TUS
DRIVERS = [('ipcmsg', ['src/common/maf/messaging/client-server/' + x for x in ('CSMessage.cpp', 'CSError.cpp', 'Address.cpp', 'ipc/LocalIPCMessage.cpp')] + ['src/common/maf/logging/Logger.cpp'], [])]
TRUSTED = ['std::shared_ptr, std::string, std::tuple executed from their library code or as modelled in dv/stl.py']
ASSUMPTIONS = ['encoding and decoding of the contents obey the contract of serialization (properties Z01, Z02)',
               'the contents held by a payload are of the type it is asked for (the library identifies the type by the operation, without RTTI)',
               'a payload that was received is not sent on as it is']
