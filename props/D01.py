import typedspec
from typedspec import TASKS, TUS
CS = 'src/common/maf/messaging/client-server/'
DRIVERS = [('typed', [CS + 'CSError.cpp', CS + 'Address.cpp', 'src/common/maf/logging/Logger.cpp'], ['-fno-sanitize=vptr'])]
TRUSTED = ['std::function, std::shared_ptr, std::variant, std::bind: as modelled in dv/stl.py or as compiled',
           'requesters, providers and requests: stand-ins; what they do is C01, C02, C03',
           'reading a value from bytes: by the contract that Z01 and Z02 prove (a value and a stream that has not failed, or an exception)']
ASSUMPTIONS = ['the contracts are proved for one operation of each kind (request with input and output, request without, signal with and without attributes, property) in both transports; the templates do not look at the type otherwise',
               'whoever keeps the function that a proxy or a request handler makes calls a copy of it each time (requesters and providers do)',
               'an executor that takes a job runs it; a job is not dropped',
               'a payload that comes has the type of its operation, whose identifier it bears (payloads are cast statically), and errors come only as answers, as updates of a remote service or for an aborted call',
               'the functions that are registered with a stub are not empty and the stub has an executor (asserted in the code) when notifications are registered']
