from procspec import MTASKS as TASKS, TUS
M = 'src/common/maf/messaging/'
SRCS = [M + x for x in ('Processor.cpp', 'Router.cpp', 'Routing.cpp')] + ['src/common/maf/logging/Logger.cpp', 'src/common/maf/utils/DirectExecutor.cpp']
DRIVERS = [('processor', SRCS, [])]
TRUSTED = ['std::any, std::function, std::shared_ptr, std::string: as modelled in dv/stl.py',
           'std::packaged_task and std::async: as tu/model_future.h says (a dropped task makes its future ready with an error; the thread of an async future is waited for when the future is released)']
ASSUMPTIONS = ['the job queue behaves as Q01 and Q02 say, signals as S01 and S02 say, executing as P01 says (contracts here)',
               'other threads change the table of handlers only under its lock',
               'a message that is being handled is not sent to the same handlers again from within and waited for (asserted by the library)',
               'contents of messages are not changed through the const reference; copying a message keeps its contents',
               'instantiated for one type of message']
