from routespec import TASKS, TUS
M = 'src/common/maf/messaging/'
SRCS = [M + x for x in ('Processor.cpp', 'Router.cpp', 'Routing.cpp')] + ['src/common/maf/logging/Logger.cpp', 'src/common/maf/utils/DirectExecutor.cpp']
DRIVERS = [('processor', SRCS, [])]
TRUSTED = ['std::any, std::function, std::shared_ptr, std::string: as modelled in dv/stl.py',
           'std::packaged_task and std::async: as tu/model_future.h says (a dropped task makes its future ready with an error; the thread of an async future is waited for when the future is released)']
ASSUMPTIONS = ['processors behave as P01 and P02 say (posting, asking for handlers: contracts here)',
               'the id of a processor does not change; generated ids are unique as long as their counter does not wrap',
               'other threads change the table only under its lock',
               'an answer that a processor gives about its handlers may be outdated when the message comes: whoever answered no need not get it']
