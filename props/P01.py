from procspec import TASKS, TUS
M = 'src/common/maf/messaging/'
SRCS = [M + x for x in ('Processor.cpp', 'Router.cpp', 'Routing.cpp')] + ['src/common/maf/logging/Logger.cpp', 'src/common/maf/utils/DirectExecutor.cpp']
DRIVERS = [('processor', SRCS, [])]
TRUSTED = ['std::any, std::function, std::shared_ptr, std::string: as modelled in dv/stl.py',
           'std::packaged_task and std::async: as tu/model_future.h says (a dropped task makes its future ready with an error; the thread of an async future is waited for when the future is released)']
ASSUMPTIONS = ['the job queue behaves as Q01 and Q02 say (its operations are contracts here)',
               'names given by the user do not start with the prefix of generated ones (asserted by the library); the counter of generated names does not wrap; that processors with names have different ones is R01',
               'a job that throws ends the run (and frees the thread); what becomes of the later jobs is up to the next run',
               'what executors report for a stopped processor is only specified for the blocking one']
