from reqspec import TASKS, TUS
from C01 import DRIVERS
TRUSTED = ['std::map, std::list, std::vector, std::string, std::function, std::shared_ptr: as modelled in dv/stl.py',
           'std::promise and std::future: get() returns what set_value got, or throws future_error once nothing holds the promise; wait_for waits at most as long as it is told',
           'the client (transport): an arbitrary result per message, called with no lock held']
ASSUMPTIONS = ['the request number counter does not wrap around', 'the availability of the service does not change in the middle of a call, except where an observer registers',
               'an observer is registered at most once, and throws nothing but UnavailableException',
               'callbacks of different registrations are different objects',
               'the name of the operation is not empty',
               'concurrent registering and unregistering of one operation is not covered, nor a value that was remembered before the service went away and came back']
