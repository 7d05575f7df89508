import logspec
from logspec import TASKS, TUS
DRIVERS = [('logging', ['src/common/maf/logging/Logger.cpp'], [])]
TRUSTED = ['string streams: what is written to one is the chain of the pieces in the order written', 'std::function, the one-time initialisation of a static: as modelled in dv/stl.py',
           'sinks: stand-ins that record the text they are called with']
ASSUMPTIONS = ['the functions that take the texts are not replaced while another thread logs', 'a message is decided upon with the levels as they are at one moment of the call; formatting a piece does not throw',
               'every reachable state is one that an initialisation with two sinks can make (the levels and the two sinks are all the state there is)']
