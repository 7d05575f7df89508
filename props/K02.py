from keyspec import ID_TASKS as TASKS, TUS
DRIVERS = [('keys', ['src/common/maf/messaging/client-server/Address.cpp'])]
ASSUMPTIONS = ['the counter has not wrapped around (fewer than 2^width ids handed out)',
               'atomic read-modify-write operations take each counter value at most once']
