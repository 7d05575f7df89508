from keyspec import TASKS, TUS
DRIVERS = [('keys', ['src/common/maf/messaging/client-server/Address.cpp'])]
TRUSTED = ['string comparison is a strict total order consistent with string equality']
ASSUMPTIONS = []
