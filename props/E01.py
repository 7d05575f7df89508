from recspec import TASKS, TUS
DRIVERS = [('records', [], ['-O0']), ('widerecords', [], ['-O0', '-fno-sanitize=all'])]
TRUSTED = []
ASSUMPTIONS = [
    'members are of types without structure for records of 1 to 4 and for declared defaults, and numbers for the other sizes (all that the macros and templates allow: 125 members, 100 fields)',
    'member types compare as their values do (a total order consistent with equality) and are copied faithfully; their copies do not throw',
    'reading from JSON, setters and tuples to write through: records of up to 24 members (8 for JSON), with a stand-in for the JSON library (has, get and parse of the trait are unknown functions of the document and the name)',
    'the larger sizes are read after the compiler has inlined them (-O2 without vectorisation), the rest as compiled without optimisation',
]
