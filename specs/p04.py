import re
import z3
from framework import harness_tasks
from exec import FALSE, B
ID = 'P04'
LEVEL = 'proof'


def setup(ex, nm, tier, res):
    def unreachable(ex, pc, args, ins):
        ex.oblige(pc, FALSE, 'a preplaced field needs no allocation', 'pre')
        return B(0, 64)
    ex.contracts[re.compile(r'tuple_rw::(alloc_loose|realloc_data|alloc_data|release_)')] = unreachable


def tasks(tier):
    return harness_tasks('p04.cxx', setup)
