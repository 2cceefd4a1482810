import z3
from framework import harness_tasks, bounded_tasks
ID = 'P12'
LEVEL = 'proof'
ASSUMPTIONS = ['clock_gettime()/clock_getres() replaced by an arbitrary clock that succeeds (0 <= tv_nsec < 10^9); time before 1970 and after 2106 not covered']


def setup(ex, nm, tier, res):
    ex.int_backend = 60000


def tasks(tier):
    return harness_tasks('p12.cxx', setup)
