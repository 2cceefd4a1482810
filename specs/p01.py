from framework import harness_tasks
ID = 'P01'
LEVEL = 'proof'


def tasks(tier):
    return harness_tasks('p01.cxx')
