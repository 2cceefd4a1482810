from framework import harness_tasks
ID = 'P03'
LEVEL = 'proof'


def tasks(tier):
    return harness_tasks('p03.cxx')
