from framework import harness_tasks, bounded_tasks
ID = 'P07'
LEVEL = 'exploration'


def tasks(tier):
    return bounded_tasks('p07.cxx', 'random histories', [], '', 20)
