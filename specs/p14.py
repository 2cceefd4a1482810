from framework import harness_tasks, bounded_tasks
ID = 'P14'
LEVEL = 'proof'
ASSUMPTIONS = ['contract of memcmp (C standard library)', 'views of at most 300000 bytes']


def setup(ex, nm, tier, res):
    ex.idx_names = ('p',)


def tasks(tier):
    ts = harness_tasks('p14.cxx', setup)
    ts += bounded_tasks('p14.cxx', 'random strings of up to 400 bytes: order, std::string forms, hash, at(), reverse iteration, hexadecimal text', seconds=8)
    return ts
