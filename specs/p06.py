import re
import z3
from framework import harness_tasks, bounded_tasks, cvc5_check
from exec import LoopCut, Implies, And, Or, B, simp
from invariants import scalar_candidates
ID = 'P06'
LEVEL = 'proof'
SECONDS = {'quick': 560, 'thorough': 2400}
ASSUMPTIONS = ['the holes of a tuple come to 2047 units at most in total (see known_findings.txt)',
               'the contracts of trim_hole(), lookup_hole() and lookup_adjacent_holes() (loops over the index) are assumed by the proofs and checked by bounded runs; that of fptu_scan() is proved under P02',
               'quick: the harder half of the cases (holes on both sides of the released space, some positions of the items in the index, reuse of an empty hole) is checked by bounded runs, it is proved in the thorough run',
               'the chunk to be released is one that was allocated and is in use (obligation of the callers, see P07)',
               'sums over the whole index (counter and volume of holes) are concluded from the change of the touched items and the frame of any other item']


def setup(ex, nm, tier, res):
    import exec as E
    ex.narrow = E.NARROW[0] = True
    ex.par_cvc5 = 2
    ex.prune = 700
    ex.prune_more = lambda smt2: cvc5_check(smt2, 12)
    A = r'gear::'
    if nm != 'trim_hole':
        ex.contracts[re.compile(A + r'trim_hole\(')] = '@contract_trim'
    if nm != 'lookup_hole':
        ex.contracts[re.compile(A + r'lookup_hole<.*\)[12]>')] = '@contract_lookup_hole'
    if nm != 'lookup_adjacent':
        ex.contracts[re.compile(A + r'lookup_adjacent_holes\(fptu.*,')] = '@contract_lookup_adjacent'
        ex.contracts[re.compile(A + r'lookup_adjacent_holes\(unsigned.*,')] = '@contract_lookup_adjacent'
    ex.contracts['@fptu_scan'] = '@contract_scan'
    ex.ghost = re.compile(r'^(VC_|contract_|know\(|touch\(|any_tuple\(|known\(|covered\(|check\(|intact\(|at\(|void each|.*::\{lambda)')


def tasks(tier):
    ts = harness_tasks('p06.cxx', setup, noinline=[r'gear::(trim_hole|lookup_hole|lookup_adjacent_holes)', r'contract_', r'tuple_rw::(alloc|release|realloc)_'])
    if tier == 'quick':
        ts = [t for t in ts if not re.search(r'loose_both|data_both|tail_reuse|larger|before1|before0_last|after0|data_alone', t.name)]
    return ts + bounded_tasks('p06.cxx', 'tuples of up to 11 items and 320 units in an arbitrary valid layout, up to 12 operations', seconds=12 if tier == 'quick' else 120)
