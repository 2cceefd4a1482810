import re
import z3
from framework import harness_tasks, bounded_tasks
from exec import LoopCut, FALSE, TRUE, B, And, Or, Implies, simp, ite
from invariants import scalar_candidates
ID = 'P09'
LEVEL = 'proof'
ASSUMPTIONS = ['contract of auditor::map_insert(begin, end): true iff [begin, end) is disjoint from what is registered, and then registers it '
               '(checked bounded: all histories over 7 units, random wide histories)',
               'contract of std::is_sorted (C++ standard library)',
               'nested tuples are audited when they are used as tuples, not by the audit of the outer one']


def setup(ex, nm, tier, res):
    ex.mi = dict(calls=B(0), begin=B(0), end=B(0), free=FALSE)
    ex.verdicts = None

    def map_insert(ex, pc, args, ins):
        b, e = [z3.ZeroExt(64 - a.size(), a) if a.size() < 64 else a for a in args[1:3]]
        if 'audit_items' in nm:
            return z3.Bool(ex.fresh_name('free'))
        ex.oblige(pc, And(z3.ULT(b, e), z3.ULE(e, B(65535))), 'map_insert: begin < end', 'pre')
        r = z3.Bool(ex.fresh_name('free'))
        m = ex.mi
        m['calls'] = simp(ite(pc.e, m['calls'] + B(1), m['calls']))
        m['begin'] = simp(ite(pc.e, b, m['begin']))
        m['end'] = simp(ite(pc.e, e, m['end']))
        m['free'] = ite(pc.e, r, m['free'])
        return r

    def boolean(ex, pc, args, ins):
        return z3.Bool(ex.fresh_name('any'))

    def u(bits):
        return lambda ex, pc, args, ins: z3.BitVec(ex.fresh_name('any'), bits)

    def nothing(ex, pc, args, ins):
        return None

    def check_loose(ex, pc, args, ins):
        area, verdict = ex.marks['area'], ex.marks['verdict']
        d = simp(args[1] - area)
        a = simp(verdict + d)
        v = ex.read(a, 1, ex.prov(verdict), 0, None)
        return z3.If(v == 0, B(0), B(0x1000))

    ex.contracts[re.compile(r'auditor::map_insert\(')] = map_insert
    ex.contracts['@vc_map_calls'] = lambda ex, pc, a, ins: ex.mi['calls']
    ex.contracts['@vc_map_begin'] = lambda ex, pc, a, ins: ex.mi['begin']
    ex.contracts['@vc_map_end'] = lambda ex, pc, a, ins: ex.mi['end']
    ex.contracts['@vc_map_free'] = lambda ex, pc, a, ins: ex.mi['free']
    if 'audit_items' in nm:
        ex.contracts[re.compile(r'auditor::check_loose')] = check_loose
        ex.contracts[re.compile(r'auditor::auditor')] = nothing
        ex.contracts[re.compile(r'auditor::~auditor')] = nothing
        ex.contracts[re.compile(r'auditor::map_(empty|have_holes)')] = boolean
        ex.contracts[re.compile(r'auditor::map_(begin|end)')] = u(32)
        ex.contracts[re.compile(r'auditor::map_items')] = u(64)
        ex.contracts[re.compile(r'auditor::map_reset')] = nothing
        ex.contracts[re.compile(r'allocation_arena<.*>::')] = nothing
        ex.contracts[re.compile(r'std::is_sorted')] = boolean

        def spec(ex, run, h, blk, phis, entry_vals, pc):
            cs = scalar_candidates(ex, run, h, phis, entry_vals, pair=False, slack=(4, 8))
            area, verdict = ex.marks['area'], ex.marks['verdict']
            for ph in phis:
                n = ph.res
                if ph.ty.k == 'ptr':
                    cs['ok ' + n] = ('forall', 'idx', lambda env, k, n=n: Implies(
                        And(z3.ULT(k, B(8191)), simp(env[n] - area) <= k * 4, k * 4 < simp(entry_vals[n] - area)),
                        ex.read(simp(verdict + k * 4), 1, ex.prov(verdict), 0, None) == 0))
            return LoopCut(ex, run, h, phis, entry_vals, pc, cs)
        ex.loop_specs['*'] = spec
        ex.idx_names = {'k'}


def tasks(tier):
    ts = harness_tasks('p09.cxx', setup, noinline=[r'auditor::', r'onstack_allocation_arena', r'erthink::allocation_arena', r'std::is_sorted', r'std::vector<.*>::'])
    ts += bounded_tasks('p09.cxx', 'map_insert: all histories of 5 intervals over 7 units; images: mutated serialised tuples of <= 8 fields, random images of <= 6 units, '
                        'against an independent judge, every value read under ASan', seconds=20 if tier == 'quick' else 200)
    return ts
