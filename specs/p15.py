import re
import z3
from framework import harness_tasks, bounded_tasks
from exec import LoopCut, Implies, And, Or, B, simp
from invariants import scalar_candidates
ID = 'P15'
LEVEL = 'proof'
ASSUMPTIONS = ['by_loose(), the definitions and the lookups by name are checked by bounded runs against a plain model only',
               'lookups: the token array is sorted, preplaced first, offsets distinct (established by add_definition, checked bounded)',
               'opaque structures (define_preplaced_fixed_opacity) are not covered, see known_findings.txt']


def setup(ex, nm, tier, res):
    """The array is sorted.  For the searched target that is stated through the ghost rank r = the number of the items
    below the target (it exists for any sorted array), and the order against the item k: both are facts of one item."""
    loose = False
    NORM = B(0x70000, 32)

    def vc_sorted(ex, pc, args, ins):
        arr, pre, n, nbytes, k, target = [simp(a) for a in args]
        regs = ex.prov(arr)
        T = z3.Function('token_tag', z3.BitVecSort(18), z3.BitVecSort(32))
        sm = lambda x: simp(z3.Extract(17, 0, x))
        target = simp(z3.Extract(31, 0, target))
        pre, n, k, lo, hi = sm(pre), sm(n), sm(k), sm(pre if loose else B(0)), sm(n if loose else pre)
        pos0 = len(ex.writes)
        r = z3.BitVec('rank', 18)
        is_loose = lambda t: z3.UGE(t, B(0xfff80000, 32))
        key = lambda j: T(j) | NORM if loose else T(j) & B(0xfffc0000, 32)
        ex.assume(pc, And(z3.UGE(r, lo), z3.ULE(r, hi)))

        def fact(j):
            j = sm(j)
            t = T(j)
            inside = And(z3.UGE(j, lo), z3.ULT(j, hi))
            return And(
                Implies(z3.ULT(j, n), ex.read(simp(arr + z3.Concat(B(0, 44), j, B(0, 2))), 4, regs, pos0, None) == t),
                Implies(z3.ULT(j, pre), And(z3.Not(is_loose(t)), z3.ULT(z3.LShR(t, 18), z3.Extract(31, 0, nbytes)), t != 0)),
                Implies(And(z3.UGE(j, pre), z3.ULT(j, n)), And(is_loose(t), t != 0)),
                Implies(inside, And(z3.ULT(key(j), target) == z3.ULT(j, r), Implies(z3.UGT(j, r), z3.UGT(key(j), target)),
                                    z3.ULT(j, k) == z3.ULT(key(j), key(k)), (j == k) == (key(j) == key(k)))))
        ex.forall('idx', fact, pc)
        ex.add_term('idx', z3.ZeroExt(46, k))
        ex.arr, ex.lo, ex.hi, ex.rank = arr, lo, hi, r
        ex.on_load = lambda ex, addr, m, rg: ex.add_term('idx', simp(z3.LShR(addr - arr, 2))) if rg == regs else None
    ex.contracts['@vc_sorted'] = vc_sorted

    def pos(p):
        return simp(z3.Extract(19, 2, simp(p - ex.arr)))

    def vc_rank(ex, pc, args, ins):
        return z3.ZeroExt(46, ex.rank)
    ex.contracts['@vc_rank'] = vc_rank

    def search(ex, pc, args, ins):
        """contract of schema::search_preplaced(), proved in VC(search_preplaced)"""
        return simp(ex.arr + z3.Concat(B(0, 44), ex.rank, B(0, 2)))
    if 'search' not in nm:
        ex.contracts[re.compile(r'schema::search_preplaced')] = search

    def spec(ex, run, h, blk, phis, entry_vals, pc):
        cs = scalar_candidates(ex, run, h, phis, entry_vals, pair=False)
        if hasattr(ex, 'arr'):
            for p in phis:
                if p.ty.k != 'ptr':
                    continue
                a = p.res
                cs['whole ' + a] = lambda env, a=a: And(z3.ULT(simp(env[a] - ex.arr), 1 << 20), z3.Extract(1, 0, simp(env[a] - ex.arr)) == 0, z3.UGE(pos(env[a]), ex.lo), z3.ULE(pos(env[a]), ex.hi))
                cs['before ' + a] = ('forall', 'idx', lambda env, x, a=a: z3.ULE(pos(env[a]), ex.rank))
                for q in phis:
                    if q.ty.k == 'i' and q.ty.n == 64:
                        b = q.res
                        cs['inside %s %s' % (a, b)] = lambda env, a=a, b=b: And(
                            z3.ULE(env[b], 65535), z3.ULE(pos(env[a]) + z3.Extract(17, 0, env[b]), ex.hi))
                        cs['after %s %s' % (a, b)] = ('forall', 'idx', lambda env, x, a=a, b=b: z3.ULE(ex.rank, pos(env[a]) + z3.Extract(17, 0, env[b])))
        return LoopCut(ex, run, h, phis, entry_vals, pc, cs)
    ex.loop_specs['*'] = spec
    ex.idx_names = {'k'}
    ex.phi_bits = 19
    ex.int_phi_bits = 17


def tasks(tier):
    ts = harness_tasks('p15.cxx', setup, noinline=[r'schema::search_preplaced'])
    ts += bounded_tasks('p15.cxx', 'random schemas of up to 60 fields (loose ones: up to 1600) against a plain model; imported definitions with clashing and free places', seconds=15 if tier == 'quick' else 120)
    return ts
