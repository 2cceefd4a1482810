import z3
from framework import harness_tasks, bounded_tasks, dag_ids
from exec import LoopCut, Implies, And, B, simp
from invariants import scalar_candidates
ID = 'P02'
LEVEL = 'proof'
VARIANTS = [('referential', 'scan_portable', ''), ('unroll', 'scan_portable', ''), ('SSE2', 'scan_SSE2', '-msse2'),
            ('AVX', 'scan_AVX', '-mavx'), ('AVX2', 'scan_AVX2', '-mavx2')]


def setup(ex, nm, tier, res):
    def spec(ex, run, h, blk, phis, entry_vals, pc):
        cs = scalar_candidates(ex, run, h, phis, entry_vals, pair=False, slack=(4, 8, 16, 32, 36, 64, 128, 132, 256, 260))
        if 'begin' in ex.marks:
            begin, end, gid = ex.marks['begin'], ex.marks['end'], z3.Extract(15, 0, ex.marks['id'])

            def desc(o):
                a = simp(begin + o + B(2))
                return ex.read(a, 2, ex.prov(a), 0, None)
            for ph in phis:
                n = ph.res
                if ph.ty.k == 'ptr':
                    cs['nomatch<' + n] = ('forall', 'idx', lambda env, o, n=n: Implies(
                        And(z3.Extract(1, 0, o) == 0, z3.ULT(o, B(1 << 18)), simp(env[n] - begin) > o), desc(o) != gid))
                elif ph.ty.k == 'i' and ph.ty.n == 64:
                    cs['nomatch<idx ' + n] = ('forall', 'idx', lambda env, o, n=n: Implies(
                        And(z3.Extract(1, 0, o) == 0, z3.ULT(o, B(1 << 40)), z3.ULT(z3.LShR(o, 2), env[n])), desc(o) != gid))
        return LoopCut(ex, run, h, phis, entry_vals, pc, cs)
    ex.loop_specs['*'] = spec
    ex.phi_bits = 19
    ex.idx_names = {'o'}

    def cases(seq, goal):
        """where the byte offset o lies relatively to each loop pointer"""
        out = []
        if 'begin' not in ex.marks:
            return out
        ids = dag_ids([goal])
        terms = [x for tag, x in ex.private.get(seq, [])] or [ex.marks[k] for k in ('o', 'd') if k in ex.marks]
        for o in terms:
            if o.get_id() not in ids:
                continue
            if not ex.private.get(seq):
                out.append([o == B(4 * j) for j in range(8)])
            for c in reversed(ex.loopcuts):
                for ph in c.phis:
                    if ph.ty.k == 'ptr':
                        v = c.vals[ph.res]
                        u = v.children()[-1]
                        if u.get_id() not in ids and v.get_id() not in ids:
                            continue
                        d = simp(v - ex.marks['begin'])
                        out.append([o < d] + [o == simp(d + B(4 * j)) for j in range(64)])
        return out
    ex.cases = cases


def tasks(tier):
    ts = []
    for v, src, flag in VARIANTS:
        simd = v in ('SSE2', 'AVX', 'AVX2')
        extra = ['-DSCAN_SRC="src/%s.cxx"' % src, '-DSCAN_FN=fptu_scan_' + v] + ([flag] if flag else [])
        # functional postconditions of the vector variants: solver gives no answer
        # in time for every path; memory safety and loop frames are proved
        ts += harness_tasks('p02.cxx', setup, label=':' + v, extra=extra, skip_posts=simd, only='scan' if simd else None)
        if simd:
            ts += harness_tasks('p02.cxx', setup, label=':' + v, extra=extra, only='hollow')
        ts += bounded_tasks('p02.cxx', 'every n <= 300, every first-match position, 64 page placements', extra, ':' + v, 30)
    return ts
