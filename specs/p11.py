import z3
import re
from exec import And, B, simp, ite
from framework import harness_tasks, bounded_tasks
ID = 'P11'
LEVEL = 'proof'


def setup(ex, nm, tier, res):
    if 'u2a' in nm:
        ex.int_backend = 60000
    if 'u2a64' in nm:
        # the contract of u2a(uint32_t), which is proved as u2a32: exactly the decimal digits of the value
        def u2a32(ex, pc, args, ins):
            v = z3.ZeroExt(32, args[0])
            s = z3.Solver()
            s.add(pc.e)
            for _, f in ex.assumptions:
                s.add(f)
            p = simp(args[1])
            r = p
            for n in range(1, 11):
                c = And(z3.UGE(v, B(0 if n == 1 else 10 ** (n - 1))), z3.ULE(v, B(10 ** n - 1)))
                if s.check(c) == z3.unsat:
                    continue
                q = type(pc)(simp(And(pc.e, c)), pc.anc)
                for k in range(n):
                    d = z3.URem(z3.UDiv(z3.URem(z3.UDiv(v, B(10 ** (k // 4 * 4))), B(10000)), B(10 ** (k % 4))), B(10))
                    ex.store_bv(q, p + (n - 1 - k), z3.Extract(7, 0, d + 48), 'u2a(uint32_t) contract')
                r = ite(c, p + n, r)
            return simp(r)
        ex.contracts[re.compile(r'u2a\(unsigned int')] = u2a32
    if 'i2a' in nm:
        g = dict(calls=B(0), value=B(0), place=B(0), result=B(0))

        def u2a(ex, pc, args, ins):
            v = args[0]
            if v.size() < 64:
                v = z3.ZeroExt(64 - v.size(), v)
            n = z3.BitVec(ex.fresh_name('len'), 64)
            ex.assume(pc, And(z3.UGE(n, 1), z3.ULE(n, 20)))
            p = simp(args[1])
            ex.havoc(pc, ex.prov(p), lambda x: z3.ULT(x - p, n))
            r = simp(p + n)
            for k, x in (('calls', g['calls'] + 1), ('value', v), ('place', p), ('result', r)):
                g[k] = simp(ite(pc.e, x, g[k]))
            return r
        ex.contracts[re.compile(r'u2a\(unsigned (int|long)')] = u2a
        for k in g:
            ex.contracts['@vc_u2a_' + k] = lambda ex, pc, a, ins, k=k: g[k]


def cases(nm):
    if 'u2a' not in nm:
        return None
    bits = int(nm[-2:])

    def pred(lo, hi):
        def f(v):
            return And(z3.UGE(v, lo), z3.ULE(v, hi))
        return f
    out = []
    k = 1
    while 10 ** (k - 1) < 1 << bits:
        hi = min(10 ** k - 1, (1 << bits) - 1)
        if bits == 64 and k == 10:
            out.append((':10-', {'v': pred(10 ** 9, (1 << 32) - 1)}))
            out.append((':10+', {'v': pred(1 << 32, hi)}))
        else:
            out.append((':%d' % k, {'v': pred(0 if k == 1 else 10 ** (k - 1), hi)}))
        k += 1
    return out


def tasks(tier):
    ts = harness_tasks('p11.cxx', setup, cases=cases, noinline=[r'u2a\('])
    for t in ts:
        m = re.search(r'u2a64:(\d+)', t.name)
        t.weight = int(m.group(1)) if m else 0
    ts += bounded_tasks('p11.cxx', 'decimal text of random numbers and of numbers around the multiples of powers of ten, against printf', seconds=10)
    return ts
