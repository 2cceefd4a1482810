"""Candidate loop invariants (templates).  Every candidate is only a guess: the
Houdini loop in framework.py keeps the maximal subset that is inductive, so a
wrong guess costs time but never soundness."""
import z3
from exec import (LoopCut, And, Or, Not, Implies, B, TRUE, FALSE, simp)


def loop_values(ex, run, h):
    """loop-invariant values compared inside of the loop, plus parameters"""
    fn = run.fn
    body = run.loops[h]
    defined = set()
    for b in body:
        for i in fn.blocks[b].insts:
            if i.res:
                defined.add(i.res)
    out = {}

    def add(t, v):
        if v[0] == 'l':
            if v[1] in defined or v[1] not in run.env:
                return
            x = run.env[v[1]]
            nm = v[1]
        elif v[0] == 'c':
            x = ex.const(t, v)
            nm = '#%d' % v[1]
        else:
            return
        if isinstance(x, list) or not z3.is_bv(x):
            return
        out[nm] = (x, t.k)
    for b in body:
        for i in fn.blocks[b].insts:
            if i.op == 'icmp':
                for t, v in i.a:
                    if t.k in ('i', 'ptr'):
                        add(t, v)
    for (t, nm, at) in fn.params:
        if t.k in ('i', 'ptr') and nm in run.env and z3.is_bv(run.env[nm]):
            out[nm] = (run.env[nm], t.k)
    for nm, x in ex.marks.items():
        out['$' + nm] = (x, '?')
    # drop duplicates
    seen = {}
    for nm, (x, k) in list(out.items()):
        if x.get_id() in seen:
            del out[nm]
        else:
            seen[x.get_id()] = nm
    return out


def scalar_candidates(ex, run, h, phis, entry_vals, pair=True, slack=()):
    """name -> fn(env); families[name] = (family, strength): of one family only
    the strongest survivor is kept"""
    cs = {}
    fam = {}
    X = loop_values(ex, run, h)
    sc = [p for p in phis if (p.ty.k == 'ptr' or (p.ty.k == 'i' and p.ty.n > 1)) and not isinstance(entry_vals[p.res], list)]
    for p in sc:
        e = entry_vals[p.res]
        nm = p.res
        n = e.size()
        if p.ty.k == 'ptr':
            cs[nm + '>=entry'] = lambda env, nm=nm, e=e: simp(env[nm] - e) >= 0
            cs[nm + '<=entry'] = lambda env, nm=nm, e=e: simp(env[nm] - e) <= 0
        else:
            cs[nm + '>=entry'] = lambda env, nm=nm, e=e: z3.UGE(env[nm], e)
            cs[nm + '<=entry'] = lambda env, nm=nm, e=e: z3.ULE(env[nm], e)
        if p.ty.k == 'i':
            cs[nm + '>=sentry'] = lambda env, nm=nm, e=e: env[nm] >= e
            cs[nm + '<=sentry'] = lambda env, nm=nm, e=e: env[nm] <= e
        for k in range(1, 9):
            if k < n:
                c = nm + '-entry mod 2^%d' % k
                cs[c] = lambda env, nm=nm, e=e, k=k: z3.Extract(k - 1, 0, env[nm] - e) == 0
                fam[c] = (nm + 'mod', k)
        for xn, (x, kind) in X.items():
            if x.size() != n or x.eq(e) or (kind != '?' and kind != p.ty.k):
                continue
            if p.ty.k == 'ptr' and z3.is_bv_value(x):
                continue
            c = '%s<=%s' % (nm, xn)
            if p.ty.k == 'ptr':
                if not ex.prov(x) or ex.prov(x) != ex.prov(e):
                    continue
                cs[c] = lambda env, nm=nm, x=x: simp(x - env[nm]) >= 0
                cs['%s>=%s' % (nm, xn)] = lambda env, nm=nm, x=x: simp(env[nm] - x) >= 0
                cs['%s!=%s' % (nm, xn)] = lambda env, nm=nm, x=x: simp(env[nm] - x) != 0
            else:
                cs[c] = lambda env, nm=nm, x=x: z3.ULE(env[nm], x)
                cs['%s>=%s' % (nm, xn)] = lambda env, nm=nm, x=x: z3.UGE(env[nm], x)
                cs['%s!=%s' % (nm, xn)] = lambda env, nm=nm, x=x: env[nm] != x
            if not z3.is_bv_value(x) and p.ty.k == 'i':
                cs['%s<=s%s' % (nm, xn)] = lambda env, nm=nm, x=x: env[nm] <= x
                cs['%s>=s%s' % (nm, xn)] = lambda env, nm=nm, x=x: env[nm] >= x
            if z3.is_bv_value(x):
                continue
            for cc in slack:
                c = '%s+%d<=%s' % (nm, cc, xn)
                cs[c] = lambda env, nm=nm, x=x, cc=cc: simp(x - env[nm]) >= B(cc, n)
                fam[c] = (nm + xn, cc)
    for p in sc:
        if p.ty.k != 'ptr':
            continue
        for q in sc:
            if q.ty.k != 'i' or q.ty.n != 64:
                continue
            a, b = p.res, q.res
            for xn, (x, kind) in X.items():
                if x.size() != 64 or z3.is_bv_value(x) or kind == 'i' or not ex.prov(x) or ex.prov(x) != ex.prov(entry_vals[a]):
                    continue
                for sh in range(0, 6):
                    up = (1 << sh) - 1
                    cs['%s-%s==%s<<%d' % (xn, a, b, sh)] = lambda env, a=a, b=b, x=x, sh=sh: simp(x - env[a]) == env[b] << sh
                    if sh:
                        cs['ceil(%s-%s)==%s>>%d' % (xn, a, b, sh)] = lambda env, a=a, b=b, x=x, sh=sh, up=up: simp(x - env[a] + B(up)) >> sh == env[b]
    if pair:
        for i, p in enumerate(sc):
            for q in sc[i + 1:]:
                a, b = p.res, q.res
                ea, eb = entry_vals[a], entry_vals[b]
                if ea.size() != eb.size() or p.ty.k != q.ty.k:
                    continue
                cs['%s-%s' % (a, b)] = lambda env, a=a, b=b, ea=ea, eb=eb: env[a] - env[b] == ea - eb
                cs['%s+%s' % (a, b)] = lambda env, a=a, b=b, ea=ea, eb=eb: env[a] + env[b] == ea + eb
                cs['%s<=%s' % (a, b)] = lambda env, a=a, b=b: z3.ULE(env[a], env[b])
                cs['%s>=%s' % (a, b)] = lambda env, a=a, b=b: z3.UGE(env[a], env[b])
    ex.families = getattr(ex, 'families', {})
    ex.families.update(fam)
    return cs
