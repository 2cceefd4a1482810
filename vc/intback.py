"""Integer back end: a bit-vector obligation is translated to linear integer
arithmetic (exact, with explicit wrap-around where an interval analysis cannot
exclude it; anything else becomes an unknown of its range) and given to Z3's
arithmetic solver.  Only `valid` is ever concluded, so abstraction is sound."""
import z3

K = z3


class Trans:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.n = 0
        self.forms = {}
        self.kept = []

    def fresh(self, hi):
        self.n += 1
        x = z3.Int('ib!%d' % self.n)
        self.side.append(z3.And(x >= 0, x <= hi))
        return x, 0, hi

    def num(self, v):
        return z3.IntVal(v), v, v

    def wrap(self, e, lo, hi, n):
        m = 1 << n
        if lo >= 0 and hi < m:
            return e, lo, hi
        if lo // m == hi // m:
            k = lo // m
            return e - k * m, lo - k * m, hi - k * m
        # e = q*m + r
        r, _, _ = self.fresh(m - 1)
        self.n += 1
        q = z3.Int('ib!%d' % self.n)
        self.side.append(e == q * m + r)
        self.side.append(z3.And(q >= lo // m, q <= hi // m))
        return r, 0, m - 1

    def raw(self, a, c):
        e, lo, hi = a
        key = ('dm', e.get_id(), c)
        if key in self.memo:
            return self.memo[key][0]
        if lo // c == hi // c:
            k = lo // c
            r = (self.num(k), (e - k * c, lo - k * c, hi - k * c) if k else a)
        else:
            self.n += 1
            q = z3.Int('ib!%d' % self.n)
            t = z3.Int('ib!r%d' % self.n)
            self.side.append(e == q * c + t)
            self.side.append(z3.And(q >= lo // c, q <= hi // c, t >= 0, t <= min(c - 1, hi)))
            r = ((q, lo // c, hi // c), (t, 0, min(c - 1, hi)))
        self.memo[key] = (r, e)
        return r

    def form(self, base, d, m):
        """(base / d) % m, canonical: one unknown per form"""
        r = self.raw(base, d)[0] if d > 1 else base
        if m and r[2] >= m:
            r = self.raw(r, m)[1]
        else:
            m = 0
        self.forms[r[0].get_id()] = (base, d, m)
        self.kept.append(r[0])
        return r

    def divmod(self, a, c):
        # (x/d%m)/c = x/(d*c)%(m/c), (x/d%m)%c = x/d%c when c divides m
        f = self.forms.get(a[0].get_id())
        if f is None:
            f = (a, 1, 0)
        base, d, m = f
        if m and m % c:
            return self.raw(a, c)
        if a[2] < c:
            return self.num(0), a
        q, r = self.form(base, d * c, m // c if m else 0), self.form(base, d, c)
        self.side.append(a[0] == q[0] * c + r[0])
        return q, r

    def bv(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i][0]
        r = self.bv_(t)
        self.memo[i] = (r, t)
        return r

    def bv_(self, t):
        n = t.size()
        d = t.decl().kind()
        a = t.children()
        if z3.is_bv_value(t):
            return self.num(t.as_long())
        if d == K.Z3_OP_BADD:
            e, lo, hi = self.bv(a[0])
            for x in a[1:]:
                if z3.is_bv_value(x) and x.as_long() >> (n - 1):
                    k = x.as_long() - (1 << n)
                    e, lo, hi = e + k, lo + k, hi + k
                else:
                    y = self.bv(x)
                    e, lo, hi = e + y[0], lo + y[1], hi + y[2]
            return self.wrap(e, lo, hi, n)
        if d == K.Z3_OP_BSUB:
            x, y = self.bv(a[0]), self.bv(a[1])
            return self.wrap(x[0] - y[0], x[1] - y[2], x[2] - y[1], n)
        if d == K.Z3_OP_BNEG:
            x = self.bv(a[0])
            return self.wrap(-x[0], -x[2], -x[1], n)
        if d == K.Z3_OP_BNOT:
            x = self.bv(a[0])
            m = (1 << n) - 1
            return m - x[0], m - x[2], m - x[1]
        if d == K.Z3_OP_BMUL:
            cs = [x for x in a if z3.is_bv_value(x)]
            vs = [x for x in a if not z3.is_bv_value(x)]
            if len(vs) == 1:
                k = 1
                for c in cs:
                    k = k * c.as_long() % (1 << n)
                if k >> (n - 1):
                    k -= 1 << n
                x = self.bv(vs[0])
                lo, hi = sorted((x[1] * k, x[2] * k))
                return self.wrap(x[0] * k, lo, hi, n)
        if d in (K.Z3_OP_BUDIV, K.Z3_OP_BUDIV_I, K.Z3_OP_BUREM, K.Z3_OP_BUREM_I) and z3.is_bv_value(a[1]) and a[1].as_long():
            q, r = self.divmod(self.bv(a[0]), a[1].as_long())
            return q if d in (K.Z3_OP_BUDIV, K.Z3_OP_BUDIV_I) else r
        if d == K.Z3_OP_BSHL and z3.is_bv_value(a[1]):
            k = 1 << a[1].as_long()
            x = self.bv(a[0])
            return self.wrap(x[0] * k, x[1] * k, x[2] * k, n)
        if d == K.Z3_OP_BLSHR and z3.is_bv_value(a[1]):
            return self.divmod(self.bv(a[0]), 1 << a[1].as_long())[0]
        if d == K.Z3_OP_CONCAT:
            e, lo, hi = self.num(0)
            for x in a:
                y = self.bv(x)
                m = 1 << x.size()
                e, lo, hi = (e * m + y[0] if not (lo == hi == 0) else y[0]), lo * m + y[1], hi * m + y[2]
            return e, lo, hi
        if d == K.Z3_OP_ZERO_EXT:
            return self.bv(a[0])
        if d == K.Z3_OP_SIGN_EXT:
            x = self.bv(a[0])
            m = 1 << a[0].size()
            if x[2] < m // 2:
                return x
            return (z3.If(x[0] < m // 2, x[0], x[0] + ((1 << n) - m)), 0, (1 << n) - 1)
        if d == K.Z3_OP_EXTRACT:
            hi_, lo_ = t.params()
            x = self.bv(a[0])
            q = self.divmod(x, 1 << lo_)[0] if lo_ else x
            if q[2] < 1 << n:
                return q
            return self.divmod(q, 1 << n)[1]
        if d == K.Z3_OP_ITE:
            c = self.boolean(a[0])
            x, y = self.bv(a[1]), self.bv(a[2])
            return z3.If(c, x[0], y[0]), min(x[1], y[1]), max(x[2], y[2])
        if d == K.Z3_OP_BAND and len(a) == 2:
            for i in (0, 1):
                if z3.is_bv_value(a[i]):
                    m = a[i].as_long()
                    if m & (m + 1) == 0:
                        x = self.bv(a[1 - i])
                        return x if x[2] <= m else self.divmod(x, m + 1)[1]
        if d == K.Z3_OP_BOR and len(a) == 2:
            x, y = self.bv(a[0]), self.bv(a[1])
            if x[2] <= 1 and y[2] <= 1:
                return z3.If(z3.Or(x[0] == 1, y[0] == 1), z3.IntVal(1), z3.IntVal(0)), 0, 1
        for x in a:
            if z3.is_bv(x):
                self.bv(x)
        return self.fresh((1 << n) - 1)

    def sbv(self, t):
        n = t.size()
        e, lo, hi = self.bv(t)
        h = 1 << (n - 1)
        if hi < h:
            return e
        if lo >= h:
            return e - 2 * h
        return z3.If(e < h, e, e - 2 * h)

    def boolean(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i][0]
        r = self.boolean_(t)
        self.memo[i] = (r, t)
        return r

    def boolean_(self, t):
        d = t.decl().kind()
        a = t.children()
        if d in (K.Z3_OP_TRUE, K.Z3_OP_FALSE):
            return t
        if d == K.Z3_OP_AND:
            return z3.And(*[self.boolean(x) for x in a])
        if d == K.Z3_OP_OR:
            return z3.Or(*[self.boolean(x) for x in a])
        if d == K.Z3_OP_NOT:
            return z3.Not(self.boolean(a[0]))
        if d == K.Z3_OP_IMPLIES:
            return z3.Implies(self.boolean(a[0]), self.boolean(a[1]))
        if d == K.Z3_OP_XOR:
            return z3.Xor(self.boolean(a[0]), self.boolean(a[1]))
        if d == K.Z3_OP_ITE:
            return z3.If(*[self.boolean(x) for x in a])
        if d in (K.Z3_OP_EQ, K.Z3_OP_IFF):
            if z3.is_bool(a[0]):
                return self.boolean(a[0]) == self.boolean(a[1])
            if z3.is_bv(a[0]):
                return self.bv(a[0])[0] == self.bv(a[1])[0]
        if d == K.Z3_OP_DISTINCT and len(a) == 2 and z3.is_bv(a[0]):
            return self.bv(a[0])[0] != self.bv(a[1])[0]
        u = {K.Z3_OP_ULT: 0, K.Z3_OP_ULEQ: 1, K.Z3_OP_UGT: 2, K.Z3_OP_UGEQ: 3}
        s = {K.Z3_OP_SLT: 0, K.Z3_OP_SLEQ: 1, K.Z3_OP_SGT: 2, K.Z3_OP_SGEQ: 3}
        if d in u or d in s:
            f = (lambda x: self.bv(x)[0]) if d in u else self.sbv
            x, y = f(a[0]), f(a[1])
            return [x < y, x <= y, x > y, x >= y][u.get(d, s.get(d))]
        if z3.is_const(t):
            return z3.Bool('ib!' + str(t))
        self.n += 1
        return z3.Bool('ib!b%d' % self.n)


def consts(e, memo):
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.get_id())
        st.extend(x.children())
    return out


DIVS = (K.Z3_OP_BUDIV, K.Z3_OP_BUDIV_I, K.Z3_OP_BUREM, K.Z3_OP_BUREM_I, K.Z3_OP_BMUL)


def plain(e, memo):
    i = e.get_id()
    if i not in memo:
        memo[i] = (e.decl().kind() not in DIVS or e.decl().kind() == K.Z3_OP_BMUL and z3.is_bv_value(e.arg(0))) and all(plain(c, memo) for c in e.children())
    return memo[i]


def conditions(e):
    seen, out, memo = set(), [], {}
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_bool(x) and not z3.is_true(x) and not z3.is_false(x) and plain(x, memo):
            out.append(x)
        st.extend(x.children())
    return out[::-1]


def decide_conditions(fs, g, cache, budget=20.0):
    """replaces conditions which the facts decide"""
    import time
    t0 = time.time()
    memo = {}
    s = z3.Solver()
    s.set('timeout', 300)
    for f in fs:
        if plain(f, memo):
            s.add(f)
    for _ in range(6):
        sub = []
        for c in conditions(g):
            if c.get_id() not in cache:
                if time.time() - t0 > budget:
                    continue
                v = None
                if s.check(z3.Not(c)) == z3.unsat:
                    v = z3.BoolVal(True)
                elif s.check(c) == z3.unsat:
                    v = z3.BoolVal(False)
                cache[c.get_id()] = (c, v)
            if cache[c.get_id()][1] is not None:
                sub.append(cache[c.get_id()])
        if not sub:
            break
        g = z3.simplify(z3.substitute(g, *sub))
    return g


def prove(fs, goal, ms, cache=None):
    g = z3.simplify(goal, push_ite_bv=False)
    # facts only grow along a path: what was decided stays decided
    g = decide_conditions(fs, g, cache if cache is not None else {})
    if z3.is_true(g):
        return True
    v = consts(g, None)
    pick = []
    memo = {}
    for f in fs:
        if not plain(f, memo):
            continue
        c = consts(f, None)
        if c and c <= v:
            pick.append(f)
    tr = Trans()
    s = z3.SolverFor('QF_LIA')
    s.set('timeout', ms)
    for f in pick:
        s.add(tr.boolean(z3.simplify(f)))
    s.add(z3.Not(tr.boolean(g)))
    for f in tr.side:
        s.add(f)
    return s.check() == z3.unsat
