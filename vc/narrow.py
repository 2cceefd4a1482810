"""Exact narrowing of address arithmetic: when the range of a 64-bit term is known to be small, comparisons of it
are stated on a few low bits.  All the functions are conservative (None = don't know)."""
import z3

K = z3
_iv, _tr, _lo = {}, {}, {}


def signed(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def interval(t):
    """(lo, hi) such that the mathematical value lies there and t is congruent to it mod 2^size"""
    k = t.get_id()
    if k in _iv:
        return _iv[k][0]
    n = t.size()
    r = None
    if z3.is_bv_value(t):
        v = signed(t.as_long(), n)
        r = (v, v)
    elif z3.is_app(t):
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_BADD:
            iv = [interval(c) for c in ch]
            if None not in iv:
                r = (sum(a for a, b in iv), sum(b for a, b in iv))
        elif d == z3.Z3_OP_BMUL and len(ch) == 2 and z3.is_bv_value(ch[0]):
            c = signed(ch[0].as_long(), n)
            a = interval(ch[1])
            if a:
                r = tuple(sorted((c * a[0], c * a[1])))
        elif d == z3.Z3_OP_BNEG:
            a = interval(ch[0])
            if a:
                r = (-a[1], -a[0])
        elif d == z3.Z3_OP_BSUB and len(ch) == 2:
            a, b = interval(ch[0]), interval(ch[1])
            if a and b:
                r = (a[0] - b[1], a[1] - b[0])
        elif d == z3.Z3_OP_ITE:
            a, b = interval(ch[1]), interval(ch[2])
            if a and b:
                r = (min(a[0], b[0]), max(a[1], b[1]))
        elif d == z3.Z3_OP_CONCAT and z3.is_bv_value(ch[0]) and ch[0].as_long() == 0:
            w = n - ch[0].size()
            r = (0, (1 << w) - 1)
            if len(ch) == 2:
                a = interval(ch[1])
                if a and a[0] >= 0 and a[1] < 1 << w:
                    r = a
                elif z3.is_bv_value(ch[1]):
                    r = (ch[1].as_long(),) * 2
            elif all(z3.is_bv_value(c) and c.as_long() == 0 for c in ch[2:]):
                z = sum(c.size() for c in ch[2:])
                r = (0, ((1 << ch[1].size()) - 1) << z)
        elif d == z3.Z3_OP_ZERO_EXT:
            r = (0, (1 << ch[0].size()) - 1)
        elif d == z3.Z3_OP_BAND:
            vs = [c.as_long() for c in ch if z3.is_bv_value(c)]
            if vs and min(vs) < 1 << (n - 1):
                r = (0, min(vs))
    if r is not None and (r[0] < -(1 << (n - 1)) or r[1] >= 1 << (n - 1)):
        r = None if n >= 64 else r
    if r is None and n < 64:
        r = (0, (1 << n) - 1)
    if len(_iv) > 300000:
        _iv.clear()
    _iv[k] = (r, t)
    return r


def trunc(t, b):
    """the low b bits of t, as a term without wide arithmetic where possible"""
    n = t.size()
    if n == b:
        return t
    if n < b:
        return z3.ZeroExt(b - n, t)
    k = (t.get_id(), b)
    if k in _tr:
        return _tr[k][0]
    r = None
    if z3.is_bv_value(t):
        r = z3.BitVecVal(t.as_long() & ((1 << b) - 1), b)
    elif z3.is_app(t):
        d = t.decl().kind()
        ch = t.children()
        if d in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
            r = t.decl()  # n-ary
            q = [trunc(c, b) for c in ch]
            op = {z3.Z3_OP_BADD: lambda x, y: x + y, z3.Z3_OP_BMUL: lambda x, y: x * y, z3.Z3_OP_BAND: lambda x, y: x & y,
                  z3.Z3_OP_BOR: lambda x, y: x | y, z3.Z3_OP_BXOR: lambda x, y: x ^ y}[d]
            r = q[0]
            for c in q[1:]:
                r = op(r, c)
        elif d == z3.Z3_OP_BSUB and len(ch) == 2:
            r = trunc(ch[0], b) - trunc(ch[1], b)
        elif d == z3.Z3_OP_BNEG:
            r = -trunc(ch[0], b)
        elif d == z3.Z3_OP_ITE:
            r = z3.If(ch[0], trunc(ch[1], b), trunc(ch[2], b))
        elif d == z3.Z3_OP_CONCAT:
            parts, have = [], 0
            for c in reversed(ch):
                if have >= b:
                    break
                s = min(c.size(), b - have)
                parts.append(trunc(c, s))
                have += s
            r = z3.Concat(*reversed(parts)) if len(parts) > 1 else parts[0]
        elif d == z3.Z3_OP_ZERO_EXT:
            r = trunc(ch[0], b)
        elif d == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            r = trunc(ch[0], b) if lo == 0 else None
    if r is None:
        r = z3.Extract(b - 1, 0, t)
    if len(_tr) > 300000:
        _tr.clear()
    _tr[k] = (r, t)
    return r


def lowbits(t, m):
    """the value of the low m bits, when the same for all"""
    v = z3.simplify(trunc(t, m))
    if z3.is_bv_value(v):
        return v.as_long()
    return _low(t, m)


def _low(t, m):
    if z3.is_bv_value(t):
        return t.as_long() & ((1 << m) - 1)
    if not z3.is_app(t):
        return None
    d = t.decl().kind()
    ch = t.children()
    if d == z3.Z3_OP_BADD:
        s = 0
        for c in ch:
            x = _low(c, m)
            if x is None:
                return None
            s += x
        return s & ((1 << m) - 1)
    if d == z3.Z3_OP_BMUL and len(ch) == 2 and z3.is_bv_value(ch[0]):
        if ch[0].as_long() & ((1 << m) - 1) == 0:
            return 0
        x = _low(ch[1], m)
        return None if x is None else x * ch[0].as_long() & ((1 << m) - 1)
    if d == z3.Z3_OP_ITE:
        a, b = _low(ch[1], m), _low(ch[2], m)
        return a if a == b else None
    if d == z3.Z3_OP_CONCAT:
        c = ch[-1]
        if c.size() >= m:
            return _low(c, m)
    return None
