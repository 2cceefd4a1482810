"""Contracts of the harness vocabulary (vc_*, nd_*) and of the C/C++ runtime
functions the library calls (assumed, listed in the evidence as trusted)."""
import re
import z3
from exec import (Exec, VCError, And, Or, Not, Implies, B, TRUE, FALSE, simp, ite, PC, tz)


def cstr(ex, p):
    p = simp(p)
    for nm, r in ex.globals_.items():
        if r.const_bytes is not None:
            d = simp(p - r.base)
            if z3.is_bv_value(d) and d.as_long() < len(r.const_bytes):
                b = bytes(r.const_bytes)[d.as_long():]
                return b.split(b'\0')[0].decode()
    raise VCError('harness string is not a constant: %s' % p)


def exc_id(ex, name):
    name = name.split('::')[-1]
    name = {'value_denil': 'value_is_denil', 'value_range': 'value_out_of_range'}.get(name, name)
    return ex.exc_ids.setdefault(name, len(ex.exc_ids) + 1)


def h_assume(ex, pc, a, ins):
    ex.assume(pc, a[0])
    return None


def h_assert(ex, pc, a, ins):
    nm = cstr(ex, a[1])
    ex.oblige(pc, a[0], nm, 'post')
    ex.assume(pc, a[0])
    ex.n_asserts += 1
    return None


def h_cover(ex, pc, a, ins):
    ex.covers.append((cstr(ex, a[0]), pc.e))
    return None


def nd(bits):
    def f(ex, pc, a, ins):
        nm = cstr(ex, a[0])
        if bits == 1:
            v = z3.Bool(ex.fresh_name('in_' + nm))
        else:
            v = z3.BitVec(ex.fresh_name('in_' + nm), bits)
            if not hasattr(ex, 'idx_names') or nm in ex.idx_names:
                ex.add_term('idx', v if bits == 64 else z3.ZeroExt(64 - bits, v))
        ex.inputs.append(('u', nm, v))
        c = getattr(ex, 'fixed', {}).get(nm)
        if callable(c):
            ex.assume(pc, c(v))
        elif c is not None:
            # case of a complete split of the input
            ex.assume(pc, v == c)
            return z3.BoolVal(bool(c)) if bits == 1 else z3.BitVecVal(c, bits)
        return v
    return f


def nd_fp(sort, bits):
    def f(ex, pc, a, ins):
        nm = cstr(ex, a[0])
        b = z3.BitVec(ex.fresh_name('in_' + nm), bits)
        ex.inputs.append(('u', nm, b))
        return z3.fpBVToFP(b, sort)
    return f


def h_buf(ex, pc, a, ins):
    nm = cstr(ex, a[2])
    al = simp(a[1])
    n = simp(a[0])
    r = ex.region(ex.fresh_name('buf_' + nm), n, al.as_long())
    # separate objects do not overlap
    for o in ex.objs:
        ex.disjoint(o, r)
    ex.objs.append(r)
    ex.inputs.append(('b', nm, r))
    return r.base


def h_mark(ex, pc, a, ins):
    ex.marks[cstr(ex, a[0])] = a[1]
    return None


def h_name(ex, pc, a, ins):
    v = z3.BitVec(ex.fresh_name('named'), 64)
    ex.assume(pc, v == a[0])
    return v


def h_caught(ex, pc, a, ins):
    v = B(0, 32)
    for (c, e, xv) in ex.all_excs:
        v = ite(c, B(exc_id(ex, e), 32), v)
    return v


def h_exc(ex, pc, a, ins):
    return B(exc_id(ex, cstr(ex, a[0])), 32)


def h_inside(ex, pc, a, ins):
    return And(z3.UGE(a[0], a[1]), z3.ULE(a[0], a[1] + a[2]))


def h_havoc(ex, pc, a, ins):
    regs = ex.prov(simp(a[0]))
    if not regs:
        raise VCError('vc_havoc')
    p, n = simp(a[0]), a[1]
    ex.havoc(pc, regs, lambda x: z3.ULT(x - p, n))
    return None


# ------------------------------------------------------------- C runtime
def c_memcmp(ex, pc, a, ins):
    p, q, n = simp(a[0]), simp(a[1]), simp(a[2])
    if z3.is_bv_value(n):
        k = n.as_long()
        if k == 0:
            return B(0, 32)
        if k <= 64:
            x = ex.load_bv(pc, p, k, 'memcmp')
            y = ex.load_bv(pc, q, k, 'memcmp')
            bx = [z3.Extract(8 * i + 7, 8 * i, x) for i in range(k)]
            by = [z3.Extract(8 * i + 7, 8 * i, y) for i in range(k)]
            X, Y = (z3.Concat(*bx), z3.Concat(*by)) if k > 1 else (bx[0], by[0])
            r = ex.fbv('memcmp', 32)
            ex.assume(pc, And((r == 0) == (X == Y), (r < 0) == z3.ULT(X, Y)))
            return r
    rp = ex.mem_ob(pc, p, n, False, 'memcmp arg 1')
    rq = ex.mem_ob(pc, q, n, False, 'memcmp arg 2')
    pos = len(ex.writes)
    if rp is None or rq is None:
        r = ex.fbv('memcmp', 32)
        ex.assume(pc, Implies(n == 0, r == 0))
        return r

    def at(b, regs, i):
        return ex.read(simp(b + i), 1, regs, pos, None)
    r = ex.fbv('memcmp', 32)
    d = ex.fbv('memcmp_diff', 64)
    ex.add_term('idx', d)
    ex.assume(pc, Implies(r != 0, And(z3.ULT(d, n), at(p, rp, d) != at(q, rq, d),
                                      (r < 0) == z3.ULT(at(p, rp, d), at(q, rq, d)))))
    ex.forall('idx', lambda i: Implies(And(z3.ULT(i, n), Or(r == 0, z3.ULT(i, d))), at(p, rp, i) == at(q, rq, i)), pc)
    return r


def c_bcmp(ex, pc, a, ins):
    return c_memcmp(ex, pc, a, ins)


def c_malloc(ex, pc, a, ins):
    n = simp(a[0])
    r = ex.region(ex.fresh_name('heap'), n, 4)
    for o in ex.objs:
        ex.disjoint(o, r)
    ex.objs.append(r)
    return r.base


def c_new(ex, pc, a, ins):
    return c_malloc(ex, pc, a, ins)


def c_nop(ex, pc, a, ins):
    return None


def c_ret0(ex, pc, a, ins):
    return a[0]


def c_throw(ex, pc, a, ins):
    nm = '?'
    for g, r in ex.globals_.items():
        if r.base.eq(simp(a[1])):
            nm = ex.dem(g).replace('typeinfo for ', '').lstrip('@')
    return (None, [(TRUE, nm, None)])


def c_memcpy(ex, pc, a, ins):
    ex.memcpy(pc, a[0], a[1], a[2], ins.text)
    return a[0]


def c_memset(ex, pc, a, ins):
    ex.memset(pc, a[0], z3.Extract(7, 0, a[1]), a[2], ins.text)
    return a[0]


def c_strlen(ex, pc, a, ins):
    p = simp(a[0])
    regs = ex.prov(p)
    if not regs or len(regs) != 1:
        raise VCError('strlen')
    r = ex.regions[next(iter(regs))]
    n = ex.fbv('strlen')
    pos = len(ex.writes)
    ex.oblige(pc, TRUE, 'strlen')
    # the terminator is inside of the object (precondition of strlen is assumed)
    ex.assume(pc, r.inbounds(p + n, 1))
    ex.assume(pc, z3.ULT(n, r.size))
    ex.assume(pc, ex.read(simp(p + n), 1, regs, pos, None) == 0)
    ex.forall('idx', lambda i: Implies(z3.ULT(i, n), ex.read(simp(p + i), 1, regs, pos, None) != 0), pc)
    ex.add_term('idx', n)
    return n


def install(ex):
    ex.exc_ids = {}
    ex.all_excs = []
    ex.inputs = []
    ex.marks = {}
    ex.covers = []
    ex.objs = []
    ex.n_asserts = 0
    c = ex.contracts
    c['@vc_assume'] = h_assume
    c['@vc_assert'] = h_assert
    c['@vc_cover'] = h_cover
    for n, b in (('u64', 64), ('u32', 32), ('u16', 16), ('u8', 8), ('bool', 1)):
        c['@nd_' + n] = nd(b)
    c['@nd_f64'] = nd_fp(z3.Float64(), 64)
    c['@nd_f32'] = nd_fp(z3.Float32(), 32)
    c['@nd_buf'] = h_buf
    c['@vc_caught'] = h_caught
    c['@vc_exc'] = h_exc
    c['@vc_inside'] = h_inside
    c['@vc_havoc'] = h_havoc
    c['@vc_mark'] = h_mark
    c['@vc_name'] = h_name
    c['@vc_opaque'] = c_nop
    c[re.compile(r'^fptu::raise_bug\(')] = lambda ex, pc, a, ins: (None, [(TRUE, 'bug', None)])
    c['@memcmp'] = c_memcmp
    c['@bcmp'] = c_bcmp
    c['@malloc'] = c_malloc
    c['@free'] = c_nop
    c['@_Znwm'] = c_new
    c['@_Znam'] = c_new
    c['@_ZdlPv'] = c_nop
    c['@_ZdaPv'] = c_nop
    c['@_ZdlPvm'] = c_nop
    c['@memcpy'] = c_memcpy
    c['@memmove'] = c_memcpy
    c['@memset'] = c_memset
    c['@strlen'] = c_strlen
    c['@__cxa_begin_catch'] = c_nop
    c['@__cxa_end_catch'] = c_nop
    c['@__cxa_allocate_exception'] = c_malloc
    c['@__cxa_free_exception'] = c_nop
    c['@__cxa_throw'] = c_throw
    c['@__cxa_guard_acquire'] = lambda ex, pc, a, ins: B(0, 32)
    c[re.compile(r'^std::(runtime_error|logic_error|invalid_argument|length_error|domain_error|range_error|out_of_range|bad_\w+|exception)::')] = c_nop


VOCAB = re.compile(r'^(vc_|nd_|__cxa_|operator (new|delete))')
