"""Verification-condition generator: executes one function of an LLVM module
symbolically over its acyclic (loop-cut) control flow graph, building guarded
z3 terms, and collects proof obligations.

 * integers are bit-vectors of their machine width (no mathematical integers),
 * memory is flat and byte addressed: an uninterpreted initial memory plus the
   ordered list of guarded writes (store/memcpy/memset/havoc); every access
   carries an in-bounds obligation for the region(s) its address derives from,
 * calls are replaced by the callee's contract when one is registered,
   otherwise the callee's body is executed in place,
 * loops are cut at their header: invariants are checked on entry and on every
   back edge and assumed for an arbitrary iteration (see LoopCut), or, when a
   spec asks for it, unrolled with a completeness obligation.
"""
import re
import subprocess
import z3
import narrow
from llir import (IRError, Type, size_of, align_of, field_offset, itype, PTR)

z3.set_param('model.compact', False)


class VCError(Exception):
    """the code is outside the reach of the generator: an ERROR, not a verdict"""


def B(v, n=64):
    return z3.BitVecVal(v, n)


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            x = z3.BoolVal(x)
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return FALSE
        ys.append(x)
    if not ys:
        return TRUE
    if len(ys) == 1:
        return ys[0]
    return z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            x = z3.BoolVal(x)
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return TRUE
        ys.append(x)
    if not ys:
        return FALSE
    if len(ys) == 1:
        return ys[0]
    return z3.Or(*ys)


def Not(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, list):
        return [ite(c, x, y) for x, y in zip(a, b)]
    if a is b or a.eq(b):
        return a
    return z3.If(c, a, b)


def tobv(v):
    """i1 Bool -> BV1"""
    if z3.is_bool(v):
        if z3.is_true(v):
            return B(1, 1)
        if z3.is_false(v):
            return B(0, 1)
        return z3.If(v, B(1, 1), B(0, 1))
    return v


def simp(e):
    return z3.simplify(e)


_tz_cache = {}
NARROW = [False]


def tz(e):
    """conservative number of known trailing zero bits"""
    k = e.get_id()
    if k in _tz_cache:
        return _tz_cache[k][0]
    r = 0
    if z3.is_bv_value(e):
        v = e.as_long()
        if v == 0:
            r = e.size()
        else:
            r = (v & -v).bit_length() - 1
    elif z3.is_app(e):
        d = e.decl().kind()
        ch = e.children()
        if d in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
            r = min(tz(c) for c in ch)
        elif d == z3.Z3_OP_BMUL:
            r = min(e.size(), sum(tz(c) for c in ch))
        elif d == z3.Z3_OP_BAND:
            r = max(tz(c) for c in ch)
        elif d == z3.Z3_OP_BNEG:
            r = tz(ch[0])
        elif d == z3.Z3_OP_BSHL:
            if z3.is_bv_value(ch[1]):
                r = min(e.size(), tz(ch[0]) + ch[1].as_long())
            else:
                r = tz(ch[0])
        elif d == z3.Z3_OP_CONCAT:
            r = 0
            for c in reversed(ch):
                t = tz(c)
                r += t
                if t < c.size():
                    break
        elif d == z3.Z3_OP_ITE:
            r = min(tz(ch[1]), tz(ch[2]))
        elif d in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
            t = tz(ch[0])
            r = t if t < ch[0].size() else e.size()
        elif d == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            t = tz(ch[0])
            r = max(0, min(t - lo, hi - lo + 1))
        elif d == z3.Z3_OP_UNINTERPRETED and not ch:
            r = ALIGN.get(k, (0,))[0]
    _tz_cache[k] = (r, e)
    return r


ALIGN = {}  # id -> (trailing zeros, expr)


class Region:
    def __init__(self, name, base, size, align=1, writable=True, const_bytes=None):
        self.name = name
        self.base = base
        self.size = size if not isinstance(size, int) else B(size)
        self.writable = writable
        self.const_bytes = const_bytes
        self.const_elem = None

    def inbounds(self, addr, n):
        """n: int or BV64"""
        if isinstance(n, int):
            n = B(n)
        off = simp(addr - self.base)
        if NARROW[0]:
            iv, sz = narrow.interval(off), narrow.interval(self.size)
            if iv and sz and z3.is_bv_value(n) and n.as_long() < 64 and -(1 << 23) < iv[0] and iv[1] < 1 << 23 and 0 <= sz[0] and sz[1] < 1 << 23:
                o, z = narrow.trunc(off, 25), narrow.trunc(self.size, 25)
                return And(o >= 0, o + n.as_long() <= z)
        return And(z3.ULE(n, self.size), z3.ULE(off, self.size - n))


class PC:
    __slots__ = ('e', 'anc', 'id')
    _n = 0

    def __init__(self, e, anc):
        PC._n += 1
        self.id = PC._n
        self.e = e
        self.anc = anc | {self.id}

    def implied(self, other):
        """is `other` (a PC) certainly true whenever self is"""
        return other.id in self.anc


class W:
    __slots__ = ('kind', 'pc', 'addr', 'n', 'val', 'regs', 'pos', 'src')

    def __init__(self, kind, pc, addr, n, val, regs, src=None):
        self.kind = kind
        self.pc = pc
        self.addr = addr
        self.n = n
        self.val = val
        self.regs = regs
        self.src = src


class Obligation:
    __slots__ = ('name', 'kind', 'goal', 'seq', 'where', 'act')

    def __init__(self, name, kind, goal, seq, where=''):
        self.name = name
        self.kind = kind
        self.goal = goal
        self.seq = seq
        self.where = where


class Outcome:
    def __init__(self, pc, kind, val, exc=None, excval=None):
        self.pc = pc       # z3 Bool
        self.kind = kind   # 'ret' | 'throw'
        self.val = val
        self.exc = exc
        self.excval = excval


def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(n.lstrip('@') for n in names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))


class Exec:
    def __init__(self, mod, prefix=''):
        self.mod = mod
        self.n = 0
        self.prefix = prefix
        self._memr = {}
        self.writes = []
        self.regions = {}
        self.base2reg = {}
        self._prov = {}
        self.assumptions = []   # (seq, z3 bool)
        self.foralls = []       # (seq, tag, fn(x)->Bool)
        self.pool = {}          # tag -> {id: expr}
        self.obligations = []
        self.seq = 0
        self.contracts = {}
        self.narrow = False
        self.prune_more = None
        self.prune = 0  # ms for the question whether a branch is feasible
        self.loop_specs = {}    # callable(fn, header, ctx) -> LoopSpec
        self.top = PC(TRUE, frozenset())
        self.depth = 0
        self.globals_ = {}
        self.fn_stack = []
        self.on_load = None
        self.demangled = {}
        self.executed = {}      # function names whose bodies were translated
        self.contract_used = {}
        self.unroll = {}
        self.check_mem = True
        self.dem_cache = {}
        self.undef_n = 0
        self.loopcuts = []
        self.max_depth = 60
        self.keep = []          # keep exprs alive (ids)
        self.unreach_ob = True
        self.uses_fp = False
        self.private = {}       # obligation seq -> [(tag, skolem)]
        self.splits = []        # case distinctions at joins: [[edge condition]]

    # ------------------------------------------------------------- misc
    def fresh_name(self, hint):
        self.n += 1
        return '%s%s!%d' % (self.prefix, hint, self.n)

    def fresh(self, hint, ty):
        if ty.k == 'i':
            if ty.n == 1:
                return z3.Bool(self.fresh_name(hint))
            return z3.BitVec(self.fresh_name(hint), ty.n)
        if ty.k == 'ptr':
            return z3.BitVec(self.fresh_name(hint), 64)
        if ty.k == 'double':
            return z3.FP(self.fresh_name(hint), z3.Float64())
        if ty.k == 'float':
            return z3.FP(self.fresh_name(hint), z3.Float32())
        if ty.k == 'vec' or ty.k == 'arr':
            return [self.fresh(hint, ty.t) for _ in range(ty.n)]
        if ty.k == 'struct':
            return [self.fresh(hint, x) for x in ty.t]
        raise VCError('fresh %r' % ty)

    def fbv(self, hint, n=64, align=0):
        v = z3.BitVec(self.fresh_name(hint), n)
        if align:
            ALIGN[v.get_id()] = (align, v)
            self.keep.append(v)
        return v

    def region(self, name, size, align_bits=3, writable=True):
        base = self.fbv('&' + name, 64, align_bits)
        r = Region(name, base, size, writable=writable)
        self.regions[name] = r
        self.base2reg[base.get_id()] = name
        self.keep.append(base)
        # a C++ object: non-null, does not wrap around
        self.assume(self.top, z3.UGE(base, B(0x10000)))
        self.assume(self.top, z3.ULE(base, B(1 << 46)))
        self.assume(self.top, z3.ULE(r.size, B(1 << 40)))
        if align_bits:
            self.assume(self.top, z3.Extract(align_bits - 1, 0, base) == 0)
        return r

    def disjoint(self, a, b):
        self.assume(self.top, Or(z3.ULE(a.base + a.size, b.base), z3.ULE(b.base + b.size, a.base)))

    def set_prov(self, e, regs):
        self._prov[e.get_id()] = (frozenset(regs), e)

    def prov(self, e):
        k = e.get_id()
        if k in self._prov:
            return self._prov[k][0]
        r = None
        if k in self.base2reg:
            r = frozenset([self.base2reg[k]])
        elif z3.is_bv_value(e):
            r = frozenset()
        elif z3.is_app(e):
            d = e.decl().kind()
            ch = e.children()
            if d in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BAND, z3.Z3_OP_BOR):
                got = None
                for c in ch:
                    p = self.prov(c)
                    if p is not None and p:
                        got = (got or frozenset()) | p
                r = got
            elif d == z3.Z3_OP_ITE:
                p1 = self.prov(ch[1])
                p2 = self.prov(ch[2])
                if p1 is not None and p2 is not None:
                    r = p1 | p2
            elif d == z3.Z3_OP_CONCAT:
                if all(c.num_args() == 1 and 'm0[' in c.decl().name() and 'alloca' in c.decl().name() for c in ch):
                    r = frozenset()     # never written local memory: no object
                # align-down: concat(extract(hi..k, p), 0)
                elif all(z3.is_bv_value(c) for c in ch[1:]) and ch[0].decl().kind() == z3.Z3_OP_EXTRACT:
                    r = self.prov(ch[0].arg(0))
            elif d == z3.Z3_OP_EXTRACT:
                pass
        self._prov[k] = (r, e)
        return r

    def assume(self, pc, fact):
        self.seq += 1
        e = pc.e if isinstance(pc, PC) else pc
        f = Implies(e, fact)
        if not z3.is_true(f):
            self.assumptions.append((self.seq, f))

    def forall(self, tag, fn, pc=None):
        """universally quantified fact, instantiated at the pool of terms `tag`"""
        self.seq += 1
        g = TRUE if pc is None else (pc.e if isinstance(pc, PC) else pc)
        self.foralls.append((self.seq, tag, (lambda x, g=g, fn=fn: Implies(g, fn(x)))))

    def add_term(self, tag, e):
        self.pool.setdefault(tag, {})[e.get_id()] = e

    def oblige(self, pc, cond, name, kind='post', where=''):
        self.seq += 1
        e = pc.e if isinstance(pc, PC) else pc
        g = Implies(e, cond)
        if z3.is_true(g):
            return
        self.obligations.append(Obligation(name, kind, g, self.seq,
                                           where or (self.fn_stack[-1] if self.fn_stack else '')))

    # ----------------------------------------------------------- memory
    def mem_ob(self, pc, addr, n, write, what):
        regs = self.prov(addr)
        if not regs and z3.is_bv_value(simp(addr)) and simp(addr).as_long() < 4096:
            # a null pointer: the access must be unreachable
            self.oblige(pc, FALSE if isinstance(n, int) else n == 0, 'mem: no access through null: %s' % what.strip()[:90], 'mem')
            return None
        if regs is None or not regs:
            raise VCError('memory access through a pointer of unknown provenance: %s (%s) addr=%s' % (
                what, self.fn_stack[-1] if self.fn_stack else '?', str(simp(addr))[:300]))
        if self.check_mem and not (getattr(self, 'ghost', None) and self.fn_stack and self.ghost.search(self.dem(self.fn_stack[-1]))):
            c = Or(*[self.regions[r].inbounds(addr, n) for r in sorted(regs)
                     if (self.regions[r].writable or not write)])
            if not isinstance(n, int):
                c = Or(n == 0, c)
            self.oblige(pc, c, 'mem: %s' % what.strip()[:110], 'mem')
        return regs

    def infeasible(self, pc, c):
        """the solver shows (at once) that c cannot be under pc"""
        if not hasattr(self, '_ps'):
            self._ps = z3.Solver()
            self._ps.set('timeout', self.prune)
            self._pn = 0
        s = self._ps
        while self._pn < len(self.assumptions):
            s.add(self.assumptions[self._pn][1])
            self._pn += 1
        s.push()
        s.add(pc.e, c)
        r = s.check()
        txt = s.to_smt2() if r == z3.unknown and self.prune_more else None
        s.pop()
        if txt:
            return self.prune_more(txt) == 'unsat'
        return r == z3.unsat

    def strip_null(self, a):
        """the address without the null alternatives (an access there is excluded by its own obligation)"""
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            c, x, y = a.children()
            if z3.is_bv_value(x) and x.as_long() < 4096:
                return self.strip_null(y)
            if z3.is_bv_value(y) and y.as_long() < 4096:
                return self.strip_null(x)
            return z3.If(c, self.strip_null(x), self.strip_null(y))
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_BADD:
            return simp(z3.Sum([self.strip_null(x) for x in a.children()]))
        return a

    def store_bv(self, pc, addr, val, what='store'):
        addr = simp(addr)
        n = val.size() // 8
        regs = self.mem_ob(pc, addr, n, True, what)
        if regs is None:
            return
        if self.narrow:
            addr = self.strip_null(addr)
        self.writes.append(W('st', pc, addr, n, val, regs))

    def load_bv(self, pc, addr, n, what='load', ob=True, pos=None):
        addr = simp(addr)
        if ob:
            regs = self.mem_ob(pc, addr, n, False, what)
            if regs is None:
                return z3.BitVec(self.fresh_name('null_read'), 8 * n)
        else:
            regs = self.prov(addr)
            if regs is None:
                raise VCError('read of unknown provenance ' + str(addr)[:200])
        if self.on_load and ob:
            self.on_load(self, addr, n, regs)
        if self.narrow:
            addr = self.strip_null(addr)
        return self.read(addr, n, regs, len(self.writes) if pos is None else pos, pc)

    def const_read(self, reg, addr, n):
        off = simp(addr - reg.base)
        cb = reg.const_bytes
        if z3.is_bv_value(off):
            o = off.as_long()
            if o + n > len(cb):
                return None
            return B(int.from_bytes(cb[o:o + n], 'little'), 8 * n)
        if any(not isinstance(x, int) for x in cb):
            return None
        # symbolic index: element-wise selection
        t = tz(off)
        step = 1
        while step * 2 <= n and (1 << t) >= step * 2:
            step *= 2
        if (1 << t) < n:
            step = 1
        else:
            step = 1 << t
        res = None
        last = None
        groups = {}
        for o in range(0, len(cb) - n + 1, step):
            v = int.from_bytes(bytes(cb[o:o + n]), 'little')
            groups.setdefault(v, []).append(o)
        items = sorted(groups.items(), key=lambda kv: -len(kv[1]))
        res = B(items[0][0], 8 * n)
        for v, offs in items[1:]:
            res = z3.If(Or(*[off == B(o) for o in offs]), B(v, 8 * n), res)
        return res

    def read(self, addr, n, regs, pos, pc=None):
        """BV(8n) read at `addr` from the memory state before write #pos"""
        if len(regs) == 1:
            r = self.regions[next(iter(regs))]
            if r.const_bytes is not None:
                v = self.const_read(r, addr, n)
                if v is not None:
                    return v
        # find start: last definite full overwrite
        rel = []
        start = None
        for i in range(pos - 1, -1, -1):
            w = self.writes[i]
            if w.regs is not None and not (w.regs & regs):
                continue
            if w.kind == 'st':
                d = simp(addr - w.addr)
                if z3.is_bv_value(d):
                    dv = d.as_long()
                    if dv >= 1 << 63:
                        dv -= 1 << 64
                    if dv >= w.n or -dv >= n:
                        continue
                    if dv == 0 and w.n >= n or (dv >= 0 and dv + n <= w.n):
                        definite = pc is not None and pc.implied(w.pc) or z3.is_true(w.pc.e)
                        if definite:
                            start = (w, dv)
                            break
                    rel.append((w, dv))
                    continue
                if self.narrow:
                    # only some distances are possible: [(distance, condition)]
                    iv = narrow.interval(d)
                    if iv is not None and iv[0] > -(1 << 23) and iv[1] < 1 << 23:
                        if iv[0] >= w.n or iv[1] <= -n:
                            continue
                        lb = narrow.lowbits(d, 2)
                        nd = narrow.trunc(d, 24)
                        cs = [(c, simp(nd == z3.BitVecVal(c & 0xffffff, 24))) for c in range(1 - n, w.n)
                              if iv[0] <= c <= iv[1] and (lb is None or c & 3 == lb)]
                        cs = [x for x in cs if not z3.is_false(x[1])]
                        if cs:
                            rel.append((w, cs))
                        continue
                rel.append((w, d))
            else:
                rel.append((w, None))
        if start is not None:
            w, dv = start
            v = w.val
            if w.n != n:
                v = z3.Extract(8 * (dv + n) - 1, 8 * dv, v)
            res = simp(v) if w.n != n else v
        else:
            res = self.read0(addr, n, regs)
        whole = True
        bytes_ = None

        def tobytes():
            nonlocal bytes_, whole
            if whole:
                bytes_ = [z3.Extract(8 * i + 7, 8 * i, res) if n > 1 else res for i in range(n)]
                whole = False

        for w, d in reversed(rel):
            g = w.pc.e
            if pc is not None and pc.implied(w.pc):
                g = TRUE
            if w.kind == 'st' and isinstance(d, list):
                for c, cond in d:
                    if c >= 0 and c + n <= w.n and whole:
                        res = ite(And(g, cond), w.val if w.n == n else z3.Extract(8 * (c + n) - 1, 8 * c, w.val), res)
                        continue
                    tobytes()
                    for i in range(n):
                        if 0 <= i + c < w.n:
                            bytes_[i] = ite(And(g, cond), z3.Extract(8 * (i + c) + 7, 8 * (i + c), w.val), bytes_[i])
                continue
            if w.kind == 'st':
                if isinstance(d, int):
                    if d >= 0 and d + n <= w.n:
                        v = w.val if w.n == n else z3.Extract(8 * (d + n) - 1, 8 * d, w.val)
                        if whole:
                            res = ite(g, v, res)
                        else:
                            for i in range(n):
                                bytes_[i] = ite(g, z3.Extract(8 * i + 7, 8 * i, v), bytes_[i])
                    else:
                        tobytes()
                        for i in range(n):
                            j = i + d
                            if 0 <= j < w.n:
                                bytes_[i] = ite(g, z3.Extract(8 * j + 7, 8 * j, w.val), bytes_[i])
                    continue
                al = min(tz(addr), tz(w.addr), 16)
                if w.n == n and (1 << al) >= n:
                    c = And(g, addr == w.addr)
                    if whole:
                        res = ite(c, w.val, res)
                    else:
                        for i in range(n):
                            bytes_[i] = ite(c, z3.Extract(8 * i + 7, 8 * i, w.val), bytes_[i])
                elif n < w.n and (1 << al) >= n and w.n % n == 0 and whole:
                    for j in range(w.n // n):
                        res = ite(And(g, d == B(j * n)), z3.Extract(8 * (j + 1) * n - 1, 8 * j * n, w.val), res)
                elif n > w.n and (1 << al) >= w.n and n % w.n == 0:
                    tobytes()
                    for j in range(n // w.n):
                        c = And(g, d == B(-(j * w.n) & ((1 << 64) - 1)))
                        for q in range(w.n):
                            i = j * w.n + q
                            bytes_[i] = ite(c, z3.Extract(8 * q + 7, 8 * q, w.val), bytes_[i])
                else:
                    tobytes()
                    for i in range(n):
                        for q in range(w.n):
                            c = And(g, d + B(i) == B(q))
                            bytes_[i] = ite(c, z3.Extract(8 * q + 7, 8 * q, w.val), bytes_[i])
                continue
            # region-wide writes: memcpy / memset / havoc
            src, hit_fn = self.region_write_reader(w, regs)
            # try word-wise when aligned
            if whole and w.kind in ('cpy', 'set', 'hav') and n > 1:
                h0 = hit_fn(addr, n)
                if h0 is not None:
                    res = ite(And(g, h0), src(addr, n), res)
                    continue
            tobytes()
            for i in range(n):
                a = simp(addr + B(i))
                h = hit_fn(a, 1)
                bytes_[i] = ite(And(g, h), src(a, 1), bytes_[i])
        if not whole:
            if n == 1:
                return bytes_[0]
            return z3.Concat(*reversed(bytes_))
        return res

    def region_write_reader(self, w, regs):
        if w.kind == 'hav':
            uf, pred, gran = w.val

            def src(a, n):
                return z3.Concat(*[uf(simp(a + B(i))) for i in reversed(range(n))]) if n > 1 else uf(a)

            def hit(a, n):
                if n == 1:
                    return pred(a)
                if (1 << tz(a)) >= n and gran >= n:
                    return pred(a)
                return None
            return src, hit

        dst, ln = w.addr, w.n

        def src(a, n):
            if w.kind == 'set':
                return z3.Concat(*[w.val] * n) if n > 1 else w.val
            s = simp(w.src + (a - dst))
            return self.read(s, n, self.prov_cpy(w), w.pos)

        def hit(a, n):
            d = simp(a - dst)
            if n == 1:
                return z3.ULT(d, ln)
            # whole-word: valid when the range is a multiple of n and aligned
            if (1 << min(tz(a), tz(dst), 16)) >= n and (1 << min(tz(ln), 16)) >= n:
                return z3.ULT(d, ln)
            return None
        return src, hit

    def prov_cpy(self, w):
        return w.val

    def memr(self, rname):
        """initial contents of a region, by offset"""
        f = self._memr.get(rname)
        if f is None:
            f = self._memr[rname] = z3.Function('%sm0[%s]' % (self.prefix, rname), z3.BitVecSort(64), z3.BitVecSort(8))
        return f

    def read0(self, addr, n, regs):
        rs = sorted(regs)
        res = None
        for r in reversed(rs):
            R = self.regions[r]
            f = self.memr(r)
            off = simp(addr - R.base) if self.narrow else None
            iv = narrow.interval(off) if self.narrow else None
            lb = narrow.lowbits(off, 2) if self.narrow else None
            if iv is not None and -(1 << 23) < iv[0] and iv[1] < 1 << 23 and lb is not None and lb + n <= 4:
                # a region of 32-bit words
                word = z3.Function('word_' + r, z3.BitVecSort(22), z3.BitVecSort(32))
                idx = simp(z3.Extract(23, 2, narrow.trunc(off, 24)))
                v = word(idx)
                if n < 4:
                    v = z3.Extract(8 * (lb + n) - 1, 8 * lb, v)
            elif self.narrow:
                word = z3.Function('word_' + r, z3.BitVecSort(22), z3.BitVecSort(32))

                def byte(i):
                    o = narrow.trunc(simp(off + B(i)), 24)
                    w = word(simp(z3.Extract(23, 2, o)))
                    l = simp(z3.Extract(1, 0, o))
                    r = z3.Extract(31, 24, w)
                    for k in (2, 1, 0):
                        r = ite(l == k, z3.Extract(8 * k + 7, 8 * k, w), r)
                    return r
                v = byte(0) if n == 1 else z3.Concat(*[byte(i) for i in reversed(range(n))])
            elif n == 1:
                v = f(simp(addr - R.base))
            else:
                v = z3.Concat(*[f(simp(addr + B(i) - R.base)) for i in reversed(range(n))])
            if R.const_bytes is not None:
                c = self.const_read(R, addr, n)
                if c is not None:
                    v = c
            res = v if res is None else ite(R.inbounds(addr, n), v, res)
        return res

    def memcpy(self, pc, dst, src, ln, what='memcpy'):
        dst = simp(dst)
        src = simp(src)
        ln = simp(ln)
        if z3.is_bv_value(ln):
            n = ln.as_long()
            if n == 0:
                return
            if n <= 64:
                v = self.load_bv(pc, src, n, what + ' (src)')
                self.store_bv(pc, dst, v, what + ' (dst)')
                return
        sregs = self.mem_ob(pc, src, ln, False, what + ' (src)')
        dregs = self.mem_ob(pc, dst, ln, True, what + ' (dst)')
        w = W('cpy', pc, dst, ln, sregs, dregs, src)
        w.pos = len(self.writes)
        self.writes.append(w)

    def memset(self, pc, dst, val, ln, what='memset'):
        dst = simp(dst)
        ln = simp(ln)
        if z3.is_bv_value(ln):
            n = ln.as_long()
            if n == 0:
                return
            if n <= 64:
                v = z3.Concat(*[val] * n) if n > 1 else val
                self.store_bv(pc, dst, simp(v), what)
                return
        dregs = self.mem_ob(pc, dst, ln, True, what)
        self.writes.append(W('set', pc, dst, ln, val, dregs))

    def havoc(self, pc, regs, pred, gran=1):
        uf = z3.Function(self.fresh_name('hav'), z3.BitVecSort(64), z3.BitVecSort(8))
        self.writes.append(W('hav', pc, None, None, (uf, pred, gran), frozenset(regs)))
        return uf

    # --------------------------------------------------- typed load/store
    def load(self, pc, ty, addr, what):
        if ty.k in ('arr', 'struct'):
            out = []
            for i in range(ty.n if ty.k == 'arr' else len(ty.t)):
                et = ty.t if ty.k == 'arr' else ty.t[i]
                off = i * size_of(et) if ty.k == 'arr' else field_offset(ty, i)
                out.append(self.load(pc, et, addr + B(off), what))
            return out
        if ty.k == 'vec':
            s = size_of(ty)
            v = self.load_bv(pc, addr, s, what)
            return self.bv2val(v, ty)
        n = size_of(ty)
        v = self.load_bv(pc, addr, n, what)
        return self.bv2val(v, ty)

    def bv2val(self, v, ty):
        if ty.k == 'i':
            if ty.n == 1:
                return z3.Extract(0, 0, v) == B(1, 1)
            if ty.n < v.size():
                return z3.Extract(ty.n - 1, 0, v)
            return v
        if ty.k == 'ptr':
            return v
        if ty.k == 'double':
            return z3.fpBVToFP(v, z3.Float64())
        if ty.k == 'float':
            return z3.fpBVToFP(v, z3.Float32())
        if ty.k == 'vec':
            e = ty.t.n if ty.t.k == 'i' else size_of(ty.t) * 8
            return [self.bv2val(simp(z3.Extract((i + 1) * e - 1, i * e, v)) if ty.n > 1 else v, ty.t) for i in range(ty.n)]
        raise VCError('bv2val %r' % ty)

    def val2bv(self, v, ty):
        if ty.k == 'i':
            if ty.n == 1:
                return z3.ZeroExt(7, tobv(v))
            s = size_of(ty) * 8
            return z3.ZeroExt(s - ty.n, v) if s > ty.n else v
        if ty.k == 'ptr':
            return v
        if ty.k in ('double', 'float'):
            return self.fp2bv(v)
        if ty.k == 'vec':
            if ty.t.k == 'i' and ty.t.n == 1:
                parts = [tobv(x) for x in v]
            else:
                parts = [self.val2bv(x, ty.t) for x in v]
            return z3.Concat(*reversed(parts)) if len(parts) > 1 else parts[0]
        raise VCError('val2bv %r' % ty)

    def fp2bv(self, v):
        # z3's fpToIEEEBV maps every NaN to one value: keep bit patterns exact
        # when the value comes straight from bits
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_FPA_TO_FP and v.num_args() == 1 and z3.is_bv(v.arg(0)):
            return v.arg(0)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            return ite(v.arg(0), self.fp2bv(v.arg(1)), self.fp2bv(v.arg(2)))
        return z3.fpToIEEEBV(v)

    def store(self, pc, ty, v, addr, what):
        if ty.k in ('arr', 'struct'):
            for i in range(ty.n if ty.k == 'arr' else len(ty.t)):
                et = ty.t if ty.k == 'arr' else ty.t[i]
                off = i * size_of(et) if ty.k == 'arr' else field_offset(ty, i)
                self.store(pc, et, v[i], addr + B(off), what)
            return
        self.store_bv(pc, addr, self.val2bv(v, ty), what)

    # -------------------------------------------------------- constants
    def global_addr(self, name):
        name = self.mod.aliases.get(name, name)
        if name in self.globals_:
            return self.globals_[name].base
        g = self.mod.globals.get(name)
        if g is None:
            # function or unknown symbol
            r = self.region('G:' + name, 0, 3)
            self.globals_[name] = r
            return r.base
        size = size_of(g.ty) if g.ty is not None else 0
        r = self.region('G:' + name, size, min(4, max(0, (align_of(g.ty) if g.ty else 1).bit_length() - 1)), writable=not g.const)
        self.globals_[name] = r
        if g.const and g.init is not None:
            try:
                cb = self.const_bytes(g.ty, g.init)
                r.const_bytes = cb
            except VCError:
                pass
        return r.base

    def const_bytes(self, ty, v):
        if v[0] == 'zero':
            return bytes(size_of(ty))
        if v[0] == 'bytes':
            return v[1]
        if v[0] == 'c' and ty.k == 'i':
            return (v[1] & ((1 << (8 * size_of(ty))) - 1)).to_bytes(size_of(ty), 'little')
        if v[0] == 'f':
            x = simp(self.fp2bv(self.fconst(v[1], ty)))
            return x.as_long().to_bytes(size_of(ty), 'little')
        if v[0] == 'agg':
            out = bytearray(size_of(ty))
            for i, (t, x) in enumerate(v[1]):
                off = i * size_of(t) if ty.k in ('arr', 'vec') else field_offset(ty, i)
                b = self.const_bytes(t, x)
                out[off:off + len(b)] = b
            return bytes(out)
        raise VCError('const_bytes %r' % (v,))

    def fconst(self, s, ty):
        import struct
        if s.startswith('0x'):
            if s[2] in 'KLMHR':
                raise VCError('fp const ' + s)
            bits = int(s, 16)
            d = struct.unpack('<d', struct.pack('<Q', bits))[0]
            if ty.k == 'double':
                return z3.fpBVToFP(B(bits, 64), z3.Float64())
        else:
            d = float(s)
            if ty.k == 'double':
                return z3.fpBVToFP(B(struct.unpack('<Q', struct.pack('<d', d))[0], 64), z3.Float64())
        f = struct.unpack('<I', struct.pack('<f', d))[0]
        return z3.fpBVToFP(B(f, 32), z3.Float32())

    def const(self, ty, v):
        k = v[0]
        if k == 'c':
            if ty.k == 'i':
                if ty.n == 1:
                    return z3.BoolVal(bool(v[1] & 1))
                return B(v[1], ty.n)
            if ty.k == 'ptr':
                return B(v[1])
            raise VCError('const %r' % (v,))
        if k == 'f':
            return self.fconst(v[1], ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'undef':
            return self.undef(ty)
        if k == 'g':
            return self.global_addr(v[1])
        if k == 'bytes':
            return [B(x, 8) for x in v[1]]
        if k == 'agg':
            return [self.const(t, x) for t, x in v[1]]
        if k == 'cgep':
            return self.gep(v[1], [(t, self.const(t, x)) for t, x in v[2]])
        if k == 'ccast':
            a = self.const(v[2][0], v[2][1])
            return self.cast(v[1], v[2][0], a, v[3])
        if k == 'cbin':
            return self.binop(v[1], v[2][0], self.const(*v[2]), self.const(*v[3]), self.top)
        if k == 'cicmp':
            return self.icmp(v[1], v[2][0], self.const(*v[2]), self.const(*v[3]))
        raise VCError('const %r' % (v,))

    def zero(self, ty):
        if ty.k == 'i':
            return FALSE if ty.n == 1 else B(0, ty.n)
        if ty.k == 'ptr':
            return B(0)
        if ty.k in ('double', 'float'):
            s = z3.Float64() if ty.k == 'double' else z3.Float32()
            return z3.fpBVToFP(B(0, 64 if ty.k == 'double' else 32), s)
        if ty.k in ('vec', 'arr'):
            return [self.zero(ty.t) for _ in range(ty.n)]
        if ty.k == 'struct':
            return [self.zero(x) for x in ty.t]
        raise VCError('zero %r' % ty)

    def undef(self, ty):
        return self.fresh('undef', ty)

    # ------------------------------------------------------- operations
    def gep(self, bt, ops):
        addr = ops[0][1]
        t = bt
        off = B(0)

        def sx(tt, v):
            if z3.is_bool(v):
                return z3.SignExt(63, tobv(v))
            if v.size() == 64:
                return v
            return z3.SignExt(64 - v.size(), v)
        for i, (ty, v) in enumerate(ops[1:]):
            if i == 0:
                off = off + sx(ty, v) * B(size_of(t))
            else:
                if t.k == 'struct':
                    idx = simp(v).as_long()
                    off = off + B(field_offset(t, idx))
                    t = t.t[idx]
                else:
                    off = off + sx(ty, v) * B(size_of(t.t))
                    t = t.t
        return simp(addr + off)

    def lanes(self, ty, f, *vs):
        if ty.k == 'vec':
            return [f(ty.t, *xs) for xs in zip(*vs)]
        return f(ty, *vs)

    def binop(self, op, ty, a, b, pc):
        if ty.k == 'vec':
            return [self.binop(op, ty.t, x, y, pc) for x, y in zip(a, b)]
        if ty.k in ('double', 'float'):
            rm = z3.RNE()
            return {'fadd': lambda: z3.fpAdd(rm, a, b), 'fsub': lambda: z3.fpSub(rm, a, b),
                    'fmul': lambda: z3.fpMul(rm, a, b), 'fdiv': lambda: z3.fpDiv(rm, a, b)}[op]()
        if ty.n == 1:
            if op == 'and':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if z3.is_true(b):
                    return Not(a)
                if z3.is_true(a):
                    return Not(b)
                return z3.Xor(a, b)
            if op == 'mul':
                return And(a, b)
            raise VCError('i1 %s' % op)
        if op == 'add':
            return a + b
        if op == 'sub':
            return simp(a - b) if ty.n == 64 else a - b
        if op == 'mul':
            return a * b
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return a << b
        if op == 'lshr':
            return z3.LShR(a, b)
        if op == 'ashr':
            return a >> b
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not z3.is_bv_value(b) or b.as_long() == 0:
                self.oblige(pc, b != 0, 'division by zero', 'ub')
            return {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': (lambda x, y: x / y), 'srem': z3.SRem}[op](a, b)
        raise VCError(op)

    def icmp(self, pred, ty, a, b, pc=None):
        if ty.k == 'ptr' and pred in ('ult', 'ule', 'ugt', 'uge') and pc is not None:
            pa, pb = self.prov(a), self.prov(b)
            if pa and pa == pb and len(pa) == 1:
                # order of pointers into one object == order of their offsets,
                # provided that the pointers do not wrap around
                base = self.regions[next(iter(pa))].base
                oa, ob = simp(a - base), simp(b - base)
                for o in (oa, ob):
                    if not z3.is_bv_value(o):
                        self.oblige(pc, And(o >= B(-0x10000), o <= B(1 << 60)), 'compared pointer stays near its object', 'mem')
                return {'ult': oa < ob, 'ule': oa <= ob, 'ugt': oa > ob, 'uge': oa >= ob}[pred]
        if ty.k == 'vec':
            return [self.icmp(pred, ty.t, x, y) for x, y in zip(a, b)]
        if z3.is_bool(a):
            if pred == 'eq':
                return a == b
            if pred == 'ne':
                return z3.Xor(a, b)
            a, b = tobv(a), tobv(b)
        if pred == 'eq':
            r = a == b
        elif pred == 'ne':
            r = a != b
        else:
            r = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
                 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y,
                 'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[pred](a, b)
        return simp(r) if (z3.is_bv_value(a) or z3.is_bv_value(b)) else r

    def fcmp(self, pred, ty, a, b):
        if ty.k == 'vec':
            return [self.fcmp(pred, ty.t, x, y) for x, y in zip(a, b)]
        if pred == 'true':
            return TRUE
        if pred == 'false':
            return FALSE
        un = Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pred == 'uno':
            return un
        if pred == 'ord':
            return Not(un)
        c = pred[1:]
        r = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ,
             'ne': lambda x, y: z3.Not(z3.fpEQ(x, y))}[c](a, b)
        if pred[0] == 'o':
            return And(Not(un), r) if c == 'ne' else r
        return Or(un, r)

    def cast(self, op, st, v, dt):
        if st.k == 'vec' and op != 'bitcast':
            return [self.cast(op, st.t, x, dt.t) for x in v]
        if op == 'trunc':
            if dt.n == 1:
                return z3.Extract(0, 0, v) == B(1, 1)
            return z3.Extract(dt.n - 1, 0, v)
        if op in ('zext', 'sext'):
            if z3.is_bool(v):
                if z3.is_true(v):
                    return B(1 if op == 'zext' else -1, dt.n)
                if z3.is_false(v):
                    return B(0, dt.n)
                return z3.If(v, B(1 if op == 'zext' else -1, dt.n), B(0, dt.n))
            return (z3.ZeroExt if op == 'zext' else z3.SignExt)(dt.n - v.size(), v)
        if op == 'ptrtoint':
            return v if dt.n == 64 else z3.Extract(dt.n - 1, 0, v)
        if op == 'inttoptr':
            return v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v)
        if op == 'bitcast':
            if st.k == 'ptr':
                return v
            return self.bv2val(self.val2bv(v, st) if not (st.k == 'i' and st.n == 1) else v, dt)
        rm = z3.RNE()
        if op == 'sitofp':
            return z3.fpSignedToFP(rm, v if not z3.is_bool(v) else tobv(v), z3.Float64() if dt.k == 'double' else z3.Float32())
        if op == 'uitofp':
            return z3.fpUnsignedToFP(rm, v if not z3.is_bool(v) else tobv(v), z3.Float64() if dt.k == 'double' else z3.Float32())
        if op == 'fptosi':
            return z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(dt.n))
        if op == 'fptoui':
            return z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(dt.n))
        if op == 'fpext':
            return z3.fpFPToFP(rm, v, z3.Float64())
        if op == 'fptrunc':
            return z3.fpFPToFP(rm, v, z3.Float32())
        raise VCError('cast ' + op)

    # ------------------------------------------------------- functions
    def dem(self, name):
        if name not in self.dem_cache:
            self.dem_cache.update(demangle([name]))
        return self.dem_cache[name]

    def call(self, fname, args, pc=None):
        """execute function body; returns list of Outcomes"""
        pc = pc or self.top
        fn = self.mod.functions.get(self.mod.aliases.get(fname, fname))
        if fn is None:
            raise VCError('no body for ' + fname)
        fn.parse_body(self.mod)
        return FnRun(self, fn, args, pc).run()


def cfg_loops(fn):
    """returns (rpo order, back edges set, headers dict header->set(blocks), idom)"""
    entry = fn.order[0]
    color = {}
    post = []
    back = set()
    stack = [(entry, iter(fn.blocks[entry].succ))]
    color[entry] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color.get(s, 0) == 0:
                color[s] = 1
                stack.append((s, iter(fn.blocks[s].succ)))
                break
            elif color[s] == 1:
                back.add((b, s))
        else:
            color[b] = 2
            post.append(b)
            stack.pop()
    rpo = list(reversed(post))
    loops = {}
    for (t, h) in back:
        body = loops.setdefault(h, {h})
        st = [t]
        while st:
            x = st.pop()
            if x in body:
                continue
            body.add(x)
            st.extend(p for p in fn.blocks[x].pred if p in color)
    # order blocks so that loop bodies precede blocks after the loop: rpo is a
    # valid topological order of the graph without back edges
    return rpo, back, loops


class FnRun:
    def __init__(self, ex, fn, args, pc):
        self.ex = ex
        self.fn = fn
        self.env = {}
        for (t, nm, at), v in zip(fn.params, args):
            self.env[nm] = v
        if len(args) != len(fn.params):
            raise VCError('arity of %s' % fn.name)
        self.pc0 = pc
        self.out = []
        self.excs = {}

    def val(self, ty, v):
        if v[0] == 'l':
            try:
                return self.env[v[1]]
            except KeyError:
                raise VCError('undefined %s in %s' % (v[1], self.fn.name))
        return self.ex.const(ty, v)

    def run(self):
        ex = self.ex
        ex.fn_stack.append(self.fn.name)
        ex.executed[self.fn.name] = ex.executed.get(self.fn.name, 0) + 1
        if len(ex.fn_stack) > ex.max_depth:
            raise VCError('call depth: ' + ' > '.join(ex.fn_stack[-5:]))
        rpo, back, loops = cfg_loops(self.fn)
        self.back = back
        self.loops = loops
        if loops:
            spec = ex.loop_policy(self.fn, loops) if hasattr(ex, 'loop_policy') else None
            for h in loops:
                # reducibility: every entry to the loop goes through header
                for b in loops[h]:
                    if b != h:
                        for p in self.fn.blocks[b].pred:
                            if p not in loops[h] and p in rpo:
                                raise VCError('irreducible loop in ' + self.fn.name)
        self.edge = {}
        self.blockpc = {}
        self.dry_info = {}
        self.cuts = {}
        entry = self.fn.order[0]
        # post-dominance on the acyclic graph for pc sharing
        self.ipd_join = self.joins(rpo, back)
        idx = {b: i for i, b in enumerate(rpo)}
        i = 0
        last = {h: max(idx[x] for x in body if x in idx) for h, body in loops.items() if h in idx}
        self.dry = {}          # header -> info gathered by the dry run
        pending = []           # dry runs under way: (header, end index, snapshot)
        while i <= len(rpo):
            while pending and i > pending[-1][1]:
                h, end, snap = pending.pop()
                info = self.dry_info[h]
                info['writes'] = list(ex.writes[snap['ex']['writes']:])
                self.restore(snap)
                self.dry[h] = info
                i = idx[h]
            if i == len(rpo):
                break
            b = rpo[i]
            i += 1
            blk = self.fn.blocks[b]
            if b == entry:
                pc = self.pc0
            else:
                edges = [self.edge[(p, b)] for p in dict.fromkeys(blk.pred) if (p, b) in self.edge and (p, b) not in back]
                if not edges:
                    continue
                live = [e for e in edges if not z3.is_false(e.e)]
                if not live:
                    continue
                d = self.ipd_join.get(b)
                if len(live) == 1:
                    pc = live[0]
                elif d is not None and d in self.blockpc and not self.lost(d, b):
                    pc = self.blockpc[d]
                else:
                    anc = live[0].anc
                    for e in live[1:]:
                        anc = anc & e.anc
                    pc = PC(Or(*[e.e for e in live]), anc)
            self.blockpc[b] = pc
            if b in loops and b not in self.dry and not any(x[0] == b for x in pending):
                pending.append((b, last[b], self.snapshot()))
                self.dry_info[b] = {'delta': {}, 'writes': []}
                # inner loops are measured anew for every run of the outer one
                for h2 in list(self.dry):
                    if h2 in loops[b]:
                        del self.dry[h2]
            self.run_block(b, blk, pc)
        ex.fn_stack.pop()
        return self.out

    LISTS = ('writes', 'assumptions', 'foralls', 'obligations', 'loopcuts', 'all_excs', 'covers', 'inputs', 'objs')

    def snapshot(self):
        ex = self.ex
        return {'ex': {k: len(getattr(ex, k)) for k in self.LISTS if hasattr(ex, k)}, 'seq': ex.seq,
                'env': dict(self.env), 'edge': dict(self.edge), 'blockpc': dict(self.blockpc), 'out': len(self.out),
                'excs': {k: list(v) for k, v in self.excs.items()}, 'cuts': dict(self.cuts), 'dry': dict(self.dry)}

    def restore(self, s):
        ex = self.ex
        for k, n in s['ex'].items():
            del getattr(ex, k)[n:]
        self.env, self.edge, self.blockpc = s['env'], s['edge'], s['blockpc']
        del self.out[s['out']:]
        self.excs, self.cuts, self.dry = s['excs'], s['cuts'], s['dry']

    def joins(self, rpo, back):
        """block -> dominator whose path condition it shares (single-entry
        single-exit, no abnormal exits in between)"""
        fn = self.fn
        succ = {b: [s for s in fn.blocks[b].succ if (b, s) not in back] for b in rpo}
        has_back = {b for (b, h) in back}
        EXIT = '#exit'
        order = list(reversed(rpo))
        # exits: any block with no acyclic succ, or with back edge or containing calls (may exit through throw)
        pdom = {}
        idx = {b: i for i, b in enumerate(order)}
        # compute postdominator sets via iterative ipdom (DAG -> single pass)
        depth = {EXIT: 0}
        ip = {EXIT: EXIT}

        def common(a, b):
            while a != b:
                if depth[a] > depth[b]:
                    a = ip[a]
                else:
                    b = ip[b]
            return a
        for b in order:
            ss = list(succ[b])
            if not ss or b in has_back or self.may_exit(b):
                ss = ss + [EXIT]
            p = ss[0]
            for s in ss[1:]:
                p = common(p, s)
            ip[b] = p
            depth[b] = depth[p] + 1
        # dominators on DAG
        preds = {b: [p for p in fn.blocks[b].pred if (p, b) not in back and p in succ] for b in rpo}
        idom = {rpo[0]: rpo[0]}
        dd = {rpo[0]: 0}
        for b in rpo[1:]:
            p = preds[b][0]
            for q in preds[b][1:]:
                a, c = p, q
                while a != c:
                    if dd[a] > dd[c]:
                        a = idom[a]
                    else:
                        c = idom[c]
                p = a
            idom[b] = p
            dd[b] = dd[p] + 1
        res = {}
        for b in rpo[1:]:
            if len(preds[b]) > 1:
                d = idom[b]
                # b postdominates d ?
                x = d
                while x != EXIT and x != b:
                    x = ip[x]
                if x == b:
                    res[b] = d
        return res

    def may_exit(self, b):
        for i in self.fn.blocks[b].insts:
            if i.op in ('call', 'invoke'):
                if not i.x['callee'].startswith('@llvm.'):
                    return True
            if i.op == 'unreachable':
                return True
        return False

    def lost(self, d, b):
        return False

    def run_block(self, b, blk, pc):
        ex = self.ex
        insts = blk.insts
        i = 0
        # phis
        phis = []
        while insts[i].op == 'phi':
            phis.append(insts[i])
            i += 1
        if b in self.loops:
            pc = self.enter_loop(b, blk, phis, pc)
        elif phis:
            newv = {}
            for ph in phis:
                newv[ph.res] = self.merge_phi(ph, b)
            self.env.update(newv)
        while i < len(insts):
            ins = insts[i]
            i += 1
            op = ins.op
            if op in ('br', 'switch', 'ret', 'unreachable', 'resume'):
                self.terminator(b, ins, pc)
                return
            if op == 'invoke':
                pc2, exits = self.do_call(ins, pc, b)
                uw = FALSE
                excs = []
                for (c, exc, xv) in exits:
                    uw = Or(uw, c)
                    excs.append((c, exc, xv))
                if not z3.is_false(uw):
                    self.set_edge(b, ins.x['unwind'], PC(And(pc.e, uw), pc.anc))
                    self.excs.setdefault(ins.x['unwind'], []).extend([(And(pc.e, c), e, xv) for c, e, xv in excs])
                self.set_edge(b, ins.x['normal'], pc2)
                return
            if op == 'call':
                pc2, exits = self.do_call(ins, pc, b)
                for (c, exc, xv) in exits:
                    self.out.append(Outcome(And(pc.e, c), 'throw', None, exc, xv))
                pc = pc2
                if z3.is_false(pc.e):
                    return
                continue
            self.simple(ins, pc, b)

    def set_edge(self, f, t, pc):
        if (f, t) in self.back:
            self.at_backedge(f, t, pc)
            return
        if (f, t) in self.edge:
            o = self.edge[(f, t)]
            pc = PC(Or(o.e, pc.e), o.anc & pc.anc)
        self.edge[(f, t)] = pc

    def merge_phi(self, ph, b, only=None):
        vals = []
        seen = set()
        for v, p in ph.a:
            if p in seen:
                continue
            seen.add(p)
            e = self.edge.get((p, b))
            if e is None or z3.is_false(e.e) or (p, b) in self.back:
                continue
            vals.append((e, self.val(ph.ty, v)))
        if not vals:
            raise VCError('phi without live edges')
        if len(vals) > 1:
            self.ex.splits.append([e.e for e, _ in vals])
        r = vals[-1][1]
        for e, v in reversed(vals[:-1]):
            r = ite(e.e, v, r)
        return r

    # ------------------------------------------------------------ loops
    def enter_loop(self, h, blk, phis, pc):
        ex = self.ex
        entry_vals = {ph.res: self.merge_phi(ph, h) for ph in phis}
        if h not in self.dry:
            # dry run: fresh values, no invariants, nothing is kept
            cut = DryCut(self, h, phis, entry_vals)
        else:
            cut = ex.make_loopcut(self, h, blk, phis, entry_vals, pc)
            cut.dry = self.dry[h]
        self.cuts[h] = cut
        vals = cut.enter(pc)
        self.env.update(vals)
        return pc

    def at_backedge(self, f, h, pc):
        cut = self.cuts[h]
        blk = self.fn.blocks[h]
        nxt = {}
        for ph in blk.insts:
            if ph.op != 'phi':
                break
            for v, p in ph.a:
                if p == f:
                    nxt[ph.res] = self.val(ph.ty, v)
        cut.back(pc, nxt)

    def terminator(self, b, ins, pc):
        ex = self.ex
        if ins.op == 'br':
            if len(ins.x) == 1:
                self.set_edge(b, ins.x[0], pc)
                return
            c = self.val(*ins.a[0])
            c = simp(c) if z3.is_bool(c) and not z3.is_const(c) and c.num_args() == 0 else c
            if ins.x[0] == ins.x[1]:
                self.set_edge(b, ins.x[0], pc)
                return
            if z3.is_true(c):
                self.set_edge(b, ins.x[0], pc)
                return
            if z3.is_false(c):
                self.set_edge(b, ins.x[1], pc)
                return
            if ex.prune:
                if ex.infeasible(pc, c):
                    self.set_edge(b, ins.x[1], pc)
                    return
                if ex.infeasible(pc, Not(c)):
                    self.set_edge(b, ins.x[0], pc)
                    return
            self.set_edge(b, ins.x[0], PC(And(pc.e, c), pc.anc))
            self.set_edge(b, ins.x[1], PC(And(pc.e, Not(c)), pc.anc))
        elif ins.op == 'switch':
            v = self.val(*ins.a[0])
            v = tobv(v)
            d, cases = ins.x
            by = {}
            for cv, t in cases:
                by.setdefault(t, []).append(v == B(cv, v.size()))
            allc = [x for xs in by.values() for x in xs]
            for t, cs in by.items():
                c = Or(*cs)
                if t == d:
                    c = Or(c, Not(Or(*allc)))
                self.set_edge(b, t, PC(And(pc.e, simp(c)), pc.anc))
            if d not in by:
                self.set_edge(b, d, PC(And(pc.e, simp(Not(Or(*allc)))), pc.anc))
        elif ins.op == 'ret':
            v = self.val(*ins.a[0]) if ins.a else None
            self.out.append(Outcome(pc.e, 'ret', v))
        elif ins.op == 'unreachable':
            if ex.unreach_ob:
                ex.oblige(pc, FALSE, 'unreachable code is not reached', 'ub', self.fn.name)
        elif ins.op == 'resume':
            for (c, exc, xv) in self.live_excs(b, pc):
                self.out.append(Outcome(And(pc.e, c), 'throw', None, exc, xv))

    def live_excs(self, b, pc):
        r = []
        for lst in self.excs.values():
            for (c, e, xv) in lst:
                r.append((c, e, xv))
        return r

    # ----------------------------------------------------------- calls
    def do_call(self, ins, pc, b):
        """returns (pc after normal return, [(cond, exc name, excval)])"""
        ex = self.ex
        callee = ins.x['callee']
        if callee[0] == '%':
            tgt = self.env[callee]
            name = self.resolve_fptr(tgt)
        else:
            name = ex.mod.aliases.get(callee, callee)
        args = [self.val(t, v) if t.k != 'metadata' else None for t, v in ins.a]
        if name.startswith('@llvm.'):
            r = self.intrinsic(name, ins, args, pc)
            if ins.res:
                self.env[ins.res] = r
            return pc, []
        c = ex.find_contract(name)
        if isinstance(c, str):
            ex.contract_used[name] = ex.contract_used.get(name, 0) + 1
            name, c = c, None  # the contract is a function of the harness
        if c is not None:
            ex.contract_used[name] = ex.contract_used.get(name, 0) + 1
            res = c(ex, pc, args, ins)
            val, exits = res if isinstance(res, tuple) else (res, [])
            if ins.res:
                if val is None:
                    val = ex.fresh('r', ins.ty)
                self.env[ins.res] = val
            if exits == 'noreturn':
                return PC(FALSE, pc.anc), []
            if exits:
                t = Or(*[x[0] for x in exits])
                if z3.is_true(t):
                    return PC(FALSE, pc.anc), exits
                return PC(And(pc.e, Not(t)), pc.anc), exits
            return pc, []
        if name in ex.mod.functions:
            outs = ex.call(name, args, pc)
            rets = [o for o in outs if o.kind == 'ret' and not z3.is_false(o.pc)]
            throws = [(o.pc, o.exc, o.excval) for o in outs if o.kind == 'throw' and not z3.is_false(o.pc)]
            if not rets:
                return PC(FALSE, pc.anc), throws
            if ins.res:
                if len(rets) > 1:
                    ex.splits.append([o.pc for o in rets])
                v = rets[-1].val
                for o in reversed(rets[:-1]):
                    v = ite(o.pc, o.val, v)
                self.env[ins.res] = v
            if throws or not ex.all_paths(name):
                return PC(Or(*[o.pc for o in rets]), pc.anc), throws
            return pc, []
        if ex.mod.is_noreturn(name):
            return PC(FALSE, pc.anc), [(TRUE, ex.exc_name(name), None)]
        raise VCError('call to %s (%s) without body or contract, from %s' % (name, ex.dem(name), self.fn.name))

    def resolve_fptr(self, tgt):
        for nm, r in self.ex.globals_.items():
            if r.base.eq(tgt):
                return nm
        raise VCError('indirect call in ' + self.fn.name)

    # ------------------------------------------------------ simple insts
    def simple(self, ins, pc, b):
        ex = self.ex
        op = ins.op
        E = self.env
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            E[ins.res] = ex.binop(op, ins.ty, self.val(*ins.a[0]), self.val(*ins.a[1]), pc)
        elif op == 'icmp':
            E[ins.res] = ex.icmp(ins.x, ins.a[0][0], self.val(*ins.a[0]), self.val(*ins.a[1]), pc)
        elif op == 'fcmp':
            E[ins.res] = ex.fcmp(ins.x, ins.a[0][0], self.val(*ins.a[0]), self.val(*ins.a[1]))
        elif op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast'):
            v = ex.cast(op, ins.a[0][0], self.val(*ins.a[0]), ins.ty)
            E[ins.res] = v
            if op in ('fptosi', 'fptoui') and ex.check_fpconv:
                src = self.val(*ins.a[0])
                E[ins.res] = ex.fpconv(pc, op, src, ins.ty, v)
        elif op == 'getelementptr':
            E[ins.res] = ex.gep(ins.x, [(t, self.val(t, v)) for t, v in ins.a])
        elif op == 'load':
            E[ins.res] = ex.load(pc, ins.ty, self.val(*ins.a[0]), ins.text)
        elif op == 'store':
            ex.store(pc, ins.a[0][0], self.val(*ins.a[0]), self.val(*ins.a[1]), ins.text)
        elif op == 'select':
            c = self.val(*ins.a[0])
            a = self.val(*ins.a[1])
            d = self.val(*ins.a[2])
            if isinstance(c, list):
                E[ins.res] = [ite(x, y, z) for x, y, z in zip(c, a, d)]
            else:
                E[ins.res] = ite(c, a, d)
        elif op == 'alloca':
            n = size_of(ins.x)
            if ins.a:
                cnt = simp(self.val(*ins.a[0]))
                if not z3.is_bv_value(cnt):
                    raise VCError('dynamic alloca')
                n *= cnt.as_long()
            r = ex.region(ex.fresh_name('alloca' + ins.res), n, 4)
            E[ins.res] = r.base
        elif op == 'extractvalue':
            v = self.val(*ins.a[0])
            for i in ins.x:
                v = v[i]
            E[ins.res] = v
        elif op == 'insertvalue':
            v = self.val(*ins.a[0])
            E[ins.res] = self.insval(v, ins.x, self.val(*ins.a[1]))
        elif op == 'extractelement':
            v = self.val(*ins.a[0])
            i = simp(self.val(*ins.a[1]))
            if z3.is_bv_value(i):
                E[ins.res] = v[i.as_long()]
            else:
                r = v[0]
                for k in range(1, len(v)):
                    r = ite(i == B(k, i.size()), v[k], r)
                E[ins.res] = r
        elif op == 'insertelement':
            v = list(self.val(*ins.a[0]))
            x = self.val(*ins.a[1])
            i = simp(self.val(*ins.a[2]))
            if z3.is_bv_value(i):
                v[i.as_long()] = x
            else:
                v = [ite(i == B(k, i.size()), x, v[k]) for k in range(len(v))]
            E[ins.res] = v
        elif op == 'shufflevector':
            a = self.val(*ins.a[0])
            c = self.val(*ins.a[1])
            mt, m = ins.a[2]
            both = a + c
            if m[0] == 'zero':
                idx = [0] * mt.n
            elif m[0] == 'undef':
                idx = [None] * mt.n
            else:
                idx = [x[1] if x[0] == 'c' else None for _, x in m[1]]
            E[ins.res] = [both[i] if i is not None else ex.undef(ins.ty.t) for i in idx]
        elif op == 'freeze':
            E[ins.res] = self.val(*ins.a[0])
        elif op == 'fneg':
            E[ins.res] = z3.fpNeg(self.val(*ins.a[0]))
        elif op == 'landingpad':
            E[ins.res] = [ex.fbv('exc'), ex.fbv('sel', 32)]
            if hasattr(ex, 'all_excs'):
                ex.all_excs.extend(self.excs.get(b, []))
        elif op == 'fence':
            pass
        elif op == 'atomicrmw':
            addr = self.val(*ins.a[0])
            v = self.val(*ins.a[1])
            old = ex.load(pc, ins.ty, addr, ins.text)
            new = {'add': lambda: old + v, 'sub': lambda: old - v, 'xchg': lambda: v, 'and': lambda: old & v,
                   'or': lambda: old | v}[ins.x]()
            ex.store(pc, ins.ty, new, addr, ins.text)
            E[ins.res] = old
        elif op == 'cmpxchg':
            addr = self.val(*ins.a[0])
            cmpv = self.val(*ins.a[1])
            new = self.val(*ins.a[2])
            t = ins.ty.t[0]
            old = ex.load(pc, t, addr, ins.text)
            ok = old == cmpv
            ex.store(pc, t, ite(ok, new, old), addr, ins.text)
            E[ins.res] = [old, ok]
        else:
            raise VCError('instruction ' + ins.text)

    def insval(self, v, idx, x):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = self.insval(v[idx[0]], idx[1:], x)
        return v

    def intrinsic(self, name, ins, a, pc):
        ex = self.ex
        m = re.match(r'@llvm\.([a-z0-9_.]+)', name).group(1)
        if m.startswith(('lifetime', 'dbg', 'assume', 'invariant', 'prefetch', 'experimental.noalias', 'donothing', 'var.annotation')):
            return None
        if m.startswith('expect'):
            return a[0]
        if m.startswith('memcpy') or m.startswith('memmove'):
            ln = a[2] if a[2].size() == 64 else z3.ZeroExt(32, a[2])
            ex.memcpy(pc, a[0], a[1], ln, ins.text)
            return None
        if m.startswith('memset'):
            ln = a[2] if a[2].size() == 64 else z3.ZeroExt(32, a[2])
            ex.memset(pc, a[0], a[1], ln, ins.text)
            return None
        t = ins.ty

        def lan(f, *vs):
            if t.k == 'vec':
                return [f(*xs) for xs in zip(*vs)]
            return f(*vs)
        if m.startswith('umin'):
            return lan(lambda x, y: z3.If(z3.ULE(x, y), x, y), a[0], a[1])
        if m.startswith('umax'):
            return lan(lambda x, y: z3.If(z3.UGE(x, y), x, y), a[0], a[1])
        if m.startswith('smin'):
            return lan(lambda x, y: z3.If(x <= y, x, y), a[0], a[1])
        if m.startswith('smax'):
            return lan(lambda x, y: z3.If(x >= y, x, y), a[0], a[1])
        if m.startswith('abs'):
            return lan(lambda x: z3.If(x < 0, -x, x), a[0])
        if m.startswith('bswap'):
            def bs(x):
                n = x.size() // 8
                return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(n)])
            return lan(bs, a[0])
        if m.startswith('ctlz'):
            def clz(x):
                n = x.size()
                r = B(n, n)
                for i in range(n):
                    r = z3.If(z3.Extract(i, i, x) == 1, B(n - 1 - i, n), r)
                return r
            if z3.is_true(a[1]):
                # poison when zero: an arbitrary value
                return z3.If(a[0] == 0, ex.fbv('poison', a[0].size()), clz(a[0]))
            return clz(a[0])
        if m.startswith('cttz'):
            def ctz(x):
                n = x.size()
                r = B(n, n)
                for i in reversed(range(n)):
                    r = z3.If(z3.Extract(i, i, x) == 1, B(i, n), r)
                return r
            if z3.is_true(a[1]):
                # poison when zero: an arbitrary value
                return z3.If(a[0] == 0, ex.fbv('poison', a[0].size()), ctz(a[0]))
            return ctz(a[0])
        if m.startswith('ctpop'):
            x = a[0]
            n = x.size()
            r = B(0, n)
            for i in range(n):
                r = r + z3.ZeroExt(n - 1, z3.Extract(i, i, x))
            return r
        if m.startswith('fshl') or m.startswith('fshr'):
            def fsh(x, y, s):
                n = x.size()
                c = z3.ZeroExt(n, z3.URem(s, B(n, n)))
                w = z3.Concat(x, y)
                if m.startswith('fshl'):
                    return z3.Extract(2 * n - 1, n, w << c)
                return z3.Extract(n - 1, 0, z3.LShR(w, c))
            return lan(fsh, a[0], a[1], a[2])
        mm = re.match(r'([us])(add|sub|mul)\.with\.overflow', m)
        if mm:
            x, y = a[0], a[1]
            n = x.size()
            ext = z3.ZeroExt if mm.group(1) == 'u' else z3.SignExt
            k = n if mm.group(2) == 'mul' else 1
            X, Y = ext(k, x), ext(k, y)
            R = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[mm.group(2)]
            r = z3.Extract(n - 1, 0, R)
            return [r, R != ext(k, r)]
        mm = re.match(r'([us])(add|sub)\.sat', m)
        if mm:
            def sat(x, y):
                n = x.size()
                if mm.group(1) == 'u':
                    if mm.group(2) == 'sub':
                        return z3.If(z3.ULT(x, y), B(0, n), x - y)
                    r = x + y
                    return z3.If(z3.ULT(r, x), B(-1, n), r)
                X, Y = z3.SignExt(1, x), z3.SignExt(1, y)
                R = X + Y if mm.group(2) == 'add' else X - Y
                r = z3.Extract(n - 1, 0, R)
                mx, mn = B((1 << (n - 1)) - 1, n), B(1 << (n - 1), n)
                return z3.If(R == z3.SignExt(1, r), r, z3.If(R < 0, mn, mx))
            return lan(sat, a[0], a[1])
        if m.startswith('fabs'):
            return lan(z3.fpAbs, a[0])
        if m.startswith('copysign'):
            raise VCError(name)
        if m.startswith(('floor', 'ceil', 'trunc.', 'rint', 'nearbyint', 'round')):
            rm = {'f': z3.RTN(), 'c': z3.RTP(), 't': z3.RTZ(), 'r': z3.RNE(), 'n': z3.RNE()}[m[0]]
            return lan(lambda x: z3.fpRoundToIntegral(rm, x), a[0])
        if m.startswith('is.fpclass'):
            mask = simp(a[1]).as_long()
            x = a[0]
            cs = []
            tests = [(0x3, z3.fpIsNaN(x)), (0x4, And(z3.fpIsInf(x), z3.fpIsNegative(x))),
                     (0x8, And(z3.fpIsNormal(x), z3.fpIsNegative(x))), (0x10, And(z3.fpIsSubnormal(x), z3.fpIsNegative(x))),
                     (0x20, And(z3.fpIsZero(x), z3.fpIsNegative(x))), (0x40, And(z3.fpIsZero(x), z3.fpIsPositive(x))),
                     (0x80, And(z3.fpIsSubnormal(x), z3.fpIsPositive(x))), (0x100, And(z3.fpIsNormal(x), z3.fpIsPositive(x))),
                     (0x200, And(z3.fpIsInf(x), z3.fpIsPositive(x)))]
            for b_, c in tests:
                if mask & b_:
                    cs.append(c)
            return Or(*cs)
        if m == 'eh.typeid.for':
            return ex.fbv('typeid', 32)
        if m.startswith('x86.sse2.pmovmskb') or m.startswith('x86.avx2.pmovmskb'):
            bits = [z3.Extract(7, 7, x) for x in a[0]]
            return z3.ZeroExt(32 - len(bits), z3.Concat(*reversed(bits))) if len(bits) < 32 else z3.Concat(*reversed(bits))
        if m in ('x86.sse.movmsk.ps', 'x86.avx.movmsk.ps.256', 'x86.sse2.movmsk.pd', 'x86.avx.movmsk.pd.256'):
            bits = [z3.Extract(x.size() - 1, x.size() - 1, x) for x in [ex.fp2bv(v) for v in a[0]]]
            return z3.ZeroExt(32 - len(bits), z3.Concat(*reversed(bits)))
        if m.startswith('x86.sse2.packssdw') or m.startswith('x86.sse2.packsswb') or m.startswith('x86.avx2.packss'):
            def ss(x):
                n = x.size()
                h = n // 2
                mx, mn = (1 << (h - 1)) - 1, -(1 << (h - 1))
                return z3.If(x > B(mx, n), B(mx, h), z3.If(x < B(mn, n), B(mn, h), z3.Extract(h - 1, 0, x)))
            L = len(a[0])
            per = {'x86.sse2': L, 'x86.avx2': L // 2}['.'.join(m.split('.')[:2])]
            out = []
            for q in range(0, L, per):
                out += [ss(x) for x in a[0][q:q + per]] + [ss(x) for x in a[1][q:q + per]]
            return out
        if m.startswith('vector.reduce.or'):
            r = a[0][0]
            for x in a[0][1:]:
                r = Or(r, x) if z3.is_bool(r) else r | x
            return r
        if m.startswith('vector.reduce.and'):
            r = a[0][0]
            for x in a[0][1:]:
                r = And(r, x) if z3.is_bool(r) else r & x
            return r
        if m in ('trap', 'debugtrap'):
            return None
        if m.startswith('x86.avx.ptestz') or m.startswith('x86.sse41.ptestz'):
            x = z3.Concat(*reversed(a[0]))
            y = z3.Concat(*reversed(a[1]))
            return z3.If((x & y) == 0, B(1, 32), B(0, 32))
        raise VCError('intrinsic ' + name)


# -------------------------------------------------------------------------
def _exec_misc():
    def find_contract(self, name):
        c = self.contracts.get(name)
        if c is not None:
            return c
        d = self.dem(name)
        for pat, f in self.contracts.items():
            if isinstance(pat, re.Pattern) and pat.search(d):
                return f
        return None
    Exec.find_contract = find_contract

    def all_paths(self, name):
        return False
    Exec.all_paths = all_paths

    def exc_name(self, name):
        d = self.dem(name)
        m = re.match(r'(?:fptu::)?(throw_\w+)', d)
        if m:
            return m.group(1).replace('throw_', '')
        return d.split('(')[0]
    Exec.exc_name = exc_name
    Exec.check_fpconv = False

    def fpconv(self, pc, op, src, ty, v):
        return v
    Exec.fpconv = fpconv

    def make_loopcut(self, run, h, blk, phis, entry_vals, pc):
        f = self.loop_specs.get(run.fn.name) or self.loop_specs.get('*')
        if f is None:
            raise VCError('loop in %s (%s) at %s has no invariant' % (self.dem(run.fn.name), run.fn.name, h))
        return f(self, run, h, blk, phis, entry_vals, pc)
    Exec.make_loopcut = make_loopcut


_exec_misc()


class DryCut:
    def __init__(self, run, h, phis, entry_vals):
        self.run, self.h, self.phis, self.entry_vals = run, h, phis, entry_vals

    def enter(self, pc):
        ex = self.run.ex
        self.vals = fresh_phis(ex, self.phis, self.entry_vals, {})
        return self.vals

    def back(self, pc, nxt):
        d = self.run.dry_info[self.h]['delta']
        for k, v in nxt.items():
            if z3.is_bv(v):
                x = simp(v - self.vals[k])
                t = min(tz(x), v.size() - 1)
                d[k] = min(d.get(k, 99), t)


def fresh_phis(ex, phis, entry_vals, stride):
    vals = {}
    for ph in phis:
        e = entry_vals[ph.res]
        s = stride.get(ph.res, 0)
        bits = getattr(ex, 'phi_bits', 0) if ph.ty.k == 'ptr' else 0
        if bits and z3.is_bv(e):
            # v = entry + 2^s * u, 0 <= u < 2^(bits - s)   (obliged at back edges)
            u = z3.BitVec(ex.fresh_name('phi' + ph.res), bits - s)
            v = e + (z3.Concat(B(0, e.size() - bits), u, B(0, s)) if s else z3.Concat(B(0, e.size() - bits), u))
        elif ph.ty.k == 'i' and ph.ty.n == 64 and getattr(ex, 'int_phi_bits', 0) and z3.is_bv(e):
            # v < 2^bits   (obliged at entry and at back edges)
            bits = ex.int_phi_bits
            v = z3.ZeroExt(64 - bits, z3.BitVec(ex.fresh_name('phi' + ph.res), bits))
        elif s and z3.is_bv(e):
            # v = entry + 2^s * u
            u = z3.BitVec(ex.fresh_name('phi' + ph.res), e.size() - s)
            v = e + z3.Concat(u, B(0, s))
        else:
            v = ex.fresh('phi' + ph.res, ph.ty)
            if ph.ty.k == 'ptr':
                p = ex.prov(e)
                if p is not None and len(p) == 1:
                    v = ex.regions[next(iter(p))].base + v
                elif p is not None:
                    ex.set_prov(v, p)
        vals[ph.res] = v
    return vals


class LoopCut:
    """invariant cut with a candidate family (Houdini).  `candidates` maps a
    name to fn(env)->Bool or ('forall', tag, fn(env, x)->Bool); env is a dict
    phi-name -> value plus '_mem' -> write position."""

    def __init__(self, ex, run, h, phis, entry_vals, pc, candidates, havoc=None):
        self.ex = ex
        self.run = run
        self.h = h
        self.phis = phis
        self.entry_vals = entry_vals
        self.cands = candidates
        self.act = {}
        self.obs = []   # (candname, pc expr, goal, seq)
        self.havocf = havoc
        self.use_stride = True
        ex.loopcuts.append(self)

    def env_of(self, vals):
        e = dict(vals)
        e['_mem'] = len(self.ex.writes)
        e['_entry'] = self.entry_vals
        return e

    def prove_all(self, env, pc):
        """obligations of all candidates at one edge; one shared skolem per tag"""
        ex = self.ex
        sk = {}
        group = []
        ex.seq += 1
        for nm, c in self.cands.items():
            if isinstance(c, tuple):
                _, tag, fn = c
                if tag not in sk:
                    sk[tag] = ex.fbv('sk_' + tag, 64)
                    ex.private.setdefault(ex.seq, []).append((tag, sk[tag]))
                g = fn(env, sk[tag])
            else:
                g = c(env)
            group.append((nm, Implies(pc.e, g)))
        self.obs.append((ex.seq, group))

    def enter(self, pc):
        ex = self.ex
        self.prove_all(self.env_of(self.entry_vals), pc)
        self.narrow(pc, self.entry_vals)
        self.stride = {k: t for k, t in self.dry['delta'].items() if t > 0 and self.use_stride}
        vals = fresh_phis(ex, self.phis, self.entry_vals, self.stride)
        self.vals = vals
        regs = set()
        for w in self.dry['writes']:
            regs |= {r for r in w.regs if r in ex.regions and not r.startswith('alloca_in')}
        self.entry_mem = len(ex.writes)
        if regs and not self.havocf:
            for r in sorted(regs):
                ex.havoc(pc, [r], lambda a: TRUE, 64)
        elif self.havocf:
            self.havocf(ex, pc, self)
        env = self.env_of(vals)
        self.env = env
        for nm, c in self.cands.items():
            a = z3.Bool('act_%s_%s_%d' % (self.h, nm, len(ex.loopcuts)))
            self.act[nm] = a
            if isinstance(c, tuple):
                _, tag, fn = c
                ex.forall(tag, (lambda x, fn=fn, a=a, env=env: Implies(a, fn(env, x))), pc)
            else:
                ex.assume(pc, Implies(a, c(env)))
        return vals

    def narrow(self, pc, vals):
        bits = getattr(self.ex, 'int_phi_bits', 0)
        for ph in self.phis:
            if bits and ph.ty.k == 'i' and ph.ty.n == 64:
                self.ex.oblige(pc, z3.ULT(vals[ph.res], B(1 << bits)), 'loop counter %s is less than 2^%d' % (ph.res, bits), 'inv')

    def back(self, pc, nxt):
        self.narrow(pc, nxt)
        for k, t in self.stride.items():
            self.ex.oblige(pc, simp(z3.Extract(t - 1, 0, nxt[k] - self.entry_vals[k]) == 0), 'loop stride of ' + k, 'inv')
        bits = getattr(self.ex, 'phi_bits', 0)
        for ph in self.phis:
            if bits and ph.ty.k == 'ptr':
                d = simp(nxt[ph.res] - self.entry_vals[ph.res])
                self.ex.oblige(pc, z3.ULT(d, B(1 << bits)), 'loop pointer %s advances at most 2^%d bytes' % (ph.res, bits), 'inv')
        self.prove_all(self.env_of(nxt), pc)
