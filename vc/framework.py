"""Driver: compiles the real code (/repo working tree) to LLVM IR, runs the
registered contract tasks of one property through the VC generator and SMT
back end, replays failures natively and writes the evidence file."""
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)

import z3  # noqa: E402
import llir  # noqa: E402
import exec as vcx  # noqa: E402
from exec import Exec, VCError, And, Or, Not, Implies, B, TRUE, FALSE, simp  # noqa: E402

DEFS = ['-D_HAS_EXCEPTIONS=1', '-D__STDC_CONSTANT_MACROS=1', '-D__STDC_FORMAT_MACROS=1',
        '-D__STDC_LIMIT_MACROS=1', '-Dfptu_EXPORTS', '-DNDEBUG']
CFLAGS = ['-std=gnu++20', '-O1', '-w', '-fno-discard-value-names', '-fno-access-control',
          '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm'] + DEFS
SIMPL = 'sroa,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,correlated-propagation,simplifycfg,gvn,dse,adce,simplifycfg'
PASSES = ('always-inline,function(sroa,early-cse,simplifycfg,instsimplify),cgscc(inline),'
          'function(' + SIMPL + '),cgscc(inline),function(' + SIMPL + '),globaldce')


class ToolError(Exception):
    pass


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='fptuvc.')
    return _scratch


def cleanup():
    global _scratch
    if _scratch and os.path.isdir(_scratch):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


def config_dir():
    """directory with the generated fast_positive/tuples/config.h"""
    d = os.path.join(REPO, '_build')
    if os.path.exists(os.path.join(d, 'fast_positive/tuples/config.h')):
        return d
    d = os.path.join(scratch(), 'cfg')
    if not os.path.exists(os.path.join(d, 'fast_positive/tuples/config.h')):
        r = subprocess.run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++',
                            '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DBUILD_TESTING=OFF', '-DPROVIDE_VERSIONINFO=OFF',
                            '-DINTERPROCEDURAL_OPTIMIZATION=OFF'], capture_output=True, text=True)
        if not os.path.exists(os.path.join(d, 'fast_positive/tuples/config.h')):
            raise ToolError('cannot configure: ' + r.stderr[-2000:])
    return d


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)


_mods = {}


def mark_noinline(path, patterns):
    """functions to be replaced by their contracts must stay separate functions"""
    rx = re.compile('|'.join(patterns))
    text = open(path).read()
    lines = text.split('\n')
    names = {}
    groups = dict(re.findall(r'^attributes (#\d+) = \{(.*)\}$', text, re.M))
    for i, l in enumerate(lines):
        if l.startswith('define '):
            g = re.search(r'@("[^"]*"|[\w.$]+)\(', l)
            names[i] = '@' + g.group(1)
    dm = vcx.demangle(list(names.values()))
    for i, n in names.items():
        l = lines[i]
        if not rx.search(dm[n]) or 'alwaysinline' in l:
            continue
        a = re.search(r'\) (?:(?:local_)?unnamed_addr )?(#\d+)', l)
        if a and ('alwaysinline' in groups.get(a.group(1), '') or 'noinline' in groups.get(a.group(1), '')):
            continue
        if a:
            l = l[:a.start(1)] + 'noinline ' + l[a.start(1):]
        lines[i] = l
    open(path, 'w').write('\n'.join(lines))


def module(src, extra=(), passes=PASSES, noinline=()):
    """IR module of /verif/harness/<src> (which includes the real sources)"""
    noinline = tuple(noinline)
    key = (src, tuple(extra), passes, noinline)
    if key in _mods:
        return _mods[key]
    path = src if src.startswith('/') else os.path.join(VERIF, 'harness', src)
    tag = hashlib.sha1(repr(key).encode()).hexdigest()[:10]
    o = os.path.join(scratch(), tag + '.ll')
    cmd = ['clang++-18'] + CFLAGS + ['-I' + REPO, '-I' + config_dir(), '-I' + os.path.join(VERIF, 'harness')] + list(extra) + [path, '-o', o]
    r = run(cmd)
    if r.returncode:
        raise ToolError('clang failed on %s:\n%s' % (src, r.stderr[-3000:]))
    if noinline:
        mark_noinline(o, noinline)
    o2 = os.path.join(scratch(), tag + '.o.ll')
    r = run(['/usr/lib/llvm-18/bin/opt', '-passes=' + passes, '-S', o, '-o', o2])
    if r.returncode:
        raise ToolError('opt failed on %s:\n%s' % (src, r.stderr[-3000:]))
    m = llir.Module(open(o2).read())
    m.path = o2
    dm = vcx.demangle(list(m.functions) + list(m.decls))
    m.demangled = dm
    _mods[key] = m
    return m


def find_fn(m, pattern):
    """mangled name of the only defined function whose demangled name matches"""
    rx = re.compile(pattern)
    c = [n for n in m.functions if rx.search(m.demangled.get(n, ''))]
    if len(c) != 1:
        raise ToolError('function %r: %d candidates %r' % (pattern, len(c), c[:5]))
    return c[0]


# ----------------------------------------------------------------- solving
class Result:
    def __init__(self, name):
        self.name = name
        self.obligations = 0
        self.discharged = 0
        self.failed = []      # dicts
        self.unknown = []
        self.covers = 0
        self.functions = []
        self.contracts = []
        self.time = 0.0
        self.solver_time = 0.0
        self.error = None
        self.bounded = None
        self.notes = []
        self.back = {}
        self.invariants = []


TIMEOUT = int(os.environ.get('VC_TIMEOUT_MS', '60000'))


def facts(ex, seq, act=None):
    """assumptions visible at seq: plain + instantiated foralls"""
    fs = [f for s, f in ex.assumptions if s < seq]
    # instantiate
    for (s, tag, fn) in ex.foralls:
        if s < seq:
            for t in list(ex.pool.get(tag, {}).values()) + [x for g, x in ex.private.get(seq, []) if g == tag]:
                k = (s, t.get_id())
                if k not in ex._inst:
                    ex._inst[k] = fn(t)
                fs.append(ex._inst[k])
    return fs


DEADLINE = None  # of the proof attempts of this run


def left(ms):
    """solver time limit, cut by the deadline"""
    if DEADLINE is None:
        return ms
    return int(max(50, min(ms, (DEADLINE - time.time()) * 1000)))


def solver(timeout=None):
    s = z3.Solver()
    s.set('timeout', left(timeout or TIMEOUT))
    return s


def has_fp(e, seen):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_fp(x) or z3.is_fprm(x):
            return True
        st.extend(x.children())
    return False


def cvc5_check(smt2, timeout_s):
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', dir=scratch(), delete=False)
    f.write('(set-logic ALL)\n' + smt2)
    f.close()
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % (timeout_s * 1000), f.name], capture_output=True, text=True, timeout=timeout_s + 20)
        out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else ''
    except subprocess.TimeoutExpired:
        out = 'unknown'
    os.unlink(f.name)
    return out if out in ('sat', 'unsat') else 'unknown'


def check_valid(fs, goal, timeout=None, res=None, tier='quick'):
    """returns ('ok'|'fail'|'unknown', model)"""
    t0 = time.time()
    s = solver(timeout)
    for f in fs:
        s.add(f)
    s.add(z3.Not(goal))
    r = s.check()
    m = None
    st = 'unknown'
    be = 'z3'
    if r == z3.unsat:
        st = 'ok'
    elif r == z3.sat:
        st = 'fail'
        m = s.model()
    else:
        # second try with the tactic pipeline, then cvc5
        c = cvc5_check(s.to_smt2(), max(1, left(timeout or TIMEOUT) // 1000))
        if c == 'unsat':
            st, be = 'ok', 'cvc5'
        elif c == 'sat':
            st, be = 'fail', 'cvc5'
    if st == 'ok' and tier == 'thorough' and be == 'z3' and res is not None and res.cross:
        c = cvc5_check(s.to_smt2(), max(1, left(60000) // 1000))
        res.back['cvc5:' + c] = res.back.get('cvc5:' + c, 0) + 1
        if c == 'sat':
            st = 'unknown'
    if res is not None:
        res.solver_time += time.time() - t0
        if st == 'ok':
            res.back[be] = res.back.get(be, 0) + 1
    return st, m


def conjuncts(e, out):
    if z3.is_and(e):
        for c in e.children():
            conjuncts(c, out)
    else:
        out.append(e)
    return out


def dag_ids(es):
    seen = set()
    st = list(es)
    while st:
        x = st.pop()
        i = x.get_id()
        if i not in seen:
            seen.add(i)
            st.extend(x.children())
    return seen


def under(fs, goal, lits):
    """facts and goal simplified under the literals (which are kept as facts)"""
    sub = []
    eqs = []
    for l in lits:
        if z3.is_not(l):
            sub.append((l.arg(0), FALSE))
        elif z3.is_eq(l) and z3.is_const(l.arg(0)) and l.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bv(l.arg(0)):
            eqs.append((l.arg(0), l.arg(1)))
        elif not z3.is_true(l):
            sub.append((l, TRUE))
    f2 = []
    lits = [l for l in lits]
    if eqs:
        # x == t: x is replaced by t everywhere (t does not mention x)
        fs = [z3.substitute(f, *eqs) for f in fs]
        goal = z3.substitute(goal, *eqs)
        sub = [(z3.substitute(a, *eqs), b) for a, b in sub]
    for f in fs:
        x = z3.simplify(z3.substitute(f, *sub)) if sub or eqs else f
        if z3.is_false(x):
            return None, None
        if not z3.is_true(x):
            f2.append(x)
    g = z3.simplify(z3.substitute(goal, *sub)) if sub or eqs else goal
    return f2 + list(lits), g


def pick_split(splits, goal, used):
    ids = dag_ids([goal])
    best = None
    for k in range(len(splits) - 1, -1, -1):
        if k in used:
            continue
        es = splits[k]
        if sum(1 for e in es if e.get_id() in ids) >= len(es) - 1:
            if best is None or len(es) > len(splits[best]):
                best = k
    return best


def z3_try(fs, goal, ms):
    s = solver(ms)
    for f in fs:
        s.add(f)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return 'ok', None
    if r == z3.sat:
        return 'fail', s.model()
    return 'unknown', None


def case_check(ex, seq, fs, goal, timeout, res, depth=0, used=(), cases=None, deadline=None):
    """validity by cases: whole, then per edge of the joins in the goal, then by
    the case lists which the spec suggests for the obligation's terms.  Any case
    list is sound: the complement of all cases is a case as well."""
    deadline = deadline or time.time() + (timeout or TIMEOUT) / 1000.0 * 4
    st, m = z3_try(fs, goal, 2000 if cases is None or cases else 8000)
    if st != 'unknown':
        return st, m
    if time.time() > deadline:
        return st, m
    es = None
    if depth < 3 and cases is None:
        k = pick_split(ex.splits, goal, used)
        if k is not None:
            es = ex.splits[k]
            used = tuple(used) + (k,)
            disjoint = True
    if es is None:
        if cases is None:
            if getattr(ex, 'cases', None):
                st, m = z3_try(fs, goal, 20000)
                if st != 'unknown':
                    return st, m
            cases = ex.cases(seq, goal) if getattr(ex, 'cases', None) else []
        if cases:
            es, cases = cases[0], cases[1:]
            disjoint = False
    if es is None:
        return z3_try(fs, goal, timeout or TIMEOUT)
    for i in range(len(es) + 1):
        if disjoint:
            lits = [z3.Not(e) for e in es[:i]]
        else:
            lits = [] if i < len(es) else [z3.Not(e) for e in es]
        if i < len(es):
            lits += [es[i]] + conjuncts(es[i], [])
        lits = list({l.get_id(): l for l in lits}.values())
        f2, g2 = under(fs, goal, lits)
        if f2 is None or z3.is_true(g2):
            continue
        t0 = time.time()
        if not disjoint and (z3_try(f2, g2, 500)[0] == 'ok' or z3_try(lits, g2, 1500)[0] == 'ok'):
            continue
        c2 = cases
        if not disjoint and i < len(es):
            c2 = []
        st, m = case_check(ex, seq, f2, g2, timeout, res, depth + 1, used, c2, deadline)
        if os.environ.get('VC_DUMP') and st == 'unknown':
            sv = solver(1000)
            for f in f2:
                sv.add(f)
            sv.add(z3.Not(g2))
            open('/tmp/dump_%d_%d.smt2' % (depth, i), 'w').write(sv.to_smt2())
            open('/tmp/dump_%d_%d.txt' % (depth, i), 'w').write('\n'.join(str(l) for l in lits)+'\nGOAL\n'+str(g2))
        if os.environ.get('VC_DEBUG') and (time.time() - t0 > 1 or st != 'ok'):
            print('  ' * depth + '  case', i, 'of', len(es), st, round(time.time() - t0, 1))
        if st != 'ok':
            return st, m
    return 'ok', None


def houdini(ex, res, tier):
    """maximal inductive subset of the loop-invariant candidates: scalar ones
    first, then (with the surviving scalars assumed) the quantified ones"""
    cuts = ex.loopcuts
    if not cuts:
        return
    dbg = os.environ.get('VC_DEBUG')
    quant = {(i, nm) for i, c in enumerate(cuts) for nm, f in c.cands.items() if isinstance(f, tuple)}
    active = {(i, nm) for i, c in enumerate(cuts) for nm in c.cands} - quant
    groups = [(i, seq, grp) for i, c in enumerate(cuts) for (seq, grp) in c.obs]
    t0 = time.time()

    def lits():
        return [cuts[j].act[n] if (j, n) in active else z3.Not(cuts[j].act[n]) for j, c in enumerate(cuts) for n in c.cands if n in c.act]

    def mk(seq, timeout, withq):
        s = z3.SolverFor('QF_UFBV') if not ex.uses_fp else z3.Solver()
        s.set('timeout', left(timeout))
        for f in (facts(ex, seq) if withq else [f for q, f in ex.assumptions if q < seq]):
            s.add(f)
        for l in lits():
            s.add(l)
        return s
    for phase in (0, 1):
        mine = quant if phase else active
        if phase:
            best = {}
            fams = getattr(ex, 'families', {})
            for (i, nm) in active:
                if nm in fams:
                    f, st = fams[nm]
                    if st > best.get((i, f), (-1, None))[0]:
                        best[(i, f)] = (st, nm)
            kept = {(i, nm) for (i, f), (st, nm) in best.items()}
            weak = {(i, nm) for (i, nm) in active if nm in fams} - kept
            # an implied candidate may be dropped from the inductive set
            active -= weak
            active |= quant
        mine = set(mine)
        changed = True
        while changed:
            changed = False
            pending = []
            for gi, (i, seq, grp) in enumerate(groups):
                while True:
                    live = [(nm, g) for nm, g in grp if (i, nm) in active and (i, nm) in mine]
                    if not live:
                        break
                    s = mk(seq, 3000 if phase else 20000, phase == 1)
                    s.add(Not(And(*[g for _, g in live])))
                    r = s.check()
                    if r == z3.unsat:
                        break
                    drop = []
                    if r == z3.sat:
                        m = s.model()
                        drop = [nm for nm, g in live if z3.is_false(m.eval(g, model_completion=True))]
                    if not drop:
                        if phase:
                            pending += [(i, gi, seq, nm, g) for nm, g in live]
                            break
                        for nm, g in live:
                            s = mk(seq, 15000, False)
                            s.add(Not(g))
                            st = s.check()
                            if st != z3.unsat:
                                drop.append(nm)
                                if st == z3.unknown:
                                    ex.tainted = True
                        if dbg:
                            print('houdini: one by one', i, r, len(live), drop)
                        if not drop:
                            break
                    for nm in drop:
                        active.discard((i, nm))
                        changed = True
                        if dbg:
                            print('houdini drops', i, nm)
            if not changed:
                for (i, gi, seq, nm, g) in pending:
                    t1 = time.time()
                    fs1 = facts(ex, seq) + lits()
                    f2, g2 = under(fs1, g, lits())
                    st = 'ok' if f2 is None else case_check(ex, seq, f2, g2, 60000, res)[0]
                    if dbg:
                        print('houdini single', i, gi, nm, st, round(time.time() - t1, 1))
                    if st != 'ok':
                        active.discard((i, nm))
                        changed = True
                        if st == 'unknown':
                            ex.tainted = True
                        break
    for j, c in enumerate(cuts):
        for n in c.cands:
            if n in c.act:
                lit = c.act[n] if (j, n) in active else z3.Not(c.act[n])
                ex.assumptions.append((0, lit))
        res.invariants.append('%s %s: %s' % (ex.dem(c.run.fn.name).split('(')[0], c.h, ', '.join(n for n in c.cands if (j, n) in active)))
    n = sum(1 for (i, seq, grp) in groups for nm, g in grp if (i, nm) in active)
    res.obligations += n
    res.discharged += n
    res.back['z3(inv)'] = res.back.get('z3(inv)', 0) + n
    res.solver_time += time.time() - t0


def discharge(ex, res, tier='quick', hints=None, batch_mem=True, covers=(), max_fail=3, timeout=None):
    """prove every obligation of ex"""
    if not hasattr(ex, '_inst'):
        ex._inst = {}
    res.functions += [ex.dem(n) for n in ex.executed]
    res.contracts += [ex.dem(n) for n in ex.contract_used]
    houdini(ex, res, tier)
    obs = list(ex.obligations)
    res.obligations += len(obs)
    mem = [o for o in obs if o.kind in ('mem', 'ub')]
    rest = [o for o in obs if o.kind not in ('mem', 'ub')]

    def fail(o, st, m):
        if st == 'fail' and getattr(ex, 'tainted', False):
            # an invariant was given up for lack of a solver answer: not a refutation
            st = 'unknown'
        d = {'task': res.name, 'obligation': o.name, 'kind': o.kind, 'where': ex.dem(o.where) if o.where else '', 'status': st}
        if m is not None:
            d['model'] = model_dict(m, hints(m) if hints else None)
            d['hints'] = d['model'].get('_hints')
            d['model'].pop('_hints', None)
        (res.failed if st == 'fail' else res.unknown).append(d)

    # batches of memory-safety obligations: facts visible to the earliest one
    def prove_batch(os_):
        if not os_:
            return
        seq = os_[0].seq
        fs = facts(ex, seq)
        st, m = check_valid(fs, And(*[o.goal for o in os_]), timeout, res, tier)
        if st == 'ok':
            res.discharged += len(os_)
            res.back['z3'] = res.back.get('z3', 0) + len(os_) - 1
            return
        if len(os_) == 1:
            st2 = st
            fail(os_[0], st2, m)
            return
        if len(res.failed) + len(res.unknown) >= max_fail:
            return
        h = len(os_) // 2
        prove_batch(os_[:h])
        prove_batch(os_[h:])
    # group mem obligations with no intervening assumption
    groups = []
    aseq = sorted([s for s, _ in ex.assumptions] + [s for s, _, _ in ex.foralls])
    import bisect
    for o in mem:
        k = bisect.bisect_left(aseq, o.seq)
        if groups and groups[-1][0] == k and len(groups[-1][1]) < 40:
            groups[-1][1].append(o)
        else:
            groups.append((k, [o]))
    for _, g in groups:
        if DEADLINE and time.time() > DEADLINE:
            res.unknown.append({'task': res.name, 'obligation': 'memory accesses', 'kind': 'mem', 'where': '', 'status': 'out of time'})
            break
        prove_batch(g)
        if len(res.failed) >= max_fail:
            break
    done = par_cvc5(ex, res, rest) if getattr(ex, 'par_cvc5', 0) else {}
    for n_, o in enumerate(rest):
        if id(o) in done:
            res.discharged += 1
            continue
        if DEADLINE and time.time() > DEADLINE:
            res.unknown.append({'task': res.name, 'obligation': o.name + ' (and %d more)' % (len(rest) - n_ - 1), 'kind': o.kind, 'where': '', 'status': 'out of time'})
            break
        if len(res.unknown) >= 3:
            timeout = min(timeout or TIMEOUT, 5000)
        if os.environ.get('VC_OB') and os.environ['VC_OB'] not in o.name:
            continue
        fs = facts(ex, o.seq)
        st = 'unknown'
        if getattr(ex, 'int_backend', False):
            import intback
            t0 = time.time()
            st, m = z3_try(fs, o.goal, 300)
            if st == 'ok':
                res.back['z3'] = res.back.get('z3', 0) + 1
            elif st == 'unknown' and intback.prove(fs, o.goal, left(ex.int_backend), ex.__dict__.setdefault('_ibcache', {})):
                st = 'ok'
                res.back['z3(int)'] = res.back.get('z3(int)', 0) + 1
            res.solver_time += time.time() - t0
        if st == 'unknown' and ex.splits:
            t0 = time.time()
            st, m = case_check(ex, o.seq, fs, o.goal, timeout, res)
            res.solver_time += time.time() - t0
            if st == 'ok':
                res.back['z3'] = res.back.get('z3', 0) + 1
        if st == 'unknown':
            st, m = check_valid(fs, o.goal, timeout, res, tier)
        if st == 'ok':
            res.discharged += 1
        else:
            fail(o, st, m)
            if len(res.failed) >= max_fail:
                break
    # vacuity: the assumptions admit an execution reaching each cover point
    for (nm, c) in covers:
        s = solver(30000)
        for f in facts(ex, 1 << 60):
            s.add(f)
        s.add(c)
        r = s.check()
        if r == z3.unsat:
            res.notes.append('cover %s unreachable' % nm)
            res.uncovered = getattr(res, 'uncovered', []) + [nm]
        elif r == z3.sat:
            res.covers += 1


def par_cvc5(ex, res, obs):
    """obligations which z3 does not prove at once are given to several cvc5 at a time"""
    from concurrent.futures import ThreadPoolExecutor
    done, todo = {}, []
    t0 = time.time()
    for o in obs:
        if os.environ.get('VC_OB') and os.environ['VC_OB'] not in o.name:
            continue
        s = solver(700)
        for f in facts(ex, o.seq):
            s.add(f)
        s.add(z3.Not(o.goal))
        r = s.check()
        if r == z3.unsat:
            done[id(o)] = 'z3'
        elif r == z3.unknown:
            todo.append((o, s.to_smt2()))
    with ThreadPoolExecutor(ex.par_cvc5) as pool:
        for (o, _), (r, t) in zip(todo, pool.map(lambda q: cvc5_timed(q[1]), todo)):
            if os.environ.get('VC_DEBUG'):
                print('  cvc5', o.name, r, round(t, 1))
            if r == 'unsat':
                done[id(o)] = 'cvc5'
            else:
                k = len([x for x in os.listdir('/tmp') if x.startswith('dumpc')]) if os.environ.get('VC_DUMP') else 0
                if os.environ.get('VC_DUMP'):
                    open('/tmp/dumpc%d.smt2' % k, 'w').write(_)
    for b in done.values():
        res.back[b] = res.back.get(b, 0) + 1
    res.solver_time += time.time() - t0
    return done


def cvc5_timed(smt2):
    t0 = time.time()
    if DEADLINE and t0 > DEADLINE - 5:
        return 'unknown', 0
    return cvc5_check(smt2, max(1, left(120000) // 1000)), time.time() - t0


def model_dict(m, hints):
    d = {}
    if hints is not None:
        d['_hints'] = hints
    n = 0
    for x in m.decls():
        if x.arity() == 0 and '!' in x.name() or x.name().startswith('in_'):
            v = m[x]
            d[x.name()] = str(v)[:80]
            n += 1
            if n > 60:
                break
    return d


def mval(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    if z3.is_fp(v):
        b = simp(z3.fpToIEEEBV(v))
        return b.as_long() if z3.is_bv_value(b) else 0
    return str(v)


# ------------------------------------------------------------------- tasks
class Task:
    def __init__(self, name, fn, tiers=('quick', 'thorough'), cross=True):
        self.name = name
        self.fn = fn
        self.tiers = tiers
        self.cross = cross


def _worker(args):
    i, tier = args
    t = TASKS[i]
    res = Result(t.name)
    res.cross = t.cross
    t0 = time.time()
    try:
        t.fn(res, tier)
    except (VCError, llir.IRError) as e:
        res.error = 'out of reach: %s' % e
    except ToolError as e:
        res.error = 'tool: %s' % e
    except Exception:
        res.error = 'internal: ' + traceback.format_exc()[-3000:]
    res.time = time.time() - t0
    return res


TASKS = []


def run_tasks(tasks, tier, jobs=None):
    global TASKS
    TASKS = [t for t in tasks if tier in t.tiers]
    jobs = jobs or min(8, os.cpu_count() or 4)
    scratch()
    for h in sorted({(t.harness, tuple(t.extra), getattr(t, 'passes', None) or PASSES, tuple(getattr(t, 'noinline', ()))) for t in TASKS if getattr(t, 'harness', None) and not getattr(t, 'native', False)}):
        module(*h)
    nat = sorted({(t.harness, tuple(t.extra)) for t in TASKS if getattr(t, 'native', False)})
    for h in nat:
        native_exe(h[0], h[1])
    ctx = mp.get_context('fork')
    if len(TASKS) == 1 or jobs == 1:
        return [_worker((i, tier)) for i in range(len(TASKS))]
    return run_pool(ctx, tier, jobs)


def run_pool(ctx, tier, jobs):
    """each task in a forked process; what is not ready by the deadline, or dies, has no answer"""
    from multiprocessing.connection import wait
    todo = list(range(len(TASKS)))
    todo.sort(key=lambda i: -getattr(TASKS[i], 'weight', 0))
    out = [None] * len(TASKS)
    live = {}
    hard = (DEADLINE or time.time() + 1e6) + 45

    def child(i, conn):
        os.setpgid(0, 0)
        conn.send(_worker((i, tier)))
        conn.close()
        os._exit(0)

    def nothing(i, why):
        r = Result(TASKS[i].name)
        r.error = why
        return r
    while todo or live:
        while todo and len(live) < jobs and (time.time() < hard - 45 or getattr(TASKS[todo[0]], 'native', False)):
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            sys.stdout.flush()
            p = ctx.Process(target=child, args=(i, b))
            p.start()
            b.close()
            live[a] = (i, p, time.time())
        if not live:
            for i in todo:
                out[i] = nothing(i, 'out of time: not started')
            break
        for c in wait(list(live), timeout=2):
            i, p, st = live.pop(c)
            try:
                out[i] = c.recv()
            except (EOFError, OSError):
                out[i] = nothing(i, 'out of reach: the process of this task died')
            c.close()
            p.join()
        if time.time() > hard:
            for c in list(live):
                i, p, st = live[c]
                if getattr(TASKS[i], 'native', False) and time.time() < hard + 60:
                    continue
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    p.kill()
                p.join()
                c.close()
                del live[c]
                out[i] = nothing(i, 'out of time')
    return out


# --------------------------------------------------------- native replays
AVX = {'AVX2': ['-mavx2'], 'AVX': ['-mavx'], 'SSE2': ['-msse2']}


def native_lib(excl=()):
    """archive of the real library's objects, compiled by g++ as the project does"""
    d = os.path.join(scratch(), 'nat')
    a = os.path.join(d, 'libfptu_nat.a')
    if os.path.exists(a):
        return a
    os.makedirs(d, exist_ok=True)
    flags = ['-std=gnu++20', '-O1', '-g0', '-w', '-fPIC', '-fexceptions'] + DEFS + ['-I' + REPO, '-I' + config_dir()]
    srcs = []
    for root, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith('.cxx'):
                p = os.path.join(root, f)
                if 'TODO' not in p:
                    srcs.append(p)
    procs = []
    objs = []
    for p in sorted(srcs):
        o = os.path.join(d, os.path.relpath(p, REPO).replace('/', '_') + '.o')
        x = []
        for k in ('AVX2', 'AVX', 'SSE2'):
            if k in p:
                x = AVX[k]
                break
        objs.append(o)
        procs.append(subprocess.Popen(['g++'] + flags + x + ['-c', p, '-o', o], stderr=subprocess.DEVNULL))
        if len(procs) >= 8:
            procs.pop(0).wait()
    for p in procs:
        p.wait()
    objs = [o for o in objs if os.path.exists(o)]
    subprocess.run(['ar', 'rcs', a] + objs, check=True)
    return a


def native_exe(harness, extra=(), asan=True):
    """the harness compiled with g++ against the real code"""
    import fcntl
    extra = tuple(extra)
    with open(os.path.join(scratch(), 'native.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _native_exe(harness, extra, asan)


def _native_exe(harness, extra, asan):
    src = os.path.join(VERIF, 'harness', harness)
    txt = open(src).read()
    exe = os.path.join(scratch(), 'drv_' + harness.replace('.', '_') + hashlib.sha1(repr(extra).encode()).hexdigest()[:8])
    if os.path.exists(exe):
        return exe
    if '//NOASAN' in txt:
        asan = False
    flags = ['-std=gnu++20', '-O1', '-g', '-w', '-fno-access-control', '-DVC_NATIVE', '-mavx2', '-fpermissive'] + (
        ['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else []) + DEFS + [
        '-I' + REPO, '-I' + config_dir(), '-I' + os.path.join(VERIF, 'harness')] + list(extra)
    cmd = ['g++'] + flags + [src, '-o', exe + '.tmp']
    if '//LIB' in txt:
        cmd += [native_lib(), '-Wl,--allow-multiple-definition', '-lpthread', '-ldl']
    r = run(cmd, timeout=600)
    if r.returncode:
        errs = "\n".join(l for l in r.stderr.splitlines() if "error:" in l) or r.stderr
        raise ToolError("native build of %s failed:\n%s" % (harness, errs[:3000]))
    os.rename(exe + '.tmp', exe)
    return exe


def native_search(harness, names, hints, seed, seconds, extra=()):
    """runs harness functions natively; returns (text of failure or None, log)"""
    exe = native_exe(harness, extra)
    hf = os.path.join(scratch(), 'hints_%d.txt' % os.getpid())
    with open(hf, 'w') as f:
        f.write('\n'.join(hints) + '\n')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1')
    for attempt in range(20):
        try:
            return _native_run(exe, hf, names, seed, seconds, env)
        except OSError:
            time.sleep(0.5)
    raise ToolError('cannot run ' + exe)


def _native_run(exe, hf, names, seed, seconds, env):
    try:
        r = subprocess.run([exe, str(seed), str(seconds), ','.join(names) if names else '*', hf], capture_output=True, text=True,
                           timeout=seconds + 120, env=env, cwd=scratch(), errors='replace')
    except subprocess.TimeoutExpired:
        return 'native run does not terminate', ''
    log = r.stdout + r.stderr[-3000:]
    if r.returncode != 0:
        m = re.search(r'^FAIL.*$', r.stdout, re.M)
        return (m.group(0) if m else 'driver died rc=%d: %s' % (r.returncode, log[-800:])), log
    return None, log


# ------------------------------------------------------ harness contracts
def harness_names(harness, extra=(), passes=None):
    """the VC(...) functions, macro-generated ones included, in the order of definition"""
    m = module(harness, extra, passes or PASSES)
    return [n[4:] for n in m.functions if n.startswith('@VC_')]


def harness_tasks(harness, setup=None, only=None, skip_posts=False, extra=(), passes=None, bounded=None, timeout=None, unroll=None, label='', cases=None, noinline=()):
    """one Task per VC(...) function of the harness; cases: [(label, {input: value or predicate})], a complete split"""
    import hcontracts
    out = []
    for nm in harness_names(harness, extra, passes):
        if only and not re.search(only, nm):
            continue

        def fn(res, tier, nm=nm, fixed=None):
            m = module(harness, extra, passes or PASSES, noinline)
            ex = Exec(m)
            hcontracts.install(ex)
            if fixed:
                ex.fixed = fixed
            if unroll:
                ex.unroll_max = unroll if isinstance(unroll, int) else unroll.get(nm, unroll.get('*', 0))
            if setup:
                setup(ex, nm, tier, res)
            outs = ex.call('@VC_' + nm, [])
            for o in outs:
                if o.kind == 'throw' and not z3.is_false(o.pc):
                    ex.oblige(o.pc, FALSE, 'no exception %s escapes' % o.exc, 'post')
            if not ex.n_asserts:
                raise ToolError('harness %s has no postcondition' % nm)
            if bounded and nm in bounded:
                res.bounded = bounded[nm]

            def hints(mod):
                hs = []
                for (k, n, v) in ex.inputs:
                    if k == 'u':
                        hs.append('%s=%s' % (n, mval(mod, v)))
                    else:
                        sz = mval(mod, v.size)
                        bb = ''.join('%02x' % mval(mod, ex.memr(v.name)(B(i))) for i in range(min(sz, 2048)))
                        hs.append('%s=%s' % (n, bb))
                return hs
            done = Or(*[o.pc for o in outs if o.kind == 'ret'])
            if skip_posts:
                ex.obligations = [o for o in ex.obligations if o.kind != 'post']
                for c in ex.loopcuts:
                    c.cands = {k: v for k, v in c.cands.items() if not isinstance(v, tuple)}
                    c.obs = [(q, [(k, g) for k, g in grp if k in c.cands]) for q, grp in c.obs]
            discharge(ex, res, tier, hints, covers=[('end of the harness', done)] + ex.covers, timeout=timeout)
        for cl, cf in (cases(nm) if callable(cases) else cases) or [('', None)]:
            t = Task(nm + label + cl, (lambda res, tier, fn=fn, cf=cf: fn(res, tier, fixed=cf)) if cf else fn)
            t.fname = nm
            t.harness = harness
            t.extra = extra
            t.passes = passes
            t.noinline = noinline
            out.append(t)
    return out


def bounded_tasks(harness, what, extra=(), label='', seconds=10, only=None):
    """native bounded stand-ins VCB(...): labelled bounded, never counted as proved"""
    out = []
    for nm in re.findall(r'^VCB\((\w+)\)', open(os.path.join(VERIF, 'harness', harness)).read(), re.M):
        if only and not re.search(only, nm):
            continue

        def fn(res, tier, nm=nm):
            res.bounded = what
            conf, log = native_search(harness, ['bounded_' + nm], [], int(os.environ.get('VERIF_SEED', '1') or 1), seconds if tier == 'quick' else seconds * 10, extra)
            res.native_log = re.findall(r'^NATIVE .*$', log, re.M)
            if conf:
                res.confirmed = conf
                res.failed.append({'task': res.name, 'obligation': 'bounded check ' + nm, 'kind': 'bounded', 'where': harness, 'status': 'fail', 'native': conf})
        t = Task('bounded_' + nm + label, fn)
        t.fname = 'bounded_' + nm
        t.harness = harness
        t.extra = extra
        t.native = True
        out.append(t)
    return out


# -------------------------------------------------------------------- main
def main_check(spec, argv):
    pid = spec.ID
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in argv:
        if a in ('quick', 'thorough'):
            tier = a
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    rc = 0
    global DEADLINE
    DEADLINE = t0 + getattr(spec, 'SECONDS', {'quick': 520, 'thorough': 660})[tier]
    try:
        tasks = spec.tasks(tier)
        only = [a[7:] for a in argv if a.startswith('--only=')]
        if only:
            tasks = [t for t in tasks if any(o in t.name for o in only)]
        results = run_tasks(tasks, tier)
        rc = report(spec, pid, tier, seed, results, t0)
    except ToolError as e:
        print('ERROR: %s' % e)
        rc = 2
        compile_broken(spec, pid, e)
    finally:
        cleanup()
    return rc


def compile_broken(spec, pid, e):
    pass


def load_known():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding:'):
                out.append(ln[8:].strip())
    return out


def report(spec, pid, tier, seed, results, t0):
    nobs = sum(r.obligations for r in results)
    ndis = sum(r.discharged for r in results)
    errors = [(r.name, r.error) for r in results if r.error]
    failed = [f for r in results for f in r.failed]
    unknown = [f for r in results for f in r.unknown]
    uncov = [(r.name, u) for r in results for u in getattr(r, 'uncovered', [])]
    bounded = [(r.name, r.bounded) for r in results if r.bounded]
    back = {}
    for r in results:
        for k, v in r.back.items():
            back[k] = back.get(k, 0) + v
    funcs = sorted({f for r in results for f in r.functions})
    contracts = sorted({f for r in results for f in r.contracts})
    for r in results:
        st = 'ERROR' if r.error else 'FAIL' if r.failed else 'UNKNOWN' if r.unknown else 'ok'
        print('%-8s %-50s %4d/%-4d obligations  %.1fs (solver %.1fs)%s' % (
            st, r.name, r.discharged, r.obligations, r.time, r.solver_time, '  [bounded: %s]' % r.bounded if r.bounded else ''))
        if r.error:
            print('    ' + r.error.replace('\n', '\n    ')[-1500:])
        for f in r.failed + r.unknown:
            print('    %s: %s in %s  %s' % (f['status'], f['obligation'], f['where'][:100], str(f.get('hints'))[:300]))
        for n in r.notes:
            print('    note: ' + n)
    violations = []
    rc = 0
    known = load_known()
    known_lines = [k for k in known if ('property=%s ' % pid) in k]
    for k in known_lines:
        print('KNOWN-FINDING: %s' % k)
    rdir = os.path.join(VERIF, 'replay')
    trouble = failed or unknown or errors or uncov
    standin = []
    if trouble:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s.txt' % pid)
        conf = None
        logs = ''
        byname = {t.name: t for t in TASKS}
        bad = [r for r in results if r.failed or r.unknown or r.error or getattr(r, 'uncovered', None)]
        budget = 100.0 / max(1, len(bad))
        for r in bad:
            conf = conf or getattr(r, 'confirmed', None)
        for r in bad:
            t = byname.get(r.name)
            if conf or t is None or not getattr(t, 'harness', None):
                continue
            hs = [f.get('hints') for f in r.failed if f.get('hints')] or [[]]
            for h in hs[:3]:
                try:
                    conf, lg = native_search(t.harness, [t.fname], h, seed, max(4, int(budget / len(hs[:3]))), t.extra)
                    logs += lg
                except ToolError as e:
                    logs += str(e)
                    errors.append((r.name, str(e)))
                if conf:
                    break
            standin += re.findall(r'^NATIVE .*$', logs, re.M)
        with open(path, 'w') as fo:
            fo.write('property %s tier %s\n' % (pid, tier))
            for f in failed + unknown:
                fo.write('failed obligation: %s\n' % json.dumps(f, indent=1, default=str))
            for e in errors:
                fo.write('task error: %s: %s\n' % e)
            for u in uncov:
                fo.write('vacuous: %s %s\n' % u)
            fo.write('native replay/search on the real code: %s\n' % (conf or 'no failing input found'))
            fo.write(logs[-6000:])
        if conf:
            print(conf[:1500])
            print('VIOLATION property=%s replay=%s' % (pid, path))
            violations.append(path)
            rc = 1
        elif failed:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
            violations.append(path)
            rc = 1
        elif standin and not uncov and not any('internal' in (e[1] or '') for e in errors):
            # out of the verifier's reach (not refuted): bounded stand-in
            for ln in sorted(set(standin)):
                print('BOUNDED stand-in, not a proof: ' + ln)
            for r in bad:
                r.bounded = 'not proved on this tree (%s): random native search only' % (r.error or 'solver gave no answer')
                bounded.append((r.name, r.bounded))
        else:
            print('ERROR: the check could not be completed (see %s)' % path)
            rc = 2
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': spec.LEVEL,
        'coverage': {
            'kind': 'proof', 'obligations': nobs, 'discharged': ndis,
            'checker_cmd': 'python3-vt /verif/vc/check.py %s %s' % (pid, tier),
            'trusted_base': getattr(spec, 'TRUSTED', []) + TRUSTED,
            'functions_under_contract': funcs, 'contracts_used_at_calls': contracts,
            'discharged_by': back, 'solver_seconds': round(sum(r.solver_time for r in results), 2),
            'tasks': [{'name': r.name, 'obligations': r.obligations, 'discharged': r.discharged, 'covers_reached': r.covers,
                       'seconds': round(r.time, 2), 'bounded': r.bounded, 'loop_invariants': r.invariants, 'error': r.error} for r in results],
            'bounded_standins': bounded,
        },
        'assumptions': getattr(spec, 'ASSUMPTIONS', []) + ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': violations,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fo:
        json.dump(ev, fo, indent=1)
    print('%s %s: %d/%d obligations discharged, %d functions, %.1fs -> exit %d' % (pid, tier, ndis, nobs, len(funcs), time.time() - t0, rc))
    return rc


TRUSTED = ['clang 18 front end + the listed LLVM scalar passes (they produce the verified IR from /repo source)',
           'the IR-to-SMT generator /verif/vc/exec.py', 'z3 5.3.2 / cvc5 1.1.2']
ASSUMPTIONS = ['x86-64 little endian, NDEBUG build (assert() compiled out), compiled by clang for verification and by gcc in the product build',
               'no undefined behaviour exploited by gcc differently from clang; nsw/nuw/inbounds flags are ignored (wrapping semantics)']
