"""Parser for the subset of textual LLVM IR (LLVM 18, opaque pointers) that
clang emits for libfptu.  Anything unknown raises IRError: a construct outside
the subset is an ERROR of the check (never a verdict)."""
import re


class IRError(Exception):
    pass


TOK = re.compile(r'''\s*(?:
  (?P<cstr>c"(?:[^"\\]|\\.)*")|
  (?P<str>"(?:[^"\\]|\\.)*")|
  (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
  (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))|
  (?P<meta>![-a-zA-Z$._0-9]*)|
  (?P<attr>\#[0-9]+)|
  (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|
  (?P<float>[-+]?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?)|
  (?P<int>-?[0-9]+)|
  (?P<word>[a-zA-Z_][-a-zA-Z0-9_.$]*)|
  (?P<dots>\.\.\.)|
  (?P<p>[()\[\]{}<>,=*:|^])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] in ' \t\n':
            i += 1
            continue
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('lex: %r' % s[i:i + 60])
        k = m.lastgroup
        v = m.group(k)
        if k == 'local' and v[1] == '"':
            v = '%' + v[2:-1]
        elif k == 'glob' and v[1] == '"':
            v = '@' + v[2:-1]
        out.append((k, v))
        i = m.end()
    return out


class Type:
    __slots__ = ('k', 'n', 't', 'packed', '_size')

    def __init__(self, k, n=None, t=None, packed=False):
        self.k = k
        self.n = n
        self.t = t
        self.packed = packed
        self._size = None

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.n
        if self.k in ('vec', 'arr'):
            return '%s[%d x %r]' % (self.k, self.n, self.t)
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.t))
        return self.k

    def key(self):
        return repr(self)


I = {}


def itype(n):
    if n not in I:
        I[n] = Type('i', n)
    return I[n]


PTR = Type('ptr')
VOID = Type('void')
FLOAT = Type('float')
DOUBLE = Type('double')

SKIPWORDS = set('''dso_local local_unnamed_addr unnamed_addr noundef zeroext signext nonnull noalias nocapture
 readonly writeonly readnone returned inreg immarg sret byval align dereferenceable dereferenceable_or_null
 fastcc ccc coldcc tail musttail notail hidden protected default internal private linkonce_odr weak_odr linkonce weak
 external available_externally nofree nosync nounwind willreturn allocptr allocalign mustprogress cold hot
 swiftself swifterror noinline optnone comdat writable dead_on_unwind nest preallocated inalloca elementtype
 thread_local constant global initialexec dllexport dllimport extern_weak appending common nobuiltin builtin noreturn memory speculatable convergent initializes range captures'''.split())


class Parser:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %r got %r in %r' % (v, self.peek(), self.t[:12]))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'attr' or k == 'str':
                self.i += 1
                if self.peek()[1] == '=':  # "a"="b"
                    self.i += 2
                continue
            if k == 'word' and v in SKIPWORDS:
                self.i += 1
                if v == 'align' and self.peek()[0] == 'int':
                    self.i += 1
                elif self.peek()[1] == '(' and v in (
                        'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval',
                        'elementtype', 'memory', 'comdat', 'thread_local', 'inalloca', 'preallocated', 'range', 'captures', 'initializes'):
                    self.skip_parens()
                continue
            return

    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', v):
                t = itype(int(v[1:]))
            elif v == 'ptr':
                t = PTR
                if self.peek()[1] == 'addrspace':
                    raise IRError('addrspace')
            elif v == 'void':
                t = VOID
            elif v == 'float':
                t = FLOAT
            elif v == 'double':
                t = DOUBLE
            elif v in ('label', 'metadata', 'token', 'opaque', 'x86_fp80', 'half', 'fp128', 'x86_mmx', 'bfloat'):
                t = Type(v)
            else:
                raise IRError('type %r' % v)
        elif k == 'local':
            t = self.mod.named_type(v)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                ts = self.typelist('}')
                self.expect('>')
                t = Type('struct', None, ts, True)
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = Type('vec', n, e)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Type('arr', n, e)
        elif v == '{':
            ts = self.typelist('}')
            t = Type('struct', None, ts)
        else:
            raise IRError('type %r' % (v,))
        # function types: "void (ptr, ...)" appear in vararg calls
        if self.peek()[1] == '(' and self.fn_type_ahead():
            self.skip_parens()
        return t

    def fn_type_ahead(self):
        # only used in 'call <ret> (args...) @f(...)'
        j = self.i
        d = 0
        while j < len(self.t):
            v = self.t[j][1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    break
            j += 1
        nxt = self.t[j + 1] if j + 1 < len(self.t) else (None, None)
        return nxt[0] in ('glob', 'local')

    def typelist(self, close):
        ts = []
        if self.accept(close):
            return ts
        while True:
            ts.append(self.type())
            if self.accept(close):
                return ts
            self.expect(',')

    # ---- values -------------------------------------------------------
    def tyval(self):
        t = self.type()
        self.skip_attrs()
        return (t, self.value(t))

    def value(self, t):
        k, v = self.next()
        if k == 'local':
            return ('l', v)
        if k == 'glob':
            return ('g', v)
        if k == 'int':
            return ('c', int(v))
        if k in ('float', 'hex'):
            return ('f', v)
        if k == 'cstr':
            return ('bytes', unescape(v[2:-1]))
        if k == 'word':
            if v in ('true', 'false'):
                return ('c', 1 if v == 'true' else 0)
            if v in ('null', 'zeroinitializer', 'none'):
                return ('zero',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v in ('getelementptr',):
                inb = False
                while self.peek()[1] in ('inbounds', 'inrange', 'nuw', 'nusw'):
                    self.next()
                    inb = True
                self.expect('(')
                bt = self.type()
                self.expect(',')
                ops = []
                while True:
                    self.accept('inrange')
                    ops.append(self.tyval())
                    if self.accept(')'):
                        break
                    self.expect(',')
                return ('cgep', bt, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                self.expect('(')
                a = self.tyval()
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ccast', v, a, t2)
            if v in ('add', 'sub', 'mul', 'shl', 'lshr', 'and', 'or', 'xor'):
                while self.peek()[1] in ('nuw', 'nsw'):
                    self.next()
                self.expect('(')
                a = self.tyval()
                self.expect(',')
                b = self.tyval()
                self.expect(')')
                return ('cbin', v, a, b)
            if v == 'icmp':
                pred = self.next()[1]
                self.expect('(')
                a = self.tyval()
                self.expect(',')
                b = self.tyval()
                self.expect(')')
                return ('cicmp', pred, a, b)
            raise IRError('const %r' % v)
        if v in '[{<':
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                self.next()
                r = self.vallist('}')
                self.expect('>')
                return ('agg', r)
            return ('agg', self.vallist(close))
        if k == 'meta':
            return ('meta', v)
        raise IRError('value %r' % (v,))

    def vallist(self, close):
        r = []
        if self.accept(close):
            return r
        while True:
            r.append(self.tyval())
            if self.accept(close):
                return r
            self.expect(',')


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Inst:
    __slots__ = ('res', 'op', 'ty', 'a', 'x', 'text')

    def __init__(self, res, op, ty, a, x=None, text=''):
        self.res = res
        self.op = op
        self.ty = ty
        self.a = a
        self.x = x
        self.text = text

    def __repr__(self):
        return self.text


class Block:
    def __init__(self, name):
        self.name = name
        self.insts = []
        self.succ = []
        self.pred = []


class Function:
    def __init__(self, name, ret, params):
        self.name = name
        self.ret = ret
        self.params = params  # (type, name, attrs)
        self.blocks = {}
        self.order = []
        self.lines = None
        self.noreturn = False
        self.attr_groups = []

    def parse_body(self, mod):
        if self.blocks or self.lines is None:
            return
        # numbering of unnamed entry block
        cur = None
        entry_label = None
        nparams = sum(1 for p in self.params if p[1] is not None)
        buf = None
        merged = []
        for ln in self.lines:
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            if buf is not None:
                buf += ' ' + s
                if s.startswith(']'):
                    merged.append(buf)
                    buf = None
                continue
            if s.startswith('switch ') and not s.rstrip().endswith(']'):
                buf = s
                continue
            if merged and (s.startswith('to label') or
                           (re.match(r'(catch|cleanup|filter)\b', s) and ' landingpad ' in ' ' + merged[-1])):
                merged[-1] += ' ' + s
                continue
            merged.append(s)
        for s in merged:
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', s)
            if m:
                nm = m.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                cur = Block('%' + nm)
                self.blocks[cur.name] = cur
                self.order.append(cur.name)
                continue
            if cur is None:
                # unnamed entry
                unn = [p[1] for p in self.params if p[1] and re.fullmatch(r'%\d+', p[1])]
                nm = '%%%d' % len(unn)
                cur = Block(nm)
                self.blocks[nm] = cur
                self.order.append(nm)
            cur.insts.append(parse_inst(s, mod))
        for b in self.blocks.values():
            t = b.insts[-1]
            if t.op == 'br':
                b.succ = [t.x[0]] if len(t.x) == 1 else list(t.x)
            elif t.op == 'switch':
                b.succ = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == 'invoke':
                b.succ = [t.x['normal'], t.x['unwind']]
            else:
                b.succ = []
            # dedupe keep order
            b.succ = list(dict.fromkeys(b.succ))
        for b in self.blocks.values():
            for s_ in b.succ:
                self.blocks[s_].pred.append(b.name)


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast'.split())
FLAGS = set('nuw nsw exact fast nnan ninf nsz arcp contract reassoc afn disjoint nneg inbounds volatile samesign'.split())


def parse_inst(s, mod):
    text = s
    # strip trailing metadata ", !foo !1"
    s = re.sub(r',\s*![-a-zA-Z0-9_.]+ !\d+', '', s)
    s = re.sub(r'\s*!srcloc !\d+', '', s)
    p = Parser(tokenize(s), mod)
    res = None
    if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
        res = p.next()[1]
        p.next()
    k, op = p.next()
    flags = set()

    def fl():
        while p.peek()[1] in FLAGS:
            flags.add(p.next()[1])
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    if op in BIN:
        fl()
        t, a = p.tyval()
        p.expect(',')
        b = p.value(t)
        return Inst(res, op, t, [(t, a), (t, b)], flags, text)
    if op == 'fneg' or op == 'freeze':
        fl()
        a = p.tyval()
        return Inst(res, op, a[0], [a], None, text)
    if op in ('icmp', 'fcmp'):
        fl()
        pred = p.next()[1]
        t, a = p.tyval()
        p.expect(',')
        b = p.value(t)
        rt = itype(1) if t.k != 'vec' else Type('vec', t.n, itype(1))
        return Inst(res, op, rt, [(t, a), (t, b)], pred, text)
    if op in CAST:
        fl()
        a = p.tyval()
        p.expect('to')
        t = p.type()
        return Inst(res, op, t, [a], flags, text)
    if op == 'getelementptr':
        fl()
        bt = p.type()
        p.expect(',')
        ops = [p.tyval()]
        while p.accept(','):
            ops.append(p.tyval())
        return Inst(res, op, PTR, ops, bt, text)
    if op == 'load':
        fl()
        if p.accept('atomic'):
            flags.add('atomic')
        fl()
        t = p.type()
        p.expect(',')
        a = p.tyval()
        return Inst(res, op, t, [a], flags, text)
    if op == 'store':
        fl()
        if p.accept('atomic'):
            flags.add('atomic')
        fl()
        v = p.tyval()
        p.expect(',')
        a = p.tyval()
        return Inst(None, op, VOID, [v, a], flags, text)
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        cnt = None
        if p.accept(','):
            if p.peek()[1] != 'align':
                cnt = p.tyval()
        return Inst(res, op, PTR, [cnt] if cnt else [], t, text)
    if op == 'br':
        if p.peek()[1] == 'label':
            p.next()
            return Inst(None, op, VOID, [], [p.next()[1]], text)
        c = p.tyval()
        p.expect(',')
        p.expect('label')
        a = p.next()[1]
        p.expect(',')
        p.expect('label')
        b = p.next()[1]
        return Inst(None, op, VOID, [c], [a, b], text)
    if op == 'switch':
        c = p.tyval()
        p.expect(',')
        p.expect('label')
        d = p.next()[1]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            t, v = p.tyval()
            p.expect(',')
            p.expect('label')
            cases.append((v[1], p.next()[1]))
        return Inst(None, op, VOID, [c], (d, cases), text)
    if op == 'ret':
        if p.peek()[1] == 'void':
            return Inst(None, op, VOID, [], None, text)
        return Inst(None, op, VOID, [p.tyval()], None, text)
    if op == 'unreachable':
        return Inst(None, op, VOID, [], None, text)
    if op == 'resume':
        return Inst(None, op, VOID, [p.tyval()], None, text)
    if op == 'phi':
        fl()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = p.next()[1]
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        return Inst(res, op, t, inc, None, text)
    if op == 'select':
        fl()
        c = p.tyval()
        p.expect(',')
        a = p.tyval()
        p.expect(',')
        b = p.tyval()
        return Inst(res, op, a[0], [c, a, b], None, text)
    if op in ('call', 'invoke'):
        fl()
        p.skip_attrs()
        fl()
        t = p.type()
        p.skip_attrs()
        k, callee = p.next()
        if k not in ('glob', 'local'):
            raise IRError('call target %r in %s' % (callee, text))
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                if p.peek()[1] == 'metadata':
                    # skip metadata arg
                    d = 0
                    while not (d == 0 and p.peek()[1] in (',', ')')):
                        v = p.next()[1]
                        if v == '(':
                            d += 1
                        elif v == ')':
                            d -= 1
                    args.append((Type('metadata'), ('meta',)))
                else:
                    at = p.type()
                    p.skip_attrs()
                    args.append((at, p.value(at)))
                if p.accept(')'):
                    break
                p.expect(',')
        x = {'callee': callee}
        while p.peek()[0] == 'attr':
            x.setdefault('attrs', []).append(p.next()[1])
        if op == 'invoke':
            while p.peek()[1] != 'to':
                p.next()
            p.expect('to')
            p.expect('label')
            x['normal'] = p.next()[1]
            p.expect('unwind')
            p.expect('label')
            x['unwind'] = p.next()[1]
        return Inst(res, op, t, args, x, text)
    if op == 'landingpad':
        t = p.type()
        clauses = []
        cleanup = False
        while p.peek()[0] is not None:
            w = p.next()[1]
            if w == 'cleanup':
                cleanup = True
            elif w in ('catch', 'filter'):
                clauses.append((w, p.tyval()))
        return Inst(res, op, t, [], (cleanup, clauses), text)
    if op == 'extractvalue':
        a = p.tyval()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return Inst(res, op, None, [a], idx, text)
    if op == 'insertvalue':
        a = p.tyval()
        p.expect(',')
        b = p.tyval()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return Inst(res, op, a[0], [a, b], idx, text)
    if op == 'extractelement':
        a = p.tyval()
        p.expect(',')
        b = p.tyval()
        return Inst(res, op, a[0].t, [a, b], None, text)
    if op == 'insertelement':
        a = p.tyval()
        p.expect(',')
        b = p.tyval()
        p.expect(',')
        c = p.tyval()
        return Inst(res, op, a[0], [a, b, c], None, text)
    if op == 'shufflevector':
        a = p.tyval()
        p.expect(',')
        b = p.tyval()
        p.expect(',')
        c = p.tyval()
        return Inst(res, op, Type('vec', c[0].n, a[0].t), [a, b, c], None, text)
    if op == 'atomicrmw':
        fl()
        kind = p.next()[1]
        a = p.tyval()
        p.expect(',')
        b = p.tyval()
        return Inst(res, op, b[0], [a, b], kind, text)
    if op == 'cmpxchg':
        p.accept('weak')
        fl()
        a = p.tyval()
        p.expect(',')
        b = p.tyval()
        p.expect(',')
        c = p.tyval()
        return Inst(res, op, Type('struct', None, [b[0], itype(1)]), [a, b, c], None, text)
    if op == 'fence':
        return Inst(None, op, VOID, [], None, text)
    raise IRError('instruction %r' % text)


class Global:
    def __init__(self, name, ty, init, const):
        self.name = name
        self.ty = ty
        self.init = init
        self.const = const


class Module:
    def __init__(self, text):
        self.types = {}
        self.type_src = {}
        self.functions = {}
        self.decls = {}
        self.globals = {}
        self.aliases = {}
        self.attrs = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        deferred = []
        while i < n:
            ln = lines[i]
            if ln.startswith('%'):
                m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                nm = m.group(1)
                if nm[1] == '"':
                    nm = '%' + nm[2:-1]
                self.type_src[nm] = m.group(2)
            elif ln.startswith('@'):
                deferred.append(ln)
            elif ln.startswith('define') or ln.startswith('declare'):
                isdef = ln.startswith('define')
                body = None
                if isdef:
                    j = i + 1
                    while lines[j] != '}':
                        j += 1
                    body = lines[i + 1:j]
                    i = j
                self.parse_fn(ln, body)
            elif ln.startswith('attributes'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
                self.attrs[m.group(1)] = m.group(2)
            i += 1
        for ln in deferred:
            self.parse_global(ln)

    def named_type(self, v):
        if v in self.types:
            return self.types[v]
        src = self.type_src.get(v)
        if src is None:
            raise IRError('unknown type ' + v)
        if src.strip() == 'opaque':
            t = Type('opaque')
            self.types[v] = t
            return t
        t = Type('struct', None, [])
        self.types[v] = t
        r = Parser(tokenize(src), self).type()
        t.k, t.n, t.t, t.packed = r.k, r.n, r.t, r.packed
        return t

    def parse_fn(self, ln, body):
        toks = tokenize(ln.rstrip('{ '))
        p = Parser(toks, self)
        p.next()
        p.skip_attrs()
        ret = p.type()
        p.skip_attrs()
        k, name = p.next()
        if k != 'glob':
            raise IRError('fn name %r' % ln[:100])
        p.expect('(')
        params = []
        vararg = False
        if not p.accept(')'):
            while True:
                if p.peek()[0] == 'dots':
                    p.next()
                    vararg = True
                    p.expect(')')
                    break
                t = p.type()
                start = p.i
                p.skip_attrs()
                at = ' '.join(x[1] for x in p.t[start:p.i])
                nm = None
                if p.peek()[0] == 'local':
                    nm = p.next()[1]
                params.append((t, nm, at))
                if p.accept(')'):
                    break
                p.expect(',')
        if body is not None:
            # give unnamed params numeric names
            cnt = 0
            pp = []
            for (t, nm, at) in params:
                if nm is None:
                    nm = '%%%d' % cnt
                    cnt += 1
                pp.append((t, nm, at))
            params = pp
        f = Function(name, ret, params)
        f.attr_groups = re.findall(r'#\d+', ln)
        f.lines = body
        if body is not None:
            self.functions[name] = f
        else:
            self.decls[name] = f

    def parse_global(self, ln):
        m = re.match(r'^(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
        nm = m.group(1)
        if nm[1] == '"':
            nm = '@' + nm[2:-1]
        rest = m.group(2)
        if re.match(r'.*\b(alias|ifunc)\b', rest.split('(')[0]) and ' global ' not in rest and ' constant ' not in rest:
            mm = re.findall(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', rest)
            if 'ifunc' in rest.split('@')[0]:
                self.decls.setdefault(nm, Function(nm, PTR, []))
            else:
                self.aliases[nm] = mm[-1]
            return
        const = re.search(r'\bconstant\b', rest.split('"')[0]) is not None
        rest2 = re.sub(r'^.*?\b(?:constant|global)\b\s*', '', rest, count=1)
        head = rest[:len(rest) - len(rest2)]
        rest2 = re.sub(r',\s*![-a-zA-Z0-9_.]+ !\d+', '', rest2)
        p = Parser(tokenize(rest2), self)
        try:
            t = p.type()
            init = None
            if 'external' not in head.split() and p.peek()[0] is not None and p.peek()[1] != ',':
                init = p.value(t)
        except IRError:
            t = None
            init = None
        self.globals[nm] = Global(nm, t, init, const)

    def is_noreturn(self, name):
        f = self.functions.get(name) or self.decls.get(name)
        if not f:
            return False
        return any('noreturn' in self.attrs.get(a, '') for a in f.attr_groups)


def align_of(t):
    if t.k == 'i':
        b = (t.n + 7) // 8
        r = 1
        while r < b:
            r *= 2
        return min(r, 16)
    if t.k == 'ptr' or t.k == 'double':
        return 8
    if t.k == 'float':
        return 4
    if t.k == 'vec':
        s = size_of(t)
        r = 1
        while r < s:
            r *= 2
        return r
    if t.k == 'arr':
        return align_of(t.t)
    if t.k == 'struct':
        if t.packed or not t.t:
            return 1
        return max(align_of(x) for x in t.t)
    if t.k == 'x86_fp80':
        return 16
    raise IRError('align_of %r' % t)


def size_of(t):
    if t._size is not None:
        return t._size
    if t.k == 'i':
        b = (t.n + 7) // 8
        r = 1
        while r < b:
            r *= 2
        s = r
    elif t.k in ('ptr', 'double'):
        s = 8
    elif t.k == 'float':
        s = 4
    elif t.k == 'vec':
        s = (t.n * (1 if (t.t.k == 'i' and t.t.n == 1) else size_of(t.t) * 8) + 7) // 8
    elif t.k == 'arr':
        s = t.n * size_of(t.t)
    elif t.k == 'struct':
        s = 0
        for x in t.t:
            if not t.packed:
                a = align_of(x)
                s = (s + a - 1) // a * a
            s += size_of(x)
        if not t.packed:
            a = align_of(t)
            s = (s + a - 1) // a * a
    elif t.k == 'x86_fp80':
        s = 16
    else:
        raise IRError('size_of %r' % t)
    t._size = s
    return s


def field_offset(t, i):
    s = 0
    for j, x in enumerate(t.t):
        if not t.packed:
            a = align_of(x)
            s = (s + a - 1) // a * a
        if j == i:
            return s
        s += size_of(x)
    raise IRError('field_offset')


if __name__ == '__main__':
    import sys
    m = Module(open(sys.argv[1]).read())
    bad = 0
    for f in m.functions.values():
        try:
            f.parse_body(m)
        except IRError as e:
            print('ERR', f.name, e)
            bad += 1
    print(len(m.functions), 'functions', bad, 'bad', len(m.globals), 'globals')
