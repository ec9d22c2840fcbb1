"""Reader for textual LLVM IR (LLVM 18, opaque pointers) as produced by clang at -O0 + sroa.

Only what clang emits for this code base is supported; anything else raises IRError, which the
driver turns into an error exit of the check (never into a verdict).
"""
import re


class IRError(Exception):
    pass


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"[^"]*")
 | (?P<loc>%(?:"[^"]*"|[\w.$-]+))
 | (?P<glb>@(?:"[^"]*"|[\w.$-]+))
 | (?P<cmd>\$(?:"[^"]*"|[\w.$-]+))
 | (?P<meta>!(?:[\w.]+|(?=\{)))
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+)?(?:e[+-]?\d+)?\b|0x[0-9A-Fa-f]+)
 | (?P<dots>\.\.\.)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<p>[()\[\]{}<>,=*|:])
)''', re.X)


def lex(line):
    out = []
    i, n = 0, len(line)
    while i < n:
        m = TOK.match(line, i)
        if not m:
            rest = line[i:].strip()
            if not rest or rest.startswith(';'):
                break
            raise IRError('lex: %r' % line[i:i + 60])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out


def unq(name):
    s = name[1:]
    if s.startswith('"'):
        s = s[1:-1]
        if '\\' in s:
            s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)
    return s


PTR = ('ptr',)
VOID = ('void',)
_INT = {}


def IntT(n):
    t = _INT.get(n)
    if t is None:
        t = _INT[n] = ('i', n)
    return t


ATTRS = set('''noundef nonnull zeroext signext noalias nocapture readonly writeonly readnone returned
 dead_on_unwind writable inreg nest immarg noreturn nounwind local_unnamed_addr unnamed_addr dso_local
 tail musttail notail fastcc ccc coldcc linkonce_odr weak_odr internal private external weak common
 available_externally hidden protected default nofree swiftself allocptr inalloca inbounds
 nuw nsw exact volatile disjoint nneg fast nnan ninf nsz arcp contract afn reassoc thread_local
 constant global externally_initialized appending mustprogress'''.split())
PATTRS = set('align dereferenceable dereferenceable_or_null'.split())
TATTRS = set('sret byval byref elementtype preallocated'.split())


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def nxt(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def eat(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise IRError('expected %s at %s' % (v, self.t[self.i:self.i + 5]))

    def type(self):
        k, v = self.nxt()
        if k == 'word':
            if v == 'ptr':
                t = PTR
                if self.peek()[1] == 'addrspace':
                    raise IRError('addrspace')
            elif v == 'void':
                t = VOID
            elif v[0] == 'i' and v[1:].isdigit():
                t = IntT(int(v[1:]))
            elif v in ('double', 'float', 'half', 'x86_fp80', 'metadata', 'label', 'token', 'fp128'):
                t = (v,)
            elif v == 'opaque':
                t = ('opaque',)
            else:
                raise IRError('type %s' % v)
        elif k == 'loc':
            t = ('named', unq(v))
        elif v == '[':
            n = int(self.nxt()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            t = ('struct', tuple(fs), False)
        elif v == '<':
            if self.eat('{'):
                fs = []
                if not self.eat('}'):
                    while True:
                        fs.append(self.type())
                        if self.eat('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = ('struct', tuple(fs), True)
            else:
                n = int(self.nxt()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        else:
            raise IRError('type tok %s %s' % (k, v))
        # function type
        while self.peek()[1] == '(' and t[0] in ('i', 'ptr', 'void', 'struct', 'named', 'double', 'float', 'arr'):
            save = self.i
            self.i += 1
            ps = []
            va = False
            ok = True
            try:
                if not self.eat(')'):
                    while True:
                        if self.eat('...'):
                            va = True
                            self.expect(')')
                            break
                        ps.append(self.type())
                        if self.eat(')'):
                            break
                        self.expect(',')
            except IRError:
                ok = False
            if not ok:
                self.i = save
                break
            # "type (" could also be a call argument list; callers handle that by look-ahead
            t = ('fn', t, tuple(ps), va)
        return t

    def skip_attrs(self, info=None):
        while self.i < len(self.t):
            k, v = self.t[self.i]
            if k == 'word' and v in ATTRS:
                self.i += 1
            elif k == 'word' and v in PATTRS:
                self.i += 1
                if self.eat('('):
                    self.nxt()
                    self.expect(')')
                else:
                    self.nxt()
            elif k == 'word' and v in TATTRS:
                self.i += 1
                if self.eat('('):
                    ty = self.type()
                    self.expect(')')
                    if info is not None:
                        info[v] = ty
            elif k == 'word' and v in ('range', 'captures', 'memory', 'nofpclass'):
                self.i += 1
                self.expect('(')
                d = 1
                while d:
                    w = self.nxt()[1]
                    d += (w == '(') - (w == ')')
            elif k == 'attr':
                self.i += 1
            else:
                return

    def value(self, ty):
        """operand of known type -> operand tuple"""
        k, v = self.nxt()
        if k == 'loc':
            return ('r', unq(v))
        if k == 'glb':
            return ('g', unq(v))
        if k == 'num':
            if ty[0] == 'i':
                return ('c', int(v) & ((1 << ty[1]) - 1))
            return ('f', v)
        if k == 'word':
            if v == 'null':
                return ('null',)
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v in ('undef', 'poison'):
                return ('undef', ty)
            if v == 'zeroinitializer':
                return ('zero', ty)
            if v in ('none',):
                return ('null',)
            if v == 'getelementptr':
                self.eat('inbounds')
                while self.peek()[1] in ('nuw', 'nusw', 'inrange', 'inbounds'):
                    self.nxt()
                self.expect('(')
                bt = self.type()
                self.expect(',')
                self.eat('inrange')
                pt = self.type()
                base = self.value(pt)
                idx = []
                while self.eat(','):
                    self.eat('inrange')
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.expect(')')
                return ('gep', bt, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                t1 = self.type()
                a = self.value(t1)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('cast', v, t1, a, t2)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
                while self.peek()[1] in ('nuw', 'nsw', 'exact'):
                    self.nxt()
                self.expect('(')
                t1 = self.type()
                a = self.value(t1)
                self.expect(',')
                t2 = self.type()
                b = self.value(t2)
                self.expect(')')
                return ('bin', v, t1, a, b)
            if v == 'icmp':
                pred = self.nxt()[1]
                self.expect('(')
                t1 = self.type()
                a = self.value(t1)
                self.expect(',')
                t2 = self.type()
                b = self.value(t2)
                self.expect(')')
                return ('icmp', pred, t1, a, b)
            if v == 'select':
                raise IRError('const select')
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return self.value(ty)
            raise IRError('value word %s' % v)
        if k == 'str' and v[0] == 'c':
            return ('cstr', cstr(v[2:-1]))
        if v == '{' or v == '[' or v == '<':
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                self.nxt()
                close = '}'
                packed = True
            else:
                packed = False
            els = []
            if not self.eat(close):
                while True:
                    t1 = self.type()
                    els.append((t1, self.value(t1)))
                    if self.eat(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', els)
        raise IRError('value %s %s' % (k, v))

    def tv(self):
        ty = self.type()
        self.skip_attrs()
        return ty, self.value(ty)


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin-1') if ord(s[i]) < 256 else s[i].encode('utf8')
            i += 1
    return bytes(out)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'idx', 'fl')

    def __init__(self, op, res, ty, a, line, fl=()):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.line = line
        self.fl = fl

    def __repr__(self):
        return self.line.strip()


class Func:
    def __init__(self, name, mod):
        self.name = name
        self.mod = mod
        self.params = []      # list of (type, regname, info)
        self.ret = VOID
        self.vararg = False
        self.raw = None
        self.blocks = None    # label -> [Ins]
        self.order = None
        self.noreturn = False
        self._loops = None

    def parse(self):
        if self.blocks is None:
            parse_body(self)
        return self

    def loops(self):
        """header -> set(blocks) of natural loops (computed lazily)"""
        if self._loops is None:
            self._loops = natural_loops(self.parse())
        return self._loops


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self._sz = {}

    def load(self, path):
        lines = open(path, encoding='utf8', errors='surrogateescape').read().split('\n')
        i = 0
        n = len(lines)
        while i < n:
            L = lines[i]
            if L.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = self.parse_header(L, True)
                f.raw = lines[i + 1:j]
                self.funcs[f.name] = f
                i = j + 1
                continue
            if L.startswith('declare '):
                f = self.parse_header(L, False)
                if f.name not in self.funcs:
                    self.funcs[f.name] = f
            elif L.startswith('%'):
                p = P(lex(L), self)
                nm = unq(p.nxt()[1])
                p.expect('=')
                p.expect('type')
                if p.eat('opaque'):
                    self.types[nm] = ('opaque',)
                else:
                    self.types[nm] = p.type()
            elif L.startswith('@'):
                self.parse_global(L)
            i += 1
        return self

    def parse_global(self, L):
        toks = lex(re.sub(r', !dbg !\d+', '', L))
        p = P(toks, self)
        nm = unq(p.nxt()[1])
        p.expect('=')
        isconst = False
        isext = False
        while True:
            k, v = p.peek()
            if v == 'alias' or v == 'ifunc':
                p.nxt()
                p.type()
                p.expect(',')
                ty, val = p.tv()
                self.aliases[nm] = val
                return
            if v == 'constant':
                isconst = True
                p.nxt()
                break
            if v == 'global':
                p.nxt()
                break
            if v in ('external', 'extern_weak'):
                isext = True
                p.nxt()
                continue
            if k == 'word' and v == 'thread_local':
                p.nxt()
                if p.eat('('):
                    p.nxt()
                    p.expect(')')
                continue
            if k == 'word' and v == 'comdat':
                p.nxt()
                continue
            if k == 'word':
                p.nxt()
                continue
            raise IRError('global %s' % L[:100])
        ty = p.type()
        init = None
        if not isext and p.peek()[0] is not None and p.peek()[1] != ',':
            init = p.value(ty)
        self.globals[nm] = (ty, init, isconst)

    def parse_header(self, L, define):
        L2 = L.rstrip('{').rstrip()
        m = re.search(r'@("[^"]*"|[\w.$-]+)\(', L2)
        name = unq('@' + m.group(1))
        f = Func(name, self)
        pre = L2[:m.start()]
        p = P(lex(pre), self)
        p.nxt()
        p.skip_attrs()
        while p.peek()[0] == 'word' and p.peek()[1] in ('comdat',):
            p.nxt()
        f.ret = p.type()
        f.noreturn = False
        p = P(lex(L2[m.end():]), self)
        if not p.eat(')'):
            n = 0
            while True:
                if p.eat('...'):
                    f.vararg = True
                    p.expect(')')
                    break
                ty = p.type()
                info = {}
                p.skip_attrs(info)
                k, v = p.peek()
                if k == 'loc':
                    p.nxt()
                    reg = unq(v)
                else:
                    reg = str(n)
                f.params.append((ty, reg, info))
                n += 1
                if p.eat(')'):
                    break
                p.expect(',')
        return f

    # ---- layout -------------------------------------------------------------------------------
    def res(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        r = self._sz.get(t)
        if r is None:
            r = self._sz[t] = self._size_align(t)
        return r

    def _size_align(self, t):
        t = self.res(t)
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b and a < 16:
                a *= 2
            sz = (b + a - 1) // a * a
            return sz, a
        if k == 'ptr':
            return 8, 8
        if k == 'double':
            return 8, 8
        if k == 'float':
            return 4, 4
        if k == 'x86_fp80':
            return 16, 16
        if k == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'struct':
            off, al = 0, 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if k == 'vec':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == 'opaque':
            return 1 << 40, 1
        if k == 'fn':
            return 1, 1
        raise IRError('size of %s' % (t,))

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field(self, t, i):
        """(offset, type) of field i of struct/array type t"""
        t = self.res(t)
        if t[0] == 'struct':
            off = 0
            for j, f in enumerate(t[1]):
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                if j == i:
                    return off, f
                off += s
            raise IRError('field')
        if t[0] in ('arr', 'vec'):
            return i * self.sizeof(t[2]), t[2]
        raise IRError('field of %s' % (t,))


BIN = set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr'.split())
FBIN = set('fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext ptrtoint inttoptr bitcast'.split())
FCAST = set('fptoui fptosi uitofp sitofp fptrunc fpext'.split())


def parse_body(f):
    blocks = {}
    order = []
    cur = None
    # the entry block has an implicit label: number of params
    lines = f.raw
    i = 0
    n = len(lines)
    entry = None
    while i < n:
        L = lines[i]
        if not L.strip() or L.lstrip().startswith(';'):
            i += 1
            continue
        if not L.startswith(' '):
            m = re.match(r'("[^"]*"|[\w.$-]+):', L)
            if not m:
                raise IRError('label? %r' % L)
            lab = m.group(1)
            if lab.startswith('"'):
                lab = lab[1:-1]
            cur = blocks.setdefault(lab, [])
            order.append(lab)
            i += 1
            continue
        if cur is None:
            lab = str(len(f.params))
            for ty, reg, info in f.params:
                pass
            # implicit entry label = number of unnamed params
            cur = blocks.setdefault(lab, [])
            order.append(lab)
        # join multi-line instructions (switch / invoke / landingpad)
        s = L.strip()
        full = L
        if s.startswith('switch ') and s.endswith('['):
            while ']' != lines[i + 1].strip()[:1]:
                i += 1
                full += ' ' + lines[i].strip()
            i += 1
            full += ' ]'
        elif re.match(r'(%\S+ = |%"[^"]*" = )?invoke ', s):
            i += 1
            full += ' ' + lines[i].strip()
        elif re.match(r'%\S+ = landingpad ', s):
            while i + 1 < n and lines[i + 1].startswith('          '):
                i += 1
                full += ' ' + lines[i].strip()
        cur.append(parse_ins(full, f.mod))
        i += 1
    f.blocks = blocks
    f.order = order
    for b in blocks.values():
        for k, ins in enumerate(b):
            ins.idx = k


def strip_meta(L):
    # drop trailing metadata / attribute-group references
    L = re.sub(r'(, )?![\w.]+ !\d+', '', L)
    L = re.sub(r'(, )?!srcloc !\d+', '', L)
    return L


def parse_ins(L, mod):
    s = strip_meta(L.strip()) if '!' in L else L.strip()
    toks = lex(s)
    p = P(toks, mod)
    res = None
    if toks[0][0] == 'loc' and toks[1][1] == '=':
        res = unq(toks[0][1])
        p.i = 2
    op = p.nxt()[1]
    if op in ('tail', 'musttail', 'notail'):
        op = p.nxt()[1]
    if op == 'load':
        p.eat('atomic')
        p.eat('volatile')
        ty = p.type()
        p.expect(',')
        _, a = p.tv()
        return Ins('load', res, ty, (a,), s)
    if op == 'store':
        p.eat('atomic')
        p.eat('volatile')
        ty, v = p.tv()
        p.expect(',')
        _, a = p.tv()
        return Ins('store', res, ty, (v, a), s)
    if op == 'alloca':
        ty = p.type()
        cnt = None
        if p.eat(','):
            if p.peek()[1] != 'align':
                ct, cnt = p.tv()
        return Ins('alloca', res, ty, (cnt,), s)
    if op in BIN:
        fl = []
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'):
            fl.append(p.nxt()[1])
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Ins('bin', res, ty, (op, a, b), s, tuple(fl))
    if op == 'icmp':
        while p.peek()[1] in ('samesign',):
            p.nxt()
        pred = p.nxt()[1]
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Ins('icmp', res, ty, (pred, a, b), s)
    if op in CAST:
        while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
            p.nxt()
        t1 = p.type()
        a = p.value(t1)
        p.expect('to')
        t2 = p.type()
        return Ins('cast', res, t2, (op, t1, a), s)
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.nxt()
        bt = p.type()
        p.expect(',')
        pt, base = p.tv()
        idx = []
        while p.eat(','):
            idx.append(p.tv())
        return Ins('gep', res, PTR, (bt, base, idx), s)
    if op == 'br':
        if p.peek()[1] == 'label':
            p.nxt()
            return Ins('br', None, None, (unq(p.nxt()[1]),), s)
        _, c = p.tv()
        p.expect(',')
        p.expect('label')
        a = unq(p.nxt()[1])
        p.expect(',')
        p.expect('label')
        b = unq(p.nxt()[1])
        return Ins('condbr', None, None, (c, a, b), s)
    if op == 'switch':
        ty, v = p.tv()
        p.expect(',')
        p.expect('label')
        d = unq(p.nxt()[1])
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct, cv = p.tv()
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], unq(p.nxt()[1])))
        return Ins('switch', None, ty, (v, d, cases), s)
    if op == 'ret':
        ty = p.type()
        if ty == VOID:
            return Ins('ret', None, VOID, (None,), s)
        p.skip_attrs()
        return Ins('ret', None, ty, (p.value(ty),), s)
    if op == 'unreachable':
        return Ins('unreachable', None, None, (), s)
    if op == 'resume':
        ty, v = p.tv()
        return Ins('resume', None, ty, (v,), s)
    if op == 'phi':
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            lab = unq(p.nxt()[1])
            p.expect(']')
            inc.append((lab, v))
            if not p.eat(','):
                break
        return Ins('phi', res, ty, dict(inc), s)
    if op == 'select':
        _, c = p.tv()
        p.expect(',')
        t, a = p.tv()
        p.expect(',')
        _, b = p.tv()
        return Ins('select', res, t, (c, a, b), s)
    if op in ('call', 'invoke'):
        p.skip_attrs()
        fty = p.type()     # return type or full function type
        if fty[0] == 'fn':
            rty = fty[1]
        else:
            rty = fty
        k, v = p.nxt()
        if k == 'glb':
            callee = ('g', unq(v))
        elif k == 'loc':
            callee = ('r', unq(v))
        elif k == 'word' and v == 'asm':
            return Ins('asm', res, rty, (), s)
        else:
            raise IRError('callee %s' % s)
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                aty = p.type()
                info = {}
                p.skip_attrs(info)
                if aty[0] == 'metadata':
                    return Ins('nop', None, None, (), s)
                args.append((aty, p.value(aty), info))
                if p.eat(')'):
                    break
                p.expect(',')
        if op == 'call':
            return Ins('call', res, rty, (callee, args, None, None), s)
        while p.peek()[1] != 'to':
            p.nxt()
        p.expect('to')
        p.expect('label')
        n = unq(p.nxt()[1])
        p.expect('unwind')
        p.expect('label')
        u = unq(p.nxt()[1])
        return Ins('call', res, rty, (callee, args, n, u), s)
    if op == 'landingpad':
        ty = p.type()
        cl = []
        cleanup = False
        while p.peek()[0] is not None:
            w = p.nxt()[1]
            if w == 'cleanup':
                cleanup = True
            elif w == 'catch':
                cl.append(('catch', p.tv()[1]))
            elif w == 'filter':
                cl.append(('filter', p.tv()[1]))
        return Ins('landingpad', res, ty, (cleanup, cl), s)
    if op == 'extractvalue':
        ty, v = p.tv()
        idx = []
        while p.eat(','):
            idx.append(int(p.nxt()[1]))
        return Ins('extractvalue', res, ty, (v, idx), s)
    if op == 'insertvalue':
        ty, v = p.tv()
        p.expect(',')
        t2, e = p.tv()
        idx = []
        while p.eat(','):
            idx.append(int(p.nxt()[1]))
        return Ins('insertvalue', res, ty, (v, e, idx), s)
    if op == 'freeze':
        ty, v = p.tv()
        return Ins('freeze', res, ty, (v,), s)
    if op in FBIN or op in FCAST or op in ('fcmp', 'fneg', 'atomicrmw', 'cmpxchg', 'fence', 'va_arg'):
        return Ins('unsupported', res, None, (op,), s)
    raise IRError('instruction %s' % s)


def succs(ins):
    if ins.op == 'br':
        return [ins.a[0]]
    if ins.op == 'condbr':
        return [ins.a[1], ins.a[2]]
    if ins.op == 'switch':
        return [ins.a[1]] + [c[1] for c in ins.a[2]]
    if ins.op == 'call' and ins.a[2] is not None:
        return [ins.a[2], ins.a[3]]
    return []


def natural_loops(f):
    order = f.order
    succ = {b: succs(f.blocks[b][-1]) for b in order}
    pred = {b: [] for b in order}
    for b in order:
        for s in succ[b]:
            pred[s].append(b)
    # reverse post order
    seen = set()
    rpo = []
    st = [(order[0], iter(succ[order[0]]))]
    seen.add(order[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succ[s])))
                break
        else:
            rpo.append(b)
            st.pop()
    rpo.reverse()
    num = {b: i for i, b in enumerate(rpo)}
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in pred[b] if p in idom]
            if not ps:
                continue
            n = ps[0]
            for p in ps[1:]:
                a, c = p, n
                while a != c:
                    while num[a] > num[c]:
                        a = idom[a]
                    while num[c] > num[a]:
                        c = idom[c]
                n = a
            if idom.get(b) != n:
                idom[b] = n
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == idom[b]:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if s in idom and b in idom and dom(s, b):
                body = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work.extend(p for p in pred[x] if p in idom)
    return loops
