"""Symbolic execution / verification-condition generator over LLVM IR.

Each *harness* (extern "C" void vfh_...()) is a C++ function that states a contract of real code:
symbolic inputs (vf_any*), preconditions (vf_assume), the call into the code of /repo, and
postconditions (vf_check).  All paths through harness + real code are executed symbolically with
unbounded inputs; every vf_check, every piece of undefined behaviour, every escaping exception and
every loop-invariant obligation becomes a verification condition discharged by an SMT solver.
Loops whose trip count depends on symbolic data are cut by inductive invariants (see loops.py).
"""
import os
import re
import subprocess
import sys
import tempfile
import time

import z3

from ir import IRError, Module, IntT, PTR

sys.setrecursionlimit(10000)


class Unsupported(Exception):
    """construct outside the engine's reach: error exit, never a verdict"""


class PathEnd(Exception):
    pass


class ForkOn(Exception):
    """re-execute the current instruction once per alternative; alts: [(cond or None, key, val)]"""

    def __init__(self, alts):
        self.alts = alts


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.off)


NULL = Ptr(0, 0)


class Undef:
    __slots__ = ('w',)

    def __init__(self, w):
        self.w = w


# ------------------------------------------------------------------------------------------------
# bit-vector helpers: concrete python ints (unsigned) or z3 expressions

def mask(w):
    return (1 << w) - 1


def isc(v):
    return v.__class__ is int


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def bv(v, w):
    if v.__class__ is int:
        return z3.BitVecVal(v, w)
    return v


def mul_at_top(e, d=6):
    """does extracting from e let the simplifier distribute over a product of two variables?"""
    k = e.decl().kind()
    if k == z3.Z3_OP_BMUL:
        return sum(not z3.is_bv_value(c) for c in e.children()) > 1
    if d and k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BNOT, z3.Z3_OP_BXOR, z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG,
                   z3.Z3_OP_ITE, z3.Z3_OP_CONCAT):
        return any(mul_at_top(c, d - 1) for c in e.children() if z3.is_bv(c))
    return False


def ext(hi, lo, e):
    """bit slice; slices of products stay unsimplified so that the halves can be put together again"""
    if hi == e.size() - 1 and lo == 0:
        return e
    if e.decl().kind() == z3.Z3_OP_EXTRACT:
        b = e.params()[1]
        return ext(hi + b, lo + b, e.arg(0))
    x = z3.Extract(hi, lo, e)
    return x if mul_at_top(e) else simp(x)


def cat(parts):
    """concatenation (most significant part first); adjacent slices of one term are joined"""
    out = []
    for p in parts:
        if out and p.decl().kind() == z3.Z3_OP_EXTRACT and out[-1].decl().kind() == z3.Z3_OP_EXTRACT:
            q = out[-1]
            if q.arg(0).eq(p.arg(0)) and q.params()[1] == p.params()[0] + 1:
                out[-1] = ext(q.params()[0], p.params()[1], p.arg(0))
                continue
        out.append(p)
    if len(out) == 1:
        return out[0] if mul_at_top(out[0]) else simp(out[0])
    return simp(z3.Concat(*out))


def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def cite(e):
    """(c, k1, k2) if e is  c ? k1 : k2  with constants"""
    if e.__class__ is z3.BitVecRef and e.decl().kind() == z3.Z3_OP_ITE:
        x, y = e.arg(1), e.arg(2)
        if z3.is_bv_value(x) and z3.is_bv_value(y):
            return e.arg(0), x.as_long(), y.as_long()
    return None


def boolint(e):
    """c if e is  c ? 1 : 0"""
    if e.__class__ is int:
        return e if e in (0, 1) else None
    c = cite(e)
    if c is None:
        return None
    if c[1] == 1 and c[2] == 0:
        return c[0]
    if c[1] == 0 and c[2] == 1:
        return z3.Not(c[0])
    return None


def simpb(e):
    if e.__class__ is bool:
        return 1 if e else 0
    if e.__class__ is int:
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def tobool(v):
    """i1 value -> z3 Bool or int"""
    return v


def zb(v):
    return z3.BoolVal(bool(v)) if v.__class__ is int else v


def bnot(v):
    if v.__class__ is int:
        return 1 - v
    return simpb(z3.Not(v))


class Obj:
    __slots__ = ('id', 'size', 'cells', 'arr', 'rec', 'name', 'ro', 'freed', 'kind', 'input', 'es', 'count')

    def __init__(self, id, size, name):
        self.id = id
        self.size = size
        self.cells = {}
        self.arr = None       # z3 array BV64->BV8
        self.count = None
        self.rec = None       # {(fo, n): z3 array BV64 -> BV(8n)}
        self.es = 0
        self.name = name
        self.ro = False
        self.freed = False
        self.kind = 'cells'
        self.input = None

    def clone(self):
        o = Obj(self.id, self.size, self.name)
        o.cells = dict(self.cells)
        o.arr = self.arr
        o.rec = dict(self.rec) if self.rec is not None else None
        o.count = self.count
        o.es = self.es
        o.ro = self.ro
        o.freed = self.freed
        o.kind = self.kind
        o.input = self.input
        return o


class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'ip', 'regs', 'call', 'id', 'allocas', 'iters', 'cut', 'onret', 'code',
                 'depth', 'cx')

    def __init__(self, fn, call, id):
        self.fn = fn
        self.call = call        # call instruction in the caller (or None)
        self.id = id
        self.regs = {}
        self.allocas = []
        self.iters = {}
        self.cut = {}           # header -> loop record while inside a cut loop
        self.onret = None
        self.prev = None
        self.ip = 0
        self.blk = None
        self.code = None
        self.depth = 0
        self.cx = frozenset()   # loops with an exit test that was constant in this iteration

    def clone(self):
        f = Frame(self.fn, self.call, self.id)
        f.blk = self.blk
        f.code = self.code
        f.prev = self.prev
        f.ip = self.ip
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.iters = dict(self.iters)
        f.cx = self.cx
        f.cut = dict(self.cut)
        f.onret = self.onret
        f.depth = self.depth
        return f


class State:
    __slots__ = ('frames', 'mem', 'owned', 'pc', 'conc', 'unw', 'inputs', 'model', 'rects', 'recseen', 'hints',
                 'invs', 'trail', 'caught', 'steps', 'baseaddr', 'ghost', 'floor')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.owned = set()
        self.pc = []
        self.conc = {}
        self.unw = None
        self.inputs = []
        self.model = None
        self.rects = {}
        self.recseen = set()
        self.hints = []
        self.invs = []
        self.trail = []
        self.caught = []
        self.steps = 0
        self.baseaddr = {}
        self.ghost = {}
        self.floor = 0

    def clone(self):
        s = State()
        s.floor = self.floor
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        self.owned = set()
        s.owned = set()
        s.pc = list(self.pc)
        s.conc = dict(self.conc)
        s.unw = self.unw
        s.inputs = list(self.inputs)
        s.model = self.model
        s.rects = {k: list(v) for k, v in self.rects.items()}
        s.recseen = set(self.recseen)
        s.hints = list(self.hints)
        s.invs = list(self.invs)
        s.trail = list(self.trail)
        s.caught = list(self.caught)
        s.steps = self.steps
        s.baseaddr = dict(self.baseaddr)
        s.ghost = dict(self.ghost)
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if oid not in self.owned:
            o = o.clone()
            self.mem[oid] = o
            self.owned.add(oid)
        return o


class Failure:
    def __init__(self, label, kind, where, inputs, model_inputs, trail, reason, status):
        self.label = label
        self.kind = kind
        self.where = where
        self.inputs = model_inputs
        self.trail = trail
        self.reason = reason
        self.status = status


# ------------------------------------------------------------------------------------------------

def retw(rt):
    """width of a ghost function's result (128-bit integers are returned as a pair)"""
    return 128 if rt[0] == 'struct' else rt[1]


def packret(v, rt):
    if rt[0] == 'struct':
        return z3.Concat(bv(v[1], 64), bv(v[0], 64))
    return zb(v) if rt[1] == 1 else bv(v, rt[1])


class Inc:
    """solver whose assertion stack follows the path conditions it is asked about (shared prefixes stay asserted)"""

    def __init__(self, timeout):
        self.s = z3.Solver()
        self.s.set('timeout', timeout)
        self.stack = []

    def sync(self, pc):
        st = self.stack
        n = 0
        m = min(len(st), len(pc))
        while n < m and (st[n] is pc[n] or st[n].eq(pc[n])):
            n += 1
        if n < len(st):
            self.s.pop(len(st) - n)
            del st[n:]
        for c in pc[n:]:
            self.s.push()
            self.s.add(c)
            st.append(c)
        return self.s


SLOW = float(os.environ.get('VF_SLOW', 0))


class Engine:
    def __init__(self, module, opts=None):
        self.m = module
        self.opts = dict(max_iters=3, eager=False, timeout=20000, max_paths=200000, unroll=None, strlen=None,
                         max_fail=4, deadline=None, unfold=2, cvc5=True, ftimeout=2000, htimeout=4000)
        self.opts.update(opts or {})
        self.nobj = 1
        self.nsym = 0
        self.nframe = 0
        self.globals = {}       # name -> obj id (created lazily, contents shared by all states)
        self.gobjs = {}
        self.funcobj = {}
        self.objfunc = {}
        self.obligations = {}   # (label, kind) -> [total, discharged, trivially]
        self.failures = []
        self.covers = {}
        self.paths = 0
        self.instrs = 0
        self.queries = 0
        self.qtime = 0.0
        self.backends = {}
        self.cutset = set()     # (function, header) loops cut by invariants
        self.cutinfo = {}
        self.fns_executed = set()
        self.trusted = set()
        self.invmode = 0        # >0 while inferring invariants (obligations are only assumed)
        self.recdefs = {}
        self.recfuncs = {}
        self.mono_ok = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', self.opts['timeout'])
        self.fsolver = Inc(self.opts['ftimeout'])
        self.hsolver = Inc(self.opts['htimeout'])
        self.truncated = 0
        self.infer_dropped = None
        self.symloops = set()
        self.loops_cut = {}
        self.recsyms = {}
        self.axsink = None
        self.recbase = 0
        self.recdepth = 0
        self.replace = {}       # mangled name -> stub function name (contract substitution)
        self.choices = {}
        self.fixed = dict(self.opts.get('fixed') or {})
        self.demangled = {}
        self.unknown = []
        import intrin
        self.intr = intrin
        self.hooks = []
        self.hookcache = {}

    # ---- bookkeeping ---------------------------------------------------------------------------
    def fresh(self, w, name='t'):
        self.nsym += 1
        return z3.BitVec('%s!%d' % (name, self.nsym), w)

    def freshb(self, name='b'):
        self.nsym += 1
        return z3.Bool('%s!%d' % (name, self.nsym))

    def newobj(self, st, size, name):
        self.nobj += 1
        o = Obj(self.nobj, size, name)
        st.mem[o.id] = o
        st.owned.add(o.id)
        return o

    def global_ptr(self, st, name):
        if name in self.m.funcs and name not in self.m.globals:
            return self.func_ptr(name)
        if name in self.m.aliases:
            return self.const(st, self.m.aliases[name], PTR)
        oid = self.globals.get(name)
        if oid is None:
            if name not in self.m.globals:
                raise Unsupported('global @%s' % name)
            ty, init, isconst = self.m.globals[name]
            self.nobj += 1
            oid = self.nobj
            self.globals[name] = oid
            sz = self.m.sizeof(ty) if self.m.res(ty)[0] != 'opaque' else 1 << 20
            o = Obj(oid, sz, '@' + name)
            o.ro = isconst
            self.gobjs[oid] = o
            if init is not None:
                self.init_cells(st, o, 0, ty, init)
            elif not name.startswith('_ZT'):
                o.kind = 'extern'
        if oid not in st.mem:
            st.mem[oid] = self.gobjs[oid]
        return Ptr(oid, 0)

    def func_ptr(self, name):
        oid = self.funcobj.get(name)
        if oid is None:
            self.nobj += 1
            oid = self.nobj
            self.funcobj[name] = oid
            self.objfunc[oid] = name
        return Ptr(oid, 0)

    def init_cells(self, st, o, off, ty, v):
        m = self.m
        k = v[0]
        rt = m.res(ty)
        if k == 'zero' or k == 'undef':
            n = m.sizeof(ty)
            if rt[0] == 'ptr':
                o.cells[off] = (8, NULL)
            elif rt[0] == 'i':
                o.cells[off] = (n, 0)
            elif n <= 4096:
                for i in range(n):
                    o.cells[off + i] = (1, 0)
            return
        if k == 'cstr':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        if k == 'agg':
            for i, (t, e) in enumerate(v[1]):
                fo, ft = m.field(ty, i)
                self.init_cells(st, o, off + fo, t, e)
            return
        n = m.sizeof(ty)
        o.cells[off] = (n, self.const(st, v, ty))

    # ---- operand evaluation --------------------------------------------------------------------
    def const(self, st, v, ty):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(st, v[1])
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'gep':
            base = self.const(st, v[2], PTR)
            return self.gep(st, v[1], base, [(t, self.const(st, i, t)) for t, i in v[3]])
        if k == 'cast':
            a = self.const(st, v[3], v[2])
            return self.cast(st, v[1], v[2], a, v[4])
        if k == 'bin':
            return self.binop(st, v[1], v[2][1], self.const(st, v[3], v[2]), self.const(st, v[4], v[2]), (), None)
        if k == 'icmp':
            return self.icmp(st, v[1], v[2], self.const(st, v[3], v[2]), self.const(st, v[4], v[2]))
        if k == 'agg':
            return tuple(self.const(st, e, t) for t, e in v[1])
        if k == 'f':
            return ('float', v[1])
        raise Unsupported('const %s' % (v,))

    def zero(self, ty):
        ty = self.m.res(ty)
        if ty[0] == 'i':
            return 0
        if ty[0] == 'ptr':
            return NULL
        if ty[0] == 'struct':
            return tuple(self.zero(t) for t in ty[1])
        if ty[0] == 'arr':
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        raise Unsupported('zero %s' % (ty,))

    def undef(self, ty):
        ty = self.m.res(ty)
        if ty[0] == 'i':
            return self.freshb('undef') if ty[1] == 1 else self.fresh(ty[1], 'undef')
        if ty[0] == 'ptr':
            return NULL
        if ty[0] == 'struct':
            return tuple(self.undef(t) for t in ty[1])
        raise Unsupported('undef %s' % (ty,))

    def val(self, st, v, ty=None):
        if v[0] == 'r':
            return st.frames[-1].regs[v[1]]
        if v[0] == 'c':
            return v[1]
        return self.const(st, v, ty)

    # ---- solver --------------------------------------------------------------------------------
    def lemmas(self, st):
        """instances of the (separately proved) prefix-closure lemma of ghost predicates"""
        out = []
        for key, ks in st.rects.items():
            if not key[0].startswith('vf_rec_all_'):
                continue
            if len(ks) < 2:
                continue
            self.prove_mono(st, key)
            f = self.recfuncs[key]
            last = ks[-14:]
            for a in last:
                for b in last:
                    if a is b:
                        continue
                    prem = [z3.ULE(a[-1], b[-1]), f(*b)]
                    for x, y in zip(a[:-1], b[:-1]):
                        if not x.eq(y):
                            prem.append(x == y)
                    out.append(z3.Implies(z3.And(*prem), f(*a)))
        return out

    def sat(self, st, extra):
        """feasibility: 'sat' / 'unsat' / 'unknown' (unknown is treated as feasible)"""
        if extra is not None:
            if extra.__class__ is int:
                if not extra:
                    return False
                extra = None
        if extra is not None and st.model is not None:
            try:
                v = st.model.eval(extra, model_completion=True)
                if z3.is_true(v):
                    self.lastmodel = st.model
                    return True
            except z3.Z3Exception:
                pass
        t = time.time()
        s = self.fsolver.sync(st.pc)
        s.push()
        if extra is not None:
            s.add(extra)
        r = s.check()
        if r == z3.sat:
            mdl = s.model()
        s.pop()
        self.queries += 1
        self.qtime += time.time() - t
        if r == z3.sat:
            self.lastmodel = mdl
            if extra is None:
                st.model = mdl
            return True
        self.lastmodel = None
        return r == z3.unknown

    def assume(self, st, c):
        if c.__class__ is int or c.__class__ is bool:
            if not c:
                raise PathEnd('assume false')
            return
        c = simpb(c)
        if c.__class__ is int:
            if not c:
                raise PathEnd('assume false')
            return
        st.pc.append(c)
        if st.model is not None:
            if not z3.is_true(st.model.eval(c, model_completion=True)):
                st.model = None

    def branch(self, st, c):
        """decide a boolean in state st: returns list of feasible values, e.g. [1], [0], [1,0]"""
        if c.__class__ is int:
            return [1] if c else [0]
        out = []
        if self.sat(st, c):
            out.append(1)
            m1 = getattr(self, 'lastmodel', None)
        if not out or self.sat(st, z3.Not(c)):
            out.append(0)
        return out

    # verification condition
    def vc(self, st, cond, label, kind, where=None):
        """prove cond in st; record; on failure record a Failure and assume cond"""
        if self.invmode:
            if cond.__class__ is int:
                if not cond:
                    raise PathEnd('failed in inference')
            else:
                self.assume(st, cond)
            return
        key = (label, kind)
        o = self.obligations.setdefault(key, [0, 0])
        o[0] += 1
        cond = simpb(cond) if cond.__class__ is not int else cond
        if cond.__class__ is int and cond:
            o[1] += 1
            self.backends['simplifier'] = self.backends.get('simplifier', 0) + 1
            return
        r, mdl, reason, be = self.prove(st, cond)
        if r:
            o[1] += 1
            self.backends[be] = self.backends.get(be, 0) + 1
            return
        mi = self.model_inputs(st, mdl) if mdl is not None else None
        self.failures.append(Failure(label, kind, where or self.where(st), st.inputs, mi, list(st.trail), reason,
                                     'refuted' if mdl is not None else 'unknown'))
        if cond.__class__ is int and not cond:
            raise PathEnd('violated')
        if st.hints and not self.invmode and self.opts['unroll'] is None and self.symloops - self.cutset:
            # a contract with loop ghosts fails before its loops are cut: cut them first
            self.cutset |= self.symloops
            import loops
            raise loops.Restart()
        if len(self.failures) >= self.opts['max_fail']:
            raise StopEngine()
        self.assume(st, cond)
        if not self.sat(st, None):
            raise PathEnd('violated on the whole path')

    def prove(self, st, cond):
        neg = z3.BoolVal(True) if cond.__class__ is int else z3.Not(cond)
        ex = self.lemmas(st)
        t = time.time()
        s = z3.Solver()     # not incremental: z3's preprocessing applies
        for c in st.pc:
            s.add(c)
        for c in ex:
            s.add(c)
        s.add(neg)
        r = None
        hard = hard_terms(list(st.pc) + ex + [neg])
        if hard:
            # first attempt: products and quotients of two variables as uninterpreted functions
            sub, facts = abstract_hard(hard)
            s2 = z3.Solver()
            s2.set('timeout', 8000)
            s2.add(*facts)
            for c in list(st.pc) + ex + [neg]:
                s2.add(z3.substitute(c, *sub))
            if s2.check() == z3.unsat:
                r = z3.unsat
        be = 'z3'
        if r is None:
            s.set('timeout', 250 if self.opts['eager'] else 1500)
            r = s.check()
            s.set('timeout', self.opts['timeout'])
            if r == z3.unknown:
                # linear arithmetic over positions: bit-vectors as integers
                if self.opts['cvc5'] and run_cvc5(s.to_smt2(), 6, '--solve-bv-as-int=sum') == 'unsat':
                    r = z3.unsat
                    be = 'cvc5'
                else:
                    r = s.check()
        mdl = None
        reason = ''
        if r == z3.sat:
            mdl = s.model()
            # prefer small inputs so that the counterexample can be replayed
            for lim in (4, 12, 40):
                s.push()
                for n, kd, e in st.inputs:
                    if kd in ('len', 'cnt') and not isc(e):
                        s.add(z3.ULE(e, lim))
                if s.check() == z3.sat:
                    mdl = s.model()
                    s.pop()
                    break
                s.pop()
        elif r == z3.unknown:
            reason = 'z3: ' + s.reason_unknown()
        smt = None
        if r == z3.unknown and self.opts['cvc5']:
            smt = s.to_smt2()
        self.queries += 1
        dt = time.time() - t
        self.qtime += dt
        if SLOW and dt > SLOW:
            print('SLOW %.1f %s %s %s' % (dt, r, self.dem(st.frames[-1].fn.name)[:60] if st.frames else '', str(cond)[:int(os.environ.get('VF_SLOWN', 200))]), flush=True)
        if r == z3.unsat:
            return True, None, '', be
        if r == z3.sat:
            return False, mdl, 'counterexample', 'z3'
        if smt is not None:
            rr = run_cvc5(smt, self.opts['timeout'] // 1000 + 20)
            if rr == 'unsat':
                return True, None, '', 'cvc5'
            reason += '; cvc5: ' + rr
        return False, None, reason, 'none'

    def model_inputs(self, st, mdl):
        out = []
        for n, kd, e in st.inputs:
            if kd in ('len', 'cnt', 'val', 'choose'):
                if isc(e):
                    out.append((n, kd, e))
                else:
                    v = mdl.eval(e, model_completion=True)
                    out.append((n, kd, v.as_long()))
            elif kd == 'data':
                arr, ln = e
                L = ln if isc(ln) else mdl.eval(ln, model_completion=True).as_long()
                L2 = min(L, 4096)
                bs = bytes(mdl.eval(z3.Select(arr, z3.BitVecVal(i, 64)), model_completion=True).as_long()
                           for i in range(L2))
                out.append((n, kd, bs))
            elif kd == 'vec':
                ln, es, oid = e
                rec = self.recsyms.get(oid, {})
                L = ln if isc(ln) else mdl.eval(ln, model_completion=True).as_long()
                L2 = min(L, 512)
                data = bytearray()
                for i in range(L2):
                    el = bytearray(es)
                    for (fo, nb), arr in rec.items():
                        x = mdl.eval(z3.Select(arr, z3.BitVecVal(i, 64)), model_completion=True).as_long()
                        el[fo:fo + nb] = x.to_bytes(nb, 'little')
                    data += el
                out.append((n, kd, bytes(data)))
        return out

    def where(self, st):
        return [self.dem(f.fn.name) for f in st.frames][-6:]

    def dem(self, n):
        d = self.demangled.get(n)
        if d is None:
            try:
                d = subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip()
            except OSError:
                d = n
            self.demangled[n] = d
        return d

    # ---- integers ------------------------------------------------------------------------------
    def as_int(self, st, v, w):
        """value -> int or z3 BV (pointers become base + offset)"""
        if v.__class__ is Ptr:
            if v.o == 0:
                if isc(v.off):
                    return v.off & mask(64)
                return v.off
            b = self.base(st, v.o)
            return simp(b + bv(v.off, 64))
        if v.__class__ is Undef:
            return self.fresh(w, 'undef')
        return v

    def base(self, st, oid):
        b = st.baseaddr.get(oid)
        if b is None:
            if oid in self.objfunc:
                b = z3.Concat(z3.BitVec('addr_%d' % oid, 60), z3.BitVecVal(0, 4))  # functions are 16 byte aligned
            else:
                b = z3.BitVec('addr_%d' % oid, 64)
            st.baseaddr[oid] = b
            st.pc.append(z3.And(z3.UGE(b, z3.BitVecVal(4096, 64)), z3.ULT(b, z3.BitVecVal(1 << 47, 64))))
        return b

    def binop(self, st, op, w, a, b, fl, ins):
        ca, cb = a.__class__, b.__class__
        if ca is Ptr or cb is Ptr:
            if op == 'sub' and ca is Ptr and cb is Ptr and a.o == b.o:
                if isc(a.off) and isc(b.off):
                    return (a.off - b.off) & mask(64)
                return simp(bv(a.off, 64) - bv(b.off, 64))
            if op in ('add', 'sub') and ca is Ptr and cb is not Ptr:
                return self.padd(a, b if op == 'add' else (-b if isc(b) else -b))
            if op == 'add' and cb is Ptr and ca is not Ptr:
                return self.padd(b, a)
            a = self.as_int(st, a, w)
            b = self.as_int(st, b, w)
            ca, cb = a.__class__, b.__class__
        if w == 1:
            return self.bool_binop(op, a, b)
        if ca is int and cb is int:
            M = mask(w)
            if op == 'add':
                if 'nsw' in fl:
                    r = sgn(a, w) + sgn(b, w)
                    self.conc_ovf(st, r, w, ins)
                return (a + b) & M
            if op == 'sub':
                if 'nsw' in fl:
                    r = sgn(a, w) - sgn(b, w)
                    self.conc_ovf(st, r, w, ins)
                return (a - b) & M
            if op == 'mul':
                if 'nsw' in fl:
                    r = sgn(a, w) * sgn(b, w)
                    self.conc_ovf(st, r, w, ins)
                return (a * b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w:
                    self.vc(st, 0, 'shift amount below bit width', 'ub')
                if op == 'shl':
                    if 'nsw' in fl:
                        self.conc_ovf(st, sgn(a, w) << b, w, ins)
                    return (a << b) & M
                if op == 'lshr':
                    return a >> b
                return (sgn(a, w) >> b) & M
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    self.vc(st, 0, 'no division by zero', 'ub')
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                if op == 'sdiv':
                    self.conc_ovf(st, q, w, ins)
                    return q & M
                return (x - q * y) & M
            raise Unsupported(op)
        # symbolic
        if op == 'add':
            if cb is int and b == 0:
                return a
            if ca is int and a == 0:
                return b
        elif op == 'sub' and cb is int and b == 0:
            return a
        elif op == 'mul':
            if cb is int and b == 1:
                return a
            if ca is int and a == 1:
                return b
        elif op == 'and':
            for x, y in ((a, b), (b, a)):
                if isc(x):
                    if x == 0:
                        return 0
                    if x == mask(w):
                        return y
        if op in ('and', 'or', 'xor'):
            # (c ? 1 : 0) op (d ? 1 : 0)
            x, y = boolint(a), boolint(b)
            if x is not None and y is not None:
                r = self.bool_binop(op, x, y)
                return r if isc(r) else z3.If(r, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            if x is not None and isc(b) and op == 'and':
                r = self.bool_binop(op, x, b & 1)
                return r if isc(r) else z3.If(r, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if op in ('or', 'xor', 'shl', 'lshr', 'ashr'):
            if cb is int and b == 0:
                return a
            if ca is int and a == 0 and op in ('or', 'xor'):
                return b
        A, B = bv(a, w), bv(b, w)
        if op == 'add':
            if 'nsw' in fl:
                self.vc(st, z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B)),
                        'no signed overflow', 'ub')
            return simp(A + B)
        if op == 'sub':
            if 'nsw' in fl:
                self.vc(st, z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True)),
                        'no signed overflow', 'ub')
            return simp(A - B)
        if op == 'mul':
            if 'nsw' in fl:
                self.vc(st, mulok(A, B, w), 'no signed overflow', 'ub')
            return simp(A * B)
        if op == 'and':
            return simp(A & B)
        if op == 'or':
            return bor(A, B)
        if op == 'xor':
            return simp(A ^ B)
        if op in ('shl', 'lshr', 'ashr'):
            if not isc(b):
                self.vc(st, z3.ULT(B, z3.BitVecVal(w, w)), 'shift amount below bit width', 'ub')
            elif b >= w:
                self.vc(st, 0, 'shift amount below bit width', 'ub')
            if op == 'shl':
                r = simp(A << B)
                if 'nsw' in fl:
                    self.vc(st, (bv(r, w) >> B) == A, 'no signed overflow', 'ub')
                return r
            if op == 'lshr':
                return simp(z3.LShR(A, B))
            return simp(A >> B)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not isc(b):
                self.vc(st, B != 0, 'no division by zero', 'ub')
            elif b == 0:
                self.vc(st, 0, 'no division by zero', 'ub')
            if op in ('sdiv', 'srem'):
                if 'exact' in fl and isc(b):
                    q = exact_div(a, b, w)
                    if q is not None:
                        return q
                if not (isc(b) and sgn(b, w) != -1):
                    self.vc(st, z3.Not(z3.And(A == z3.BitVecVal(1 << (w - 1), w), B == z3.BitVecVal(mask(w), w))),
                            'no signed overflow', 'ub')
                # keep both operands' signs visible to the solver: unsigned division when provable
                if self.nonneg(st, A, w) and self.nonneg(st, B, w):
                    return simp(z3.UDiv(A, B) if op == 'sdiv' else z3.URem(A, B))
                return simp(A / B) if op == 'sdiv' else simp(z3.SRem(A, B))
            if isc(b) and b & (b - 1) == 0:
                k = b.bit_length() - 1
                return simp(z3.LShR(A, k) if op == 'udiv' else A & (b - 1))
            return simp(z3.UDiv(A, B) if op == 'udiv' else z3.URem(A, B))
        raise Unsupported(op)

    def nonneg(self, st, A, w):
        c = simpb(A >= 0)
        if isc(c):
            return bool(c)
        return not self.sat_strict(st, z3.Not(c))

    def sat_strict(self, st, extra):
        """False only if definitely unsat"""
        return self.sat(st, extra)

    def conc_ovf(self, st, r, w, ins):
        if not (-(1 << (w - 1)) <= r < (1 << (w - 1))):
            self.vc(st, 0, 'no signed overflow', 'ub')

    def bool_binop(self, op, a, b):
        if isc(a) and isc(b):
            return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b}[op]
        A, B = zb(a), zb(b)
        if op == 'and':
            return simpb(z3.And(A, B))
        if op == 'or':
            return simpb(z3.Or(A, B))
        if op in ('xor', 'add', 'sub'):
            return simpb(z3.Xor(A, B))
        raise Unsupported('i1 ' + op)

    def padd(self, p, d):
        if isc(p.off) and isc(d):
            return Ptr(p.o, (p.off + d) & mask(64))
        return Ptr(p.o, simp(bv(p.off, 64) + bv(d if not isc(d) else d & mask(64), 64)))

    def icmp(self, st, pred, ty, a, b):
        if a.__class__ is Ptr or b.__class__ is Ptr:
            if a.__class__ is Ptr and b.__class__ is Ptr:
                if a.o == b.o:
                    if pred in ('eq', 'ne') and a.o in st.mem and st.mem[a.o].es > 1 and not (isc(a.off) and isc(b.off)):
                        # es * i + c == es * j + c  (mod 2**64): the odd factor of es is invertible
                        es = st.mem[a.o].es
                        x, y = lin_split(a.off, es), lin_split(b.off, es)
                        if x is not None and y is not None and x[1] == y[1]:
                            tz = (es & -es).bit_length() - 1
                            d = bv(x[0], 64), bv(y[0], 64)
                            if tz:
                                d = [z3.Extract(63 - tz, 0, e) for e in d]
                            r = d[0] == d[1]
                            return simpb(r if pred == 'eq' else z3.Not(r))
                    a, b = a.off, b.off
                elif pred in ('eq', 'ne'):
                    if a.o and b.o or True:
                        # distinct objects, or object vs null
                        if (a.o == 0 and isc(a.off)) or (b.o == 0 and isc(b.off)) or (a.o and b.o):
                            return 1 if pred == 'ne' else 0
                else:
                    a = self.as_int(st, a, 64)
                    b = self.as_int(st, b, 64)
            else:
                x, p = (a, b) if b.__class__ is Ptr else (b, a)
                if isc(x) and x == 0 and p.o and pred in ('eq', 'ne'):
                    return 1 if pred == 'ne' else 0
                a = self.as_int(st, a, 64)
                b = self.as_int(st, b, 64)
        if ty[0] == 'i' and ty[1] == 1:
            if isc(a) and isc(b):
                return int({'eq': a == b, 'ne': a != b}[pred])
            r = zb(a) == zb(b)
            return simpb(r if pred == 'eq' else z3.Not(r))
        w = 64 if ty[0] == 'ptr' else ty[1]
        if isc(a) and isc(b):
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]])
        if a is b and pred in ('eq', 'ule', 'uge', 'sle', 'sge'):
            return 1
        if isc(b) or isc(a):
            x, k, sw = (a, b, False) if isc(b) else (b, a, True)
            c = cite(x)
            if c is not None:
                r1, r2 = (self.icmp(st, pred, ty, k if sw else y, y if sw else k) for y in c[1:])
                return 1 if r1 and r2 else 0 if not r1 and not r2 else simpb(c[0]) if r1 else bnot(c[0])
            kd = x.decl().kind()
            if kd in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
                y = x.arg(0)
                n = y.size()
                if kd == z3.Z3_OP_SIGN_EXT:
                    if -(1 << (n - 1)) <= sgn(k, w) < 1 << (n - 1):
                        # all orders agree with the order of the narrow numbers (unsigned: sign bit first)
                        k &= mask(n)
                        return self.icmp(st, pred, ('i', n), *((k, y) if sw else (y, k)))
                elif k < 1 << n and (pred[0] in 'uen' or w > n):
                    return self.icmp(st, pred if pred[0] != 's' else 'u' + pred[1:], ('i', n), *((k, y) if sw else (y, k)))
        A, B = bv(a, w), bv(b, w)
        if pred == 'eq':
            r = A == B
        elif pred == 'ne':
            r = A != B
        elif pred == 'ult':
            r = z3.ULT(A, B)
        elif pred == 'ule':
            r = z3.ULE(A, B)
        elif pred == 'ugt':
            r = z3.UGT(A, B)
        elif pred == 'uge':
            r = z3.UGE(A, B)
        elif pred == 'slt':
            r = A < B
        elif pred == 'sle':
            r = A <= B
        elif pred == 'sgt':
            r = A > B
        elif pred == 'sge':
            r = A >= B
        else:
            raise Unsupported(pred)
        return simpb(r)

    def cast(self, st, op, t1, a, t2):
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            if op == 'ptrtoint' and t2[1] != 64:
                a = self.as_int(st, a, 64)
                return self.cast(st, 'trunc', IntT(64), a, t2)
            if op == 'inttoptr' and isc(a) and a == 0:
                return NULL
            if op == 'ptrtoint' and a.__class__ is Ptr and a.o == 0 and isc(a.off):
                return a.off & mask(64)
            return a
        w1, w2 = t1[1], t2[1]
        if a.__class__ is Ptr:
            a = self.as_int(st, a, w1)
        if op == 'zext':
            if w1 == 1:
                return a if isc(a) else z3.If(a, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
            if isc(a):
                return a
            c = cite(a)
            if c is not None:
                return z3.If(c[0], z3.BitVecVal(c[1], w2), z3.BitVecVal(c[2], w2))
            return simp(z3.ZeroExt(w2 - w1, a))
        if op == 'sext':
            if w1 == 1:
                return (mask(w2) if a else 0) if isc(a) else z3.If(a, z3.BitVecVal(mask(w2), w2), z3.BitVecVal(0, w2))
            if isc(a):
                return sgn(a, w1) & mask(w2)
            c = cite(a)
            if c is not None:
                return z3.If(c[0], z3.BitVecVal(sgn(c[1], w1) & mask(w2), w2), z3.BitVecVal(sgn(c[2], w1) & mask(w2), w2))
            return z3.SignExt(w2 - w1, a)
        if op == 'trunc':
            if isc(a):
                return a & mask(w2)
            c = cite(a)
            if c is not None:
                if w2 == 1:
                    b1, b2 = c[1] & 1, c[2] & 1
                    return b1 if b1 == b2 else simpb(c[0]) if b1 else bnot(c[0])
                return z3.If(c[0], z3.BitVecVal(c[1] & mask(w2), w2), z3.BitVecVal(c[2] & mask(w2), w2))
            if w2 == 1:
                return simpb(z3.Extract(0, 0, a) == 1)
            return ext(w2 - 1, 0, a)
        raise Unsupported(op)

    def gep(self, st, bt, base, idx):
        if base.__class__ is not Ptr:
            if isc(base):
                base = Ptr(0, base)
            else:
                base = Ptr(0, base)
        off = 0
        sym = None
        t = bt
        first = True
        for it, v in idx:
            if first:
                sz = self.m.sizeof(bt)
                first = False
                if isc(v):
                    off += sgn(v, it[1]) * sz
                    continue
            else:
                rt = self.m.res(t)
                if rt[0] == 'struct':
                    o, t = self.m.field(t, v)
                    off += o
                    continue
                t = rt[2]
                sz = self.m.sizeof(t)
                if isc(v):
                    off += sgn(v, it[1]) * sz
                    continue
            if v.__class__ is Ptr:
                v = self.as_int(st, v, 64)
            x = v if it[1] == 64 else z3.SignExt(64 - it[1], v)
            x = x * z3.BitVecVal(sz, 64) if sz != 1 else x
            sym = x if sym is None else sym + x
        if sym is None:
            if off == 0:
                return base
            return self.padd(base, off & mask(64))
        return Ptr(base.o, simp(bv(base.off, 64) + sym + z3.BitVecVal(off & mask(64), 64)))

    # ---- memory --------------------------------------------------------------------------------
    def concretize(self, st, e, cands=None, limit=300):
        """fork so that e has a concrete value"""
        if isc(e):
            return e
        k = e.get_id()
        c = st.conc.get(k)
        if c is not None:
            return c[1]
        vals = []
        w = e.size()
        s = z3.Solver()
        s.set('timeout', 5000)
        for p in st.pc:
            s.add(p)
        while True:
            r = s.check()
            if r == z3.unsat:
                break
            if r == z3.unknown:
                raise Unsupported('concretize: unknown')
            v = s.model().eval(e, model_completion=True).as_long()
            vals.append(v)
            if len(vals) > limit:
                raise Unsupported('concretize: too many values for %s at %s' % (str(e)[:80], self.where(st)))
            s.add(e != v)
        if not vals:
            raise PathEnd('infeasible')
        vals.sort()
        raise ForkOn([(e == v, (k, e), v) for v in vals])

    def forkbool(self, st, c):
        """fork on boolean c; returns concrete 0/1"""
        if isc(c):
            return c
        k = ('b', c.get_id())
        x = st.conc.get(k)
        if x is not None:
            return x[1]
        alts = []
        br = self.branch(st, c)
        for v in br:
            alts.append((c if v else z3.Not(c), (k, c), v))
        raise ForkOn(alts)

    def obj(self, st, p, what):
        if p.__class__ is not Ptr:
            if isc(p):
                p = Ptr(0, p)
            else:
                raise Unsupported('%s through opaque pointer at %s' % (what, self.where(st)))
        if p.o == 0:
            self.vc(st, 0, 'no null or invalid pointer dereference', 'ub')
            raise PathEnd('null')
        o = st.mem.get(p.o)
        if o is None:
            o = self.gobjs.get(p.o)
            if o is not None:
                st.mem[p.o] = o
            else:
                self.vc(st, 0, 'no access to a dead object', 'ub')
                raise PathEnd('dead')
        if o.freed:
            self.vc(st, 0, 'no access to a freed object', 'ub')
            raise PathEnd('freed')
        return o

    def bounds(self, st, o, off, n):
        if isc(off) and isc(o.size):
            if off + n <= o.size:
                return
            self.vc(st, 0, 'memory access in bounds', 'ub')
            raise PathEnd('oob')
        if self.recdepth and (o.rec is not None or o.arr is not None):
            # ghosts are total functions of the (mathematical) array
            return
        if o.count is not None and isc(n):
            r = lin_split(off, o.es)
            if r is not None and r[1] + n <= o.es:
                c = z3.ULT(bv(r[0], 64), bv(o.count, 64))
                self.vc(st, simpb(c), 'memory access in bounds', 'ub')
                return
        sz = bv(o.size, 64)
        of = bv(off, 64)
        nn = bv(n, 64)
        c = z3.And(z3.ULE(nn, sz), z3.ULE(of, sz - nn))
        self.vc(st, c, 'memory access in bounds', 'ub')

    def load(self, st, p, ty):
        ty = self.m.res(ty)
        if ty[0] == 'struct' or ty[0] == 'arr':
            out = []
            n = len(ty[1]) if ty[0] == 'struct' else ty[1]
            for i in range(n):
                fo, ft = self.m.field(ty, i)
                out.append(self.load(st, self.padd(p, fo), ft))
            return tuple(out)
        if ty[0] not in ('i', 'ptr'):
            if ty[0] in ('double', 'float'):
                raise Unsupported('floating point')
            raise Unsupported('load %s' % (ty,))
        n = 8 if ty[0] == 'ptr' else (ty[1] + 7) // 8
        v = self.load_bytes(st, p, n)
        if ty[0] == 'ptr':
            if v.__class__ is int:
                return Ptr(0, v)
            return v
        if v.__class__ is Ptr:
            if ty[1] == 64:
                return v
            v = self.as_int(st, v, 64)
        if ty[1] == 1:
            if isc(v):
                return v & 1
            return simpb(z3.Extract(0, 0, v) == 1)
        if ty[1] % 8:
            return v & mask(ty[1]) if isc(v) else ext(ty[1] - 1, 0, v)
        return v

    def load_bytes(self, st, p, n):
        o = self.obj(st, p, 'load')
        off = p.off
        if o.kind == 'extern':
            raise Unsupported('load of external global %s' % o.name)
        self.bounds(st, o, off, n)
        if o.rec is not None:
            return self.rec_load(st, o, off, n)
        if o.arr is not None:
            parts = []
            for i in range(n):
                parts.append(z3.Select(o.arr, bv(off + i if isc(off) else off + i, 64)))
            parts.reverse()
            return simp(z3.Concat(*parts) if n > 1 else parts[0])
        if not isc(off):
            if o.ro and all(c[0] == 1 and isc(c[1]) for c in o.cells.values()):
                o.arr = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
                for k, c in sorted(o.cells.items()):
                    o.arr = z3.Store(o.arr, z3.BitVecVal(k, 64), z3.BitVecVal(c[1], 8))
                return self.load_bytes(st, p, n)
            off = self.concretize(st, off)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            if v.__class__ is Undef:
                return self.fresh(8 * n, 'undef')
            return v
        # compose bytes
        return self.compose(st, o, off, n)

    def byte_src(self, o, off):
        c = o.cells.get(off)
        if c is not None:
            return off, c
        for d in range(1, 17):
            c = o.cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    return off - d, c
                return None
        return None

    def compose(self, st, o, off, n):
        parts = []
        i = 0
        while i < n:
            s = self.byte_src(o, off + i)
            if s is None:
                parts.append((8, self.fresh(8, 'uninit')))
                i += 1
                continue
            co, (cn, cv) = s
            a = off + i - co
            take = min(cn - a, n - i)
            if cv.__class__ is Ptr:
                cv = self.as_int(st, cv, 64)
            if cv.__class__ is Undef:
                cv = self.fresh(8 * cn, 'undef')
            if isc(cv):
                parts.append((8 * take, (cv >> (8 * a)) & mask(8 * take)))
            else:
                parts.append((8 * take, ext(8 * (a + take) - 1, 8 * a, cv)
                              if take != cn else cv))
            i += take
        if all(isc(v) for w, v in parts):
            r = 0
            sh = 0
            for w, v in parts:
                r |= v << sh
                sh += w
            return r
        if len(parts) == 1:
            return parts[0][1]
        return cat([bv(v, w) for w, v in reversed(parts)])

    def store(self, st, p, ty, v):
        ty = self.m.res(ty)
        if ty[0] in ('struct', 'arr'):
            for i, e in enumerate(v):
                fo, ft = self.m.field(ty, i)
                self.store(st, self.padd(p, fo), ft, e)
            return
        if ty[0] == 'ptr':
            n = 8
        elif ty[0] == 'i':
            n = (ty[1] + 7) // 8
            if ty[1] == 1:
                v = v if isc(v) else z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            elif ty[1] % 8:
                v = v if isc(v) else z3.ZeroExt(8 * n - ty[1], v)
        else:
            raise Unsupported('store %s' % (ty,))
        self.store_bytes(st, p, n, v)

    def store_bytes(self, st, p, n, v):
        o = self.obj(st, p, 'store')
        if o.ro:
            self.vc(st, 0, 'no write to a constant object', 'ub')
            raise PathEnd('ro')
        if o.kind == 'extern':
            raise Unsupported('store to external %s' % o.name)
        off = p.off
        self.bounds(st, o, off, n)
        if o.rec is None and o.arr is None and not isc(off):
            off = self.concretize(st, off)
        o = st.wobj(p.o)
        if o.rec is not None:
            self.rec_store(st, o, off, n, v)
            return
        if o.arr is not None:
            v = self.as_int(st, v, 8 * n)
            for i in range(n):
                b = (v >> (8 * i)) & 255 if isc(v) else z3.Extract(8 * i + 7, 8 * i, v)
                o.arr = z3.Store(o.arr, bv(off + i if isc(off) else off + i, 64), bv(b, 8))
            return
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            o.cells[off] = (n, v)
            return
        self.clear(st, o, off, n)
        o.cells[off] = (n, v)

    def clear(self, st, o, off, n):
        """remove cells overlapping [off, off+n), keeping the remainders of partially covered cells"""
        lo = off - 16
        for k in [k for k in range(lo, off + n) if k in o.cells]:
            cn, cv = o.cells[k]
            if k + cn <= off:
                continue
            del o.cells[k]
            if k >= off and k + cn <= off + n:
                continue
            cv = self.as_int(st, cv, 64) if cv.__class__ is Ptr else cv
            if cv.__class__ is Undef:
                cv = self.fresh(8 * cn, 'undef')
            if k < off:
                t = off - k
                o.cells[k] = (t, cv & mask(8 * t) if isc(cv) else ext(8 * t - 1, 0, cv))
            if k + cn > off + n:
                a = off + n - k
                o.cells[off + n] = (cn - a, cv >> (8 * a) if isc(cv) else ext(8 * cn - 1, 8 * a, cv))

    # record arrays (elements of std::vector<T> of unbounded length)
    def rec_split(self, st, o, off):
        es = o.es
        if isc(off):
            return off // es, off % es
        r = lin_split(off, es)
        if r is None:
            raise Unsupported('element address %s not a multiple of %d' % (str(off)[:100], es))
        return r

    def rec_field(self, o, fo, n):
        a = o.rec.get((fo, n))
        if a is None:
            for (f, k) in o.rec:
                if f < fo + n and fo < f + k:
                    return None
            a = z3.Array('%s#%d.%d.%d' % (o.name, o.id, fo, n), z3.BitVecSort(64), z3.BitVecSort(8 * n))
            o.rec[(fo, n)] = a
            self.recsyms.setdefault(o.id, {})[(fo, n)] = a
        return a

    def rec_load(self, st, o, off, n):
        i, fo = self.rec_split(st, o, off)
        I = bv(i, 64)
        if (fo, n) not in o.rec:
            o2 = st.wobj(o.id)
            a = self.rec_field(o2, fo, n)
            o = o2
        else:
            a = o.rec[(fo, n)]
        if a is not None:
            return simp(z3.Select(a, I))
        # overlap with other granularity: compose from pieces
        parts = []
        k = 0
        while k < n:
            hit = None
            for (f, m) in o.rec:
                if f <= fo + k < f + m:
                    hit = (f, m)
            if hit is None:
                # largest gap
                g = 1
                while k + g < n and not any(f <= fo + k + g < f + m for (f, m) in o.rec):
                    g += 1
                o = st.wobj(o.id)
                a = self.rec_field(o, fo + k, g)
                parts.append(z3.Select(a, I))
                k += g
                continue
            f, m = hit
            a = o.rec[hit]
            s = fo + k - f
            t = min(m - s, n - k)
            e = z3.Select(a, I)
            parts.append(e if t == m else z3.Extract(8 * (s + t) - 1, 8 * s, e))
            k += t
        parts.reverse()
        return simp(z3.Concat(*parts) if len(parts) > 1 else parts[0])

    def rec_store(self, st, o, off, n, v):
        i, fo = self.rec_split(st, o, off)
        I = bv(i, 64)
        v = self.as_int(st, v, 8 * n)
        V = bv(v, 8 * n)
        a = self.rec_field(o, fo, n)
        if a is not None:
            o.rec[(fo, n)] = z3.Store(a, I, V)
            return
        for (f, m) in list(o.rec):
            if f < fo + n and fo < f + m:
                lo = max(f, fo)
                hi = min(f + m, fo + n)
                e = z3.Select(o.rec[(f, m)], I)
                piece = z3.Extract(8 * (hi - fo) - 1, 8 * (lo - fo), V)
                ps = []
                if hi < f + m:
                    ps.append(z3.Extract(8 * m - 1, 8 * (hi - f), e))
                ps.append(piece)
                if lo > f:
                    ps.append(z3.Extract(8 * (lo - f) - 1, 0, e))
                nv = z3.Concat(*ps) if len(ps) > 1 else ps[0]
                o.rec[(f, m)] = z3.Store(o.rec[(f, m)], I, nv)
        k = 0
        while k < n:
            if not any(f <= fo + k < f + m for (f, m) in o.rec):
                g = 1
                while k + g < n and not any(f <= fo + k + g < f + m for (f, m) in o.rec):
                    g += 1
                a = self.rec_field(o, fo + k, g)
                o.rec[(fo + k, g)] = z3.Store(a, I, z3.Extract(8 * (k + g) - 1, 8 * k, V))
                k += g
            else:
                k += 1

    def memcpy(self, st, d, s, n):
        if isc(n) and n == 0:
            return
        if not isc(n):
            so0 = st.mem.get(s.o) if s.__class__ is Ptr else None
            do0 = st.mem.get(d.o) if d.__class__ is Ptr else None
            if do0 is not None and do0.arr is not None and so0 is not None:
                return self.memcpy_sym(st, d, s, n)
            n = self.concretize(st, n, limit=64)
            if n == 0:
                return
        so = self.obj(st, s, 'memcpy')
        self.bounds(st, so, s.off, n)
        do = self.obj(st, d, 'memcpy')
        self.bounds(st, do, d.off, n)
        if so.rec is not None or so.arr is not None or do.rec is not None or do.arr is not None \
                or not isc(s.off) or not isc(d.off):
            # chunked copy; follow the granularity of the source
            if so.rec is None and so.arr is None and isc(s.off):
                offs = sorted(k for k in so.cells if s.off <= k < s.off + n)
                for k in offs:
                    cn, cv = so.cells[k]
                    if k + cn > s.off + n:
                        cn = s.off + n - k
                        cv = self.compose(st, so, k, cn)
                    self.store_bytes(st, self.padd(d, k - s.off), cn, cv)
                return
            if so.rec is not None and isc(n):
                i, fo = self.rec_split(st, so, s.off)
                if do.rec is not None:
                    chunks = sorted(f for f in so.rec if fo <= f[0] and f[0] + f[1] <= fo + n)
                else:
                    chunks = sorted(f for f in so.rec if fo <= f[0] and f[0] + f[1] <= fo + n)
                pos = fo
                for f, m in chunks + [(fo + n, 0)]:
                    while pos < f:
                        g = min(8 - pos % 8, f - pos)
                        g = 1 << (g.bit_length() - 1)
                        v = self.load_bytes(st, self.padd(s, pos - fo), g)
                        self.store_bytes(st, self.padd(d, pos - fo), g, v)
                        pos += g
                    if m:
                        v = self.load_bytes(st, self.padd(s, f - fo), m)
                        self.store_bytes(st, self.padd(d, f - fo), m, v)
                        pos = f + m
                return
            if n > 256:
                raise Unsupported('large memcpy')
            for i in range(n):
                self.store_bytes(st, self.padd(d, i), 1, self.load_bytes(st, self.padd(s, i), 1))
            return
        cells = []
        a, b = s.off, s.off + n
        for k in sorted(so.cells) if n > 64 else [k for k in range(a - 16, b) if k in so.cells]:
            cn, cv = so.cells[k]
            if k + cn <= a or k >= b:
                continue
            if k >= a and k + cn <= b:
                cells.append((k - a, cn, cv))
            else:
                lo, hi = max(k, a), min(k + cn, b)
                cells.append((lo - a, hi - lo, self.compose(st, so, lo, hi - lo)))
        do = st.wobj(d.o)
        if do.ro:
            self.vc(st, 0, 'no write to a constant object', 'ub')
            raise PathEnd('ro')
        if n > 64:
            for k in list(do.cells):
                if k + do.cells[k][0] > d.off and k < d.off + n:
                    self.clear(st, do, d.off, n)
                    break
        else:
            self.clear(st, do, d.off, n)
        for k, cn, cv in cells:
            do.cells[d.off + k] = (cn, cv)

    def memcpy_sym(self, st, d, s, n):
        so = self.obj(st, s, 'memcpy')
        do = self.obj(st, d, 'memcpy')
        self.bounds(st, so, s.off, n)
        self.bounds(st, do, d.off, n)
        if so.arr is None:
            if so.rec is None and all(c[0] == 1 for c in so.cells.values()):
                arr = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
                for k, c in sorted(so.cells.items()):
                    arr = z3.Store(arr, z3.BitVecVal(k, 64), bv(c[1], 8))
            else:
                raise Unsupported('symbolic memcpy')
        else:
            arr = so.arr
        do = st.wobj(d.o)
        j = z3.BitVec('j!', 64)
        df = bv(d.off, 64)
        do.arr = z3.Lambda([j], z3.If(z3.And(z3.UGE(j, df), z3.ULT(j - df, bv(n, 64))),
                                      z3.Select(arr, j - df + bv(s.off, 64)), z3.Select(do.arr, j)))

    def memset(self, st, d, v, n):
        if not isc(n):
            do0 = st.mem.get(d.o) if d.__class__ is Ptr else None
            if do0 is not None and do0.arr is not None:
                self.bounds(st, do0, d.off, n)
                do = st.wobj(d.o)
                j = z3.BitVec('j!', 64)
                df = bv(d.off, 64)
                do.arr = z3.Lambda([j], z3.If(z3.And(z3.UGE(j, df), z3.ULT(j - df, bv(n, 64))),
                                              bv(v, 8), z3.Select(do.arr, j)))
                return
            n = self.concretize(st, n, limit=64)
        if n == 0:
            return
        o = self.obj(st, d, 'memset')
        self.bounds(st, o, d.off, n)
        if o.rec is None and o.arr is None and isc(d.off) and isc(v):
            o = st.wobj(d.o)
            self.clear(st, o, d.off, n)
            i = 0
            while i < n:
                k = 8 if n - i >= 8 and (d.off + i) % 8 == 0 else (4 if n - i >= 4 and (d.off + i) % 4 == 0 else 1)
                o.cells[d.off + i] = (k, int.from_bytes(bytes([v]) * k, 'little'))
                i += k
            return
        for i in range(n):
            self.store_bytes(st, self.padd(d, i), 1, v)

    # ---- running -------------------------------------------------------------------------------
    def start(self, fname, args=()):
        st = State()
        self.push_frame(st, fname, list(args), None)
        return st

    def push_frame(self, st, fname, args, call):
        fn = self.m.funcs.get(fname)
        if fn is None or fn.raw is None:
            raise Unsupported('call of external function %s' % self.dem(fname))
        fn.parse()
        self.fns_executed.add(fname)
        self.nframe += 1
        fr = Frame(fn, call, self.nframe)
        fr.depth = len(st.frames)
        if fr.depth > 150:
            raise Unsupported('recursion too deep: ' + self.dem(fname))
        for (ty, reg, info), v in zip(fn.params, args):
            if 'byval' in info:
                n = self.m.sizeof(info['byval'])
                o = self.newobj(st, n, 'byval')
                fr.allocas.append(o.id)
                np = Ptr(o.id, 0)
                self.memcpy(st, np, v, n)
                v = np
            fr.regs[reg] = v
        fr.blk = fn.order[0]
        fr.code = fn.blocks[fr.blk]
        fr.ip = 0
        st.frames.append(fr)

    def pop_frame(self, st):
        if len(st.frames) <= st.floor:
            raise PathEnd('left the loop under inference')
        fr = st.frames.pop()
        for oid in fr.allocas:
            st.mem.pop(oid, None)
        return fr

    def run(self, fname):
        """explore all paths from harness fname"""
        work = [self.start(fname)]
        while work:
            if self.opts['deadline'] and time.time() > self.opts['deadline']:
                raise Unsupported('time budget exhausted')
            st = work.pop()
            self.run_path(st, work)
            if self.paths > self.opts['max_paths']:
                raise Unsupported('too many paths')

    def run_path(self, st, work, stop=None):
        """run st until it ends; forks are appended to work.  stop(st) -> True ends early"""
        while True:
            fr = st.frames[-1]
            if fr.ip >= len(fr.code):
                raise IRError('fell off block')
            ins = fr.code[fr.ip]
            st.steps += 1
            self.instrs += 1
            if self.instrs & 4095 == 0 and self.opts['deadline'] and time.time() > self.opts['deadline']:
                raise Unsupported('time budget exhausted')
            try:
                new = self.step(st, fr, ins)
            except ForkOn as f:
                res = []
                for cond, key, v in f.alts:
                    s2 = st.clone() if len(f.alts) > 1 else st
                    try:
                        if cond is not None:
                            self.assume(s2, cond)
                    except PathEnd:
                        continue
                    if key is not None:
                        s2.conc[key[0]] = (key[1], v)
                    res.append(s2)
                if not res:
                    self.paths += 1
                    return
                st = res.pop()
                work.extend(res)
                continue
            except PathEnd:
                self.paths += 1
                return
            if new is not None:
                # list of successor states (may be empty)
                if not new:
                    self.paths += 1
                    return
                st = new[0]
                work.extend(new[1:])
            if not st.frames:
                self.paths += 1
                return

    def goto(self, st, fr, lab):
        """transfer control inside a frame; handles phis, loop accounting and loop cutting"""
        return self.loop_goto(st, fr, lab)

    def enter_block(self, st, fr, lab):
        prev = fr.blk
        blk = fr.fn.blocks[lab]
        ip = 0
        if blk[0].op == 'phi':
            vals = []
            while blk[ip].op == 'phi':
                i = blk[ip]
                v = i.a.get(prev)
                if v is None:
                    raise IRError('phi')
                vals.append((i.res, self.val(st, v, i.ty)))
                ip += 1
            for r, v in vals:
                fr.regs[r] = v
        fr.prev = prev
        fr.blk = lab
        fr.code = blk
        fr.ip = ip

    def step(self, st, fr, ins):
        op = ins.op
        regs = fr.regs
        if op == 'load':
            p = self.val(st, ins.a[0], PTR)
            regs[ins.res] = self.load(st, p, ins.ty)
            fr.ip += 1
            return None
        if op == 'store':
            v = self.val(st, ins.a[0], ins.ty)
            p = self.val(st, ins.a[1], PTR)
            self.store(st, p, ins.ty, v)
            fr.ip += 1
            return None
        if op == 'gep':
            bt, base, idx = ins.a
            b = self.val(st, base, PTR)
            regs[ins.res] = self.gep(st, bt, b, [(t, self.val(st, v, t)) for t, v in idx])
            fr.ip += 1
            return None
        if op == 'bin':
            o, a, b = ins.a
            w = ins.ty[1]
            regs[ins.res] = self.binop(st, o, w, self.val(st, a, ins.ty), self.val(st, b, ins.ty), ins.fl, ins)
            fr.ip += 1
            return None
        if op == 'icmp':
            pred, a, b = ins.a
            regs[ins.res] = self.icmp(st, pred, ins.ty, self.val(st, a, ins.ty), self.val(st, b, ins.ty))
            fr.ip += 1
            return None
        if op == 'cast':
            o, t1, a = ins.a
            regs[ins.res] = self.cast(st, o, t1, self.val(st, a, t1), ins.ty)
            fr.ip += 1
            return None
        if op == 'alloca':
            n = self.m.sizeof(ins.ty)
            if ins.a[0] is not None:
                c = self.val(st, ins.a[0], IntT(64))
                n *= self.concretize(st, c)
            o = self.newobj(st, n, '%' + ins.res)
            fr.allocas.append(o.id)
            regs[ins.res] = Ptr(o.id, 0)
            fr.ip += 1
            return None
        if op == 'br':
            return self.goto(st, fr, ins.a[0])
        if op == 'condbr':
            c = self.val(st, ins.a[0], IntT(1))
            if isc(c):
                if fr.iters:
                    loops_ = fr.fn.loops()
                    for h in fr.iters:
                        body = loops_[h]
                        if fr.blk in body and ((ins.a[1] in body) != (ins.a[2] in body)) and h not in fr.cx:
                            fr.cx = fr.cx | {h}
                return self.goto(st, fr, ins.a[1] if c else ins.a[2])
            return self.cond_goto(st, fr, [(c, ins.a[1]), (z3.Not(c), ins.a[2])])
        if op == 'switch':
            v, d, cases = ins.a
            x = self.val(st, v, ins.ty)
            if x.__class__ is Ptr:
                x = self.as_int(st, x, 64)
            if isc(x):
                for c, lab in cases:
                    if c == x:
                        return self.goto(st, fr, lab)
                return self.goto(st, fr, d)
            groups = {}
            for c, lab in cases:
                groups.setdefault(lab, []).append(x == z3.BitVecVal(c, ins.ty[1]))
            alts = []
            neg = []
            for lab, cs in groups.items():
                neg.extend(cs)
                if lab != d:
                    alts.append((z3.Or(*cs) if len(cs) > 1 else cs[0], lab))
            dc = [z3.Not(z3.Or(*[e for l, es in groups.items() if l != d for e in es]))] if alts else []
            alts.append((dc[0] if dc else z3.BoolVal(True), d))
            return self.cond_goto(st, fr, alts)
        if op == 'call':
            return self.call(st, fr, ins)
        if op == 'ret':
            v = self.val(st, ins.a[0], ins.ty) if ins.a[0] is not None else None
            return self.do_ret(st, v)
        if op == 'extractvalue':
            v = self.val(st, ins.a[0], ins.ty)
            for i in ins.a[1]:
                v = v[i]
            regs[ins.res] = v
            fr.ip += 1
            return None
        if op == 'insertvalue':
            agg = self.val(st, ins.a[0], ins.ty)
            e = self.val(st, ins.a[1], None)

            def ins_at(a, path):
                a = list(a)
                if len(path) == 1:
                    a[path[0]] = e
                else:
                    a[path[0]] = ins_at(a[path[0]], path[1:])
                return tuple(a)
            regs[ins.res] = ins_at(agg, ins.a[2])
            fr.ip += 1
            return None
        if op == 'select':
            c = self.val(st, ins.a[0], IntT(1))
            a = self.val(st, ins.a[1], ins.ty)
            b = self.val(st, ins.a[2], ins.ty)
            if isc(c):
                r = a if c else b
            elif a.__class__ is Ptr or b.__class__ is Ptr or a.__class__ is tuple:
                if a.__class__ is Ptr and b.__class__ is Ptr and a.o == b.o:
                    r = Ptr(a.o, simp(z3.If(c, bv(a.off, 64), bv(b.off, 64))))
                else:
                    r = a if self.forkbool(st, c) else b
            elif ins.ty[1] == 1:
                r = simpb(z3.If(c, zb(a), zb(b)))
            else:
                w = ins.ty[1]
                r = simp(z3.If(c, bv(a, w), bv(b, w)))
            regs[ins.res] = r
            fr.ip += 1
            return None
        if op == 'unreachable':
            self.vc(st, 0, 'unreachable code is not reached', 'ub')
            return []
        if op == 'landingpad':
            ti, exc, objty = st.unw
            cleanup, cl = ins.a
            sel = 0
            for kind, c in cl:
                if kind == 'catch':
                    if c[0] == 'null' or (c[0] == 'g' and c[1] == objty):
                        sel = self.typeid(c)
                        break
                else:
                    raise Unsupported('exception filter')
            regs[ins.res] = (exc, sel)
            fr.ip += 1
            return None
        if op == 'resume':
            v = self.val(st, ins.a[0], ins.ty)
            return self.unwind(st)
        if op == 'freeze':
            regs[ins.res] = self.val(st, ins.a[0], ins.ty)
            fr.ip += 1
            return None
        if op == 'nop':
            fr.ip += 1
            return None
        raise Unsupported('instruction ' + ins.line[:100])

    def typeid(self, c):
        if c[0] == 'null':
            return 0x7fff
        return (hash(c[1]) & 0x3fffffff) | 1

    def cond_goto(self, st, fr, alts):
        feas = []
        for c, lab in alts:
            if isc(c):
                if c:
                    feas.append((None, lab))
                continue
            if self.sat(st, c):
                feas.append((c, lab, getattr(self, 'lastmodel', None)))
        if not feas:
            self.paths += 1
            return []
        if len(feas) == 1:
            # the others are infeasible, so nothing new is learnt
            return self.goto(st, fr, feas[0][1])
        # note symbolic loop exits for loop cutting
        loops = fr.fn.loops()
        for h, body in loops.items():
            if fr.blk in body and h in fr.iters:
                ins_ = [lab in body for _, lab, *_ in feas]
                if any(ins_) and not all(ins_):
                    n, s = fr.iters[h]
                    fr.iters[h] = (n, s + 1)
        out = []
        for k, f in enumerate(feas):
            s2 = st.clone() if k < len(feas) - 1 else st
            out.append((s2, f))
        res = []
        for s2, f in out:
            c, lab = f[0], f[1]
            m = f[2] if len(f) > 2 else None
            s2.pc.append(c)
            if m is not None:
                s2.model = m
            elif s2.model is not None and not z3.is_true(s2.model.eval(c, model_completion=True)):
                s2.model = None
            try:
                r = self.goto(s2, s2.frames[-1], lab)
            except PathEnd:
                self.paths += 1
                continue
            if r is None:
                res.append(s2)
            else:
                res.extend(r)
        return res

    def loop_goto(self, st, fr, lab):
        return loops.loop_goto(self, st, fr, lab)

    def no_cut(self, fname):
        return any(p in fname for p in self.opts.get('nocut') or ())

    # ---- ghost functions -----------------------------------------------------------------------
    def subrun(self, st, fname, args):
        """execute fname(args) on a copy of st; returns [(path condition added, value, state)]"""
        s0 = st.clone()
        n0 = len(s0.pc)
        outs = []

        def onret(e, s, v):
            outs.append((s.pc[n0:], v, s))
            return []
        self.invmode += 1
        p0 = self.paths
        s0.floor = 0
        try:
            self.push_frame(s0, fname, args, None)
            s0.frames[-1].onret = onret
            s0.frames[-1].cut = {}
            work = [s0]
            while work:
                self.run_path(work.pop(), work)
        finally:
            self.invmode -= 1
            self.paths = p0
        return outs

    def ghost_call(self, st, fname, args):
        """value of a side-effect free harness function as an expression"""
        if fname.startswith('vf_rec_'):
            k = args[-1]
            if not (isc(k) and k <= 40) or any(a.__class__ is Ptr and a.o in st.mem and (
                    st.mem[a.o].arr is not None or st.mem[a.o].rec is not None) for a in args[:-1]):
                return self.rec_term(st, fname, args[:-1], k)
        top = self.axsink is None
        if top:
            self.axsink = []
            self.recbase = len(st.pc)
        try:
            outs = self.subrun(st, fname, args)
            ax = self.axsink
        finally:
            if top:
                self.axsink = None
        if top:
            st.pc.extend(ax)
        if not outs:
            return 0
        rt = self.m.funcs[fname].ret
        res = None
        for conds, v, s in outs:
            self.rec_merge(st, s)
        if len(outs) == 1 and not outs[0][0]:
            return outs[0][1]
        if rt[1] == 1:
            return simpb(z3.Or(*[z3.And(*(c + [zb(v)])) for c, v, s in outs]))
        r = bv(outs[-1][1], rt[1])
        for c, v, s in outs[:-1]:
            r = z3.If(z3.And(*c) if c else z3.BoolVal(True), bv(v, rt[1]), r)
        return simp(r)

    def rec_key(self, st, name, args):
        """(identity of the ghost function and the memory it reads, its symbolic arguments)"""
        ks = []
        sy = []
        for a in args:
            if a.__class__ is Ptr:
                o = st.mem.get(a.o)
                if o is not None and o.arr is None and o.rec is None and not o.ro:
                    raise Unsupported('ghost over a mutable object')
                ks.append((a.o, o.arr.get_id() if o is not None and o.arr is not None else
                           tuple(sorted((k, v.get_id()) for k, v in o.rec.items()
                                        if not (k in self.recsyms.get(a.o, ()) and self.recsyms[a.o][k].eq(v))))
                           if o is not None and o.rec is not None else 0))
                sy.append(bv(a.off, 64))
                if o is not None and o.arr is not None:
                    self.keep.append(o.arr)
                if o is not None and o.rec is not None:
                    self.keep.extend(o.rec.values())
            elif isc(a):
                ks.append(a)
            elif z3.is_bool(a):
                ks.append('b')
                sy.append(a)
            else:
                ks.append(a.size())
                sy.append(a)
        return (name,) + tuple(ks), sy

    keep = []

    @staticmethod
    def rec_note(st, key, ks):
        mine = st.rects.setdefault(key, [])
        for y in mine:
            if all(p.eq(q) for p, q in zip(ks, y)):
                return
        mine.append(ks)

    def rec_merge(self, st, s):
        for kx, kxs in s.rects.items():
            for x in kxs:
                self.rec_note(st, kx, x)
        st.recseen |= s.recseen

    def rec_term(self, st, name, args, k):
        key, sy = self.rec_key(st, name, args)
        f = self.recfuncs.get(key)
        rt = self.m.funcs[name].ret
        kk = bv(k, 64)
        if f is None:
            self.nsym += 1
            f = z3.Function('%s#%d' % (name, self.nsym), *([x.sort() for x in sy] + [z3.BitVecSort(64)] +
                            [z3.BoolSort() if retw(rt) == 1 else z3.BitVecSort(retw(rt))]))
            self.recfuncs[key] = f
            self.recdefs[key] = list(args)
        ks = tuple(sy) + (kk,)
        self.rec_note(st, key, ks)
        term = f(*ks)
        sk = (key,) + tuple(x.get_id() for x in ks)
        self.keep.append(ks)
        split = (simp(z3.Extract(63, 0, term)), simp(z3.Extract(127, 64, term))) if rt[0] == 'struct' else term
        if sk in st.recseen or (self.recdepth >= self.opts['unfold'] and not (isc(k) and k <= 40)):
            return split
        st.recseen.add(sk)
        top = self.axsink is None
        if top:
            self.axsink = []
            self.recbase = len(st.pc)
        base = self.recbase
        self.recdepth += 1
        try:
            outs = self.subrun(st, name, list(args) + [k])
            for conds, v, s in outs:
                prem = s.pc[base:]
                eqn = term == packret(v, rt)
                self.axsink.append(z3.Implies(z3.And(*prem), eqn) if prem else eqn)
                self.rec_merge(st, s)
        finally:
            self.recdepth -= 1
            ax = self.axsink
            if top:
                self.axsink = None
        if top:
            st.pc.extend(ax)
            st.model = None
        return split

    def prove_mono(self, st, key):
        """lemma: a bool ghost that holds for k holds for k - 1 (by its definition alone, hence for all smaller k)"""
        if key in self.mono_ok:
            return
        self.mono_ok[key] = True
        f = self.recfuncs[key]
        s = st.clone()
        s.rects = {}
        s.recseen = set()
        s.floor = 0
        s.pc = []
        s.model = None
        k = self.fresh(64, 'k')
        args = []
        sy = []
        for a in self.recdefs[key]:
            if a.__class__ is Ptr:
                x = self.fresh(64, 'off')
                o = st.mem.get(a.o)
                if o is not None and o.rec is not None:
                    x = simp(x * o.es)
                args.append(Ptr(a.o, x))
                sy.append(x)
            elif isc(a):
                args.append(a)
            else:
                x = self.freshb('arg') if z3.is_bool(a) else self.fresh(a.size(), 'arg')
                args.append(x)
                sy.append(x)
        s.pc.append(k != 0)
        sv = self.axsink, self.recdepth
        self.axsink, self.recdepth = [], self.opts['unfold'] - 1
        sb = self.recbase
        self.recbase = 1
        try:
            s.recseen.add((key,) + tuple(x.get_id() for x in sy + [k]))
            self.recdepth += 1
            outs = self.subrun(s, key[0], args + [k])
            ax = self.axsink
        finally:
            self.axsink, self.recdepth = sv
            self.recbase = sb
        term = f(*(sy + [k]))
        outs = [(z3.And(*c) if c else z3.BoolVal(True), term == zb(v)) for c, v, _ in outs]
        so = z3.Solver()
        so.set('timeout', 10000)
        so.add(k != 0)
        for p in ax:
            so.add(p)
        for prem, eqn in outs:
            so.add(z3.Implies(prem, eqn))
        so.add(z3.Or(*[prem for prem, eqn in outs]))
        so.add(term, z3.Not(f(*(sy + [k - 1]))))
        r = so.check()
        o = self.obligations.setdefault(('ghost predicate %s is prefix closed' % key[0], 'lemma'), [0, 0])
        o[0] += 1
        if r == z3.unsat:
            o[1] += 1
            self.backends['z3'] = self.backends.get('z3', 0) + 1
        else:
            raise Unsupported('ghost predicate %s is not prefix closed' % key[0])

    # ---- calls ---------------------------------------------------------------------------------
    def call(self, st, fr, ins):
        callee, args, nlab, ulab = ins.a
        if callee[0] == 'g':
            name = callee[1]
            if name in self.m.aliases:
                name = self.m.aliases[name][1]
        else:
            p = self.val(st, callee, PTR)
            if p.__class__ is not Ptr or p.o not in self.objfunc:
                if p.__class__ is Ptr and p.o == 0:
                    self.vc(st, 0, 'no call through a null function pointer', 'ub')
                    return []
                raise Unsupported('indirect call through %s' % (p,))
            name = self.objfunc[p.o]
        av = [self.val(st, v, t) for t, v, info in args]
        rep = self.replace.get(name)
        if rep is not None and fr.fn.name != rep:
            name = rep
        h = self.hookcache.get(name, False)
        if h is False:
            h = self.intr.find(self, name)
            self.hookcache[name] = h
        if h is not None:
            r = h(self, st, fr, ins, name, av)
            if r is PASS:
                pass
            elif r is DONE:
                return None
            elif r.__class__ is list:
                return r
            else:
                return self.finish_call(st, fr, ins, r)
        fn = self.m.funcs.get(name)
        if fn is None or fn.raw is None:
            raise Unsupported('call of external function %s' % self.dem(name))
        # byval pointers: callee copies
        self.push_frame(st, name, av, ins)
        return None

    def finish_call(self, st, fr, ins, r):
        if ins.res is not None:
            fr.regs[ins.res] = r
        if ins.a[2] is not None:
            return self.goto(st, fr, ins.a[2])
        fr.ip += 1
        return None

    def do_ret(self, st, v):
        fr = self.pop_frame(st)
        if fr.onret is not None:
            r = fr.onret(self, st, v)
            if r is not None:
                return r
        if not st.frames:
            return []
        caller = st.frames[-1]
        if fr.call is None:
            return []
        return self.finish_call(st, caller, fr.call, v)

    def throw(self, st, exc, ti):
        name = None
        if ti.__class__ is Ptr:
            for n, oid in self.globals.items():
                if oid == ti.o:
                    name = n
        st.unw = (ti, exc, name)
        return self.unwind(st, first=True)

    def unwind(self, st, first=False):
        ti, exc, name = st.unw
        if not first:
            # resume: leave the current frame
            fr = self.pop_frame(st)
            if not st.frames:
                return self.uncaught(st, name)
            call = fr.call
            if fr.onret is not None:
                raise Unsupported('exception through hook')
            cur = st.frames[-1]
            if call is not None and call.a[3] is not None:
                return self.goto(st, cur, call.a[3])
        else:
            cur = st.frames[-1]
            ins = cur.code[cur.ip]
            if ins.op == 'call' and ins.a[3] is not None:
                return self.goto(st, cur, ins.a[3])
        while True:
            fr = self.pop_frame(st)
            if fr.onret is not None:
                raise Unsupported('exception through hook')
            if not st.frames:
                return self.uncaught(st, name)
            cur = st.frames[-1]
            if fr.call is not None and fr.call.a[3] is not None:
                return self.goto(st, cur, fr.call.a[3])

    def uncaught(self, st, name):
        n = self.dem(name[0:] if name else '?')
        msg = ''
        ti, exc, _ = st.unw
        where = st.ghost.get('throw_where')
        self.vc(st, 0, 'no exception escapes (%s)' % n.replace('typeinfo for ', ''), 'exception',
                where=where)
        return []


class StopEngine(Exception):
    pass


class _Sentinel:
    pass


PASS = _Sentinel()
DONE = _Sentinel()


def bor(A, B):
    A = z3.simplify(A)
    B = z3.simplify(B)
    for x, y in ((A, B), (B, A)):
        # (hi ++ 0_n) | (0_m ++ lo) with |lo| <= n
        if x.decl().kind() == z3.Z3_OP_CONCAT and y.decl().kind() == z3.Z3_OP_CONCAT:
            last = x.arg(x.num_args() - 1)
            firsty = y.arg(0)
            if z3.is_bv_value(last) and last.as_long() == 0 and z3.is_bv_value(firsty) and firsty.as_long() == 0:
                n = last.size()
                m = firsty.size()
                w = x.size()
                if m + n >= w:
                    lo = z3.Extract(n - 1, 0, y)
                    hi = z3.Extract(w - 1, n, x)
                    return simp(z3.Concat(hi, lo))
    return simp(A | B)


def mulok(A, B, w):
    return z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))


HARD = {z3.Z3_OP_BMUL, z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BSMOD,
        z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I, z3.Z3_OP_BSMOD_I}
UFS = {}


def hard_terms(es):
    seen = set()
    out = []
    stack = [(e, False) for e in es if z3.is_expr(e)]
    while stack:
        e, done = stack.pop()
        if done:
            out.append(e)
            continue
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if not z3.is_app(e):
            continue
        if e.decl().kind() in HARD and e.num_args() == 2 and not z3.is_bv_value(e.arg(0)) \
                and not z3.is_bv_value(e.arg(1)):
            stack.append((e, True))
        for k in range(e.num_args()):
            stack.append((e.arg(k), False))
    return out


def abstract_hard(hard):
    """products and quotients of two variables as uninterpreted functions -> (substitution, facts).
    The low bits of a product are the product of the low bits, so narrow products whose factors are
    the low bits of a wider product's factors share its symbol.  Facts are true of udiv/urem."""
    sub = []
    facts = []
    wide = []
    order = sorted(range(len(hard)), key=lambda i: i)
    lows = {}
    ws = {t.size() for t in hard if t.decl().kind() == z3.Z3_OP_BMUL}
    for t in hard:
        if t.decl().kind() == z3.Z3_OP_BMUL and t.num_args() == 2:
            wide.append((t.size(), t.arg(0), t.arg(1)))
            for w in ws:
                if w < t.size():
                    la = z3.simplify(z3.Extract(w - 1, 0, t.arg(0)))
                    lb = z3.simplify(z3.Extract(w - 1, 0, t.arg(1)))
                    lows[(w, frozenset((la.get_id(), lb.get_id())))] = (t, la, lb)

    def uf(k, w):
        f = UFS.get((k, w))
        if f is None:
            f = UFS[(k, w)] = z3.Function('uf_%d_%d' % (k, w), z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
        return f

    for i in order:
        t = hard[i]
        k = t.decl().kind()
        k = UNI.get(k, k)
        w = t.size()
        a, b = t.arg(0), t.arg(1)
        W = w
        if k == z3.Z3_OP_BMUL:
            hit = lows.get((w, frozenset((a.get_id(), b.get_id()))))
            if hit is not None:
                W, a, b = hit[0].size(), hit[0].arg(0), hit[0].arg(1)
        if sub:
            a, b = z3.substitute(a, *sub), z3.substitute(b, *sub)
        r = uf(k, W)(a, b)
        if k == z3.Z3_OP_BMUL:
            facts.append(r == uf(k, W)(b, a))
        if k == z3.Z3_OP_BMUL and W != w:
            r = z3.Extract(w - 1, 0, r)
        elif k == z3.Z3_OP_BUDIV:
            facts.append(z3.Implies(b != 0, z3.ULE(r, a)))
        elif k == z3.Z3_OP_BUREM:
            facts.append(z3.Implies(b != 0, z3.And(z3.ULE(r, a), z3.ULT(r, b))))
        sub.append((t, r))
    return sub, facts


UNI = {z3.Z3_OP_BUDIV_I: z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM_I: z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV_I: z3.Z3_OP_BSDIV,
       z3.Z3_OP_BSREM_I: z3.Z3_OP_BSREM, z3.Z3_OP_BSMOD_I: z3.Z3_OP_BSMOD}


def exact_div(a, b, w):
    r = lin_split(a, b)
    if r is None:
        return None
    q, c = r
    if c != 0:
        return None
    return q


def lin_terms(e):
    """e (BV64) as {id: [expr, coef]} + const"""
    w = e.size()
    M = mask(w)
    terms = {}
    const = 0
    stack = [(e, 1)]
    while stack:
        x, k = stack.pop()
        if z3.is_bv_value(x):
            const = (const + k * x.as_long()) & M
            continue
        d = x.decl().kind()
        if d == z3.Z3_OP_BADD:
            for i in range(x.num_args()):
                stack.append((x.arg(i), k))
            continue
        if d == z3.Z3_OP_BSUB:
            stack.append((x.arg(0), k))
            for i in range(1, x.num_args()):
                stack.append((x.arg(i), -k))
            continue
        if d == z3.Z3_OP_BNEG:
            stack.append((x.arg(0), -k))
            continue
        if d == z3.Z3_OP_BMUL and x.num_args() == 2:
            if z3.is_bv_value(x.arg(0)):
                stack.append((x.arg(1), k * x.arg(0).as_long()))
                continue
            if z3.is_bv_value(x.arg(1)):
                stack.append((x.arg(0), k * x.arg(1).as_long()))
                continue
        if d == z3.Z3_OP_BSHL and z3.is_bv_value(x.arg(1)):
            stack.append((x.arg(0), k << x.arg(1).as_long()))
            continue
        if d == z3.Z3_OP_CONCAT and x.num_args() == 2 and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long() == 0 \
                and x.arg(0).decl().kind() == z3.Z3_OP_EXTRACT:
            lo = x.arg(0)
            n = x.arg(1).size()
            hi_, lo_ = lo.params()
            if lo_ == 0 and hi_ == w - n - 1 and lo.arg(0).size() == w:
                stack.append((lo.arg(0), k << n))
                continue
        i = x.get_id()
        if i in terms:
            terms[i][1] = (terms[i][1] + k) & M
        else:
            terms[i] = [x, k & M]
    return terms, const


def lin_split(e, es):
    """e == es*q + c  (0 <= c < es) syntactically; returns (q, c) or None"""
    if isc(e):
        s = sgn(e, 64)
        return (s // es) & mask(64), s % es
    terms, const = lin_terms(z3.simplify(e))
    q = None
    for x, k in terms.values():
        ks = sgn(k, 64)
        if ks % es:
            return None
        if ks == 0:
            continue
        t = x * z3.BitVecVal((ks // es) & mask(64), 64) if ks != es else x
        q = t if q is None else q + t
    cs = sgn(const, 64)
    qc = cs // es
    if q is None:
        return qc & mask(64), cs % es
    if qc:
        q = q + z3.BitVecVal(qc & mask(64), 64)
    return simp(q), cs % es


def run_cvc5(smt, timeout, *args):
    smt = re.sub(r'\b(bv[us](?:div|rem|mod))_i\b', r'\1', smt)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt)
        n = f.name
    try:
        r = subprocess.run(['cvc5', *args, '--tlimit=%d' % (timeout * 1000), n], capture_output=True, text=True,
                           timeout=timeout + 10)
        out = r.stdout.strip().split('\n')[0]
        return out or r.stderr.strip()[:100]
    except (subprocess.TimeoutExpired, OSError) as e:
        return 'timeout'
    finally:
        os.unlink(n)


import loops  # noqa: E402
