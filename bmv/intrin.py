"""Models of compiler intrinsics, the C++ runtime, the allocator and of the harness (ghost) functions.

Everything here is part of the trusted base and listed as such in the evidence (`Engine.trusted`)."""
import re
import z3
import sym
from sym import (Ptr, Undef, NULL, PASS, DONE, PathEnd, Unsupported, isc, bv, simp, simpb, zb, sgn, mask,
                 ForkOn)

H = {}
P = []        # (regex, handler)


def hook(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


def pat(rx):
    def d(f):
        P.append((re.compile(rx), f))
        return f
    return d


def find(eng, name):
    h = H.get(name)
    if h is not None:
        return h
    for rx, f in P:
        if rx.match(name):
            return f
    return None


# ---- llvm intrinsics ---------------------------------------------------------------------------

@pat(r'llvm\.(lifetime|dbg|experimental|invariant|donothing|var\.annotation|prefetch|va_)')
def h_nop(eng, st, fr, ins, name, av):
    return None


@pat(r'llvm\.assume')
def h_assume(eng, st, fr, ins, name, av):
    return None


@pat(r'llvm\.memcpy|llvm\.memmove|^memcpy$|^memmove$')
def h_memcpy(eng, st, fr, ins, name, av):
    eng.memcpy(st, av[0], av[1], av[2])
    return av[0]


@pat(r'llvm\.memset|^memset$')
def h_memset(eng, st, fr, ins, name, av):
    v = av[1]
    if not name.startswith('llvm'):
        v = v & 255 if isc(v) else simp(z3.Extract(7, 0, v))
    eng.memset(st, av[0], v, av[2])
    return av[0]


@pat(r'llvm\.[us](min|max)\.')
def h_minmax(eng, st, fr, ins, name, av):
    a, b = av[0], av[1]
    k = name.split('.')[1]
    w = ins.ty[1]
    c = eng.icmp(st, ('s' if k[0] == 's' else 'u') + ('lt' if 'min' in k else 'gt'), ins.ty, a, b)
    if isc(c):
        return a if c else b
    return simp(z3.If(c, bv(a, w), bv(b, w)))


@pat(r'llvm\.abs\.')
def h_abs(eng, st, fr, ins, name, av):
    w = ins.ty[1]
    a = av[0]
    if isc(a):
        return abs(sgn(a, w)) & mask(w)
    return simp(z3.If(a < 0, -a, a))


@pat(r'llvm\.(ctpop|ctlz|cttz)\.')
def h_bits(eng, st, fr, ins, name, av):
    w = ins.ty[1]
    a = av[0]
    k = name.split('.')[1]
    if isc(a):
        if k == 'ctpop':
            return bin(a).count('1')
        if k == 'ctlz':
            return w - a.bit_length()
        return w if a == 0 else (a & -a).bit_length() - 1
    if k == 'ctpop':
        r = z3.BitVecVal(0, w)
        for i in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
        return simp(r)
    r = z3.BitVecVal(w, w)
    rng = range(w) if k == 'ctlz' else range(w - 1, -1, -1)
    for i in rng:
        r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i if k == 'ctlz' else i, w), r)
    return simp(r)


@pat(r'llvm\.([us])(add|sub|mul)\.with\.overflow')
def h_ovf(eng, st, fr, ins, name, av):
    s, o = name.split('.')[1][0], name.split('.')[1][1:]
    a, b = av
    w = ins.ty[1][0][1]
    A, B = bv(a, w), bv(b, w)
    if s == 'u':
        if o == 'add':
            r = A + B
            f = z3.ULT(r, A)
        elif o == 'sub':
            r = A - B
            f = z3.ULT(A, B)
        else:
            r = A * B
            f = z3.Not(z3.BVMulNoOverflow(A, B, False))
    else:
        if o == 'add':
            r = A + B
            f = z3.Not(z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B)))
        elif o == 'sub':
            r = A - B
            f = z3.Not(z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True)))
        else:
            r = A * B
            f = z3.Not(sym.mulok(A, B, w))
    return (simp(r), simpb(f))


@pat(r'llvm\.([us])(add|sub)\.sat\.')
def h_sat(eng, st, fr, ins, name, av):
    w = ins.ty[1]
    A, B = bv(av[0], w), bv(av[1], w)
    if name.startswith('llvm.usub'):
        return simp(z3.If(z3.ULT(A, B), z3.BitVecVal(0, w), A - B))
    if name.startswith('llvm.uadd'):
        return simp(z3.If(z3.ULT(A + B, A), z3.BitVecVal(mask(w), w), A + B))
    raise Unsupported(name)


@pat(r'llvm\.expect')
def h_expect(eng, st, fr, ins, name, av):
    return av[0]


@pat(r'llvm\.(launder|strip)\.')
def h_launder(eng, st, fr, ins, name, av):
    return av[0]


@pat(r'llvm\.is\.constant')
def h_isconst(eng, st, fr, ins, name, av):
    return 0


@pat(r'llvm\.objectsize')
def h_objsize(eng, st, fr, ins, name, av):
    return mask(64)


@pat(r'llvm\.(trap|ubsantrap|debugtrap)')
def h_trap(eng, st, fr, ins, name, av):
    eng.vc(st, 0, 'no trap', 'ub')
    return []


@pat(r'llvm\.eh\.typeid\.for')
def h_typeid(eng, st, fr, ins, name, av):
    p = av[0]
    if p.__class__ is Ptr:
        for n, oid in eng.globals.items():
            if oid == p.o:
                return eng.typeid(('g', n))
    raise Unsupported('typeid')


@pat(r'llvm\.bswap')
def h_bswap(eng, st, fr, ins, name, av):
    w = ins.ty[1]
    a = bv(av[0], w)
    return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(w // 8)]))


@pat(r'llvm\.fsh[lr]')
def h_fsh(eng, st, fr, ins, name, av):
    w = ins.ty[1]
    a, b, c = (bv(x, w) for x in av)
    k = z3.URem(c, z3.BitVecVal(w, w))
    if name.startswith('llvm.fshl'):
        return simp(z3.If(k == 0, a, (a << k) | z3.LShR(b, w - k)))
    return simp(z3.If(k == 0, b, (a << (w - k)) | z3.LShR(b, k)))


# ---- allocation --------------------------------------------------------------------------------

def alloc(eng, st, n, name):
    if isc(n):
        if n > 1 << 40:
            raise PathEnd('allocation failure')
        o = eng.newobj(st, n, name)
    else:
        o = eng.newobj(st, n, name)
        eng.nsym += 1
        o.arr = z3.Array('heap!%d' % eng.nsym, z3.BitVecSort(64), z3.BitVecSort(8))
        # allocations larger than the address space throw bad_alloc: memory exhaustion is not modelled
        eng.assume(st, z3.ULE(n, z3.BitVecVal(1 << 40, 64)))
    eng.trusted.add('operator new never fails (memory exhaustion not modelled)')
    return Ptr(o.id, 0)


@hook('_Znwm', '_Znam', 'malloc')
def h_new(eng, st, fr, ins, name, av):
    return alloc(eng, st, av[0], 'heap')


@hook('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def h_newa(eng, st, fr, ins, name, av):
    return alloc(eng, st, av[0], 'heap')


@hook('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t', 'free')
def h_delete(eng, st, fr, ins, name, av):
    free(eng, st, av[0])
    return None


def free(eng, st, p):
    if p.__class__ is Ptr and p.o == 0 and isc(p.off) and p.off == 0:
        return
    if p.__class__ is not Ptr:
        raise Unsupported('delete of opaque pointer')
    o = st.mem.get(p.o)
    if o is None or o.freed or o.name not in ('heap',):
        eng.vc(st, 0, 'only live heap objects are deleted', 'ub')
        raise PathEnd('bad free')
    if not isc(p.off) or p.off != 0:
        eng.vc(st, simpb(bv(p.off, 64) == 0), 'delete of the start of an allocation', 'ub')
    o = st.wobj(p.o)
    o.freed = True


@hook('_ZNSt3pmr15memory_resource8allocateEmm')
def h_pmralloc(eng, st, fr, ins, name, av):
    eng.trusted.add('std::pmr::memory_resource::allocate returns fresh storage')
    return alloc(eng, st, av[1], 'heap')


@hook('_ZNSt3pmr15memory_resource10deallocateEPvmm')
def h_pmrfree(eng, st, fr, ins, name, av):
    free(eng, st, av[1])
    return None


@hook('_ZNSt3pmr20get_default_resourceEv', '_ZNSt3pmr19new_delete_resourceEv')
def h_pmrdef(eng, st, fr, ins, name, av):
    oid = st.ghost.get('pmr')
    if oid is None:
        oid = eng.newobj(st, 8, 'pmr').id
        st.ghost['pmr'] = oid
    return Ptr(oid, 0)


@pat(r'_ZNSt3pmr(25monotonic_buffer_resource|28unsynchronized_pool_resource)([CD][012]|7release)')
def h_pmrctor(eng, st, fr, ins, name, av):
    eng.trusted.add('std::pmr pool/monotonic resources (constructor and destructor are opaque)')
    return None


# ---- exceptions and runtime --------------------------------------------------------------------

@hook('__cxa_allocate_exception')
def h_allocexc(eng, st, fr, ins, name, av):
    o = eng.newobj(st, av[0], 'exception')
    return Ptr(o.id, 0)


@hook('__cxa_free_exception')
def h_freeexc(eng, st, fr, ins, name, av):
    return None


@hook('__cxa_throw')
def h_throw(eng, st, fr, ins, name, av):
    st.ghost['throw_where'] = eng.where(st)
    return eng.throw(st, av[0], av[1])


@hook('__cxa_begin_catch', '__cxa_get_exception_ptr')
def h_begin(eng, st, fr, ins, name, av):
    st.caught.append(st.unw)
    return av[0]


@hook('__cxa_end_catch')
def h_end(eng, st, fr, ins, name, av):
    if st.caught:
        st.caught.pop()
    return None


@hook('__cxa_rethrow')
def h_rethrow(eng, st, fr, ins, name, av):
    st.unw = st.caught.pop()
    return eng.unwind(st, first=True)


@hook('_ZSt9terminatev', '__clang_call_terminate', 'abort', '__assert_fail', '_ZSt21__glibcxx_assert_failPKciS0_S0_',
      '__cxa_pure_virtual', 'exit', '_exit')
def h_terminate(eng, st, fr, ins, name, av):
    eng.vc(st, 0, 'the program is not terminated (%s)' % eng.dem(name).split('(')[0], 'abort')
    return []


@pat(r'_ZSt\d+__throw_')
def h_stdthrow(eng, st, fr, ins, name, av):
    st.ghost['throw_where'] = eng.where(st)
    m = re.match(r'_ZSt\d+__throw_([a-z_]+?)(_fmt)?(PKcz?|v|i|ib)?$', name)
    n = m.group(1) if m else 'exception'
    for suf in ('PKcz', 'PKc', 'v'):
        if n.endswith(suf):
            n = n[:-len(suf)]
    st.unw = (NULL, NULL, '_ZTISt%d%s' % (len(n), n))
    return eng.unwind(st, first=True)


@hook('__cxa_guard_acquire')
def h_guard(eng, st, fr, ins, name, av):
    v = eng.load_bytes(st, av[0], 1)
    return 1 if isc(v) and v == 0 else 0


@hook('__cxa_guard_release')
def h_guardr(eng, st, fr, ins, name, av):
    eng.store_bytes(st, av[0], 1, 1)
    return None


@hook('__cxa_guard_abort', '__cxa_atexit', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev')
def h_ignore(eng, st, fr, ins, name, av):
    return 0


# ---- C library ---------------------------------------------------------------------------------

@hook('strlen')
def h_strlen(eng, st, fr, ins, name, av):
    p = av[0]
    n = 0
    while True:
        b = eng.load_bytes(st, Ptr(p.o, (p.off + n)), 1) if isc(p.off) else None
        if b is None or not isc(b):
            raise Unsupported('strlen of symbolic data')
        if b == 0:
            return n
        n += 1


@hook('memcmp', 'bcmp', 'strncmp')
def h_memcmp(eng, st, fr, ins, name, av):
    if name == 'strncmp':
        raise Unsupported('strncmp')
    n = av[2]
    if not isc(n):
        n = eng.concretize(st, n, limit=128)
    if n == 0:
        return 0
    if n > 256:
        raise Unsupported('long memcmp')
    a = [eng.load_bytes(st, eng.padd(av[0], i), 1) for i in range(n)]
    b = [eng.load_bytes(st, eng.padd(av[1], i), 1) for i in range(n)]
    if all(isc(x) for x in a) and all(isc(x) for x in b):
        A, B = bytes(a), bytes(b)
        return 0 if A == B else (mask(32) if A < B else 1)
    r = z3.BitVecVal(0, 32)
    for i in range(n - 1, -1, -1):
        x, y = bv(a[i], 8), bv(b[i], 8)
        r = z3.If(x == y, r, z3.If(z3.ULT(x, y), z3.BitVecVal(mask(32), 32), z3.BitVecVal(1, 32)))
    return simp(r)


@hook('memchr', 'wmemchr')
def h_memchr(eng, st, fr, ins, name, av):
    p, c, n = av
    if not isc(n):
        if 'vf_stub_memchr' not in eng.m.funcs:
            raise Unsupported('memchr of symbolic length')
        eng.push_frame(st, 'vf_stub_memchr', av, ins)
        return DONE
    if n == 0:
        return NULL
    if n > 256:
        raise Unsupported('long memchr')
    c = c & 255 if isc(c) else simp(z3.Extract(7, 0, c))
    eqs = []
    for i in range(n):
        b = eng.load_bytes(st, eng.padd(p, i), 1)
        eqs.append(int(b == c) if isc(b) and isc(c) else simpb(bv(b, 8) == bv(c, 8)))
    if all(isc(e) for e in eqs):
        for i, e in enumerate(eqs):
            if e:
                return eng.padd(p, i)
        return NULL
    anyc = simpb(z3.Or(*[zb(e) for e in eqs]))
    if not eng.forkbool(st, anyc):
        return NULL
    off = z3.BitVecVal(n - 1, 64)
    for i in range(n - 2, -1, -1):
        off = z3.If(zb(eqs[i]), z3.BitVecVal(i, 64), off)
    return eng.padd(p, simp(off))


# ---- harness functions -------------------------------------------------------------------------

def cstring(eng, st, p):
    out = bytearray()
    i = p.off
    while True:
        b = eng.load_bytes(st, Ptr(p.o, i), 1)
        if not isc(b):
            raise Unsupported('label is not a constant string')
        if b == 0:
            return out.decode()
        out.append(b)
        i += 1


@hook('vf_any_bytes')
def h_any(eng, st, fr, ins, name, av):
    n = av[1]
    nm = cstring(eng, st, av[2])
    v = eng.fresh(8 * n, nm)
    st.inputs.append((nm, 'val', v))
    eng.store_bytes(st, av[0], n, v)
    return None


@hook('vf_any_u64', 'vf_any_len')
def h_anyu(eng, st, fr, ins, name, av):
    nm = cstring(eng, st, av[0])
    v = eng.fresh(64, nm)
    st.inputs.append((nm, 'len' if name == 'vf_any_len' else 'val', v))
    if name == 'vf_any_len':
        lim = eng.opts['strlen'] if eng.opts['strlen'] is not None else 1 << 40
        st.pc.append(z3.ULE(v, z3.BitVecVal(lim, 64)))
        eng.trusted.add('sizes of input sequences are at most 2^40')
        st.model = None
    return v


@hook('vf_choose')
def h_choose(eng, st, fr, ins, name, av):
    nm = cstring(eng, st, av[0])
    n = av[1]
    k = sum(1 for x in st.inputs if x[1] == 'choose')
    if k in eng.fixed:
        v = eng.fixed[k]
        if v >= n:
            raise PathEnd('split out of range')
        if v == 0 or True:
            st.inputs.append((nm, 'choose', v))
            st.trail.append('%s=%d' % (nm, v))
            return v
    eng.choices.setdefault((k, nm), n)
    key = ('choose', k)
    c = st.conc.get(key)
    if c is None:
        raise ForkOn([(None, (key, None), v) for v in range(n)])
    st.inputs.append((nm, 'choose', c[1]))
    st.trail.append('%s=%d' % (nm, c[1]))
    return c[1]


@hook('vf_any_data')
def h_data(eng, st, fr, ins, name, av):
    nm = cstring(eng, st, av[0])
    ln = av[1]
    o = eng.newobj(st, ln, nm)
    eng.nsym += 1
    o.arr = z3.Array('%s!%d' % (nm, eng.nsym), z3.BitVecSort(64), z3.BitVecSort(8))
    o.ro = True
    st.inputs.append((nm, 'data', (o.arr, ln)))
    return Ptr(o.id, 0)


@hook('vf_any_array')
def h_array(eng, st, fr, ins, name, av):
    """void* vf_any_array(name, elemsize, count): unbounded array of records with arbitrary contents"""
    nm = cstring(eng, st, av[0])
    es, cnt = av[1], av[2]
    o = eng.newobj(st, simp(bv(cnt, 64) * es) if not isc(cnt) else cnt * es, 'heap')
    o.rec = {}
    o.es = es
    if not isc(cnt) and es < 4096:
        # no array has 2**40 elements
        o.count = cnt
        eng.assume(st, z3.ULT(cnt, z3.BitVecVal(1 << 40, 64)))
    st.inputs.append((nm, 'vec', (cnt, es, o.id)))
    return Ptr(o.id, 0)


@hook('vf_assume')
def h_vassume(eng, st, fr, ins, name, av):
    eng.assume(st, av[0])
    if not isc(av[0]) and not eng.sat(st, None):
        raise PathEnd('assume')
    return None


@hook('vf_check')
def h_check(eng, st, fr, ins, name, av):
    eng.vc(st, av[0], cstring(eng, st, av[1]), 'contract')
    return None


@hook('vf_cover')
def h_cover(eng, st, fr, ins, name, av):
    if eng.invmode:
        return None
    lab = cstring(eng, st, av[0])
    if not eng.covers.get(lab):
        r = eng.fsolver.sync(st.pc).check()
        eng.covers[lab] = r == z3.sat
    return None


@hook('vf_within')
def h_within(eng, st, fr, ins, name, av):
    # provenance decides
    return int(av[0].o == av[1].o)


@hook('vf_hint')
def h_hint(eng, st, fr, ins, name, av):
    f = eng.objfunc.get(av[0].o)
    st.hints.append((f, tuple(av[1:]), 0))
    return None


@hook('vf_hint_off')
def h_hint_off(eng, st, fr, ins, name, av):
    """positions are taken `off` characters ahead"""
    f = eng.objfunc.get(av[0].o)
    st.hints.append((f, tuple(av[1:-1]), sgn(av[-1], 64)))
    return None


@hook('vf_hint_down')
def h_hint_down(eng, st, fr, ins, name, av):
    """the position is how far a loop variable has been decremented"""
    f = eng.objfunc.get(av[0].o)
    st.hints.append((f, tuple(av[1:]), 'down'))
    return None


@hook('vf_hint_rel')
def h_hint_rel(eng, st, fr, ins, name, av):
    """bool f(const char*, unsigned long n, unsigned long pos, unsigned long v): related loop variables"""
    f = eng.objfunc.get(av[0].o)
    st.hints.append((f, tuple(av[1:]), 'rel'))
    return None


@hook('vf_inv')
def h_inv(eng, st, fr, ins, name, av):
    f = eng.objfunc.get(av[0].o)
    st.invs.append((f, tuple(av[1:])))
    return None


@hook('vf_is_symbolic')
def h_issym(eng, st, fr, ins, name, av):
    return 1


@hook('vf_concretize')
def h_conc(eng, st, fr, ins, name, av):
    v = av[0]
    return eng.concretize(st, v, limit=1000)


@hook('vf_debug')
def h_debug(eng, st, fr, ins, name, av):
    import sys
    print('DEBUG', cstring(eng, st, av[0]), av[1:], file=sys.stderr)
    return None


@pat(r'vf_rec_')
def h_rec(eng, st, fr, ins, name, av):
    k = av[-1]
    if isc(k) and k <= 40:
        for a in av[:-1]:
            if a.__class__ is Ptr:
                o = st.mem.get(a.o)
                if o is not None and (o.arr is not None or o.rec is not None):
                    break
        else:
            return PASS
    return eng.rec_term(st, name, av[:-1], k)
