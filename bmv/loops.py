"""Loops.

A loop whose trip count is concrete along a path is simply executed (complete: every iteration).  A loop
with data-dependent exits is *cut*: the state at its header is generalised (all slots modified by the
body become fresh variables), an inductive invariant is inferred from candidate templates (Houdini) and
the body is verified once for an arbitrary iteration.  The invariant's initialisation and preservation and
a strictly monotone measure (termination) are verification conditions like any other.
"""
import os
import time
import z3
from sym import (run_cvc5, retw, packret, Ptr, Undef, PathEnd, Unsupported, ForkOn, isc, bv, simp, simpb, zb, sgn, mask, NULL, Obj)


T0 = time.time()


class Restart(Exception):
    pass


class Rec:
    __slots__ = ('h', 'mode', 'backs', 'cands', 'slots', 'head', 'measure', 'name', 'fid', 'headst')


MAXB = 60


def loop_goto(eng, st, fr, lab):
    fn = fr.fn
    loops = fn.loops()
    prev = fr.blk
    if fr.cut:
        for h in list(fr.cut):
            if lab not in loops[h]:
                rec = fr.cut.pop(h)
                if rec.mode == 'infer':
                    raise PathEnd('loop exit')
    if fr.iters:
        for h in list(fr.iters):
            if lab not in loops[h]:
                del fr.iters[h]
    body = loops.get(lab)
    if body is None:
        eng.enter_block(st, fr, lab)
        return None
    if prev in body and (lab in fr.cut or lab in fr.iters):
        if lab in fr.cut:
            rec = fr.cut[lab]
            eng.enter_block(st, fr, lab)
            if rec.mode == 'infer':
                rec.backs.append(st)
                raise PathEnd('back edge')
            back_edge(eng, st, fr, rec)
            raise PathEnd('back edge')
        n, s = fr.iters[lab]
        n += 1
        fr.iters[lab] = (n, s)
        if s >= 1 and st.hints and not eng.no_cut(fn.name):
            eng.symloops.add((fn.name, lab))
        if eng.opts['unroll'] is not None:
            if s > eng.opts['unroll']:
                eng.truncated += 1
                raise PathEnd('bounded')
        elif (s > eng.opts['max_iters'] or (s and eng.opts['eager'] and lab not in fr.cx)) and not eng.no_cut(fn.name):
            eng.cutset.add((fn.name, lab))
            raise Restart()
        elif n > 20000:
            raise Unsupported('loop in %s does not end' % eng.dem(fn.name))
        fr.cx = fr.cx - {lab}
        eng.enter_block(st, fr, lab)
        return None
    # entry
    if (fn.name, lab) in eng.cutset and eng.opts['unroll'] is None:
        return cut(eng, st, fr, lab, body)
    fr.iters[lab] = (0, 0)
    eng.enter_block(st, fr, lab)
    return None


# ------------------------------------------------------------------------------------------------
# slots: ('phi', reg, w|'p') ('cell', oid, off, n, kind) ('arr', oid) ('rec', oid, key) ('drop', oid, off, n)

def get(st, fr, s):
    if s[0] == 'phi':
        return fr.regs[s[1]]
    if s[0] == 'cell':
        c = st.mem[s[1]].cells.get(s[2])
        if c is None or c[0] != s[3]:
            return None
        return c[1]
    return None


def num(v):
    """numeric part (pointer -> offset)"""
    if v.__class__ is Ptr:
        return v.off
    return v


def diff_slots(eng, head, back, hf, bf):
    out = set()
    for ins in bf.code:
        if ins.op != 'phi':
            break
        out.add(('phi', ins.res))
    for oid, o in head.mem.items():
        b = back.mem.get(oid)
        if b is o:
            continue
        if b is None:
            raise Unsupported('object dies in loop')
        if b.freed != o.freed:
            raise Unsupported('object freed in loop')
        if o.arr is not None or b.arr is not None:
            if o.arr is None or b.arr is None or not o.arr.eq(b.arr):
                out.add(('arr', oid))
            continue
        if o.rec is not None:
            for k, a in b.rec.items():
                # (a field may be first looked at in the loop)
                x = o.rec.get(k, eng.recsyms.get(oid, {}).get(k))
                if x is None or not x.eq(a):
                    out.add(('rec', oid, k))
            continue
        for off in set(o.cells) | set(b.cells):
            x, y = o.cells.get(off), b.cells.get(off)
            if x is y:
                continue
            if x is not None and y is not None and x[0] == y[0] and same(x[1], y[1]):
                continue
            if x is None or y is None or x[0] != y[0]:
                n = max(c[0] for c in (x, y) if c is not None)
                out.add(('drop', oid, off, n))
                continue
            xv, yv = x[1], y[1]
            if (xv.__class__ is Ptr) != (yv.__class__ is Ptr) or (xv.__class__ is Ptr and xv.o != yv.o):
                out.add(('drop', oid, off, x[0]))
            else:
                out.add(('cell', oid, off, x[0]))
    return out


def same(a, b):
    if a is b:
        return True
    if a.__class__ is Ptr and b.__class__ is Ptr:
        return a.o == b.o and same(a.off, b.off)
    if isc(a) or isc(b):
        return isc(a) and isc(b) and a == b
    try:
        return a.eq(b)
    except AttributeError:
        return False


def havoc(eng, st, fr, slots, phis):
    """generalise the loop state in st (at the header)"""
    drops = []
    for s in slots:
        if s[0] == 'drop':
            drops.append(s)
    for s in slots:
        if s[0] == 'phi':
            v = fr.regs[s[1]]
            ty = phis[s[1]]
            fr.regs[s[1]] = generalize(eng, v, ty)
        elif s[0] == 'cell':
            o = st.wobj(s[1])
            c = o.cells.get(s[2])
            if c is None:
                continue
            o.cells[s[2]] = (s[3], generalize(eng, c[1], ('i', 8 * s[3])))
        elif s[0] == 'arr':
            o = st.wobj(s[1])
            eng.nsym += 1
            o.arr = z3.Array('arr!%d' % eng.nsym, z3.BitVecSort(64), z3.BitVecSort(8))
        elif s[0] == 'rec':
            o = st.wobj(s[1])
            eng.nsym += 1
            o.rec[s[2]] = z3.Array('rec!%d' % eng.nsym, z3.BitVecSort(64), z3.BitVecSort(8 * s[2][1]))
    for s in drops:
        o = st.wobj(s[1])
        eng.clear(st, o, s[2], s[3])


def generalize(eng, v, ty):
    if v.__class__ is Ptr:
        if v.o == 0:
            return v
        return Ptr(v.o, eng.fresh(64, 'po'))
    if ty[0] == 'i':
        if ty[1] == 1:
            return eng.freshb('lb')
        return eng.fresh(ty[1], 'lv')
    raise Unsupported('loop-carried value of type %s' % (ty,))


def run_infer(eng, st, fr, lab, slots, phis, assumed):
    """one arbitrary iteration; returns list of (back state)"""
    s = st.clone()
    f = s.frames[-1]
    havoc(eng, s, f, slots, phis)
    rec = Rec()
    rec.h = lab
    rec.mode = 'infer'
    rec.backs = []
    f.cut = dict(f.cut)
    f.cut[lab] = rec
    s.floor = len(s.frames)
    head = s.clone()
    for c in assumed:
        e = c[1](eng, s, f)
        if isc(e):
            if not e:
                raise Unsupported('inconsistent candidate')
        else:
            s.pc.append(e)
    s.model = None
    eng.invmode += 1
    p0 = eng.paths
    try:
        work = [s]
        while work:
            if eng.opts['deadline'] and time.time() > eng.opts['deadline']:
                raise Unsupported('time budget exhausted')
            try:
                eng.run_path(work.pop(), work)
            except Unsupported as e:
                # outside reach under the weak invariant of this round: the verified pass (mode 'real')
                # explores the path again and raises for good if it is really reachable
                if 'time budget' in str(e):
                    raise
                eng.infer_dropped = str(e)
            if len(rec.backs) > 4000:
                raise Unsupported('too many paths in a loop body')
    finally:
        eng.invmode -= 1
        eng.paths = p0
    return head, rec.backs


def terms_of_interest(eng, st, fr):
    out = []
    seen = set()

    def add(e):
        if isc(e):
            return
        if not z3.is_bv(e) or e.size() != 64:
            return
        i = e.get_id()
        if i in seen or len(out) >= 24:
            return
        if e.sexpr().__len__() > 400:
            return
        seen.add(i)
        out.append(e)
    for n, k, e in st.inputs:
        if k in ('len', 'cnt', 'val') and not isc(e):
            add(e)
    for f in st.frames[-3:]:
        for v in f.regs.values():
            if v.__class__ is Ptr:
                add(v.off)
            elif not isc(v) and z3.is_expr(v):
                add(v)
    return out


def icmp_consts(fr, body):
    out = set()
    for b in body:
        for i in fr.fn.blocks[b]:
            if i.op == 'icmp':
                for x in i.a[1:]:
                    if x[0] == 'c':
                        out.add(x[1])
    return out


def cut(eng, st, fr, lab, body):
    eng.enter_block(st, fr, lab)
    phis = {}
    for ins in fr.code:
        if ins.op != 'phi':
            break
        phis[ins.res] = ins.ty
    key = tuple(f.fn.name for f in st.frames) + (lab,)
    cached = eng.cutinfo.get(key)
    slots = set(cached[0]) if cached else set()
    slots = {s for s in slots if s[0] == 'phi' or s[1] in st.mem}
    for r in phis:
        slots.add(('phi', r))
    TR = bool(os.environ.get('VF_CANDS'))

    def trace(*a):
        if TR:
            print('%8.1f' % (time.time() - T0), '  ' * eng.invmode, fr.fn.name[-40:], lab, *a, flush=True)
    # 1. modified slots (fixpoint)
    first_back = None
    for it in range(30):
        head, backs = run_infer(eng, st, fr, lab, slots, phis, [])
        trace('slots', it, len(backs), 'back states')
        new = set()
        for b in backs:
            check_bases(eng, head, b, slots)
            for s in diff_slots(eng, head, b, head.frames[-1], b.frames[-1]):
                if s not in slots:
                    new.add(s)
        if not new:
            break
        slots |= new
        # a dropped slot wins over a cell slot
        dr = {(s[1], s[2]) for s in slots if s[0] == 'drop'}
        slots = {s for s in slots if not (s[0] == 'cell' and (s[1], s[2]) in dr)}
    else:
        raise Unsupported('loop slots do not stabilise in %s' % eng.dem(fr.fn.name))
    if not backs:
        # the body never reaches the header again from any state: plain code
        fr.iters[lab] = (0, 0)
        return None
    # 2. candidates
    cands = gen_cands(eng, st, fr, body, slots, phis, head, backs)
    trace(len(cands), 'candidates')
    cands = filter_init(eng, st, fr, cands)
    trace(len(cands), 'hold initially')
    # 3. Houdini
    for it in range(40):
        h, bs = run_infer(eng, st, fr, lab, slots, phis, cands)
        trace('round', it, len(bs), 'back states')
        n0 = len(cands)
        for b in bs:
            cands = filter_state(eng, b, cands)
            trace('  ', len(cands), 'left')
        if len(cands) == n0:
            break
    else:
        raise Unsupported('invariant inference does not stabilise')
    eng.cutinfo[key] = (slots, None)
    name = eng.dem(fr.fn.name)
    if os.environ.get("VF_CANDS"):
        print("CANDS", name, [c[0] for c in cands], flush=True)
    # 4. the loop, verified for an arbitrary iteration
    for c in cands:
        e = c[1](eng, st, fr)
        eng.vc(st, e, 'loop invariant holds on entry', 'invariant')
    # measure: one slot strictly monotone over all back edges
    measure = None
    hh, bs = h, bs
    ms = []
    for s in slots:
        if s[0] not in ('phi', 'cell'):
            continue
        v = num(get(hh, hh.frames[-1], s))
        if v is None or isc(v) or not z3.is_bv(v):
            continue
        for d in ('dec', 'inc'):
            ok = True
            for b in bs:
                w = num(get(b, b.frames[-1], s))
                if w is None:
                    ok = False
                    break
                c = z3.ULT(bv(w, v.size()), v) if d == 'dec' else z3.UGT(bv(w, v.size()), v)
                if not holds(eng, b, c):
                    ok = False
                    break
            if ok:
                measure = (s, d)
                break
        if measure:
            break
    havoc(eng, st, fr, slots, phis)
    for c in cands:
        e = c[1](eng, st, fr)
        if isc(e):
            if not e:
                raise Unsupported('inconsistent invariant')
        else:
            st.pc.append(e)
    for c in cands:
        # the definition of the ghost at the next position, for exits that fail there
        if len(c) > 2:
            c[2](eng, st, fr)
    st.model = None
    rec = Rec()
    rec.h = lab
    rec.mode = 'real'
    rec.cands = cands
    rec.slots = slots
    rec.measure = measure
    rec.name = name
    rec.head = {s: get(st, fr, s) for s in slots if s[0] in ('phi', 'cell')}
    rec.fid = fr.id
    rec.headst = st.clone()
    fr.cut = dict(fr.cut)
    fr.cut[lab] = rec
    eng.loops_cut[(fr.fn.name, lab)] = len(cands)
    return None


def check_bases(eng, head, b, slots):
    hf, bf = head.frames[-1], b.frames[-1]
    for s in slots:
        if s[0] in ('phi', 'cell'):
            x, y = get(head, hf, s), get(b, bf, s)
            if x is None or y is None:
                continue
            if (x.__class__ is Ptr) != (y.__class__ is Ptr):
                if s[0] == 'cell':
                    continue
                raise Unsupported('loop-carried pointer changes its base (%s in %s)' % (s, eng.dem(hf.fn.name)))
            if x.__class__ is Ptr and x.o != y.o:
                if s[0] == 'cell':
                    continue
                raise Unsupported('loop-carried pointer changes its base (%s in %s)' % (s, eng.dem(hf.fn.name)))


def back_edge(eng, st, fr, rec):
    for s in rec.slots:
        if s[0] not in ('phi', 'cell'):
            continue
        v, h = get(st, fr, s), rec.head[s]
        if v.__class__ is Ptr and h.__class__ is Ptr and v.o != h.o:
            raise Unsupported('loop-carried pointer base')
    covered = {(s[1], s[2]) for s in rec.slots if s[0] in ('drop', 'cell', 'rec')} | \
        {(s[1],) for s in rec.slots if s[0] == 'arr'}
    for s in diff_slots(eng, rec.headst, st, rec.headst.frames[-1], fr):
        if s[0] == 'phi':
            continue
        if (s[1:] if s[0] == 'arr' else (s[1], s[2])) not in covered:
            raise Unsupported('loop modifies %s of %s outside its inferred frame in %s' % (
                s, rec.headst.mem[s[1]].name, rec.name))
    for c in rec.cands:
        e = c[1](eng, st, fr)
        eng.vc(st, e, 'loop invariant is preserved', 'invariant')
    if rec.measure is None:
        if eng.opts.get('termination', True):
            eng.vc(st, 0, 'loop terminates (%s)' % rec.name.split('(')[0][-80:], 'termination')
    else:
        s, d = rec.measure
        v = num(rec.head[s])
        w = bv(num(get(st, fr, s)), v.size())
        eng.vc(st, z3.ULT(w, v) if d == 'dec' else z3.UGT(w, v), 'loop measure is strictly monotone', 'termination')


# ------------------------------------------------------------------------------------------------

def slot_expr(s):
    def f(eng, st, fr):
        return num(get(st, fr, s))
    return f


def gen_cands(eng, st, fr, body, slots, phis, head, backs):
    out = []
    ints = []
    hf = head.frames[-1]
    for s in sorted(slots, key=str):
        if s[0] not in ('phi', 'cell'):
            continue
        v0 = get(st, fr, s)
        vh = get(head, hf, s)
        if v0 is None or vh is None or v0.__class__ is tuple:
            continue
        isptr = v0.__class__ is Ptr
        base = v0.o if isptr else None
        v0n, vhn = num(v0), num(vh)
        if vhn.__class__ is Undef or v0n.__class__ is Undef:
            continue
        if not isc(vhn) and z3.is_bool(vhn):
            def fb(eng, st, fr, s=s, v0=v0n):
                return simpb(zb(num(get(st, fr, s))) == zb(v0))
            out.append((('keepb', s), fb))
            continue
        if isc(vhn):
            continue
        ints.append((s, vhn.size(), v0n, isptr, base))
    toi = terms_of_interest(eng, st, fr)
    consts = icmp_consts(fr, body)

    def mk(key, fn):
        out.append((key, fn))

    def E(s, w):
        def f(eng, st, fr):
            v = num(get(st, fr, s))
            if v is None:
                return None
            if v.__class__ is Ptr or (not isc(v) and z3.is_bool(v)):
                return None
            return bv(v, w)
        return f

    for s, w, v0, isptr, base in ints:
        e = E(s, w)
        b0 = bv(v0, w)

        def cmp(fn, e=e):
            def g(eng, st, fr):
                x = e(eng, st, fr)
                if x is None:
                    return 0
                return simpb(fn(x))
            return g
        mk(('eq0', s), cmp(lambda x, b0=b0: x == b0))
        mk(('ge0', s), cmp(lambda x, b0=b0: z3.UGE(x, b0)))
        mk(('le0', s), cmp(lambda x, b0=b0: z3.ULE(x, b0)))
        for c in consts:
            if c < (1 << w):
                mk(('lec', s, c), cmp(lambda x, c=c, w=w: z3.ULE(x, z3.BitVecVal(c, w))))
                mk(('gec', s, c), cmp(lambda x, c=c, w=w: z3.UGE(x, z3.BitVecVal(c, w))))
                mk(('nec', s, c), cmp(lambda x, c=c, w=w: x != z3.BitVecVal(c, w)))
        if isc(v0):
            vals = {v0}
            for bk in backs:
                if numok(bk, bk.frames[-1], s):
                    d = num(get(bk, bk.frames[-1], s))
                    if isc(d):
                        vals.add(d)
            if 1 < len(vals) <= 6:
                mk(('among', s), cmp(lambda x, vals=sorted(vals), w=w:
                                     z3.Or([x == z3.BitVecVal(c, w) for c in vals])))
        if w == 64:
            for t in toi:
                mk(('let', s, t.get_id()), cmp(lambda x, t=t: z3.ULE(x, t)))
                mk(('get', s, t.get_id()), cmp(lambda x, t=t: z3.UGE(x, t)))
        elif w < 64:
            for t in toi:
                mk(('lett', s, t.get_id()), cmp(lambda x, t=t, w=w: z3.ULE(z3.ZeroExt(64 - w, x), t)))
        if isptr:
            o = st.mem.get(base)
            if o is not None:
                mk(('insz', s), cmp(lambda x, z=bv(o.size, 64): z3.ULE(x, z)))
    # pairs
    n = len(ints)
    for i in range(n):
        s, w, v0, ip, bs = ints[i]
        for j in range(n):
            if i == j:
                continue
            t, w2, u0, jp, bt = ints[j]
            if w != w2:
                continue
            a, b = E(s, w), E(t, w)

            def rel(fn, a=a, b=b):
                def g(eng, st, fr):
                    x, y = a(eng, st, fr), b(eng, st, fr)
                    if x is None or y is None:
                        return 0
                    return simpb(fn(x, y))
                return g
            if i < j and n <= 14:
                mk(('eqp', s, t), rel(lambda x, y: x == y))
                mk(('dsame', s, t), rel(lambda x, y, d=bv(v0, w) - bv(u0, w): x - y == d))
                mk(('ssame', s, t), rel(lambda x, y, d=bv(v0, w) + bv(u0, w): x + y == d))
            if w == 64 and n <= 14:
                mk(('lep', s, t), rel(lambda x, y: z3.ULE(x, y)))
            # linear relation from the deltas of one iteration
            if i < j:
                for bk in backs[:3]:
                    f = bk.frames[-1]
                    dx = simp(bv(num(get(bk, f, s)), w) - num(get(head, hf, s))) if numok(bk, f, s) else None
                    dy = simp(bv(num(get(bk, f, t)), w) - num(get(head, hf, t))) if numok(bk, f, t) else None
                    if dx is None or dy is None or not isc(dx) or not isc(dy) or dx == 0 or dy == 0:
                        continue
                    if dx == dy or (dx + dy) & mask(w) == 0:
                        continue
                    mk(('lin', s, t, dx, dy),
                       rel(lambda x, y, dx=dx, dy=dy, v0=bv(v0, w), u0=bv(u0, w):
                           z3.BitVecVal(dy, x.size()) * (x - v0) == z3.BitVecVal(dx, x.size()) * (y - u0)))
    # congruence: strides of pointer offsets / counters
    for s, w, v0, isptr, base in ints:
        ds = set()
        for bk in backs:
            f = bk.frames[-1]
            if numok(bk, f, s):
                d = simp(bv(num(get(bk, f, s)), w) - num(get(head, hf, s)))
                if isc(d):
                    ds.add(abs(sgn(d, w)))
        ds.discard(0)
        if ds:
            from math import gcd
            g = 0
            for d in ds:
                g = gcd(g, d)
            if g > 1 and g & (g - 1) == 0:
                e = E(s, w)

                def gc(eng, st, fr, e=e, g=g, b0=bv(v0, w)):
                    x = e(eng, st, fr)
                    return simpb(((x - b0) & z3.BitVecVal(g - 1, x.size())) == 0)
                mk(('cong', s, g), gc)
    # ghost function templates
    positions = []
    for s, w, v0, isptr, base in ints:
        if w == 64:
            positions.append((s, isptr, base))
    for hi, (fname, args, hoff) in enumerate(st.hints):
        if hoff == 'rel':
            for s, isptr, base in positions:
                for s2, isptr2, base2 in positions:
                    if isptr or isptr2 or s == s2:
                        continue

                    def g3(eng, st, fr, s=s, s2=s2, fname=fname, args=args):
                        return eng.ghost_call(st, fname, list(args) + [num(get(st, fr, s)), num(get(st, fr, s2))])
                    out.append((('hintr', hi, s, s2), g3))
            continue
        dbase = [a.o for a in args if a.__class__ is Ptr]
        rt = eng.m.funcs[fname].ret
        down = hoff == 'down'
        v0s = {x[0]: x[2] for x in ints}
        for s, isptr, base in positions:
            if down and isptr:
                continue
            if isptr and dbase and base not in dbase:
                continue
            if isptr:
                d0 = [a.off for a in args if a.__class__ is Ptr and a.o == base]
                d0 = d0[0] if d0 else 0
            else:
                d0 = None

            def pos(eng, st, fr, s=s, d0=d0, hoff=hoff, v0=v0s[s]):
                v = num(get(st, fr, s))
                if hoff == 'down':
                    # how far the variable has come down
                    return simp(bv(v0, 64) - bv(v, 64))
                d = 0 if d0 is None else d0
                if isc(v) and isc(d):
                    return (v - d + hoff) & mask(64)
                return simp(bv(v, 64) - bv(d, 64) + hoff)
            poss = [(('p', s), pos)]
            for pk, pf in poss:
                if rt[0] == 'i' and rt[1] == 1:
                    def g(eng, st, fr, pf=pf, fname=fname, args=args):
                        return eng.ghost_call(st, fname, list(args) + [pf(eng, st, fr)])

                    def nx(eng, st, fr, pf=pf, fname=fname, args=args):
                        eng.ghost_call(st, fname, list(args) + [simp(bv(pf(eng, st, fr), 64) + 1)])
                    out.append((('hint', hi) + pk, g, nx))
                else:
                    e0 = eng.ghost_call(st, fname, list(args) + [pf(eng, st, fr)])

                    def gk(eng, st, fr, pf=pf, fname=fname, args=args, e0=e0, rt=rt):
                        r = eng.ghost_call(st, fname, list(args) + [pf(eng, st, fr)])
                        eng.ghost_call(st, fname, list(args) + [simp(bv(pf(eng, st, fr), 64) + 1)])
                        return simpb(packret(r, rt) == packret(e0, rt))
                    mk(('hintk', hi) + pk, gk)
                    if retw(rt) == 64:
                        p0 = pf(eng, st, fr)

                        def gd(eng, st, fr, pf=pf, fname=fname, args=args, e0=e0, p0=p0):
                            q = pf(eng, st, fr)
                            r = eng.ghost_call(st, fname, list(args) + [q])
                            return simpb(bv(r, 64) - bv(q, 64) == bv(e0, 64) - bv(p0, 64))
                        mk(('hintd', hi) + pk, gd)
                    for s2, w2, u0, ip2, b2 in ints:
                        if w2 != retw(rt) or ip2:
                            continue

                        def g2(eng, st, fr, pf=pf, fname=fname, args=args, s2=s2, w2=w2, rt=rt):
                            r = eng.ghost_call(st, fname, list(args) + [pf(eng, st, fr)])
                            v = num(get(st, fr, s2))
                            if v is None:
                                return 0
                            return simpb(packret(r, rt) == bv(v, w2))
                        mk(('hintv', hi, s2) + pk, g2)
    for ii, (fname, args) in enumerate(st.invs):
        def gi(eng, st, fr, fname=fname, args=args):
            return eng.ghost_call(st, fname, list(args))
        mk(('inv', ii), gi)
    return out


def numok(st, fr, s):
    v = get(st, fr, s)
    if v is None or v.__class__ is tuple or v.__class__ is Undef:
        return False
    v = num(v)
    return isc(v) or z3.is_bv(v)


def evalc(eng, st, fr, c):
    try:
        return c[1](eng, st, fr)
    except PathEnd:
        return 0


def filter_init(eng, st, fr, cands):
    return filter_state(eng, st, cands)


def check_unsat(eng, s):
    r = s.check()
    if r == z3.unknown and eng.opts['cvc5']:
        return run_cvc5(s.to_smt2(), 4, '--solve-bv-as-int=sum') == 'unsat'
    return r == z3.unsat


def holds(eng, st, c):
    c = simpb(c)
    if isc(c):
        return bool(c)
    s = eng.hsolver.sync(st.pc)
    s.push()
    for p in eng.lemmas(st):
        s.add(p)
    s.add(z3.Not(c))
    t = time.time()
    r = check_unsat(eng, s)
    eng.qtime += time.time() - t
    eng.queries += 1
    s.pop()
    return r


def filter_state(eng, st, cands):
    """candidates that hold in st (model-guided batch dropping)"""
    fr = st.frames[-1]
    pend = []
    keep = set()
    for k, c in enumerate(cands):
        e = evalc(eng, st, fr, c)
        if isc(e):
            if e:
                keep.add(k)
            continue
        pend.append((k, e))
    if pend:
        s = eng.hsolver.sync(st.pc)
        s.push()
        for p in eng.lemmas(st):
            s.add(p)
        t0 = time.time()
        while pend:
            s.push()
            s.add(z3.Or(*[z3.Not(e) for k, e in pend]))
            r = s.check()
            eng.queries += 1
            if r == z3.unsat:
                s.pop()
                keep.update(k for k, e in pend)
                break
            if r == z3.sat:
                m = s.model()
                s.pop()
                new = []
                dropped = 0
                for k, e in pend:
                    if z3.is_false(m.eval(e, model_completion=True)):
                        dropped += 1
                    else:
                        new.append((k, e))
                if not dropped:
                    pend = new
                    r = z3.unknown
                else:
                    pend = new
                    continue
            elif len(pend) > 1 and eng.opts['cvc5'] and run_cvc5(s.to_smt2(), 4, '--solve-bv-as-int=sum') == 'unsat':
                s.pop()
                keep.update(k for k, e in pend)
                break
            else:
                s.pop()
            # individually
            for k, e in pend:
                s.push()
                s.add(z3.Not(e))
                if check_unsat(eng, s):
                    keep.add(k)
                s.pop()
                eng.queries += 1
            break
        s.pop()
        eng.qtime += time.time() - t0
    return [c for k, c in enumerate(cands) if k in keep]
