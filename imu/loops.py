"""Loops: complete unfolding when every exit test is decided, otherwise inductive
invariants over partitioned abstract states, inferred from the loop body."""
import time
from ir import Unsupported
import term as tm
from term import *
from engine import *
import engine as en

MAXPART = 40
MAXFACT = 16
G_OPT, G_STRICT, MAXR = 3, 2, 40


class Restart(Exception):
    pass


# ------------------------------------------------------------------ unfolding
def save_obl(eng):
    return {k: (o.n, len(o.bad)) for k, o in eng.obl.items()}


def restore_obl(eng, sv):
    for k in list(eng.obl):
        if k not in sv:
            del eng.obl[k]
        else:
            o = eng.obl[k]
            n, b = sv[k]
            o.n = n
            del o.bad[b:]


def run_loop(eng, st, fn, H, prev, phis):
    body = fn.loops[H]
    if phis is None:
        phis = eng.phi_vals(st, fn, H, prev, None)
    outer = (st.gh.get('$und', 0), st.gh.get('$dec', 0))
    sv = save_obl(eng) if eng.record else None
    np = len(eng.posts)
    outs = None
    if not eng.no_unfold:
        steps = eng.steps
        outs = unfold(eng, st.clone(), fn, H, dict(phis), body)
        if outs is None and eng.max_unfold is not None:
            pass
    if eng.endless:
        raise Unsupported('endless loop')
    if outs is None:
        if sv is not None:
            restore_obl(eng, sv)
        del eng.posts[np:]
        if eng.concrete:
            raise Unsupported('loop at %s not unfolded within the instance bound' % H)
        eng.depth_loop += 1
        try:
            outs = Induct(eng, st, fn, H, dict(phis), body).solve()
        finally:
            eng.depth_loop -= 1
        eng.loopstat['inductive'] += 1
    else:
        eng.loopstat['unfolded'] += 1
    for o in outs:
        o[1].gh.pop('$sc', None)
        for k, v in zip(('$und', '$dec'), outer):
            if v:
                o[1].gh[k] = v
            else:
                o[1].gh.pop(k, None)
    eng.loopnames.add((fn.name, H))
    return outs


def unfold(eng, st, fn, H, phis, body):
    st.gh.pop('$und', None)
    st.gh.pop('$dec', None)
    cur = [('at', st, H, None, phis)]
    outs = []
    succ = set(x for b in body for x in fn.blocks[b].succ if x not in body)
    stops = frozenset({H} | succ)
    it = 0
    nodec = 0
    eng.unrolling.append((fn, body))
    lim = eng.max_iter
    seen = {}
    try:
        while cur:
            it += 1
            again = False
            if eng.concrete and len(cur) == 1:
                # the same state at the loop head again: it recurs for ever
                x = cur[0][1]
                key = (tuple(sorted((str(k), keyof(v)) for k, v in cur[0][4].items())), vis(x.gh), len(x.known), len(x.F.f), x.care, len(outs))
                again = key in seen and same_contents(eng, x, seen[key])
                seen[key] = dict(x.mem)
            else:
                seen.clear()
            if it > lim or again:
                if eng.concrete and eng.record:
                    for e in cur:
                        eng.check(e[1], fn.blocks[H].ins[0], 'termination', False, 'iterations of the loop')
                    eng.endless = True
                return None
            nxt = []
            for (_, x, _, pv, ph) in cur:
                x.gh.pop('$und', None)
                x.gh.pop('$dec', None)
                x.gh.pop('$con', None)
                x.gh.pop('$sc', None)
                for e in eng.exec_blocks(x, fn, H, pv, stops, ph, first=True):
                    if e[0] == 'at' and e[2] == H:
                        u, d = e[1].gh.get('$und', 0), e[1].gh.get('$dec', 0)
                        if d == 0:
                            if u and not eng.concrete:
                                return None
                            nodec += 1
                        elif not e[1].gh.get('$con') and not eng.concrete and it > 40:
                            # the exit is decided by relations between the sizes only
                            return None
                        if d == 0:
                            if nodec > max(eng.max_undec, 12 if not eng.concrete else 80):
                                return None
                        nxt.append(('at', e[1], H, e[3], eng.phi_vals(e[1], fn, H, e[3], e[4])))
                    else:
                        outs.append(e)
            if len(nxt) > 1:
                nxt = collapse(eng, nxt)
            if len(nxt) > eng.max_live or len(outs) > eng.max_outs:
                return None
            cur = nxt
        eng.loopstat['iterations'] += it
        return outs
    finally:
        eng.unrolling.pop()


def same_contents(eng, x, old):
    """every object holds the same bytes as it did"""
    if set(old) != set(x.mem):
        return False
    for r, m in x.mem.items():
        if m is old[r]:
            continue
        n = x.norm(eng.regions[r].size)
        if n.m or n.c > 4096:
            return False
        for i in range(n.c):
            a, b = (x.canon(eng.load_raw(x, v, pc(i), 1, False, r)) for v in (m, old[r]))
            if a is not b:
                return False
    return True


def collapse(eng, es):
    out = []
    for e in es:
        for i, o in enumerate(out):
            if e[4] == o[4] and e[1].mem == o[1].mem and vis(e[1].gh) == vis(o[1].gh) and same_path(e[1], o[1]):
                out[i] = ('at', join_facts(o[1], e[1]), o[2], o[3], o[4])
                break
        else:
            out.append(e)
    return out


def vis(gh):
    return tuple(sorted((k, v) for k, v in gh.items() if k[0] != '$'))


# ------------------------------------------------------------------ induction
TOP = object()


class Slot:
    __slots__ = ('key', 'init', 'cls', 'd', 'h', 'nval', 'top', 'ts')

    def __init__(s, key, init, top=False):
        s.key, s.init, s.cls, s.d, s.h, s.nval = key, init, 'inv', None, None, 0
        s.top = top         # the values met in a partition may include "anything"
        s.ts = None

    def demote(s, cls, d=None):
        s.cls, s.d = cls, d


class Fold:
    """an uninterpreted specification sequence F(0)=init, F(k+1)=step(F(k),k)"""

    def __init__(s, name, w, init, step, enc=None):
        s.name, s.w, s.init, s.step = name, w, init, step
        s.encs = enc or [lambda t: t]

    def at(s, k):
        k = k if isinstance(k, P) else pc(k)
        if not k.m and k.c == 0:
            return s.init
        return fn('$' + s.name, s.w, (), (k,))


class Part:
    __slots__ = ('key', 'vals', 'gh', 'facts', 'care')

    def __init__(s, key, vals, gh):
        s.key, s.vals, s.gh = key, vals, gh
        s.facts = []
        s.care = 0          # Boolean knowledge about values that do not change in the loop


class Arr:
    """an arrival at the loop head"""
    __slots__ = ('st', 'vals', 'k', 'rows', 'src')

    def __init__(s, st, vals, k):
        s.st, s.vals, s.k = st, vals, k
        s.rows = None
        s.src = None


class Induct:
    def __init__(s, eng, st, f, H, phis, body):
        s.eng, s.S0, s.f, s.H, s.body = eng, st, f, H, body
        s.mark = tm._cnt[0]
        eng.lid += 1
        s.lid = eng.lid
        s.K = tm.fresh('K%d' % s.lid, 0)
        s.slots = {}
        for d, v in phis.items():
            s.slots[('phi', d)] = Slot(('phi', d), st.canon(v))
        s.havoc = {}          # rid -> memory name
        s.dropz = set()
        s.phis0 = phis
        s.succ = set(x for b in body for x in f.blocks[b].succ if x not in body)
        s.stops = frozenset({H} | s.succ)
        s.signed = signed_phis(f, H)
        s.restarts = 0
        s.outs = []
        s.parts = {}

    # ---- head state of a partition
    def value(s, sl, part):
        c = sl.cls
        if c == 'inv':
            return sl.init
        if c == 'iv':
            return s.ivat(sl, pa(s.K))
        if c == 'part':
            v = part.vals[sl.key]
            if v is TOP:
                if sl.ts is None:
                    sl.ts = tm.fresh('any%d' % s.lid, sl.init.w)
                v = sl.ts
            return v
        if c == 'fold':
            fo, enc, st_, c0, mult = sl.d
            return fo.encs[enc](fo.at(c0 + pa(s.K).scale(mult)))
        if c == 'expr':
            mem, sc, c0, n, b = sl.d
            return tm.sel(mem, s.ival(s.value(s.slots[b], part)).scale(sc) + c0, n)
        if sl.h is None:
            v = sl.init
            if isinstance(v, Ptr) and v.r is not None:
                sl.h = tm.fresh('p%d.%s' % (s.lid, sl.key[1]), 0)
            elif isinstance(v, T):
                sl.h = tm.fresh('h%d.%s' % (s.lid, sl.key[1]), v.w, sl.key in s.signed)
            else:
                raise Unsupported('loop changes a pointer target (%s)' % (sl.key,))
        if isinstance(sl.init, Ptr):
            return Ptr(sl.init.r, pa(sl.h))
        return sl.h

    def ival(s, v):
        if isinstance(v, Ptr):
            return v.off
        if v.op == 'C':
            return pc(v.x)
        return asP(v)

    def ivat(s, sl, k):
        v = sl.init
        if isinstance(v, Ptr):
            return Ptr(v.r, v.off + k.scale(sl.d))
        return mkW(v.w, s.ival(v) + k.scale(sl.d))

    def head(s, part, opt):
        st = s.S0.clone()
        st.uc = {}
        st.gh = dict(part.gh)
        st.care = tm.B.AND(s.S0.care, part.care)
        st.opt = s.S0.opt | (frozenset([s.K]) if opt else frozenset())
        for rid in s.dropz:
            st.strz.pop(rid, None)
        for rid, name in s.havoc.items():
            st.mem[rid] = MNode(None, 'base', None, None, name)
        phis = {}
        for sl in s.slots.values():
            v = s.value(sl, part)
            if sl.key[0] == 'phi':
                phis[sl.key[1]] = v
            else:
                _, rid, off, n = sl.key
                st.mem[rid] = MNode(st.mem[rid], 'cell', off, n, v)
        for rid in list(st.mem):
            if st.mem[rid].k != 'mark' or rid in s.havoc:
                st.mem[rid] = MNode(st.mem[rid], 'mark', None, None, None)
        st.add_ge(pa(s.K))
        seen = set(part.facts)
        for p in part.facts:
            if -p in seen and not (len(p.m) == 1 and (s.K,) in p.m):
                st.add_eq(p)
            else:
                st.add_ge(p)
        s.headmem = dict(st.mem)
        return st, phis

    # ---- run the body once from a partition
    def step(s, part, opt, final=False):
        st, phis = s.head(part, opt)
        if st.F.dead or not st.F.feasible():
            return []
        hm = dict(st.mem)
        outs = s.eng.exec_blocks(st, s.f, s.H, None, s.stops, phis, first=True)
        arr = []
        for e in outs:
            if e[0] == 'at' and e[2] == s.H:
                x = e[1]
                pv = s.eng.phi_vals(x, s.f, s.H, e[3], e[4])
                arr += s.arrive(x, pv, hm)
            elif final:
                x = e[1]
                x.opt = s.S0.opt
                if e[0] == 'at' and e[4] is None:
                    # phis of the exit block must be read while the frame is at hand
                    if s.f.blocks[e[2]].phis:
                        e = ('at', x, e[2], e[3], s.eng.phi_vals(x, s.f, e[2], e[3], None))
                s.outs.append(e)
        return arr

    def arrive(s, x, pv, hm):
        """classify memory effects, then read the slots"""
        eng = s.eng
        fresh = False
        for rid, nd in hm.items():
            cur = x.mem.get(rid)
            if cur is nd:
                continue
            y = cur
            while y is not nd:
                if y is None:
                    # an inner loop abstracted the region
                    if rid not in s.havoc:
                        s.make_havoc(rid)
                    break
                if y.k == 'cell' and not x.norm(y.off).m:
                    off = x.norm(y.off)
                    if rid not in s.havoc:
                        key = ('cell', rid, off, y.n)
                        if key not in s.slots:
                            bad = False
                            for k2 in list(s.slots):
                                if k2[0] == 'cell' and k2[1] == rid and not (k2[2] - off).m:
                                    dd = (off - k2[2]).c
                                    if -y.n < dd < k2[3]:
                                        bad = True
                            if bad:
                                s.make_havoc(rid)
                            try:
                                v = eng.load_raw(s.S0, s.S0.mem[rid], off, y.n)
                            except Split:
                                s.make_havoc(rid)
                            sl = Slot(key, s.S0.canon(v) if v is not UNDEF else UNDEF)
                            s.slots[key] = sl
                            fresh = True
                elif y.k != 'mark':
                    if rid not in s.havoc:
                        s.make_havoc(rid)
                y = y.p
        if fresh:
            raise Restart()
        for rid in list(s.S0.strz):
            if rid in s.dropz:
                continue
            a, b = x.strz.get(rid), s.S0.strz[rid]
            if a is None or x.norm(a) != x.norm(b):
                s.dropz.add(rid)
                raise Restart()
        return s.read(x, pv, 0)

    def make_havoc(s, rid):
        s.eng.lid += 1
        name = '%s@%d' % (rid, s.eng.lid)
        s.eng.membirth[name] = tm._cnt[0] + 1
        tm._cnt[0] += 1
        s.havoc[name and rid] = name
        for k in [k for k in s.slots if k[0] == 'cell' and k[1] == rid]:
            del s.slots[k]
        for (r, off, n) in s.S0.tracked:
            if r == rid:
                key = ('cell', rid, s.S0.norm(off), n)
                v = s.eng.load_raw_split(s.S0, rid, off, n)
                s.slots[key] = Slot(key, s.S0.canon(v) if v is not UNDEF else UNDEF, isinstance(v, T))
        raise Restart()

    def read(s, x, pv, d):
        vals = {}
        try:
            for sl in s.slots.values():
                if sl.key[0] == 'phi':
                    v = pv[sl.key[1]]
                else:
                    _, rid, off, n = sl.key
                    v = s.eng.load_raw(x, x.mem[rid], off, n)
                vals[sl.key] = x.canon(v)
        except Split as e:
            if d > 40:
                raise Unsupported('too many cases at loop head')
            out = []
            for y in s.eng.fork(x, e.cond):
                out += s.read(y, pv, d + 1)
            return out
        k = x.norm(pa(s.K)) + 1
        return [Arr(x, vals, k)]

    # ---- slot classification
    def internal(s, v):
        """mentions something that changes from iteration to iteration"""
        if isinstance(v, Ptr):
            return s.internal_syms(psyms(v.off))
        if isinstance(v, PtrT):
            return s.internal(v.t)
        if isinstance(v, T):
            return s.internal_syms(syms(v))
        return False

    def internal_syms(s, ss, allow=()):
        for t in ss:
            if isinstance(t, T):
                if t.op == 'sym' and t.birth > s.mark and t not in allow:
                    return True
            elif isinstance(t, str):
                if s.eng.membirth.get(t, 0) > s.mark:
                    return True
        return False

    def same(s, x, a, b):
        if a is b or a == b:
            return True
        if isinstance(a, T) and isinstance(b, T):
            a, b = x.canon(a), x.canon(b)
            if a is b:
                return True
            if a.w != b.w:
                return False
            if a.w > 1:
                p = x.norm(asP(mkW(a.w, asP(a) - asP(b))))
                if not p.m:
                    return p.c % (1 << a.w) == 0
            return False
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r and a.r is not None:
            d = x.norm(a.off - b.off)
            return not d.m and d.c == 0
        return False

    def classify(s, arr):
        """demote slots contradicted by an arrival; raises Restart when something changed"""
        ch = False
        x = arr.st
        for sl in list(s.slots.values()):
            v = arr.vals[sl.key]
            c = sl.cls
            if c == 'inv':
                if s.same(x, v, sl.init):
                    continue
                d = s.delta(x, v, sl.init, arr.k)
                if d is not None and s.assigned(sl):
                    d = None
                if d is not None:
                    sl.demote('iv', d)
                    ch = True
                    continue
                ch = True
                s.demote_from_iv(sl, v, arr)
            elif c == 'iv':
                if s.same(x, v, x.canon(s.ivat(sl, arr.k))):
                    continue
                ch = True
                s.demote_from_iv(sl, v, arr)
            elif c == 'part':
                if v is UNDEF or isinstance(v, FnPtr) or (s.internal(v) and not sl.top):
                    ch = True
                    s.demote_from_part(sl, v, arr)
            elif c == 'fold':
                fo, enc, st_, c0, mult = sl.d
                t = fo.at(c0 + pa(s.K).scale(mult))
                for j in range(mult):
                    t = fo.step(t, x.norm(c0 + pa(s.K).scale(mult) + j))
                if x.bits_equal(v, fo.encs[enc](t)):
                    # value at the head of the next iteration by definition of the sequence
                    continue
                ch = True
                sl.demote('havoc')
            elif c == 'expr':
                mem, sc, c0, n, b = sl.d
                e = tm.sel(mem, x.norm(s.ival(arr.vals[b]).scale(sc) + c0), n)
                bv = arr.vals[b]
                if isinstance(bv, T):
                    o = x.nosplit
                    x.nosplit = True
                    try:
                        bp = x.sval(bv) if bv.signed else x.uval(bv)
                    finally:
                        x.nosplit = o
                    e = tm.sel(mem, x.norm(bp.scale(sc) + c0), n)
                if s.same(x, v, x.canon(e)):
                    continue
                ch = True
                sl.demote('havoc')
        if ch:
            raise Restart()

    def delta(s, x, v, init, k):
        """constant step: v == init + d with v the value after the first iteration (k == 1)"""
        if isinstance(v, Ptr) and isinstance(init, Ptr) and v.r == init.r and v.r is not None:
            d = x.norm(v.off - init.off)
            return d.c if not d.m and d.c else None
        if isinstance(v, T) and isinstance(init, T) and v.w > 1:
            d = x.norm(asP(mkW(v.w, asP(v) - asP(init))))
            if not d.m:
                c = d.c % (1 << v.w)
                if c >> (v.w - 1):
                    c -= 1 << v.w
                # small steps only: constants unrelated to counting are partition values
                if c and abs(c) <= 4096 and s.plain_step(x, v, init):
                    return c
        return None

    def assigned(s, sl):
        """a flag only ever assigned constants, not a counter"""
        if sl.key[0] != 'phi':
            return False
        defs = {}
        for b in s.f.blocks.values():
            for ins in list(b.phis) + list(b.ins):
                if ins.dst is not None:
                    defs[ins.dst] = ins
        seen, work = set(), [sl.key[1]]
        while work:
            r = work.pop()
            if r in seen:
                continue
            seen.add(r)
            i = defs.get(r)
            if i is None:
                return False
            if i.op == 'phi':
                vs = [x for x, _ in i.a]
            elif i.op == 'select':
                vs = list(i.a[1:3])
            elif i.op in ('zext', 'trunc', 'sext'):
                vs = [i.a[0]]
            else:
                return False
            for x in vs:
                if x[0] == 'reg':
                    work.append(x[1])
                elif x[0] != 'const':
                    return False
        return True

    def plain_step(s, x, v, init):
        # a flag 0 -> 1 assigned from a constant is not an induction variable; decided by trying
        return True

    def demote_from_iv(s, sl, v, arr):
        if v is UNDEF or sl.init is UNDEF:
            if sl.init is UNDEF and v is not UNDEF:
                # becomes initialised inside: keep the two cases apart if possible
                sl.demote('part') if not s.internal(v) else sl.demote('havoc')
                return
            sl.demote('part')
            return
        if s.try_fold(sl, v, arr):
            return
        if isinstance(v, T) and isinstance(sl.init, T) and sl.init.w > 1 and sl.cls == 'iv' and sl.init.op == 'C' and v.op == 'C' and \
                abs(sgn(v.x - sl.init.x, v.w)) > 1 and False:
            pass
        if s.internal(v):
            s.demote_from_part(sl, v, arr)
        else:
            sl.demote('part')

    def demote_from_part(s, sl, v, arr):
        if s.try_fold(sl, v, arr):
            return
        if s.try_expr(sl, v, arr):
            return
        sl.demote('part' if sl.top and isinstance(v, T) else 'havoc')

    def try_fold(s, sl, v, arr):
        x = arr.st
        if not isinstance(v, T) or not isinstance(sl.init, T):
            return False
        for fo in s.eng.folds:
            if fo.w != v.w and not any(True for e in fo.encs):
                continue
            # where in the sequence are we at loop entry?
            cands = []
            for t in syms(sl.init):
                if isinstance(t, T) and t.op == 'fn' and t.x[0] == '$' + fo.name:
                    cands.append(t.x[1][0])
            cands.append(ZERO)
            for c0 in cands:
                for ei, enc in enumerate(fo.encs):
                    e0 = enc(fo.at(c0))
                    if e0.w != v.w or not s.S0.bits_equal(sl.init, e0):
                        continue
                    for mult in (1, 2, 4, 8):
                        sl.demote('fold', (fo, ei, None, c0, mult))
                        # verified by classify(); try the cheapest consistent one by simulation at k = 0
                        t = fo.at(c0)
                        for j in range(mult):
                            t = fo.step(t, c0 + j)
                        y = Subst({s.K: ZERO})
                        try:
                            first = y.T(v) if y.touches(v) else v
                            if x.bits_equal(first, enc(y.T(t))):
                                return True
                        except TooBig:
                            pass
                        # the body may have been run with the head symbol of an earlier guess
                    sl.demote('inv')
        return False

    def try_expr(s, sl, v, arr):
        if not isinstance(v, T) or v.op != 'sel' or not isinstance(sl.init, T):
            return False
        mem, off, n = v.x
        if isinstance(mem, str) and s.eng.membirth.get(mem, 0) > s.mark:
            return False
        x = arr.st
        for b in s.slots.values():
            if b is sl or b.cls not in ('iv', 'havoc', 'inv') or not isinstance(b.init, T) or b.init.w <= 1:
                continue
            bv = arr.vals[b.key]
            if not isinstance(bv, T):
                continue
            for sc in sorted({n, 1}, reverse=True):
                c0 = x.norm(off - s.ival(bv).scale(sc))
                if c0.m and s.internal_syms(psyms(c0)):
                    continue
                i0 = tm.sel(mem, s.S0.norm(s.ival(b.init).scale(sc) + c0), n)
                if s.same(s.S0, i0, sl.init):
                    sl.demote('expr', (mem, sc, c0, n, b.key))
                    return True
        return False

    # ---- facts
    def havocs(s):
        return [sl for sl in s.slots.values() if sl.cls == 'havoc' and sl.h is not None and
                (isinstance(sl.init, Ptr) or sl.init.w > 1)]

    def newP(s, arr, sl):
        v = arr.vals[sl.key]
        x = arr.st
        if isinstance(v, Ptr):
            if v.r != sl.init.r:
                raise Unsupported('loop changes a pointer target')
            return x.norm(v.off)
        o = x.nosplit
        x.nosplit = True
        try:
            return x.sval(v) if sl.h.signed else x.uval(v)
        finally:
            x.nosplit = o

    def subst_for(s, arr):
        m = {s.K: arr.k}
        for sl in s.havocs():
            m[sl.h] = s.newP(arr, sl)
        return Subst(m)

    def holds(s, arr, sub, p):
        q = arr.st.norm(sub.P(p))
        return arr.st.prove(q), q

    def rows_of(s, arr):
        if arr.rows is None:
            arr.rows = s.project(arr)
        return arr.rows

    def speculate(s, log):
        """branch conditions of the body suggest bounds"""
        out = []
        allow = {s.K} | set(sl.h for sl in s.havocs())
        for p, kind in log.items():
            ss = psyms(p)
            if ss.isdisjoint(allow) or s.internal_syms(ss, allow):
                continue
            out += [p, p + 1, -p, -p + 1]
            if kind == 'eq':
                out += [p - 1, -p - 1]
        return out

    def project(s, arr):
        x = arr.st
        hs = s.havocs()
        Kp = tm.sym('K%d\'' % s.lid, 0)
        Kp.birth = s.mark
        prim = {}
        back = {Kp: pa(s.K)}
        eqs = [pa(Kp) - arr.k]
        for sl in hs:
            hp = tm.sym('%s\'' % sl.h.x, 0)
            hp.birth = s.mark
            prim[sl] = hp
            back[hp] = pa(sl.h)
            q = s.newP(arr, sl)
            if not has_wrap(q):
                eqs.append(pa(hp) - q)
        news = [Kp] + list(prim.values())
        ineq = []
        for mset, sgn_ in ((x.F.lo, 1), (x.F.hi, -1)):
            for k, b in mset.items():
                ineq.append(P(-b, {k: 1}) if sgn_ == 1 else P(b, {k: -1}))
        ineq += list(x.F.f.values())
        # old names and everything born inside
        newset = set(news)

        def bad_atoms(p):
            out = []
            for k in p.m:
                for t in k:
                    if t not in newset and (t is s.K or s.internal_syms(syms(t), newset)):
                        if t not in out:
                            out.append(t)
            return out
        # intrinsic ranges of internal atoms
        extra = set()
        for p in ineq + eqs:
            for t in bad_atoms(p):
                extra.add(t)
        for t in list(extra):
            l, h = tm.rng(t) if t.w else (None, None)
            if l is not None:
                ineq.append(pa(t) - l)
            if h is not None:
                ineq.append(pc(h) - pa(t))
        rel = []
        for p in ineq:
            if not p.m:
                continue
            rel.append(p)
        # keep only rows connected with old or new names
        want = set(t for p in eqs for k in p.m for t in k)
        want = {t for t in want if t in newset or t is s.K or s.internal_syms(syms(t), newset)} | {s.K}
        keep = []
        ch = True
        pend = rel
        while ch:
            ch = False
            rest = []
            for p in pend:
                ats = set(t for k in p.m for t in k)
                deep = ats | set(t for a in ats for t in syms(a) if isinstance(t, T))
                if deep & want:
                    keep.append(p)
                    for t in ats:
                        if t not in want and s.internal_syms(syms(t), newset):
                            want.add(t)
                            ch = True
                else:
                    rest.append(p)
            pend = rest
        ineq = keep
        # equality elimination of old names
        todo = True
        while todo:
            todo = False
            for e in eqs:
                pick = None
                for k, v in e.m.items():
                    if len(k) == 1 and abs(v) == 1 and k[0] not in newset and (k[0] is s.K or s.internal_syms(syms(k[0]), newset)):
                        r = P(e.c, {a: b for a, b in e.m.items() if a != k})
                        if any(k[0] in kk for kk in r.m) or k[0] in psyms(r):
                            continue
                        pick = (k[0], -r if v == 1 else r)
                        break
                if pick:
                    sb = Subst({pick[0]: pick[1]})
                    eqs = [sb.P(q) for q in eqs if q is not e]
                    ineq = [sb.P(q) for q in ineq]
                    todo = True
                    break
        for e in eqs:
            if e.m:
                ineq += [e, -e]
        ineq = dedup(ineq)
        for _ in range(12):
            els = []
            for p in ineq:
                for t in bad_atoms(p):
                    if t not in els:
                        els.append(t)
            if not els:
                break
            els.sort(key=lambda t: fm_cost(ineq, t))
            ineq = fm(ineq, els[0])
        res = [p for p in ineq if p.m and not bad_atoms(p)]
        # weaker consequences without some of the new names
        more = []
        for t in news:
            if len(news) > 1:
                more += fm(res, t)
        if len(news) > 2:
            for keep1 in news:
                r = res
                for t in news:
                    if t is not keep1:
                        r = fm(r, t)
                more += r
        sb = Subst(back)
        out = []
        for p in dedup(res + more):
            if not p.m or not any(t in newset for k in p.m for t in k):
                continue
            if len(p.m) > 6:
                continue
            q = tm.norm_ge(sb.P(p))
            if q.m:
                out.append(q)
        return dedup(out)

    def initP(s, sl):
        """value of a slot at loop entry as an integer expression"""
        if isinstance(sl.init, Ptr):
            return sl.init.off
        o = s.S0.nosplit
        s.S0.nosplit = True
        try:
            i0 = s.S0.sval(sl.init) if sl.h.signed else s.S0.uval(sl.init)
        finally:
            s.S0.nosplit = o
        return None if has_wrap(i0) else i0

    def templates(s):
        K = pa(s.K)
        out = []
        hs = s.havocs()
        # values compared with a watched cell (running maxima and the like)
        for (rid, off, n, fl) in s.S0.watch:
            if fl[0] != 'R' or rid in s.havoc:
                continue
            try:
                w = s.eng.load_raw(s.S0, s.S0.mem[rid], off, n)
                if isinstance(w, T):
                    w = s.S0.uval(w)
                    for sl in s.slots.values():
                        if sl.cls in ('expr', 'havoc') and isinstance(sl.init, T) and sl.init.w == 8 * n:
                            v = s.value(sl, None)
                            if not v.signed:
                                out += [asP(v) - w, w - asP(v)]
            except Split:
                pass
        for sl in hs:
            h = pa(sl.h)
            i0 = s.initP(sl)
            if i0 is None:
                continue
            out += [h, h - i0, i0 - h, h - i0 - K, i0 - h - K, K + i0 - h, i0 + h - K]
            for o2 in hs:
                if o2 is not sl and (isinstance(o2.init, Ptr) == isinstance(sl.init, Ptr)):
                    out.append(h - pa(o2.h))
        return out

    # ---- driver
    def solve(s):
        eng = s.eng
        rec = eng.record
        try:
            while True:
                try:
                    s.restarts += 1
                    if s.restarts > 60:
                        raise Unsupported('loop classification does not settle')
                    eng.record = False
                    eng.tracklog, old = {}, eng.tracklog
                    try:
                        s.explore()
                    finally:
                        log, eng.tracklog = eng.tracklog, old
                    s.entry_split(log)
                    s.infer()
                    eng.record = rec
                    return s.final()
                except Restart:
                    continue
        finally:
            eng.record = rec

    def entry_split(s, log):
        """a counted loop that passes over a tracked cell only when it starts on the right side of it: separate the cases at entry"""
        if not s.S0.tracked or s.S0.nosplit:
            return
        m = {s.K: ZERO}
        for sl in s.havocs():
            i0 = s.initP(sl)
            if i0 is not None:
                m[sl.h] = i0
        sub = Subst(m)
        for (d, n, cn) in log:
            k = [v for mo, v in d.m.items() if s.K in mo]
            if len(k) != 1:
                continue
            d0 = s.S0.norm(sub.P(d))
            if not d0.m or s.internal_syms(psyms(d0)):
                continue
            c = tm.ge0(d0 - cn) if k[0] > 0 else tm.ge0(-d0 - n)
            if s.S0.truth(c) is None:
                raise Split(c)

    def pkey(s, arr):
        vals = {}
        for sl in s.slots.values():
            if sl.cls == 'part':
                v = arr.vals[sl.key]
                vals[sl.key] = TOP if sl.top and s.internal(v) else v
        gh = {k: v for k, v in arr.st.gh.items() if k[0] != '$'}
        key = (tuple((k, keyof(v)) for k, v in sorted(vals.items(), key=lambda kv: repr(kv[0]))), tuple(sorted(gh.items())))
        return key, vals, gh

    def init_arr(s):
        a = Arr(s.S0, {sl.key: sl.init for sl in s.slots.values()}, ZERO)
        return a

    def explore(s):
        """find slot classes and partitions, optimistically"""
        a0 = s.init_arr()
        key, vals, gh = s.pkey(a0)
        p = Part(key, vals, gh)
        p.facts = [pa(s.K), -pa(s.K)]
        p.care = s.stable(a0)
        s.parts = {key: p}
        for a in s.step(p, True):
            s.classify(a)
            s.join(a)

    def join(s, a):
        key, vals, gh = s.pkey(a)
        p = s.parts.get(key)
        if p is None:
            p = s.parts[key] = Part(key, vals, gh)
            s.check_parts()
        return p

    def stable(s, a):
        c = a.st.care
        if c > 1:
            memo = {}

            def drop(t):
                r = memo.get(t)
                if r is None:
                    r = memo[t] = s.internal_syms(syms(t))
                return r
            try:
                if a.st.eq:
                    # values that have become equal to one that does not change
                    for t in set(v[0] for v in tm.B.support(c)):
                        if drop(t):
                            u = a.st.canon(t)
                            if u is not t and u.w == t.w and t.w <= 16 and not s.internal_syms(syms(u)):
                                for f, g in zip(bits(t), bits(u)):
                                    c = tm.B.AND(c, tm.B.NOT(tm.B.XOR(f, g)))
                c = tm.B.exists(c, drop)
            except TooBig:
                c = 1
        return c

    def check_parts(s):
        cnt = {}
        for p in s.parts.values():
            for k, v in p.vals.items():
                cnt.setdefault(k, set()).add(keyof(v))
        for k, vs in cnt.items():
            lim = 4 if k[0] == 'phi' else 6
            if len(vs) > lim:
                if s.slots[k].init is UNDEF:
                    raise Unsupported('too many cases for an uninitialised loop value')
                s.slots[k].demote('havoc')
                raise Restart()
        if len(s.parts) > MAXPART:
            big = max(cnt, key=lambda k: len(cnt[k]), default=None)
            if big is None or len(cnt[big]) < 2:
                raise Unsupported('too many partitions')
            s.slots[big].demote('havoc')
            raise Restart()

    def infer(s):
        a0 = s.init_arr()
        k0 = s.pkey(a0)[0]
        for p in s.parts.values():
            p.facts = []
            p.care = 0
        s.parts[k0].facts = [pa(s.K), -pa(s.K)]
        for sl in s.havocs():
            i0 = s.initP(sl)
            if i0 is not None:
                s.parts[k0].facts += [pa(sl.h) - i0, i0 - pa(sl.h)]
        s.parts[k0].care = s.stable(a0)
        live = {k0}
        tpl = None
        for rnd in range(MAXR):
            opt = rnd < G_OPT
            grow = rnd < G_OPT + G_STRICT
            s.eng.tick()
            arrivals = {k: [] for k in s.parts}
            arrivals[k0].append(a0)
            if grow:
                s.eng.condlog, oldlog = {}, s.eng.condlog
            try:
              for k in list(s.parts):
                if k not in live:
                    continue
                for a in s.step(s.parts[k], opt):
                    s.classify(a)
                    p = s.join(a)
                    a.src = k
                    arrivals.setdefault(p.key, []).append(a)
            finally:
                if grow:
                    log, s.eng.condlog = s.eng.condlog, oldlog
            changed = False
            # partitions reachable from the loop entry in this round
            nlive, todo = {k0}, [k0]
            while todo:
                z = todo.pop()
                for k, v in arrivals.items():
                    if k not in nlive and any(a.src == z for a in v):
                        nlive.add(k)
                        todo.append(k)
            for k in nlive:
                arrivals[k] = [a for a in arrivals[k] if a.src is None or a.src in nlive]
            if nlive - live:
                changed = True
            common = []
            if grow:
                common = s.speculate(log)
                if len(nlive) > 1:
                    for k in nlive:
                        common += s.parts[k].facts
                common = dedup(common)[:80]
            for k in nlive:
                p = s.parts[k]
                arrs = arrivals[k]
                subs = [s.subst_for(a) for a in arrs]
                care = p.care
                for a in arrs:
                    care = tm.B.OR(care, s.stable(a))
                if care != p.care:
                    changed = True
                    p.care = care if rnd < G_OPT + G_STRICT + 6 else 1
                if k in live or grow:
                    pool = list(p.facts)
                else:
                    pool = []
                if grow or k not in live:
                    if tpl is None:
                        tpl = s.templates()
                    pool += tpl + common
                    if not grow:
                        for z in s.parts.values():
                            pool += z.facts
                        pool = dedup(pool)[:160]
                    for a in arrs:
                        pool += s.rows_of(a)
                keep = []
                seen = set()
                queue = dedup(pool)
                qn = 0
                while queue:
                    c = queue.pop(0)
                    if c in seen or not c.m:
                        continue
                    seen.add(c)
                    ok = True
                    lo = 0
                    for a, sb in zip(arrs, subs):
                        h, q = s.holds(a, sb, c)
                        if not h:
                            ok = False
                            if not grow:
                                break
                            l, _ = a.st.F.interval(q)
                            if l is None or l < -16:
                                lo = None
                                break
                            lo = min(lo, l)
                    if ok:
                        keep.append(c)
                    elif grow and lo is not None and lo < 0 and qn < 60:
                        qn += 1
                        queue.append(c - lo)
                keep = prune(keep)
                if grow and len(keep) > MAXFACT:
                    keep = sorted(keep, key=lambda c: max(abs(v) for v in c.m.values()))[:MAXFACT]
                if s.eng.debug > 1: print("   rnd", rnd, "part", str(list(p.vals.values()))[:60], [showP(c) for c in keep])
                if set(keep) != set(p.facts):
                    changed = True
                    p.facts = keep
            live = nlive
            if not changed and not grow:
                s.live = live
                s.last = rnd
                return
            if not changed and not opt and grow and rnd >= G_OPT + 1:
                s.live = live
                return
        raise Unsupported('loop invariant does not stabilise')

    def final(s):
        """one recorded pass from the stable invariant, re-verifying it"""
        s.outs = []
        eng = s.eng
        a0 = s.init_arr()
        k0 = s.pkey(a0)[0]
        if tm.B.AND(s.stable(a0), tm.B.NOT(s.parts[k0].care)) != 0:
            raise Unsupported('loop invariant does not hold initially')
        for c in s.parts[k0].facts:
            if not s.holds(a0, s.subst_for(a0), c)[0]:
                raise Unsupported('loop invariant does not hold initially')
        loc = s.f.blocks[s.H].ins[0]
        probed = False
        for k in list(s.parts):
            if k not in s.live:
                continue
            p = s.parts[k]
            arrs = s.step(p, False, True)
            for a in arrs:
                s.classify(a)
                key = s.pkey(a)[0]
                if key not in s.live:
                    raise Unsupported('unstable partition')
                sb = s.subst_for(a)
                if tm.B.AND(s.stable(a), tm.B.NOT(s.parts[key].care)) != 0:
                    raise Unsupported('loop invariant is not inductive')
                for c in s.parts[key].facts:
                    if not s.holds(a, sb, c)[0]:
                        raise Unsupported('loop invariant is not inductive')
            if arrs:
                st, _ = s.head(p, False)
                fin = s.bounded(st, p)
                eng.check(st, loc, 'termination', fin, 'iterations of the loop', None)
                if not probed and eng.record and (not fin or any(o.bad and o.kind.startswith('oob') for o in eng.obl.values())):
                    # (an iteration count that only an access out of bounds would limit is no limit)
                    probed = True
                    s.endless(loc)
        eng.loopstat['partitions'] += len(s.live)
        if eng.debug:
            print('  loop %s/%s: %s' % (s.f.name, s.H, {str(k[1]): (sl.cls, sl.d if sl.cls != 'fold' else 'F') for k, sl in s.slots.items()}))
            for k in s.live:
                print('     part %s facts %s' % ([(str(a[1]), v) for a, v in s.parts[k].vals.items()] + list(s.parts[k].gh.items()),
                                                 [showP(c) for c in s.parts[k].facts]))
        return s.outs

    def endless(s, loc):
        """no exit is reachable if an input the exits depend on is large: the loop never ends then"""
        eng = s.eng
        if eng.probing or eng.concrete or s.S0.lossy or s.S0.opt or eng.loopstat['inductive'] or eng.depth_loop != 1:
            return
        cands = []
        for e in s.outs:
            for c in list(e[1].known) + list(e[1].F.f.values()) + [P(0, {k: 1}) for k in list(e[1].F.lo) + list(e[1].F.hi)]:
                for t in (psyms(c) if isinstance(c, P) else syms(c)):
                    if isinstance(t, T) and t.op == 'sym' and '#' not in str(t.x) and (t.w == 0 or t.w >= 16) and t not in cands:
                        cands.append(t)
        o = eng.obl.get(('termination', eng.p.loc(loc), loc.fn.name, 'iterations of the loop'))
        eng.probing = True
        rec, eng.record = eng.record, False
        try:
            for t in [None] + cands[:6]:
                for w in (8, 16):
                    y = s.S0.clone()
                    y.uc = {}
                    if t is not None:
                        y.add_ge(pa(t) - (1 << w))
                    elif w > 8:
                        continue
                    if y.F.dead or not y.F.feasible():
                        continue
                    try:
                        outs = Induct(eng, y, s.f, s.H, dict(s.phis0), s.body).solve()
                    except (Unsupported, TooBig, Split):
                        continue
                    if outs:
                        continue
                    m = y.F.model() or {}
                    base = {k[0]: int(v) for k, v in m.items() if len(k) == 1 and k[0].op == 'sym' and v == int(v) and k[0] not in y.eq}
                    e = en.wit.find(y, []) or en.wit.find(y, [], 50, base)
                    if e is not None and o is not None:
                        if not o.bad:
                            o.bad.append(('', ''))
                        o.wit = en.wit.describe(e, y) + '   path: ' + y.pstr()
                        for q in eng.obl.values():
                            # an access of this endless loop that its exit condition does not bound
                            if q.bad and q.wit is None and q.kind.startswith('oob') and q.fn == loc.fn.name and \
                                    any('#' in str(t) or 'K' in str(t) for b in q.bad for t in b):
                                q.wit = o.wit
                        return
        finally:
            eng.probing = False
            eng.record = rec

    def bounded(s, st, part):
        """K has an upper bound in terms of values fixed at loop entry"""
        l, h = st.F.bound((s.K,))
        if h is not None:
            return True
        n = st.norm(pa(s.K))
        if not n.m or not s.internal_syms(psyms(n)):
            return True
        rows = list(part.facts)
        for sl in s.havocs():
            l, h = tm.rng(sl.h) if sl.h.w else (None, None)
            if l is not None:
                rows += [pa(sl.h) - l, pc(h) - pa(sl.h)]
        for sl in s.havocs():
            rows = fm(rows, sl.h)
        for p in rows:
            c = p.m.get((s.K,), 0)
            if c < 0 and not any(s.K in syms(t) for k in p.m if k != (s.K,) for t in k) and \
                    not s.internal_syms(set(x for k in p.m if k != (s.K,) for t in k for x in syms(t))):
                return True
        return False


def keyof(v):
    if v is TOP:
        return ('top',)
    if isinstance(v, T):
        return ('T', v.id)
    if isinstance(v, Ptr):
        return ('P', v.r, v.off.key)
    if isinstance(v, PtrT):
        return ('Q', v.t.id)
    if isinstance(v, FnPtr):
        return ('F', hash(v))
    return ('U',)


def dedup(ps):
    out = {}
    for p in ps:
        p = tm.norm_ge(p)
        if p.m and p not in out:
            out[p] = None
    return list(out)


def prune(ps):
    """keep the tightest constant per direction"""
    best = {}
    for p in ps:
        k = P(0, p.m).key
        if k not in best or p.c < best[k].c:
            best[k] = p
    return list(best.values())


def fm_cost(rows, t):
    a = b = 0
    for p in rows:
        v = p.m.get((t,), 0)
        if v > 0:
            a += 1
        elif v < 0:
            b += 1
    return a * b


def fm(rows, t):
    """Fourier-Motzkin elimination of the atom t (rows using it otherwise are dropped)"""
    pos, neg, rest = [], [], []
    for p in rows:
        v = p.m.get((t,), 0)
        others = any(t in k or any(t in syms(a) for a in k) for k in p.m if k != (t,))
        if others:
            continue
        if v > 0:
            pos.append(p)
        elif v < 0:
            neg.append(p)
        else:
            rest.append(p)
    if len(pos) * len(neg) > 120:
        return rest
    for a in pos:
        for b in neg:
            x, y = a.m[(t,)], -b.m[(t,)]
            q = a.scale(y) + b.scale(x)
            if q.m and len(q.m) <= 8:
                rest.append(tm.norm_ge(q))
    return dedup(rest)


_signed = {}


def signed_phis(f, H):
    key = (f, H)
    if key in _signed:
        return _signed[key]
    regs = set(ph.dst for ph in f.blocks[H].phis)
    out = set()
    # follow simple copies through phis
    al = {r: {r} for r in regs}
    for r in regs:
        grow = True
        while grow:
            grow = False
            for b in f.blocks.values():
                for ph in b.phis:
                    if ph.dst not in al[r] and any(v[0] == 'reg' and v[1] in al[r] for v, _ in ph.a):
                        al[r].add(ph.dst)
                        grow = True
    for b in f.blocks.values():
        for ins in b.ins:
            sg = (ins.op == 'icmp' and isinstance(ins.attrs, str) and ins.attrs[0] == 's') or ins.op == 'sext' or \
                (ins.op in ('add', 'sub', 'mul') and 'nsw' in (ins.attrs or ())) or ins.op in ('sdiv', 'srem', 'ashr')
            if sg:
                for a in ins.a:
                    if isinstance(a, tuple) and a and a[0] == 'reg':
                        for r in regs:
                            if a[1] in al[r]:
                                out.add(('phi', r))
    _signed[key] = out
    return out
