"""Abstract interpreter over the IR: partitioned states, value-numbered words,
relational facts, array contents tracked at arbitrary-but-fixed ghost indices,
loops by inductive invariants inferred from the body (or complete unfolding
when every exit test is decided)."""
from math import gcd
import time
from ir import Unsupported
import term as tm
import wit
from term import *
from lin import Facts, STAT


class Split(Exception):
    def __init__(s, cond):
        s.cond = cond


class UnrollAbort(Exception):
    pass


class Budget(Exception):
    pass


# ------------------------------------------------------------------ pointers
class Ptr:
    __slots__ = ('r', 'off')

    def __init__(s, r, off):
        s.r, s.off = r, off

    def __eq__(s, o):
        return isinstance(o, Ptr) and s.r == o.r and s.off == o.off

    def __hash__(s):
        return hash((s.r, s.off))

    def __repr__(s):
        return '&%s[%s]' % (s.r, showP(s.off)) if s.r else 'NULL'


NULL = Ptr(None, ZERO)


class FnPtr:
    __slots__ = ('fn',)

    def __init__(s, fn):
        s.fn = fn

    def __repr__(s):
        return '&' + (s.fn if isinstance(s.fn, str) else s.fn.name)

    def __eq__(s, o):
        return isinstance(o, FnPtr) and s.fn is o.fn or (isinstance(o, FnPtr) and s.fn == o.fn)

    def __hash__(s):
        return hash(id(s.fn) if not isinstance(s.fn, str) else s.fn)


class PtrT:
    """pointer-typed word whose target is not tracked (compared, called, stored)"""
    __slots__ = ('t',)

    def __init__(s, t):
        s.t = t

    def __eq__(s, o):
        return isinstance(o, PtrT) and s.t is o.t

    def __hash__(s):
        return hash(s.t)

    def __repr__(s):
        return 'ptr:%r' % s.t


class Undef:
    def __repr__(s):
        return 'undef'


UNDEF = Undef()


class Region:
    __slots__ = ('rid', 'size', 'kind', 'ro', 'name', 'data', 'escape', 'strz')

    def __init__(s, rid, size, kind, ro=False, name=None):
        s.rid, s.size, s.kind, s.ro, s.name = rid, size, kind, ro, name or rid
        s.data = None
        s.strz = False


_mid = [0]


_sc = {}


def short_circuit(fn, b, l1, l2):
    """a branch of a compound condition: a successor merges a constant truth value from here"""
    k = (fn, b.name)
    if k not in _sc:
        _sc[k] = any(ph.ty.k == 'int' and ph.ty.w == 1 and x[1] == b.name and x[0][0] != 'reg' for l in (l1, l2) for ph in fn.blocks[l].phis for x in ph.a)
    return _sc[k]


class MNode:
    __slots__ = ('p', 'k', 'off', 'n', 'v', 'id', 'x')

    def __init__(s, p, k, off, n, v, x=None):
        s.p, s.k, s.off, s.n, s.v, s.x = p, k, off, n, v, x
        _mid[0] += 1
        s.id = _mid[0]


class Frame:
    __slots__ = ('fn', 'env', 'allocas')

    def __init__(s, fn):
        s.fn = fn
        s.env = {}
        s.allocas = []


class State:
    __slots__ = ('eng', 'mem', 'F', 'eq', 'known', 'care', 'gh', 'frames', 'uc', '_sub', 'opt', 'trace', 'tracked',
                 'watch', 'nosplit', 'strz', 'cmpg', 'nes', 'lossy', 'hard')

    def __init__(s, eng):
        s.eng = eng
        s.mem = {}
        s.F = Facts()
        s.eq = {}
        s.known = {}
        s.care = 1
        s.gh = {}
        s.frames = []
        s.uc = {}
        s._sub = None
        s.opt = frozenset()
        s.trace = ()
        s.tracked = []
        s.watch = []
        s.nosplit = False
        s.strz = {}
        s.cmpg = []
        s.nes = []
        s.lossy = False
        s.hard = ()      # what was assumed at the start: every witness has to meet it

    def clone(s):
        n = State.__new__(State)
        n.eng = s.eng
        n.mem = dict(s.mem)
        n.F = s.F.copy()
        n.eq = dict(s.eq)
        n.known = dict(s.known)
        n.care = s.care
        n.gh = dict(s.gh)
        fr = []
        for f in s.frames:
            g = Frame(f.fn)
            g.env = f.env
            g.allocas = f.allocas
            fr.append(g)
        n.frames = fr
        if fr:
            fr[-1].env = dict(fr[-1].env)
        n.uc = dict(s.uc)
        n._sub = s._sub
        n.opt = s.opt
        n.trace = s.trace
        n.tracked = s.tracked
        n.watch = s.watch
        n.nosplit = s.nosplit
        n.strz = dict(s.strz)
        n.cmpg = s.cmpg
        n.nes = list(s.nes)
        n.lossy = s.lossy
        n.hard = s.hard
        return n

    # ---------------------------------------------------------- substitution
    def sub(s):
        if s._sub is None:
            s._sub = Subst(s.eq)
        return s._sub

    def norm(s, p):
        return s.sub().P(p) if s.eq else p

    def canon(s, v):
        if isinstance(v, T):
            return s.sub().T(v) if s.eq else v
        if isinstance(v, Ptr):
            return Ptr(v.r, s.norm(v.off)) if v.r else v
        if isinstance(v, PtrT):
            return PtrT(s.canon(v.t))
        return v

    def relink(s):
        """carry Boolean knowledge about values over to the values they have turned out to be"""
        done = False
        if not s.eq or s.care <= 1:
            return False
        eqs = []
        for t in set(v[0] for v in tm.B.support(s.care)):
            u = s.canon(t)
            if u is not t and u.w == t.w and t.w <= 16:
                eqs += [tm.B.NOT(tm.B.XOR(f, g)) for f, g in zip(bits(t), bits(u))]
        # last variables first
        for d in sorted((d for d in eqs if d != 1), key=lambda d: tm.B.lv[d], reverse=True):
            c = tm.B.AND(s.care, d)
            if c != s.care:
                s.care = c
                done = True
        return done

    # ---------------------------------------------------------- facts
    def add_ge(s, p):
        p = s.norm(p)
        if len(p.m) > 1:
            # the opposite bound is known and tight: an equality
            q = tm.norm_ge(p)
            o = s.F.f.get(P(0, {k: -v for k, v in q.m.items()}).key)
            if o is not None and o.c == -q.c:
                return s.add_eq(q)
        ok = s.F.add(p)
        s.defs(p)
        if ok and s.nes:
            s.saturate()
        return ok and not s.F.dead

    def add_ne(s, p):
        p = s.norm(p)
        if not p.m:
            if p.c == 0:
                s.F.dead = True
                return False
            return True
        s.nes.append(p)
        s.saturate()
        return not s.F.dead

    def saturate(s):
        ch = True
        while ch and not s.F.dead:
            ch = False
            out = []
            for p in s.nes:
                p = s.norm(p)
                if not p.m:
                    if p.c == 0:
                        s.F.dead = True
                        return
                    continue
                if s.F.entails(p):
                    s.F.add(p - 1)
                    ch = True
                elif s.F.entails(-p):
                    s.F.add(-p - 1)
                    ch = True
                else:
                    out.append(p)
            s.nes = out

    def add_eq(s, p):
        p = s.norm(p)
        if not p.m:
            if p.c != 0:
                s.F.dead = True
                return False
            return True
        g = gcdl(p.m.values())
        if g > 1:
            if p.c % g:
                s.F.dead = True
                return False
            p = P(p.c // g, {k: v // g for k, v in p.m.items()})
        best = None
        for k, v in p.m.items():
            if len(k) != 1 or abs(v) != 1:
                continue
            t = k[0]
            if t.op in ('S', 'U') and False:
                continue
            rest = P(p.c, {a: b for a, b in p.m.items() if a != k})
            if any(t in kk for kk in rest.m):
                continue
            if t in psyms_atoms(rest):
                continue
            score = (t.op == 'sym', t.birth, t.op != 'sym' and -t.id or 0)
            if best is None or score > best[0]:
                best = (score, t, (-rest if v == 1 else rest))
        if best is None:
            if not s.F.add(p) or not s.F.add(-p):
                return False
            return s.feas_quick()
        _, x, q = best
        l, h = s.F.bound((x,))
        one = Subst({x: q})
        s.eq = {a: one.P(b) for a, b in s.eq.items()}
        s.eq[x] = q
        s._sub = None
        old = s.F
        s.F = Facts()
        s.uc = {}
        ok = True
        for k, b in old.lo.items():
            ok = s.F.add(s.norm(P(-b, {k: 1}))) and ok
        for k, b in old.hi.items():
            ok = s.F.add(s.norm(P(b, {k: -1}))) and ok
        if l is not None:
            ok = s.F.add(q - l) and ok
        if h is not None:
            ok = s.F.add(pc(h) - q) and ok
        for f in old.f.values():
            ok = s.F.add(s.norm(f)) and ok
        if old.dead:
            s.F.dead = True
        if not ok:
            s.F.dead = True
            return False
        if any(one.touches(c) for c in s.known):
            kn = {}
            pend = []
            for c, v in s.known.items():
                c2 = one.T(c) if one.touches(c) else c
                if c2 is not c:
                    pend.append((c2, v))
                else:
                    kn[c] = v
            s.known = kn
            for c2, v in pend:
                if c2.op == 'C':
                    if bool(c2.x) != v:
                        s.F.dead = True
                        return False
                else:
                    t = s.known.get(c2)
                    if t is not None and t != v:
                        s.F.dead = True
                        return False
                    s.known[c2] = v
        if s.nes:
            s.saturate()
        return not s.F.dead

    def feas_quick(s):
        return s.F.feasible()

    def entails(s, p):
        p = s.norm(p)
        if s.F.entails(p):
            return True
        return False

    def prove(s, p):
        """p >= 0, using also bit-level knowledge"""
        p = s.norm(p)
        if s.F.entails(p):
            return True
        if s.defs(p) and s.F.entails(p):
            return True
        if s.nes:
            s.saturate()
            if s.F.entails(p):
                return True
        c = ge0(p)
        if c.op == 'C':
            return bool(c.x)
        return s.bit_truth(c) is True

    def defs(s, p):
        """relations between fields of values and the values"""
        new = False
        for k in p.m:
            for t in k:
                if t.op == 'ext' and t.x and t.a[0].w > 1 and ('d', t) not in s.uc:
                    s.uc[('d', t)] = True
                    o, s.nosplit = s.nosplit, True
                    try:
                        s.atomP(t)
                    finally:
                        s.nosplit = o
                    new = True
        return new

    # ---------------------------------------------------------- bit level
    def bit_truth(s, c):
        if support_bits(c) > 40:
            return None
        try:
            b = bits(c)[0]
            if b == 1:
                return True
            if b == 0:
                return False
            if s.care != 1:
                x = tm.B.AND(s.care, b)
                if x == 0:
                    return False
                if x == s.care:
                    return True
        except TooBig:
            return None
        return None

    def bits_equal(s, a, b):
        """a == b for every valuation allowed by the state"""
        a, b = s.canon(a), s.canon(b)
        if a is b:
            return True
        try:
            x, y = bits(a), bits(b)
        except TooBig:
            return None
        for p, q in zip(x, y):
            d = tm.B.XOR(p, q)
            if d and tm.B.AND(d, s.care):
                return False
        return True

    # ---------------------------------------------------------- integer views
    def uval(s, t):
        r = s.uc.get((t, 'u'))
        if r is None:
            r = s._uval(t)
            s.uc[(t, 'u')] = r
            return r
        return s.norm(r)

    def sval(s, t):
        r = s.uc.get((t, 's'))
        if r is None:
            r = s._sval(t)
            s.uc[(t, 's')] = r
            return r
        return s.norm(r)

    def refP(s, p):
        """replace atoms by better known integer expressions"""
        p = s.norm(p)
        hit = False
        for k in p.m:
            for t in k:
                if t.op not in ('sym', 'sel') or t.w == 1:
                    hit = True
        if not hit:
            return p
        r = pc(p.c)
        for k, v in p.m.items():
            q = pc(v)
            for t in k:
                q = q * s.atomP(t)
            r = r + q
        return s.norm(r)

    def atomP(s, t):
        op = t.op
        if t.w == 1:
            v = s.truth(t)
            if v is not None:
                return pc(int(v))
            if op in ('cmp', 'ge0', 'eq0', 'not', 'and', 'or') and not s.nosplit:
                raise Split(split_on(s, t))
            return pa(t)
        if op in ('sym', 'sel', 'fn', 'tbl'):
            return pa(t)
        if op == 'ext':
            x = t.a[0]
            if x.w == 0:
                # low bits of an integer symbol
                if t.x == 0 and s.in_range(pa(x), 0, (1 << t.w) - 1):
                    return s.norm(pa(x))
                return pa(t)
            ux = s.uval(x)
            if t.x == 0:
                if s.in_range(ux, 0, (1 << t.w) - 1):
                    return ux
                # low bits of a value: remainder with shared quotient
                if len(ux.m) <= 2:
                    h = pa(tm.ext(x, t.w, x.w - t.w))
                    s.F.add(s.norm(ux - pa(t) - h.scale(1 << t.w)))
                    s.F.add(s.norm(h.scale(1 << t.w) + pa(t) - ux))
                return pa(t)
            if t.x + t.w == x.w or s.in_range(ux, 0, (1 << (t.x + t.w)) - 1):
                k = 1 << t.x
                s.F.add(s.norm(ux - pa(t).scale(k)))
                s.F.add(s.norm(pa(t).scale(k) + (k - 1) - ux))
            return pa(t)
        if op == 'U':
            r = s._uval(t.a[0], wrap=False)
            return r if r is not None else pa(t)
        if op == 'S':
            r = s._sval(t.a[0], wrap=False)
            return r if r is not None else pa(t)
        if op in ('udiv', 'urem'):
            a, b = t.a
            ua, ub = s.uval(a), s.uval(b)
            if not s.entails(ub - 1):
                return pa(t)
            if op == 'urem' and s.entails(ub - ua - 1):
                return ua
            if op == 'udiv' and s.entails(ub - ua - 1):
                return ZERO
            q = tm.udiv(a, b)
            if s.entails(ua - ub) and s.entails(ub + ub - ua - 1):
                return ONE if op == 'udiv' else ua - ub
            if not s.nosplit and ub.m and s.entails(ub + ub - ua - 1):
                raise Split(ge0(s.norm(ub - ua - 1)))
            if q.op == 'udiv':
                qp = pa(q)
                s.add_ge(ua - qp * ub)
                s.add_ge(qp * ub + ub - ua - 1)
                s.F.add(s.norm(ua - qp))
                ua, qp, ub = s.norm(ua), s.norm(qp), s.norm(ub)
                return qp if op == 'udiv' else ua - qp * ub
            return pa(t)
        if op == 'ite':
            v = s.truth(t.a[0])
            if v is not None:
                return s.uval(t.a[1] if v else t.a[2])
            a, b = s.canon(t.a[1]), s.canon(t.a[2])
            if not s.nosplit and not bitsy(t.a[0]):
                raise Split(split_on(s, t.a[0]))
            return pa(t)
        if op == 'and':
            for x in t.a:
                if x.op != 'C':
                    s.F.add(s.norm(s.uval(x) - pa(t)))
            return pa(t)
        if op == 'lshr' and False:
            pass
        return pa(t)

    def in_range(s, p, lo, hi):
        l, h = s.F.interval(p)
        if (l is not None and l >= lo) or s.entails(p - lo):
            if (h is not None and h <= hi) or s.entails(pc(hi) - p):
                return True
        return False

    def _uval(s, t, wrap=True):
        t = s.canon(t)
        if t.op == 'C':
            return pc(t.x)
        full = (1 << t.w) - 1
        if t.op == 'W':
            p = s.refP(t.x)
        elif t.signed or t.op == 'S':
            p = s.atomP(t)
        else:
            return s.norm(s.atomP(t))
        if s.opt and len(p.m) <= 6 and not s.opt.isdisjoint(psyms(p)):
            return p
        if s.in_range(p, 0, full):
            return p
        M = full + 1
        for k in (M, -M, 2 * M, -2 * M):
            if s.in_range(p + k, 0, full):
                return p + k
        if not s.nosplit and t.op == 'W' and False:
            pass
        if wrap is False:
            return None
        u = tm._mk('U', t.w, (t,))
        return pa(u)

    def _sval(s, t, wrap=True):
        t = s.canon(t)
        if t.op == 'C':
            return pc(sgn(t.x, t.w))
        h = 1 << (t.w - 1)
        if t.op == 'W':
            p = s.refP(t.x)
        else:
            p = s.norm(s.atomP(t))
        if s.opt and len(p.m) <= 6 and not s.opt.isdisjoint(psyms(p)):
            return p
        if s.in_range(p, -h, h - 1):
            return p
        for k in (2 * h, -2 * h):
            if s.in_range(p + k, -h, h - 1):
                return p + k
        if wrap is False:
            return None
        u = pa(tm._mk('S', t.w, (t,)))
        l, hh = s.F.interval(u)
        if l is not None and l >= 0 and s.in_range(p, 0, 2 * h - 1):
            s.add_eq(u - p)
            return s.norm(p)
        if hh is not None and hh < 0 and s.in_range(p, 0, 2 * h - 1):
            s.add_eq(u - p + 2 * h)
            return s.norm(p - 2 * h)
        return u

    # ---------------------------------------------------------- conditions
    def truth(s, c):
        if c.op == 'C':
            return bool(c.x)
        v = s.known.get(c)
        if v is not None:
            return v
        if s.eq:
            c2 = s.canon(c)
            if c2 is not c:
                if c2.op == 'C':
                    return bool(c2.x)
                c = c2
                v = s.known.get(c)
                if v is not None:
                    return v
        op = c.op
        if op == 'not':
            v = s.truth(c.a[0])
            return None if v is None else not v
        if op == 'and' or op == 'or':
            unk = False
            for x in c.a:
                v = s.truth(x)
                if v is None:
                    unk = True
                elif v == (op == 'or'):
                    return v
            if not unk:
                return op == 'and'
            return s.bit_truth(c)
        if op in ('ge0', 'eq0', 'cmp'):
            v = s.bit_truth(c) if support_bits(c) <= 24 else None
            if v is not None:
                return v
            r = s.linof(c)
            if r is not None:
                kind, p = r
                if kind == 'ge':
                    if s.entails(p):
                        return True
                    if s.entails(-p - 1):
                        return False
                else:
                    p = s.norm(p)
                    if not p.m:
                        return p.c == 0
                    if p in s.nes or -p in s.nes:
                        return False
                    ge, le = s.entails(p), s.entails(-p)
                    if ge and le:
                        return True
                    if s.entails(p - 1) or s.entails(-p - 1):
                        return False
                    g = gcdl(p.m.values())
                    if g > 1 and p.c % g:
                        return False
            return None
        if op == 'ite':
            v = s.truth(c.a[0])
            if v is not None:
                return s.truth(c.a[1] if v else c.a[2])
        if op == 'fn' or op == 'sel' or op == 'sym':
            r = s.eq.get(c)
            if r is not None and not r.m:
                return bool(r.c)
        return s.bit_truth(c)

    def linof(s, c):
        """linear reading of a comparison: ('ge',P) or ('eq',P)"""
        old = s.nosplit
        s.nosplit = True
        try:
            if c.op == 'ge0':
                return ('ge', s.refP(c.x))
            if c.op == 'eq0':
                return ('eq', s.refP(c.x))
            if c.op == 'cmp':
                a, b = c.a
                if c.x == 'eq':
                    if a.w == 1:
                        return None
                    # compare in the view that keeps linear forms exact
                    ua, ub = s.uval(a), s.uval(b)
                    if has_wrap(ua) or has_wrap(ub):
                        sa, sb = s.sval(a), s.sval(b)
                        if not (has_wrap(sa) or has_wrap(sb)):
                            return ('eq', sa - sb)
                    return ('eq', ua - ub)
                if c.x == 'ult':
                    return ('ge', s.uval(b) - s.uval(a) - 1)
                return ('ge', s.sval(b) - s.sval(a) - 1)
        finally:
            s.nosplit = old
        return None

    def assume(s, c, val):
        """add c == val; False when contradictory"""
        if c.op == 'C':
            return bool(c.x) == val
        c = s.canon(c)
        if c.op == 'C':
            return bool(c.x) == val
        if c.op == 'not':
            return s.assume(c.a[0], not val)
        v = s.known.get(c)
        if v is not None:
            return v == val
        op = c.op
        s.known[c] = val
        if op in ('and', 'or') and val == (op == 'and'):
            for x in c.a:
                if not s.assume(x, val):
                    return False
            return True
        if op in ('and', 'or'):
            rest = []
            for x in c.a:
                v = s.truth(x)
                if v is None:
                    rest.append(x)
                elif v == val:
                    return True
            if not rest:
                return False
            if len(rest) == 1:
                return s.assume(rest[0], val)
        if op == 'ite' and c.w == 1:
            pass
        if support_bits(c) <= 40:
            try:
                b = bits(c)[0]
                s.care = tm.B.AND(s.care, b if val else tm.B.NOT(b))
                if s.care == 0:
                    return False
            except TooBig:
                pass
        if op in ('ge0', 'eq0', 'cmp'):
            r = s.linof(c)
            if r is not None:
                kind, p = r
                if kind == 'ge':
                    if not s.add_ge(p if val else -p - 1):
                        return False
                else:
                    if val:
                        if not s.add_eq(p):
                            return False
                    else:
                        if not s.add_ne(p):
                            return False
                if s.F.f and not s.F.feasible():
                    return False
            s.hook_cmp(c, val)
        elif c.op in ('sel', 'fn', 'sym', 'ext') and c.w == 1 and c.op != 'ext':
            if not s.add_eq(pa(c) - int(val)):
                return False
        return not s.F.dead

    def hook_cmp(s, c, val):
        for h in s.eng.hooks_cmp:
            h(s, c, val)

    def pstr(s):
        return ' -> '.join(s.trace[-14:])


def psyms_atoms(p):
    return psyms(p)


def has_wrap(p):
    for k in p.m:
        for t in k:
            if t.op in ('U', 'S'):
                return True
    return False


def bitsy(c):
    """condition about individual bits / small data rather than an order relation of wide integers"""
    n = support_bits(c)
    if n > 130:
        return False
    if c.op == 'not':
        return bitsy(c.a[0])
    if c.op in ('and', 'or', 'xor'):
        return all(bitsy(x) for x in c.a)
    if c.op in ('ge0', 'eq0'):
        return n <= 16
    if c.op == 'cmp':
        if n <= 16:
            return True
        if c.x == 'eq' and (c.a[0].op == 'C' or c.a[1].op == 'C'):
            x = c.a[0] if c.a[1].op == 'C' else c.a[1]
            return x.op in ('ext', 'and', 'xor', 'or')
        return False
    return True


def split_on(s, c):
    """a condition to case-split on in order to decide c"""
    if c.op == 'not':
        return split_on(s, c.a[0])
    if c.op in ('and', 'or'):
        for x in c.a:
            if s.truth(x) is None:
                return split_on(s, x)
    return c


# ------------------------------------------------------------------ engine
class Obl:
    __slots__ = ('kind', 'loc', 'fn', 'desc', 'n', 'bad', 'wit', 'tries', 'guide')

    def __init__(s, kind, loc, fn, desc):
        s.kind, s.loc, s.fn, s.desc = kind, loc, fn, desc
        s.n = 0
        s.bad = []
        s.wit = None
        s.tries = 0
        s.guide = []


class Engine:
    def __init__(s, prog, budget=400000, tlimit=600):
        s.p = prog
        s.obl = {}
        s.regions = {}
        s.record = True
        s.steps = 0
        s.budget = budget
        s.t0 = time.time()
        s.tlimit = tlimit
        s.hooks_cmp = []
        s.on_icall = None
        s.nreg = 0
        s.loopstat = {'inductive': 0, 'unfolded': 0, 'iterations': 0, 'partitions': 0}
        s.calls = set()
        s.fns_seen = set()
        s.lines = set()
        s.depth = 0
        s.ext_calls = {}
        s.nd = 0
        s.loopnames = set()
        s.lid = 0
        s.membirth = {}
        s.folds = []
        s.on_memeq = []
        s.on_load = []
        s.on_copy = []
        s.guard = {}
        s.no_unfold = False
        s.concrete = False
        s.max_unfold = None
        s.max_undec = 0
        s.max_iter = 600
        s.max_live = 8
        s.max_outs = 80
        s.depth_loop = 0
        s.posts = []
        s.debug = False
        s.unrolling = []
        s.fn_hooks = {}
        s.condlog = None
        s.nomerge = False
        s.endless = False
        s.probing = False
        s.tracklog = None

    # ------------------------------------------------------- regions
    def region(s, st, name, size, kind='param', ro=False, base=None, undef=False):
        s.nreg += 1
        rid = name if name not in s.regions else '%s.%d' % (name, s.nreg)
        r = Region(rid, size if isinstance(size, P) else pc(size), kind, ro, name)
        s.regions[rid] = r
        st.mem[rid] = MNode(None, 'base', None, None, None if undef else (base or rid))
        return rid

    def global_ptr(s, st, mod, name):
        g = mod.globs.get(name)
        rid = '@%s:%s' % (mod.src.rsplit('/', 1)[-1], name)
        if g is None or g.init is None:
            # external definition in another module?
            for m in s.p.mods:
                h = m.globs.get(name)
                if h is not None and h.init is not None and 'internal' not in h.linkage and 'private' not in h.linkage:
                    g = h
                    mod = m
                    rid = '@:%s' % name
                    break
            else:
                if g is None:
                    raise Unsupported('global %s' % name)
        if rid not in s.regions:
            size = s.p.layout.size(g.ty)
            r = Region(rid, pc(size), 'global', g.const, '@' + name)
            s.regions[rid] = r
            if g.const and g.init is not None:
                try:
                    r.data = const_bytes(s.p, g.ty, g.init)
                except Unsupported:
                    r.data = None
        if rid not in st.mem:
            st.mem[rid] = MNode(None, 'base', None, None, rid)
        return Ptr(rid, ZERO)

    # ------------------------------------------------------- obligations
    def exact(s, st):
        return not st.lossy and not st.opt and s.loopstat['inductive'] == 0 and s.depth_loop == 0

    def check(s, st, ins, kind, ok, desc='', neg=((),)):
        """obligation; neg: alternative refuting conditions (None: cannot be refuted)"""
        if not s.record:
            return ok
        loc = s.p.loc(ins) if ins is not None else '?'
        fn = ins.fn.name if ins is not None else '?'
        key = (kind, loc, fn, desc)
        o = s.obl.get(key)
        if o is None:
            o = s.obl[key] = Obl(kind, loc, fn, desc)
        o.n += 1
        if not ok:
            if len(o.bad) < 3:
                o.bad.append((st.pstr(), facts_str(st)))
            if neg is not None and o.wit is None:
                if s.exact(st):
                    if o.tries < 8:
                        o.tries += 1
                        for alt in neg:
                            e = wit.find(st, list(alt))
                            if e is not None:
                                o.wit = wit.describe(e, st) + '   path: ' + st.pstr()
                                break
                elif len(o.guide) < 4:
                    o.guide.append((st.clone(), [list(a) for a in neg]))
        return ok

    def violations(s, kinds=None):
        return [o for o in s.obl.values() if o.bad and (kinds is None or o.kind in kinds)]

    # ------------------------------------------------------- memory
    def acc_ok(s, st, ins, ptr, n, write):
        """bounds obligations; n is P or int"""
        k = 'write' if write else 'read'
        if isinstance(ptr, PtrT) or ptr is UNDEF or isinstance(ptr, FnPtr):
            s.check(st, ins, 'null', False, 'dereference of an unknown pointer', None)
            return False
        if ptr.r is None:
            s.check(st, ins, 'null', False, 'null pointer %s' % k)
            return False
        s.check(st, ins, 'null', True, 'null pointer %s' % k)
        r = s.regions[ptr.r]
        n = pc(n) if isinstance(n, int) else n
        lo = st.prove(ptr.off)
        hi = st.prove(r.size - ptr.off - n)
        if not (lo and hi) and n.m and st.prove(-n):
            lo = hi = True
        ok = lo and hi
        s.check(st, ins, 'oob-' + k, ok, '%s of %s' % (k, r.name if r.kind != 'alloca' else 'local ' + r.name),
                [[(st.norm(ptr.off), False)], [(st.norm(r.size - ptr.off - n), False), (st.norm(n - 1), True)]] if not ok else None)
        if write:
            s.check(st, ins, 'ro-write', not r.ro, 'write to read-only %s' % r.name)
        if r.kind == 'freed':
            s.check(st, ins, 'lifetime', False, 'access to dead %s' % r.name)
        if not ok:
            if not lo:
                st.add_ge(ptr.off)
            if not hi:
                st.add_ge(r.size - ptr.off - n)
        return ok

    def cmp_off(s, st, off, n, coff, cn):
        """relation of [off,off+n) to [coff,coff+cn): 'eq' 'dis' ('in',d) or splits"""
        if off.m == coff.m:
            d = off.c - coff.c
        else:
            d = st.norm(off - coff)
            if not d.m:
                d = d.c
        if isinstance(d, int):
            if d == 0 and n == cn:
                return 'eq', 0
            if d >= cn or d <= -n:
                return 'dis', 0
            return 'part', d
        if st.entails(d - cn) or st.entails(-d - n):
            return 'dis', 0
        if st.nes:
            st.saturate()
            if st.entails(d - cn) or st.entails(-d - n):
                return 'dis', 0
        if st.entails(d) and st.entails(-d):
            st.add_eq(d)
            return ('eq', 0) if n == cn else ('part', 0)
        if s.tracklog is not None:
            s.tracklog[(d, n, cn)] = 1
        c = ge0(d - cn)
        if st.truth(c) is None:
            raise Split(c)
        c = ge0(-d - n)
        if st.truth(c) is None:
            raise Split(c)
        if n == cn or True:
            c = eq0(d)
            v = st.truth(c)
            if v is None:
                raise Split(c)
            if v:
                return ('eq', 0) if n == cn else ('part', 0)
        # other constant differences
        for k in range(1 - n, cn):
            if k and st.truth(eq0(d - k)) is None:
                raise Split(eq0(d - k))
            if k and st.truth(eq0(d - k)):
                return 'part', k
        return 'dis', 0

    def cmp_range(s, st, off, n, roff, rlen):
        """[off,off+n) vs symbolic range [roff, roff+rlen): 'in','dis' or split"""
        d = st.norm(off - roff)
        rlen = st.norm(rlen)
        if st.entails(d) and st.entails(rlen - d - n):
            return 'in'
        if st.entails(-d - n) or st.entails(d - rlen) or st.entails(-rlen):
            return 'dis'
        if s.tracklog is not None:
            s.tracklog[(d, n, rlen)] = 1
        c = ge0(d)
        v = st.truth(c)
        if v is None:
            raise Split(c)
        if v:
            c = ge0(rlen - d - n)
            v = st.truth(c)
            if v is None:
                raise Split(c)
            if v:
                return 'in'
            c = ge0(d - rlen)
            v = st.truth(c)
            if v is None:
                raise Split(c)
            if v:
                return 'dis'
            return 'part'
        c = ge0(-d - n)
        v = st.truth(c)
        if v is None:
            raise Split(c)
        if v:
            return 'dis'
        c = ge0(-rlen)
        v = st.truth(c)
        if v is None:
            raise Split(c)
        return 'dis' if v else 'part'

    def load_raw(s, st, node, off, n, isptr=False, rid=None):
        """content of n bytes at off in memory snapshot node; T, Ptr.. or UNDEF"""
        off = st.norm(off)
        while True:
            k = node.k
            if k == 'mark':
                node = node.p
                continue
            if k == 'cell':
                rel, d = s.cmp_off(st, off, n, node.off, node.n)
                if rel == 'dis':
                    node = node.p
                    continue
                if rel == 'eq':
                    return node.v
                # partial
                if 0 <= d and d + n <= node.n and isinstance(node.v, T):
                    lo = 8 * d if not s.p.big else 8 * (node.n - d - n)
                    return ext(node.v, lo, 8 * n)
                if 0 <= d and d + n <= node.n:
                    return UNDEF if node.v is UNDEF else tm.fresh('ptrbytes', 8 * n)
                return s.bytewise(st, node, off, n)
            if k == 'copy':
                rel = s.cmp_range(st, off, n, node.off, node.n)
                if rel == 'dis':
                    node = node.p
                    continue
                if rel == 'in':
                    src, soff, srid = node.x
                    return s.load_raw(st, src, soff + (off - node.off), n, isptr, srid)
                return s.bytewise(st, node, off, n)
            if k == 'fill':
                rel = s.cmp_range(st, off, n, node.off, node.n)
                if rel == 'dis':
                    node = node.p
                    continue
                if rel == 'in':
                    b = node.v
                    if not isinstance(b, T):
                        return b
                    p = ZERO
                    for i in range(n):
                        p = p + uview(b).scale(1 << (8 * i))
                    return mkW(8 * n, p)
                return s.bytewise(st, node, off, n)
            if k == 'havocr':
                # unknown content in a range
                rel = s.cmp_range(st, off, n, node.off, node.n)
                if rel == 'dis':
                    node = node.p
                    continue
                if rel == 'in':
                    return sel(node.v, off, n)
                return s.bytewise(st, node, off, n)
            # base
            if node.v is None:
                return UNDEF
            r = s.regions.get(node.v)
            if r is not None and r.data is not None:
                return s.load_const(st, r, off, n, isptr)
            if node.x:
                return node.x(st, off, n)
            return sel(node.v, off, n)

    def bytewise(s, st, node, off, n):
        if n == 1:
            raise Unsupported('byte overlap')
        p = ZERO
        und = 0
        for i in range(n):
            v = s.load_raw(st, node, off + i, 1)
            if not isinstance(v, T):
                und += 1
                v = tm.fresh('byte', 8)
            sh = i if not s.p.big else n - 1 - i
            p = p + uview(v).scale(1 << (8 * sh))
        if und:
            return UNDEF
        return mkW(8 * n, p)

    def load_const(s, st, r, off, n, isptr):
        off = st.refP(off)
        d = r.data
        if not off.m:
            o = off.c
            if o < 0 or o + n > len(d):
                return tm.fresh('oob', 8 * n)
            x = d[o]
            if isinstance(x, tuple):
                return x[1]
            bs = d[o:o + n]
            if any(not isinstance(b, int) for b in bs):
                return tm.fresh('mix', 8 * n)
            return C(8 * n, int.from_bytes(bytes(bs), 'big' if s.p.big else 'little'))
        # symbolic index: off = stride*idx + c with idx within the object
        g = gcdl(off.m.values())
        if len(off.m) == 1 and len(list(off.m)[0]) == 1 and list(off.m.values())[0] > 0:
            (k, v), = off.m.items()
            a = k[0]
            if a.w and not a.signed and v == g and a.op != 'S':
                l, h = st.F.interval(pa(a))
                cnt = (len(d) - off.c - n) // v + 1 if off.c >= 0 else 0
                if cnt > 0 and off.c < v:
                    nm = (r.rid, off.c, v, n)
                    if nm not in TABLES:
                        vals = []
                        for i in range(cnt):
                            bs = d[off.c + i * v:off.c + i * v + n]
                            vals.append(int.from_bytes(bytes(bs), 'big' if s.p.big else 'little'))
                        TABLES[nm] = vals
                        TABLES[('w', nm)] = 8 * n
                    return tbl(nm, a)
        if n == 1 or g % n == 0:
            # several atoms: name the index
            c0 = off.c % g
            cnt = (len(d) - c0 - n) // g + 1
            p = P((off.c - c0) // g, {k: v // g for k, v in off.m.items()})
            lo, hi = st.F.interval(p)
            if lo is not None and lo >= 0 and hi is not None and hi < (1 << 31):
                nm = (r.rid, c0, g, n)
                if nm not in TABLES:
                    TABLES[nm] = [int.from_bytes(bytes(d[c0 + i * g:c0 + i * g + n]), 'big' if s.p.big else 'little') for i in range(cnt)]
                    TABLES[('w', nm)] = 8 * n
                # an index of 8 bits is an 8-bit word
                w = 8 if hi < 256 else 32
                return tbl(nm, mkW(w, p))
        return sel(r.rid, off, n)

    def load_raw_split(s, st, rid, off, n):
        """tracked cells at loop entry: their offsets are generic, so a case split here is pushed to the caller"""
        return s.load_raw(st, st.mem[rid], off, n)

    def watch_read(s, st, ptr, n, direct=False):
        if not st.watch:
            return
        for (rid, off, wn, flag) in st.watch:
            if rid != ptr.r or st.gh.get(flag) or (flag[0] == 'L' and not direct):
                continue
            if isinstance(n, int):
                if s.condlog is not None:
                    q = tm.norm_ge(st.norm(off - ptr.off))
                    g = 0
                    for c in q.m.values():
                        g = gcd(g, c)
                    if g > 1 and q.c % g == 0:
                        q = P(q.c // g, {k: c // g for k, c in q.m.items()})
                    s.condlog[q] = 'eq'
                rel, d = s.cmp_off(st, st.norm(ptr.off), n, off, wn)
                hit = rel != 'dis'
            else:
                hit = s.cmp_range(st, off, wn, ptr.off, n) != 'dis'
            if hit:
                st.gh[flag] = 1

    def load(s, st, ins, ptr, n, isptr=False):
        s.acc_ok(st, ins, ptr, n, False)
        if not isinstance(ptr, Ptr) or ptr.r is None:
            return tm.fresh('bad', 8 * n)
        s.watch_read(st, ptr, n, True)
        v = s.load_raw(st, st.mem[ptr.r], ptr.off, n, isptr, ptr.r)
        if n == 1 and ptr.r in st.strz:
            s.str_fact(st, ptr.r, ptr.off, v)
        for h in s.on_load:
            h(s, st, ptr, n, v)
        if v is UNDEF:
            s.check(st, ins, 'uninit', False, 'read of uninitialised %s' % s.regions[ptr.r].name)
            v = tm.fresh('uninit', 8 * n)
        elif s.regions[ptr.r].kind == 'alloca':
            s.check(st, ins, 'uninit', True, 'read of uninitialised %s' % s.regions[ptr.r].name)
        if isptr and isinstance(v, T):
            v = NULL if v.op == 'C' and v.x == 0 else PtrT(v)
        if not isptr and not isinstance(v, T):
            if isinstance(v, PtrT):
                v = v.t
            else:
                v = tm.fresh('ptrint', 8 * n)
        return v

    def str_fact(s, st, rid, off, v):
        """a character before the terminator is not NUL"""
        z = st.strz.get(rid)
        if z is None or not isinstance(v, T) or v.op == 'C':
            return
        off = st.norm(off)
        c = st.canon(icmp('eq', v, C(8, 0)))
        if c.op != 'C' and st.truth(c) is None and st.prove(z - off - 1) and st.prove(off):
            st.assume(c, False)

    def store(s, st, ins, ptr, n, v):
        s.acc_ok(st, ins, ptr, n, True)
        if not isinstance(ptr, Ptr) or ptr.r is None:
            return
        s.write(st, ptr.r, ptr.off, n, v)

    def write(s, st, rid, off, n, v):
        off = st.norm(off)
        if rid in s.guard:
            s.guard[rid](st)
        node = st.mem[rid]
        s.str_store(st, rid, off, n, v)
        # overwrite newest cell at the same place
        if node.k == 'cell' and node.n == n and not st.norm(node.off - off).m and st.norm(node.off - off).c == 0:
            node = node.p
        else:
            # look a little deeper for an identical constant-offset cell
            chain = []
            x = node
            lim = 0
            while x.k == 'cell' and lim < 400:
                if x.off.m != off.m:
                    break
                d = x.off.c - off.c
                if d == 0 and x.n == n:
                    y = x.p
                    for z in reversed(chain):
                        y = MNode(y, z.k, z.off, z.n, z.v, z.x)
                    node = y
                    break
                if -x.n < d < n and not (d == 0 and x.n == n):
                    break
                chain.append(x)
                x = x.p
                lim += 1
        st.mem[rid] = MNode(node, 'cell', off, n, v)

    def copy_range(s, st, dr, doff, sr, soff, n):
        n = st.norm(n)
        if not n.m:
            if n.c <= 0:
                return
        if dr in s.guard:
            s.guard[dr](st)
        s.str_kill(st, dr, doff, n)
        st.mem[dr] = MNode(st.mem[dr], 'copy', st.norm(doff), n, None, (st.mem[sr], st.norm(soff), sr))

    # ---- string knowledge: st.strz[rid] = P position of the first NUL at or after 0
    def str_store(s, st, rid, off, n, v):
        z = st.strz.get(rid)
        if z is None:
            return
        if n != 1:
            del st.strz[rid]
            return
        d = st.norm(off - z)
        nul = isinstance(v, T) and (v.op == 'C' and v.x == 0)
        nonnul = isinstance(v, T) and st.truth(icmp('eq', v, C(8, 0))) is False
        if st.entails(d - 1):
            return          # behind the terminator
        if st.entails(-d - 1):
            # before it
            if nonnul:
                return
            if nul:
                st.strz[rid] = off
                return
            del st.strz[rid]
            return
        if not d.m and d.c == 0 and nul:
            return
        del st.strz[rid]

    def str_kill(s, st, rid, off, n):
        z = st.strz.get(rid)
        if z is None:
            return
        if st.entails(off - z - 1) or st.entails(-n):
            return
        del st.strz[rid]

    # ------------------------------------------------------- operands
    def val(s, st, op, ty, mod):
        k = op[0]
        if k == 'reg':
            return st.frames[-1].env[op[1]]
        if k == 'const':
            return C(ty.w, op[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            if ty.k == 'int':
                return C(ty.w, 0)
            if ty.k == 'ptr':
                return NULL
        if k == 'glob':
            f = s.p.lookup(mod, op[1])
            if f is not None:
                return FnPtr(f)
            if op[1] in mod.decls:
                return FnPtr(op[1])
            return s.global_ptr(st, mod, op[1])
        if k == 'gep':
            base = s.val(st, op[2][0][1], op[2][0][0], mod)
            return s.gep(st, base, op[1], op[2][1:], mod)
        if k == 'cast':
            v = s.val(st, op[3], op[2], mod)
            if op[1] in ('bitcast',):
                return v
            if op[1] == 'inttoptr' and isinstance(v, T) and v.op == 'C' and v.x == 0:
                return NULL
        raise Unsupported('operand %r' % (op,))

    def gep(s, st, base, bt, idx, mod):
        off = ZERO
        t = None
        for i, (ity, io) in enumerate(idx):
            v = s.val(st, io, ity, mod)
            if i == 0:
                off = off + s.idx(st, v).scale(s.p.layout.size(bt))
                t = bt
            else:
                if t.k == 'struct':
                    off = off + s.p.layout.field_off(t, v.x)
                    t = t.fields[v.x]
                else:
                    off = off + s.idx(st, v).scale(s.p.layout.size(t.elem))
                    t = t.elem
        if isinstance(base, PtrT):
            if not off.m and off.c == 0:
                return base
            return PtrT(tm.fresh('ptrarith', 64))
        if not isinstance(base, Ptr):
            return base
        if base.r is None:
            if not off.m and off.c == 0:
                return base
            return PtrT(tm.fresh('nullarith', 64))
        return Ptr(base.r, st.norm(base.off + off))

    def idx(s, st, v):
        if v is UNDEF:
            return pa(tm.fresh('undef', 64))
        return st.sval(v)

    # ------------------------------------------------------- execution
    def tick(s):
        s.steps += 1
        if s.steps > s.budget:
            raise Budget('step budget exhausted')
        if s.steps & 255 == 0 and time.time() - s.t0 > s.tlimit:
            raise Budget('time budget exhausted')

    def call_fn(s, st, fn, args):
        """inline fn; returns list of (state, retval)"""
        s.depth += 1
        if s.depth > 40:
            s.depth = 0
            raise Unsupported('call depth (recursion?)')
        s.fns_seen.add((fn.mod.src, fn.name))
        if fn.irreducible:
            raise Unsupported('irreducible control flow in %s' % fn.name)
        fr = Frame(fn)
        for (t, nm, at), a in zip(fn.params, args):
            fr.env[nm] = a
        fr.allocas = []
        st.frames.append(fr)
        outs = s.exec_blocks(st, fn, fn.entry, None, frozenset())
        res = []
        for o in outs:
            if o[0] == 'ret':
                x = o[1]
                x.frames.pop()
                # the caller's registers may be shared with the other outcomes
                f = x.frames[-1]
                f.env = dict(f.env)
                res.append((x, o[2]))
            elif o[0] == 'at':
                raise Unsupported('control flow')
        s.depth -= 1
        if len(res) > (64 if s.nomerge else 1):
            res = s.merge_rets(res)
        return res

    def merge_rets(s, res):
        # collapse identical outcomes (same memory, same value)
        out = []
        for st, v in res:
            for i, (o, w) in enumerate(out):
                if v == w and o.mem == st.mem and o.gh == st.gh and same_path(o, st):
                    out[i] = (join_facts(o, st), w)
                    break
            else:
                out.append((st, v))
        return out

    def exec_blocks(s, st, fn, cur, prev, stops, phis=None, first=False):
        """run from block cur; returns outcomes ('at',st,block,prev,phis) / ('ret',st,val)"""
        res = []
        work = [(st, cur, prev, phis, first, None)]
        while work:
            st, cur, prev, phis, first, pos = work.pop()
            while True:
                if pos is None:
                    if cur in stops and not first:
                        res.append(('at', st, cur, prev, phis))
                        break
                    if cur in fn.loops and not first:
                        try:
                            los = s.run_loop(st, fn, cur, prev, phis)
                        except Split as e:
                            # cases to be kept apart for the whole loop
                            work += [(x, cur, prev, phis, False, None) for x in s.fork(st, e.cond)]
                            break
                        for o in los:
                            if o[0] == 'at':
                                if o[2] in stops:
                                    res.append(o)
                                else:
                                    work.append((o[1], o[2], o[3], o[4], False, None))
                            else:
                                res.append(o)
                        break
                    b = fn.blocks[cur]
                    env = st.frames[-1].env
                    if b.phis:
                        if phis is not None:
                            env.update(phis)
                        else:
                            nv = [(ph.dst, s.val(st, dict((x[1], x[0]) for x in ph.a)[prev], ph.ty, fn.mod)) for ph in b.phis]
                            for d, v in nv:
                                env[d] = v
                    elif phis is not None:
                        env.update(phis)
                    pos = 0
                    first = False
                    phis = None
                b = fn.blocks[cur]
                nxt = s.run_block(st, fn, b, pos, prev, stops, work, res)
                if nxt is None:
                    break
                st, cur, prev, phis, pos = nxt
                first = False
        return res

    def fork(s, st, cond):
        out = []
        for v in (True, False):
            x = st.clone()
            x.uc = {}
            if x.assume(cond, v):
                out.append(x)
        return out

    def run_block(s, st, fn, b, pos, prev, stops, work, res):
        ins_list = b.ins
        n = len(ins_list)
        mod = fn.mod
        while pos < n:
            ins = ins_list[pos]
            s.tick()
            op = ins.op
            try:
                if op == 'call':
                    outs = s.do_call(st, fn, ins, mod)
                    if len(outs) == 1 and outs[0][0] is st:
                        if ins.dst is not None:
                            st.frames[-1].env[ins.dst] = outs[0][1]
                        pos += 1
                        continue
                    for x, v in outs:
                        if ins.dst is not None:
                            x.frames[-1].env[ins.dst] = v
                        work.append((x, b.name, prev, None, False, pos + 1))
                    return None
                if op == 'br':
                    return (st, ins.a[0], b.name, None, None)
                if op == 'cbr':
                    return s.do_cbr(st, fn, b, ins, mod, stops, work, res, prev, pos)
                if op == 'switch':
                    v = s.val(st, ins.a[0], ins.ty, mod)
                    for (k, lab) in ins.a[2]:
                        c = icmp('eq', v, C(ins.ty.w, k))
                        t = st.truth(c)
                        if t is None:
                            raise Split(c)
                        if t:
                            return (st, lab, b.name, None, None)
                    return (st, ins.a[1], b.name, None, None)
                if op == 'ret':
                    rv = s.val(st, ins.a[0], ins.ty, mod) if ins.a else None
                    if rv is UNDEF:
                        s.check(st, ins, 'uninit', False, 'indeterminate return value')
                        rv = tm.fresh('uninit', ins.ty.w or 64)
                    res.append(('ret', st, rv))
                    return None
                if op == 'unreachable':
                    return None
                s.do_ins(st, fn, ins, mod)
            except Split as e:
                xs = s.fork(st, e.cond)
                for x in xs:
                    work.append((x, b.name, prev, None, False, pos))
                return None
            pos += 1
        raise Unsupported('fell off block')

    def opv(s, st, o, ty, mod, ins):
        v = s.val(st, o, ty, mod)
        if v is UNDEF:
            s.check(st, ins, 'uninit', False, 'use of an indeterminate value')
            v = tm.fresh('uninit', ty.w) if ty.k == 'int' else PtrT(tm.fresh('uninit', 64))
        return v

    def do_ins(s, st, fn, ins, mod):
        op = ins.op
        env = st.frames[-1].env
        if op == 'alloca':
            cnt = ONE
            if ins.a:
                cnt = st.uval(s.val(st, ins.a[0][1], ins.a[0][0], mod))
            size = cnt.scale(s.p.layout.size(ins.ty))
            rid = s.region(st, '%s.%s' % (fn.name, ins.dst), size, 'alloca', undef=True)
            s.regions[rid].name = ins.dst
            env[ins.dst] = Ptr(rid, ZERO)
            return
        if op == 'load':
            p = s.opv(st, ins.a[0], _PTR, mod, ins)
            t = ins.ty
            n = s.p.layout.size(t)
            if t.k not in ('int', 'ptr'):
                raise Unsupported('load of %r' % t)
            v = s.load(st, ins, p, n, t.k == 'ptr')
            if t.k == 'int' and t.w != 8 * n:
                v = trunc(v, t.w)
            env[ins.dst] = v
            return
        if op == 'store':
            p = s.opv(st, ins.a[1], _PTR, mod, ins)
            t = ins.ty
            if t.k not in ('int', 'ptr'):
                raise Unsupported('store of %r' % t)
            v = s.opv(st, ins.a[0], t, mod, ins)
            n = s.p.layout.size(t)
            if t.k == 'int' and t.w != 8 * n:
                v = zext(v, 8 * n)
            s.store(st, ins, p, n, v)
            return
        if op == 'gep':
            base = s.opv(st, ins.a[0][1], _PTR, mod, ins)
            env[ins.dst] = s.gep(st, base, ins.ty, ins.a[1:], mod)
            return
        if op == 'icmp':
            if ins.ty.k == 'ptr':
                env[ins.dst] = s.ptrcmp(st, ins, s.opv(st, ins.a[0], _PTR, mod, ins), s.opv(st, ins.a[1], _PTR, mod, ins))
                return
            a = s.opv(st, ins.a[0], ins.ty, mod, ins)
            b = s.opv(st, ins.a[1], ins.ty, mod, ins)
            env[ins.dst] = icmp(ins.attrs, a, b)
            return
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            fty = ins.attrs[0] if op != 'freeze' else ins.ty
            v = s.opv(st, ins.a[0], fty, mod, ins)
            w = ins.ty.w
            if op == 'zext':
                r = zext(v, w)
                if v.op == 'W' and has_wrap(asP(r)):
                    st.nosplit, o = True, st.nosplit
                    try:
                        r = mkW(w, st.uval(v))
                    finally:
                        st.nosplit = o
                elif v.signed and v.op == 'sym':
                    r = mkW(w, st.uval(v))
            elif op == 'sext':
                r = sext(v, w)
                if has_wrap(asP(r)):
                    st.nosplit, o = True, st.nosplit
                    try:
                        r = mkW(w, st.sval(v))
                    finally:
                        st.nosplit = o
            elif op == 'trunc':
                r = trunc(v, w)
            elif op == 'ptrtoint':
                if isinstance(v, Ptr):
                    r = tm._mk('W', 64, (), pa(sym('addr:%s' % v.r, 0)) + v.off) if v.r else C(w, 0)
                elif isinstance(v, PtrT):
                    r = v.t
                else:
                    r = tm.fresh('p2i', w)
            elif op == 'inttoptr':
                r = NULL if v.op == 'C' and v.x == 0 else PtrT(v)
                if v.op == 'W':
                    for k in v.x.m:
                        if len(k) == 1 and k[0].op == 'sym' and str(k[0].x).startswith('addr:') and v.x.m[k] == 1:
                            r = Ptr(k[0].x[5:], v.x - pa(k[0]))
            else:
                r = v
            env[ins.dst] = r
            return
        if op == 'select':
            c = s.opv(st, ins.a[0], _I1, mod, ins)
            a = s.val(st, ins.a[1], ins.ty, mod)
            b = s.val(st, ins.a[2], ins.ty, mod)
            v = st.truth(c)
            if v is not None:
                env[ins.dst] = a if v else b
            elif isinstance(a, T) and isinstance(b, T) and (bitsy(c) or a.w == 1 or (a.op == 'C' and b.op == 'C')):
                env[ins.dst] = ite(c, a, b)
            elif a == b:
                env[ins.dst] = a
            else:
                raise Split(split_on(st, c))
            return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            a = s.opv(st, ins.a[0], ins.ty, mod, ins)
            b = s.opv(st, ins.a[1], ins.ty, mod, ins)
            env[ins.dst] = s.binop(st, ins, op, a, b)
            return
        raise Unsupported('instruction %s at %s' % (op, s.p.loc(ins)))

    def binop(s, st, ins, op, a, b):
        w = a.w
        if op in ('add', 'sub', 'mul'):
            r = add(a, b) if op == 'add' else sub_(a, b) if op == 'sub' else mul(a, b)
            if 'nsw' in ins.attrs:
                s.check_nsw(st, ins, op, a, b, w)
            if op == 'mul' and a.op != 'C' and b.op != 'C':
                # keep products of wrapped operands meaningful
                pass
            return r
        if op == 'and':
            return band([a, b])
        if op == 'or':
            return bor([a, b])
        if op == 'xor':
            return bxor([a, b])
        if op in ('shl', 'lshr', 'ashr'):
            b = st.canon(b)
            if b.op == 'C':
                ok = b.x < w
                s.check(st, ins, 'shift', ok, 'shift amount')
                if not ok:
                    return tm.fresh('badshift', w)
            else:
                ok = urng(b)[1] < w or st.truth(icmp('ult', b, C(w, w))) is True
                s.check(st, ins, 'shift', ok, 'shift amount', [[(icmp('ult', b, C(w, w)), False)]])
            if op == 'shl' and 'nsw' in ins.attrs:
                s.check_shl(st, ins, a, b, w)
            return {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](a, b)
        # division
        b = st.canon(b)
        nz = True if (b.op == 'C' and b.x) else (st.truth(icmp('eq', b, C(w, 0))) is False)
        s.check(st, ins, 'divzero', nz, 'divisor', [[(icmp('eq', b, C(w, 0)), True)]])
        if op in ('sdiv', 'srem'):
            if b.op == 'C' and b.x != (1 << w) - 1:
                ok = True
            else:
                ok = st.truth(icmp('eq', b, C(w, -1))) is False or st.truth(icmp('eq', a, C(w, 1 << (w - 1)))) is False
            s.check(st, ins, 'overflow', ok, 'signed division', [[(icmp('eq', b, C(w, -1)), True), (icmp('eq', a, C(w, 1 << (w - 1))), True)]])
            if op == 'sdiv' and 'exact' in ins.attrs and b.op == 'C':
                p = asP(a)
                k = sgn(b.x, w)
                if all(v % k == 0 for v in p.m.values()) and p.c % k == 0:
                    return mkW(w, P(p.c // k, {m: v // k for m, v in p.m.items()}))
            sa, sb = st.sval(a), st.sval(b)
            if st.entails(sa) and st.entails(sb - 1):
                return udiv(a, b) if op == 'sdiv' else urem(a, b)
            return sdiv(a, b) if op == 'sdiv' else srem(a, b)
        if op == 'urem':
            ua, ub = st.uval(a), st.uval(b)
            if st.entails(ub - ua - 1):
                return a
            if st.entails(ua - ub) and st.entails(ub + ub - ua - 1):
                return sub_(a, b)
            if ub.m and st.entails(ub + ub - ua - 1):
                raise Split(ge0(st.norm(ub - ua - 1)))
            return urem(a, b)
        return udiv(a, b)

    def check_shl(s, st, ins, a, b, w):
        """a signed left shift: the operand is not negative and nothing reaches the sign bit"""
        h = 1 << (w - 1)
        if b.op != 'C':
            hi = urng(b)[1]
            if a.op == 'C':
                k = 0
                while k + 1 < w and (a.x << (k + 1)) < h:
                    k += 1
                ok = a.x < h and (a.x == 0 or hi <= k or st.truth(icmp('ugt', b, C(w, k))) is False)
                s.check(st, ins, 'overflow', ok, 'signed shift', [[(icmp('ugt', b, C(w, k)), True)]])
                return
            if hi >= w:
                hi = w - 1
            s.check_mul_nn(st, ins, a, 1 << hi, w, False)
            return
        s.check_mul_nn(st, ins, a, 1 << b.x, w, True)

    def check_mul_nn(s, st, ins, a, k, w, exact):
        h = 1 << (w - 1)
        lo, hi = urng(a)
        if hi * k < h:
            return s.check(st, ins, 'overflow', True, 'signed shift')
        x = st.sval(a)
        p = st.norm(x * pc(k))
        ok = st.prove(x) and st.prove(pc(h - 1) - p)
        if not ok and st.opt and not st.opt.isdisjoint(psyms(p)):
            return
        s.check(st, ins, 'overflow', ok, 'signed shift', [[(x, False)], [(pc(h - 1) - p, False)]] if exact else None)

    def check_nsw(s, st, ins, op, a, b, w):
        if not s.record and not st.opt:
            pass
        h = 1 << (w - 1)
        x, y = sview(a), sview(b)
        p = x + y if op == 'add' else x - y if op == 'sub' else x * y
        lo, hi = prange(p)
        ok = lo is not None and lo >= -h and hi < h
        if not ok:
            st.nosplit, o = True, st.nosplit
            try:
                x, y = st.sval(a), st.sval(b)
            finally:
                st.nosplit = o
            p = st.norm(x + y if op == 'add' else x - y if op == 'sub' else x * y)
            ok = st.prove(pc(h - 1) - p) and st.prove(p + h)
            if not ok and st.opt and not st.opt.isdisjoint(psyms(p)):
                return
        s.check(st, ins, 'overflow', ok, 'signed %s' % op, [[(pc(h - 1) - p, False)], [(p + h, False)]])
        if not ok and s.depth_loop and not has_wrap(p):
            # reported above; what follows is considered without the overflow
            y = st.clone()
            y.add_ge(pc(h - 1) - p)
            y.add_ge(p + h)
            if not y.F.dead and y.F.feasible():
                st.add_ge(pc(h - 1) - p)
                st.add_ge(p + h)

    def ptrcmp(s, st, ins, a, b):
        pr = ins.attrs
        if isinstance(a, PtrT) or isinstance(b, PtrT):
            ta = a.t if isinstance(a, PtrT) else None
            tb = b.t if isinstance(b, PtrT) else None
            if ta is not None and b == NULL:
                c = icmp('eq', ta, C(64, 0))
            elif tb is not None and a == NULL:
                c = icmp('eq', tb, C(64, 0))
            elif ta is not None and tb is not None:
                c = icmp('eq', ta, tb)
            else:
                c = tm.fresh('ptrcmp', 1)
            if pr == 'eq':
                return c
            if pr == 'ne':
                return bnot1(c)
            raise Unsupported('ordering of unknown pointers')
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            e = a == b
            if pr in ('eq', 'ne'):
                return C(1, int(e == (pr == 'eq')))
            raise Unsupported('function pointer order')
        if a.r is None or b.r is None:
            e = a.r is None and b.r is None
            if pr in ('eq', 'ne'):
                return C(1, int(e == (pr == 'eq')))
            raise Unsupported('null pointer order')
        if a.r != b.r:
            if pr in ('eq', 'ne'):
                if s.may_alias(a.r, b.r):
                    return tm.fresh('alias', 1)
                return C(1, int(pr == 'ne'))
            s.check(st, ins, 'ptrcmp', False, 'ordering of pointers to different objects')
            return tm.fresh('ptrorder', 1)
        d = st.norm(a.off - b.off)
        if pr == 'eq':
            return eq0(d)
        if pr == 'ne':
            return bnot1(eq0(d))
        if pr in ('ult', 'slt'):
            return ge0(-d - 1)
        if pr in ('ule', 'sle'):
            return ge0(-d)
        if pr in ('ugt', 'sgt'):
            return ge0(d - 1)
        return ge0(d)

    def may_alias(s, a, b):
        return False

    def few(s, st, c, stay):
        """the order relation controlling a loop exit leaves at most max_undec iterations"""
        c = st.canon(c)
        if c.op == 'not':
            c, stay = c.a[0], not stay
        if c.op == 'cmp' and c.x in ('ult', 'eq'):
            o = st.nosplit
            st.nosplit = True
            try:
                a, b = st.uval(c.a[0]), st.uval(c.a[1])
            finally:
                st.nosplit = o
            if c.x == 'eq':
                if not stay:
                    return all(-s.max_undec <= x <= s.max_undec for x in [v if v is not None else 1 << 40 for v in st.F.interval(st.norm(a - b))])
                return False
            p = st.norm(b - a - 1 if stay else a - b)
        elif c.op == 'ge0':
            p = st.norm(c.x if stay else -c.x - 1)
        else:
            return False
        h = st.F.interval(p)[1]
        if h is None or h > s.max_undec:
            return st.entails(pc(s.max_undec) - p)
        return True

    # ------------------------------------------------------- branches
    def do_cbr(s, st, fn, b, ins, mod, stops, work, res, prev, pos):
        c = s.opv(st, ins.a[0], _I1, mod, ins)
        l1, l2 = ins.a[1], ins.a[2]
        if l1 == l2:
            return (st, l1, b.name, None, None)
        if s.condlog is not None:
            s.log_cond(st, c)
        v = st.truth(c)
        for L in reversed(s.unrolling):
            if L[0] is fn and b.name in L[1]:
                out1, out2 = l1 not in L[1], l2 not in L[1]
                if out1 != out2:
                    if v is None:
                        if support_bits(c) > 9 and not (s.max_undec and s.few(st, c, out2)):
                            st.gh['$und'] = st.gh.get('$und', 0) + 1
                    elif st.gh.get('$sc'):
                        # decided by an earlier open test of the same condition
                        st.gh['$und'] = st.gh.get('$und', 0) + 1
                    elif not any(t.op == 'sym' and str(t.x).startswith('order#') for t in syms(c) if isinstance(t, T)):
                        st.gh['$dec'] = st.gh.get('$dec', 0) + 1
                        if c.op == 'C':
                            st.gh['$con'] = 1
                    st.gh.pop('$sc', None)
                elif v is None and not s.concrete and short_circuit(fn, b, l1, l2) and support_bits(c) > 9 and not s.max_undec:
                    st.gh['$sc'] = 1
                break
        if v is not None:
            st.trace = st.trace + (lineof(s, ins, v),)
            return (st, l1 if v else l2, b.name, None, None)
        c = st.canon(c)
        if c.op in ('and', 'or') and not bitsy(c):
            if s.unrolling and not s.concrete and not s.max_undec:
                st.gh['$sc'] = 1
            raise Split(split_on(st, c))
        sides = []
        for val, lab in ((True, l1), (False, l2)):
            x = st.clone()
            x.uc = {}
            if x.assume(c, val):
                x.trace = x.trace + (lineof(s, ins, val),)
                sides.append((x, lab))
        if not sides:
            return None
        if len(sides) == 1:
            x, lab = sides[0]
            return (x, lab, b.name, None, None)
        D = fn.ipdom.get(b.name)
        inloop = [h for h, body in fn.loops.items() if b.name in body]
        domerge = not s.nomerge and D is not None and D != '$exit' and all(D in fn.loops[h] for h in inloop)
        if not domerge:
            for x, lab in sides:
                work.append((x, lab, b.name, None, False, None))
            return None
        outs = []
        for x, lab in sides:
            o = s.exec_blocks(x, fn, lab, b.name, stops | {D})
            at = [e for e in o if e[0] == 'at' and e[2] == D]
            for e in o:
                if not (e[0] == 'at' and e[2] == D):
                    res.append(e)
            outs.append(at)
        if len(outs[0]) == 1 and len(outs[1]) == 1:
            m = s.merge(st, c, outs[0][0], outs[1][0], fn, D)
            if m is not None:
                if D in stops:
                    res.append(m)
                    return None
                return (m[1], D, m[3], m[4], None)
        for at in outs:
            for e in at:
                if D in stops:
                    res.append(e)
                else:
                    work.append((e[1], e[2], e[3], e[4], False, None))
        return None

    def log_cond(s, st, c, d=0):
        if c.op == 'not':
            return s.log_cond(st, c.a[0], d)
        if c.op in ('and', 'or') and d < 3:
            for x in c.a:
                s.log_cond(st, x, d + 1)
            return
        if c.op in ('ge0', 'eq0', 'cmp'):
            try:
                r = st.linof(c)
            except Split:
                return
            if r is not None:
                p = st.norm(r[1])
                if p.m and len(p.m) <= 5:
                    s.condlog[p] = r[0]

    def phi_vals(s, st, fn, D, prev, phis):
        if phis is not None:
            return dict(phis)
        out = {}
        for ph in fn.blocks[D].phis:
            out[ph.dst] = s.val(st, dict((x[1], x[0]) for x in ph.a)[prev], ph.ty, fn.mod)
        return out

    def merge(s, st0, c, oa, ob, fn, D):
        sa, sb = oa[1], ob[1]
        if {k: v for k, v in sa.gh.items() if k[0] != '$'} != {k: v for k, v in sb.gh.items() if k[0] != '$'}:
            return None
        pa_, pb_ = s.phi_vals(sa, fn, D, oa[3], oa[4]), s.phi_vals(sb, fn, D, ob[3], ob[4])
        small = bitsy(c)

        def mv(x, y):
            if x is y or x == y:
                return x
            if isinstance(x, T) and isinstance(y, T):
                if small or x.w == 1 or (x.op == 'C' and y.op == 'C'):
                    return ite(c, x, y)
                cx, cy = sa.canon(x), sb.canon(y)
                if cx is cy:
                    return cx
            return None
        phis = {}
        for k in pa_:
            v = mv(pa_[k], pb_[k])
            if v is None:
                return None
            phis[k] = v
        m = st0.clone()
        m.uc = {}
        # memory
        for rid in set(sa.mem) | set(sb.mem):
            na, nb, n0 = sa.mem.get(rid), sb.mem.get(rid), st0.mem.get(rid)
            if n0 is None:
                m.mem[rid] = na or nb
                continue
            if na is nb:
                m.mem[rid] = na
                continue
            ca, cb = cells_since(na, n0), cells_since(nb, n0)
            if ca is None or cb is None:
                return None
            keys = {}
            for cell in ca + cb:
                keys[(cell.off, cell.n)] = cell
            offs = [k[0] for k in keys]
            if len(keys) > 1:
                for i, x in enumerate(offs):
                    for y in offs[i + 1:]:
                        if (x - y).m:
                            return None
            vals = []
            for (off, n) in keys:
                try:
                    va = s.load_raw(sa, na, off, n)
                    vb = s.load_raw(sb, nb, off, n)
                except (Split, Unsupported):
                    return None
                if va is UNDEF and vb is UNDEF:
                    continue
                v = mv(va, vb)
                if v is None:
                    return None
                vals.append((off, n, v))
            node = n0
            m.mem[rid] = node
            for off, n, v in vals:
                m.mem[rid] = MNode(m.mem[rid], 'cell', off, n, v)
        for rid in list(m.strz):
            if sa.strz.get(rid) != sb.strz.get(rid):
                del m.strz[rid]
            else:
                m.strz[rid] = sa.strz.get(rid)
        # drop facts that differ; keep those implied by both sides
        for f in list(sa.F.f.values()):
            if f not in m.F.f.values() and sb.entails(f) and not sa.eq.keys() - st0.eq.keys():
                m.F.add(f)
        if sa.care != sb.care:
            m.care = tm.B.OR(sa.care, sb.care)
        else:
            m.care = sa.care
        disj(m, sa, sb, (c, bnot1(c)))
        if sa.gh.get('$sc') or sb.gh.get('$sc'):
            m.gh['$sc'] = 1
        for k in ('$und', '$dec'):
            x = max(sa.gh.get(k, 0), sb.gh.get(k, 0))
            if x:
                m.gh[k] = x
        if sa.gh.get('$dec', 0) != sb.gh.get('$dec', 0):
            m.gh['$dec'] = min(sa.gh.get('$dec', 0), sb.gh.get('$dec', 0))
        m.trace = sa.trace
        # environment: definitions inside the diamond do not dominate D
        return ('at', m, D, '$merged', phis)

    # ------------------------------------------------------- calls
    def do_call(s, st, fn, ins, mod):
        cal = ins.a[0]
        if cal[0] == 'glob':
            nm = cal[1]
            if nm.startswith('llvm.'):
                args = [s.val(st, a[1], a[0], mod) if a[1][0] != 'md' else None for a in ins.a[1:]]
                return s.model(st, ins, nm, args)
            f = s.p.lookup(mod, nm)
            args = [s.opv(st, a[1], a[0], mod, ins) for a in ins.a[1:]]
            if f is not None:
                s.calls.add((fn.name, f.name, s.p.loc(ins)))
                hook = s.fn_hooks.get(f.name)
                if hook is not None:
                    r = hook(s, st, ins, args)
                    if r is not None:
                        return r
                x = st.clone()
                x.trace = x.trace + ('call %s@%s' % (f.name, s.p.loc(ins).rsplit('/', 1)[-1]),)
                return s.call_fn(x, f, args)
            return s.model(st, ins, nm, args)
        fv = s.opv(st, cal, _PTR, mod, ins)
        args = [s.opv(st, a[1], a[0], mod, ins) for a in ins.a[1:]]
        if isinstance(fv, FnPtr) and not isinstance(fv.fn, str):
            return s.call_fn(st.clone(), fv.fn, args)
        if s.on_icall is None:
            raise Unsupported('indirect call at %s' % s.p.loc(ins))
        return s.on_icall(s, st, ins, fv, args)

    def model(s, st, ins, nm, args):
        import models
        return models.call(s, st, ins, nm, args)

    # ------------------------------------------------------- loops
    def run_loop(s, st, fn, H, prev, phis):
        import loops
        return loops.run_loop(s, st, fn, H, prev, phis)


from ir import Ty
_PTR = Ty('ptr')
_I1 = Ty('int', 1)


def lineof(s, ins, v):
    l = s.p.loc(ins)
    return '%s:%s' % (l.rsplit('/', 1)[-1].split(':')[1], 'T' if v else 'F')


def cells_since(node, base):
    out = []
    while node is not base:
        if node is None or node.k != 'cell':
            return None
        out.append(node)
        node = node.p
    return out


def same_path(a, b):
    return a.frames and b.frames and a.frames[-1].env == b.frames[-1].env


def disj(m, a, b, skip):
    """known conditions of the union of two states"""
    ea, eb = [], []
    for k, v in a.known.items():
        if k in skip or k in m.known:
            continue
        if b.known.get(k) == v:
            m.known[k] = v
        else:
            ea.append(k if v else bnot1(k))
    for k, v in b.known.items():
        if k not in skip and k not in m.known and a.known.get(k) != v:
            eb.append(k if v else bnot1(k))
    if skip:
        ea = [bor([bnot1(skip[0]), x]) for x in ea]
        eb = [bor([skip[0], x]) for x in eb]
        for x in ea + eb:
            if x.op != 'C':
                m.known[x] = True
    elif ea and eb:
        if len(ea) + len(eb) > 400:
            m.lossy = True
        x = bor([band(ea), band(eb)])
        if x.op != 'C':
            m.known[x] = True
    m.lossy = m.lossy or a.lossy or b.lossy


def join_facts(a, b):
    m = a.clone()
    m.uc = {}
    F = Facts()
    for f in a.F.f.values():
        if b.entails(f):
            F.add(f)
    for k, v in a.F.lo.items():
        p = P(-v, {k: 1})
        if b.entails(p):
            F.add(p)
    for k, v in a.F.hi.items():
        p = P(v, {k: -1})
        if b.entails(p):
            F.add(p)
    m.F = F
    m.eq = {k: v for k, v in a.eq.items() if k in b.eq and b.eq[k] == v}
    for k, v in a.eq.items():
        if k not in m.eq:
            p = pa(k) - v
            if b.entails(p):
                F.add(p)
            if b.entails(-p):
                F.add(-p)
    m._sub = None
    m.known = {}
    disj(m, a, b, ())
    m.care = tm.B.OR(a.care, b.care)
    m.nes = [p for p in a.nes if p in b.nes]
    m.strz = {k: v for k, v in a.strz.items() if b.strz.get(k) == v}
    return m


def facts_str(st):
    out = []
    for k, v in st.eq.items():
        out.append('%s = %s' % (show(k), showP(v)))
    for k, v in st.F.lo.items():
        out.append('%s >= %d' % ('*'.join(show(t) for t in k), v))
    for k, v in st.F.hi.items():
        out.append('%s <= %d' % ('*'.join(show(t) for t in k), v))
    for f in st.F.f.values():
        out.append('%s >= 0' % showP(f))
    for p in st.nes:
        out.append('%s != 0' % showP(p))
    for c, v in list(st.known.items())[:12]:
        if c.op not in ('ge0', 'eq0'):
            out.append('%s%s' % ('' if v else '!', show(c)))
    return out[:60]


def const_bytes(prog, ty, init):
    n = prog.layout.size(ty)
    k = init[0]
    if k == 'zero' or k == 'null':
        return [0] * n
    if k == 'const':
        w = 8 * n
        return list((init[1] & ((1 << w) - 1)).to_bytes(n, 'big' if prog.big else 'little'))
    if k == 'str':
        return list(init[1])
    if k == 'agg':
        if ty.k == 'arr':
            out = []
            for t, v in init[1]:
                out += const_bytes(prog, ty.elem, v)
            return out
        out = [0] * n
        for i, (t, v) in enumerate(init[1]):
            o = prog.layout.field_off(ty, i)
            b = const_bytes(prog, t, v)
            out[o:o + len(b)] = b
        return out
    raise Unsupported('initialiser %s' % k)
