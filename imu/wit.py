"""Members of the concretisation: given an abstract state with no widened component, find
an assignment of the inputs satisfying every recorded path condition under which a
condition fails.  Used only to separate real alarms from imprecision."""
import random
import term as tm
from term import *


class NoEval(Exception):
    pass


class Env:
    def __init__(s, rnd=None):
        s.v = {}          # T -> natural integer
        s.mem = {}        # (mem, offset) -> byte
        s.fn = {}
        s.memo = {}
        s.fresh = []
        s.eq = {}
        s.busy = set()
        s.rnd = rnd
        s.pool = None

    def default(s, t):
        if s.rnd is None or not s.pool:
            return 0
        x = s.rnd.choice(s.pool)
        return x

    def nat(s, t):
        """natural integer value of an atom"""
        op = t.op
        if op == 'sym':
            r = s.v.get(t)
            if r is None:
                q = s.eq.get(t)
                if q is not None:
                    if t in s.busy:
                        raise NoEval('cycle')
                    s.busy.add(t)
                    r = s.P(q)
                    s.busy.discard(t)
                else:
                    r = s.default(t)
                    if t.w:
                        r = sgn(r, t.w) if t.signed else r & ((1 << t.w) - 1)
                s.v[t] = r
            return r
        if op == 'S':
            return sgn(s.T(t.a[0]), t.a[0].w)
        if op == 'U':
            return s.T(t.a[0])
        v = s.T(t)
        return sgn(v, t.w) if t.signed and t.w else v

    def P(s, p):
        r = p.c
        for k, v in p.m.items():
            for t in k:
                v *= s.nat(t)
            r += v
        return r

    def T(s, t):
        r = s.memo.get(t)
        if r is None:
            r = s._T(t)
            if t.w:
                r &= (1 << t.w) - 1
            s.memo[t] = r
        return r

    def _T(s, t):
        op, w = t.op, t.w
        if op == 'C':
            return t.x
        if op == 'W':
            return s.P(t.x)
        if op == 'sym':
            return s.nat(t)
        if op == 'sel':
            q = s.eq.get(t)
            m, off, n = t.x
            if t in s.v:
                return s.v[t]
            o = s.P(off)
            if q is not None and t not in s.busy:
                s.busy.add(t)
                val = s.P(q)
                s.busy.discard(t)
                for i in range(n):
                    b = (val >> (8 * i)) & 255
                    if s.mem.setdefault((m, o + i), b) != b:
                        raise NoEval('memory')
                return val
            r = 0
            for i in range(n):
                b = s.mem.get((m, o + i))
                if b is None:
                    b = s.mem[(m, o + i)] = s.default(t) & 255
                r |= b << (8 * i)
            return r
        if op == 'fn':
            if t in s.v:
                return s.v[t]
            q = s.eq.get(t)
            name, x = t.x
            key = (name, tuple(s.T(a) for a in t.a), tuple(s.P(e) if isinstance(e, P) else e for e in x) if isinstance(x, tuple) else x)
            r = s.fn.get(key)
            if r is None:
                if q is not None and t not in s.busy:
                    s.busy.add(t)
                    r = s.P(q)
                    s.busy.discard(t)
                else:
                    r = s.default(t)
                r &= (1 << w) - 1
                s.fn[key] = r
            return r
        if op == 'not':
            return 1 - s.T(t.a[0])
        if op == 'ge0':
            return int(s.P(t.x) >= 0)
        if op == 'eq0':
            return int(s.P(t.x) == 0)
        if op == 'ext':
            x = t.a[0]
            return (s.nat(x) if x.w == 0 else s.T(x)) >> t.x
        if op == 'ite':
            return s.T(t.a[1] if s.T(t.a[0]) else t.a[2])
        a = [s.T(x) for x in t.a]
        if op == 'and':
            r = a[0]
            for x in a[1:]:
                r &= x
            return r
        if op == 'or':
            r = 0
            for x in a:
                r |= x
            return r
        if op == 'xor':
            r = 0
            for x in a:
                r ^= x
            return r
        if op == 'tbl':
            vals = TABLES[t.x[0]]
            if a[0] >= len(vals):
                raise NoEval('table')
            return vals[a[0]]
        aw = t.a[0].w
        if op == 'cmp':
            if t.x == 'eq':
                return int(a[0] == a[1])
            if t.x == 'ult':
                return int(a[0] < a[1])
            return int(sgn(a[0], aw) < sgn(a[1], aw))
        if op == 'S':
            return sgn(a[0], aw)
        if op == 'U':
            return a[0]
        if op in ('shl', 'lshr', 'ashr'):
            if a[1] >= w:
                raise NoEval('shift')
            if op == 'shl':
                return a[0] << a[1]
            return a[0] >> a[1] if op == 'lshr' else sgn(a[0], w) >> a[1]
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if a[1] == 0:
                raise NoEval('division')
            if op[0] == 'u':
                return a[0] // a[1] if op == 'udiv' else a[0] % a[1]
            x, y = sgn(a[0], w), sgn(a[1], w)
            q = abs(x) // abs(y)
            q = q if (x < 0) == (y < 0) else -q
            return q if op == 'sdiv' else x - q * y
        raise NoEval(op)


def consts_of(ts):
    out = set()
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if isinstance(x, P):
            if x.m:
                g = 1
                for v in x.m.values():
                    if abs(v) > 1:
                        g = max(g, 1)
                out.add(abs(x.c))
            st += x.atoms()
            continue
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'C':
            out.add(x.x)
        elif x.op in ('W', 'ge0', 'eq0'):
            st.append(x.x)
        elif x.op == 'sel':
            st.append(x.x[1])
        elif x.op == 'ext':
            out |= {1 << (x.x + x.w), 1 << x.x}
        st += list(x.a)
    return out


def truncations(ts):
    """words from which high bits are cut off somewhere inside the given terms"""
    out, seen = {}, set()
    work = list(ts)
    while work:
        x = work.pop()
        if isinstance(x, P):
            work += x.atoms()
            continue
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('W', 'ge0', 'eq0'):
            work.append(x.x)
        elif x.op == 'sel':
            work.append(x.x[1])
        elif x.op == 'ext' and x.x == 0 and x.w in (8, 16, 32):
            out[(x.a[0], x.w)] = None
        if x.op == 'W' and x.w in (8, 16, 32):
            out[(x, x.w)] = None
        work += list(x.a)
    return list(out)


def holds(env, st, neg):
    for c, v in st.hard:
        if bool(env.T(c)) != v:
            return False
    for c, v in st.known.items():
        if bool(env.T(c)) != v:
            return False
    for k, v in st.eq.items():
        if env.nat(k) != env.P(v):
            return False
        if k.w:
            l, h = rng(k)
            if not l <= env.nat(k) <= h:
                return False
    for k, b in st.F.lo.items():
        if env.P(P(-b, {k: 1})) < 0:
            return False
    for k, b in st.F.hi.items():
        if env.P(P(b, {k: -1})) < 0:
            return False
    for p in st.F.f.values():
        if env.P(p) < 0:
            return False
    for p in st.nes:
        if env.P(p) == 0:
            return False
    for c, v in neg:
        if isinstance(c, P):
            if (env.P(c) >= 0) != v:
                return False
        elif bool(env.T(c)) != v:
            return False
    return True


def widened(x):
    """refers to a value invented by a loop abstraction"""
    for t in (psyms(x) if isinstance(x, P) else syms(x)):
        n = t.x if isinstance(t, T) and t.op == 'sym' else t
        if isinstance(n, str) and ('#' in n or '@' in n):
            return True
    return False


def compatible(env, st):
    """False only if the inputs in env rule the state out"""
    e = Env(None)
    e.mem, e.v, e.fn, e.rnd, e.pool = dict(env.mem), {k: v for k, v in env.v.items() if not widened(k)}, dict(env.fn), env.rnd, env.pool
    try:
        for c, v in st.known.items():
            c = st.canon(c)
            if not widened(c) and bool(e.T(c)) != v:
                return False
        for k, v in st.eq.items():
            v = st.norm(v)
            if not widened(k) and not widened(v) and e.nat(k) != e.P(v):
                return False
        rows = list(st.F.f.values()) + [P(-b, {k: 1}) for k, b in st.F.lo.items()] + [P(b, {k: -1}) for k, b in st.F.hi.items()]
        for p in rows:
            p = st.norm(p)
            if not widened(p) and e.P(p) < 0:
                return False
        for p in st.nes:
            p = st.norm(p)
            if not widened(p) and e.P(p) == 0:
                return False
    except (NoEval, Exception):
        return True
    return True


def linear(st, neg):
    """an assignment (bit by bit) satisfying the linear facts"""
    x = st.clone()
    x.uc = {}
    try:
        for c, v in neg:
            if isinstance(c, P):
                x.add_ge(c if v else -c - 1)
            elif not x.assume(c, v):
                return None
        m = x.F.model()
    except Exception:
        return None
    if not m:
        return None
    out = {}
    for k, v in m.items():
        if len(k) == 1 and k[0] is not None and isinstance(k[0], T) and k[0].op in ('sym', 'sel') and v == int(v):
            v = int(v)
            if v < 0:
                if not k[0].w:
                    return None
                v &= (1 << k[0].w) - 1
            out[(k[0], 0)] = v
    return out


def find(st, neg, tries=300, base=None):
    """neg: [(T or P(>=0), bool)] to hold in addition.  Returns Env or None"""
    if st.F.dead:
        return None
    terms = [c for c, v in st.hard] + [c for c in st.known] + [c for c, _ in neg] + list(st.eq) + list(st.eq.values())
    models = [{}]
    x = st.care
    try:
        for c, v in neg:
            if isinstance(c, T) and support_bits(c) <= 64:
                b = bits(c)[0]
                x = tm.B.AND(x, b if v else tm.B.NOT(b))
        if x == 0:
            return None
        models = []
        m = tm.B.model(x)
        models.append(m)
    except TooBig:
        pass
    pool = set([0, 1, 2, 65, 97, 90, 122, 48, 57, 58, 34, 255, 128, 127])
    for k in consts_of(terms):
        pool |= {k, k + 1, max(0, k - 1)}
    pool = sorted(pool)
    rnd = random.Random(7)
    lin = linear(st, neg) if base is None else None
    for i in range(-1 if lin else 0, tries):
        e = Env(rnd if i > 0 else None)
        e.pool = pool
        e.eq = st.eq
        m = models[0] if i >= 0 else {}
        if i < 0:
            m = lin
        if base:
            e.v.update(base)
        words = {}
        for (t, b), v in m.items():
            words[t] = words.get(t, 0) | (v << b)
        try:
            for t, v in words.items():
                if t.op == 'sel':
                    mm, off, n = t.x
                    o = e.P(off)
                    for j in range(n):
                        bb = (v >> (8 * j)) & 255
                        if e.mem.setdefault((mm, o + j), bb) != bb:
                            raise NoEval('memory')
                elif base and t in base:
                    pass
                elif t.op == 'sym':
                    e.v[t] = sgn(v, t.w) if t.signed and t.w else v
                else:
                    e.v[t] = v
            # unit bounds help ghosts and sizes
            for k, b in st.F.lo.items():
                if len(k) == 1 and k[0].op == 'sym' and k[0] not in e.v and k[0] not in st.eq and i % 2 == 0:
                    h = st.F.hi.get(k)
                    e.v[k[0]] = b if i < 4 or h is None else rnd.choice([b, h, (b + h) // 2])
            if holds(e, st, neg):
                return e
        except NoEval:
            pass
    return None


def describe(env, st, limit=14):
    out = []
    for t, v in sorted(env.v.items(), key=lambda kv: kv[0].id):
        if t.op == 'sym' and '#' not in str(t.x):
            out.append('%s=%d' % (t.x, v))
    for (m, o), b in sorted(env.mem.items(), key=lambda kv: (str(kv[0][0]), kv[0][1])):
        out.append('%s[%d]=%d' % (m, o, b))
    return ' '.join(out[:limit]) + (' ...' if len(out) > limit else '')
