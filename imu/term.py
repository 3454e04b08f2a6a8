"""Abstract values.

P : interned integer polynomial over atoms (exact integers, no wrap).
T : interned machine word.  A word is a constant ('C'), an atom, or a linear
    form ('W', P taken modulo 2^w).  Bitwise structure is kept canonical enough
    for value numbering; Boolean functions of the bits are available as ROBDDs.
"""
import sys
import time
sys.setrecursionlimit(200000)


class TooBig(Exception):
    pass


# ------------------------------------------------------------------ T
class T:
    __slots__ = ('op', 'w', 'a', 'x', 'id', 'signed', '_rng', '_syms', 'birth', '__weakref__')

    def __repr__(s):
        return show(s)

    def __lt__(s, o):
        return s.id < o.id


_T = {}
_nid = [0]


def _mk(op, w, a=(), x=None):
    key = (op, w, tuple([t.id for t in a]), x.key if isinstance(x, P) else x)
    t = _T.get(key)
    if t is None:
        t = T()
        t.op, t.w, t.a, t.x = op, w, a, x
        _nid[0] += 1
        t.id = _nid[0]
        t.signed = False
        t._rng = None
        t._syms = None
        t.birth = 0
        _T[key] = t
    return t


# ------------------------------------------------------------------ P
class P:
    __slots__ = ('c', 'm', 'key', '_h')
    """c + sum m[mono]*prod(mono)"""

    def __init__(s, c, m):
        s.c = c
        s.m = m
        s.key = ('P', c, tuple(sorted((tuple([t.id for t in k]), v) for k, v in m.items())))
        s._h = hash(s.key)

    def __hash__(s):
        return s._h

    def __eq__(s, o):
        return s is o or (o.__class__ is P and s._h == o._h and s.key == o.key)

    def __add__(s, o):
        if isinstance(o, int):
            return P(s.c + o, s.m)
        if not o.m:
            return P(s.c + o.c, s.m)
        m = dict(s.m)
        for k, v in o.m.items():
            n = m.get(k, 0) + v
            if n:
                m[k] = n
            else:
                m.pop(k, None)
        return P(s.c + o.c, m)

    __radd__ = __add__

    def __neg__(s):
        return P(-s.c, {k: -v for k, v in s.m.items()})

    def __sub__(s, o):
        if isinstance(o, int):
            return P(s.c - o, s.m)
        return s + (-o)

    def __rsub__(s, o):
        return (-s) + o

    def scale(s, k):
        if k == 0:
            return ZERO
        if k == 1:
            return s
        return P(s.c * k, {a: v * k for a, v in s.m.items()})

    def __mul__(s, o):
        if isinstance(o, int):
            return s.scale(o)
        if not o.m:
            return s.scale(o.c)
        if not s.m:
            return o.scale(s.c)
        m = {}
        c = s.c * o.c
        for k, v in s.m.items():
            if o.c:
                m[k] = m.get(k, 0) + v * o.c
        for k, v in o.m.items():
            if s.c:
                m[k] = m.get(k, 0) + v * s.c
        for k, v in s.m.items():
            for k2, v2 in o.m.items():
                kk = tuple(sorted(k + k2, key=lambda t: t.id))
                m[kk] = m.get(kk, 0) + v * v2
        return P(c, {k: v for k, v in m.items() if v})

    __rmul__ = __mul__

    def is_const(s):
        return not s.m

    def atoms(s):
        return list(dict.fromkeys(t for k in s.m for t in k))

    def single(s):
        """atom if s is exactly one atom"""
        if s.c == 0 and len(s.m) == 1:
            (k, v), = s.m.items()
            if v == 1 and len(k) == 1:
                return k[0]
        return None

    def __repr__(s):
        out = []
        for k, v in sorted(s.m.items(), key=lambda kv: [t.id for t in kv[0]]):
            n = '*'.join(show(t) for t in k)
            out.append(n if v == 1 else '-' + n if v == -1 else '%d*%s' % (v, n))
        if s.c or not out:
            out.append(str(s.c))
        return ' + '.join(out).replace('+ -', '- ')


ZERO = P(0, {})
ONE = P(1, {})


def pc(n):
    return P(n, {})


def pa(t):
    """the natural integer value of atom t"""
    if t.op == 'C':
        return P(t.x, {})
    return P(0, {(t,): 1})


# ------------------------------------------------------------------ ranges
def rng(t):
    """integer range of atom t (natural view); None = unbounded"""
    r = t._rng
    if r is None:
        r = t._rng = _range(t)
    return r


def _range(t):
    op = t.op
    if t.w == 0:
        return (None, None)
    full = (0, (1 << t.w) - 1)
    if op == 'C':
        return (t.x, t.x)
    if op == 'sym' or op == 'sel' or op == 'fn':
        if t.signed:
            return (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1)
        return full
    if op == 'S':
        x = t.a[0]
        return (-(1 << (x.w - 1)), (1 << (x.w - 1)) - 1)
    if op == 'and':
        hi = full[1]
        for x in t.a:
            r = urng(x)
            if r[1] < hi:
                hi = r[1]
        return (0, hi)
    if op in ('or', 'xor'):
        hi = 0
        for x in t.a:
            hi = max(hi, urng(x)[1])
        return (0, (1 << hi.bit_length()) - 1)
    if op == 'ext':
        x = t.a[0]
        lo = t.x
        r = urng(x)
        if (r[1] >> lo) <= full[1]:
            return (r[0] >> lo if (r[1] >> (lo + t.w)) == 0 else 0, r[1] >> lo)
        return full
    if op == 'ite':
        a, b = urng(t.a[1]), urng(t.a[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == 'tbl':
        vals = TABLES[t.x[0]]
        return (min(vals), max(vals))
    if op == 'urem' and t.a[1].op == 'C' and t.a[1].x:
        return (0, min(t.a[1].x - 1, urng(t.a[0])[1]))
    if op == 'udiv' and t.a[1].op == 'C' and t.a[1].x:
        return (0, urng(t.a[0])[1] // t.a[1].x)
    if op == 'lshr':
        return (0, urng(t.a[0])[1])
    return full


def prange(p):
    lo = hi = p.c
    for k, v in p.m.items():
        l, h = 1, 1
        for t in k:
            a, b = rng(t)
            if l is None or h is None or a is None or b is None:
                # only handle simple half bounded
                l = h = None
                break
            c = (l * a, l * b, h * a, h * b)
            l, h = min(c), max(c)
        if l is None:
            return (None, None)
        if v > 0:
            lo += v * l
            hi += v * h
        else:
            lo += v * h
            hi += v * l
    return (lo, hi)


def urng(t):
    """unsigned range of word t"""
    full = (0, (1 << t.w) - 1)
    if t.op == 'C':
        return (t.x, t.x)
    if t.op == 'W':
        lo, hi = prange(t.x)
        if lo is not None and lo >= 0 and hi <= full[1]:
            return (lo, hi)
        return full
    r = rng(t)
    if r[0] is None or r[0] < 0 or t.w == 0:
        return full
    return r


# ------------------------------------------------------------------ constructors
TABLES = {}


def C(w, v):
    return _mk('C', w, (), v & ((1 << w) - 1))


def sym(name, w, signed=False, birth=0):
    t = _mk('sym', w, (), name)
    t.signed = signed
    t.birth = birth
    return t


_cnt = [0]


def fresh(name, w, signed=False):
    _cnt[0] += 1
    return sym('%s#%d' % (name, _cnt[0]), w, signed, _cnt[0])


def sgn(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def asP(t):
    """a polynomial congruent to t modulo 2^w"""
    if t.op == 'W':
        return t.x
    if t.op == 'C':
        return pc(t.x)
    return pa(t)


def mkW(w, p):
    """word of width w congruent to p"""
    M = 1 << w
    if not p.m:
        return C(w, p.c)
    m = {}
    redo = False
    for k, v in p.m.items():
        v = sgn(v, w)
        if v == 0:
            continue
        if len(k) == 1:
            t = k[0]
            tz = (v & -v).bit_length() - 1
            if t.op in ('S', 'U') and t.a[0].w + tz >= w:
                q = asP(t.a[0]).scale(v)
                m2 = P(0, m) + q
                m = dict(m2.m)
                if m2.c:
                    return mkW(w, P(m2.c + p.c, _merge(m, p.m, k)))
                redo = True
                continue
            if t.w > w - tz and t.op not in ('sym0',) and t.w != 0:
                q = asP(ext(t, 0, w - tz)) if tz < w else ZERO
                # x with more bits than matter
                if w - tz <= 0:
                    continue
                if t.w == w and t.op != 'ext':
                    pass
                elif t.w > w:
                    m2 = P(0, m) + q.scale(v)
                    if m2.c:
                        return mkW(w, P(m2.c + p.c, _merge(dict(m2.m), p.m, k)))
                    m = dict(m2.m)
                    redo = True
                    continue
            elif t.op == 'ext' and t.x == 0 and t.w + tz >= w and t.a[0].w == w:
                m2 = P(0, m) + asP(t.a[0]).scale(v)
                if m2.c:
                    return mkW(w, P(m2.c + p.c, _merge(dict(m2.m), p.m, k)))
                m = dict(m2.m)
                redo = True
                continue
        n = m.get(k, 0) + v
        if n:
            m[k] = n
        else:
            m.pop(k, None)
    if redo:
        return mkW(w, P(p.c, m))
    c = sgn(p.c, w)
    if w == 1:
        # parity
        c &= 1
    if not m:
        return C(w, c)
    if len(m) == 1 and c == 0:
        (k, v), = m.items()
        if v == 1 and len(k) == 1 and k[0].w == w:
            return k[0]
        if len(k) == 1 and w == 1 and k[0].w == 1:
            return k[0]
    if w == 1:
        ts = []
        for k, v in m.items():
            if v & 1:
                if len(k) != 1 or k[0].w != 1:
                    return _mk('W', w, (), P(c, m))
                ts.append(k[0])
        r = bxor(ts) if ts else C(1, 0)
        return bnot1(r) if c else r
    q = P(c, m)
    return _mk('W', w, (), q)


def _merge(m, rest, upto):
    """m plus the monomials of rest after key `upto` (helper of mkW restart)"""
    seen = False
    out = dict(m)
    for k, v in rest.items():
        if seen:
            n = out.get(k, 0) + v
            if n:
                out[k] = n
            else:
                out.pop(k, None)
        if k == upto:
            seen = True
    return out


def add(a, b):
    return mkW(a.w, asP(a) + asP(b))


def sub_(a, b):
    return mkW(a.w, asP(a) - asP(b))


def mul(a, b):
    return mkW(a.w, asP(a) * asP(b))


def uview(t):
    """P equal to the unsigned value of t without proofs beyond intervals"""
    if t.op == 'C':
        return pc(t.x)
    if t.op == 'W':
        lo, hi = prange(t.x)
        if lo is not None and lo >= 0 and hi < (1 << t.w):
            return t.x
        return pa(_mk('U', t.w, (t,)))
    if t.signed:
        return pa(_mk('U', t.w, (t,)))
    return pa(t)


def sview(t):
    if t.op == 'C':
        return pc(sgn(t.x, t.w))
    if t.op == 'W':
        lo, hi = prange(t.x)
        if lo is not None and lo >= -(1 << (t.w - 1)) and hi < (1 << (t.w - 1)):
            return t.x
        return pa(_mk('S', t.w, (t,)))
    if t.signed or (t.w and rng(t)[1] < (1 << (t.w - 1))):
        return pa(t)
    return pa(_mk('S', t.w, (t,)))


def zext(t, w):
    return mkW(w, uview(t)) if w > t.w else t


def sext(t, w):
    return mkW(w, sview(t)) if w > t.w else t


def trunc(t, w):
    return ext(t, 0, w)


def fields(t):
    """decompose word into disjoint unsigned bit fields [(lo,len,atomword)], or None"""
    if t.op == 'C':
        out = []
        v = t.x
        lo = 0
        while v >> lo:
            if not (v >> lo) & 1:
                lo += 1
                continue
            n = 0
            while (v >> (lo + n)) & 1:
                n += 1
            out.append((lo, n, C(n, (1 << n) - 1)))
            lo += n
        return out
    if t.op != 'W':
        if t.signed or t.w == 0:
            return None
        n = rng(t)[1].bit_length()
        return [(0, n, t)]
    p = t.x
    out = []
    used = 0
    if p.c < 0 and prange(p)[0] is not None and False:
        return None
    for k, v in p.m.items():
        v &= (1 << t.w) - 1
        if len(k) != 1 or v & (v - 1):
            return None
        a = k[0]
        if a.signed or a.op == 'S' or a.w == 0:
            return None
        lo = v.bit_length() - 1
        n = rng(a)[1].bit_length()
        if lo + n > t.w:
            # top bits fall off
            n = t.w - lo
        m = ((1 << n) - 1) << lo
        if used & m:
            return None
        used |= m
        out.append((lo, n, a))
    c = p.c & ((1 << t.w) - 1)
    if c & used:
        return None
    if c:
        out += fields(C(t.w, c))
    return out


def ext(t, lo, n):
    if lo == 0 and n == t.w:
        return t
    if t.w and lo + n > t.w:
        raise ValueError('ext')
    if t.op == 'C':
        return C(n, t.x >> lo)
    if t.op == 'ext':
        return ext(t.a[0], t.x + lo, n)
    if t.op == 'W':
        if lo == 0:
            return mkW(n, t.x)
        fs = fields(t)
        if fs is not None:
            p = ZERO
            for (l, k, a) in fs:
                h = l + k
                s, e = max(l, lo), min(h, lo + n)
                if s >= e:
                    continue
                piece = ext(a, s - l, min(e - s, a.w - (s - l))) if a.op != 'C' else C(e - s, (1 << (e - s)) - 1)
                p = p + uview(piece).scale(1 << (s - lo))
            return mkW(n, p)
    if t.op in ('U',):
        return ext(t.a[0], lo, n)
    if t.op == 'S':
        if lo + n <= t.a[0].w:
            return ext(t.a[0], lo, n)
    if t.op == 'not':
        return bnot1(ext(t.a[0], lo, n))
    if t.op == 'sel' and n == 8 and lo % 8 == 0:
        return sel(t.x[0], t.x[1] + lo // 8, 1)
    if not t.signed and t.w and t.op not in ('W',):
        hi = rng(t)[1].bit_length()
        if lo >= hi:
            return C(n, 0)
        if lo == 0 and n >= hi and t.op != 'sym':
            pass
    return _mk('ext', n, (t,), lo)


def known_zero_disjoint(ts):
    used = 0
    for t in ts:
        fs = fields(t)
        if fs is None:
            return False
        m = 0
        for lo, n, a in fs:
            m |= ((1 << n) - 1) << lo
        if used & m:
            return False
        used |= m
    return True


def bits_mask(t):
    """mask of possibly-one bits"""
    fs = fields(t)
    if fs is None:
        return (1 << t.w) - 1
    m = 0
    for lo, n, a in fs:
        m |= ((1 << n) - 1) << lo
    return m


def _nary(op, ts):
    w = ts[0].w
    flat = []
    cv = None
    for t in ts:
        if t.op == op:
            for u in t.a:
                flat.append(u)
        else:
            flat.append(t)
    out = []
    for t in flat:
        if t.op == 'C':
            cv = t.x if cv is None else (cv & t.x if op == 'and' else cv | t.x if op == 'or' else cv ^ t.x)
        else:
            out.append(t)
    return w, out, cv


def band(ts):
    w, out, cv = _nary('and', ts)
    out = sorted(set(out), key=lambda t: t.id)
    full = (1 << w) - 1
    if cv is not None:
        if cv == 0:
            return C(w, 0)
        if cv == full:
            cv = None
    if not out:
        return C(w, full if cv is None else cv)
    if w == 1:
        for t in out:
            if bnot1(t) in out:
                return C(1, 0)
        return out[0] if len(out) == 1 else _mk('and', 1, tuple(out))
    if len(out) == 1:
        x = out[0]
        if cv is None:
            return x
        m = bits_mask(x)
        if m & ~cv == 0:
            return x
        cv &= m
        if cv == 0:
            return C(w, 0)
        runs = [(l, n) for l, n, _ in fields(C(w, cv))]
        if len(runs) <= 4:
            p = ZERO
            for l, n in runs:
                p = p + uview(ext(x, l, n)).scale(1 << l)
            return mkW(w, p)
        return _mk('and', w, (x, C(w, cv)))
    # narrow to common possible bits
    m = full if cv is None else cv
    for t in out:
        m &= bits_mask(t)
    if m == 0:
        return C(w, 0)
    n = m.bit_length()
    if n < w:
        ys = [ext(t, 0, n) for t in out]
        if cv is not None and (cv & ((1 << n) - 1)) != (1 << n) - 1:
            ys.append(C(n, cv))
        return zext(band(ys), w)
    return _mk('and', w, tuple(out) + (() if cv is None else (C(w, cv),)))


def bor(ts):
    w, out, cv = _nary('or', ts)
    full = (1 << w) - 1
    out = sorted(set(out), key=lambda t: t.id)
    if cv == full:
        return C(w, full)
    if cv == 0:
        cv = None
    if w == 1:
        if not out:
            return C(1, cv or 0)
        for t in out:
            if bnot1(t) in out:
                return C(1, 1)
        return out[0] if len(out) == 1 else _mk('or', 1, tuple(out))
    allt = out + ([C(w, cv)] if cv else [])
    if not allt:
        return C(w, 0)
    if len(allt) == 1:
        return allt[0]
    if known_zero_disjoint(allt):
        p = ZERO
        for t in allt:
            p = p + asP(t)
        return mkW(w, p)
    if cv is not None and len(out) == 1:
        # x | c == (x & ~c) + c
        x = band([out[0], C(w, ~cv)])
        return mkW(w, asP(x) + cv)
    m = 0
    for t in allt:
        m |= bits_mask(t)
    n = m.bit_length()
    if n < w:
        return zext(bor([ext(t, 0, n) for t in allt]), w)
    return _mk('or', w, tuple(allt))


def bxor(ts):
    w, out, cv = _nary('xor', ts)
    cnt = {}
    for t in out:
        cnt[t] = cnt.get(t, 0) ^ 1
    out = sorted([t for t, k in cnt.items() if k], key=lambda t: t.id)
    if cv == 0:
        cv = None
    if w == 1:
        inv = cv or 0
        o2 = {}
        for t in out:
            if t.op == 'not':
                inv ^= 1
                t = t.a[0]
            o2[t] = o2.get(t, 0) ^ 1
        out = sorted([t for t, k in o2.items() if k], key=lambda t: t.id)
        if not out:
            return C(1, inv)
        r = out[0] if len(out) == 1 else _mk('xor', 1, tuple(out))
        return bnot1(r) if inv else r
    allt = out + ([C(w, cv)] if cv else [])
    if not allt:
        return C(w, 0)
    if len(allt) == 1:
        return allt[0]
    if cv == (1 << w) - 1 and len(out) == 1:
        return mkW(w, -asP(out[0]) - 1)
    if known_zero_disjoint(allt):
        p = ZERO
        for t in allt:
            p = p + asP(t)
        return mkW(w, p)
    m = 0
    for t in allt:
        m |= bits_mask(t)
    n = m.bit_length()
    if n < w:
        return zext(bxor([ext(t, 0, n) for t in allt]), w)
    return _mk('xor', w, tuple(allt))


def bnot1(t):
    if t.op == 'C':
        return C(1, 1 - t.x)
    if t.op == 'not':
        return t.a[0]
    if t.op == 'ge0':
        return ge0(-t.x - 1)
    return _mk('not', 1, (t,))


def bnot(t):
    return bnot1(t) if t.w == 1 else mkW(t.w, -asP(t) - 1)


def shl(t, s):
    if s.op == 'C':
        return mkW(t.w, asP(t).scale(1 << s.x)) if s.x < t.w else C(t.w, 0)
    return _mk('shl', t.w, (t, s))


def lshr(t, s):
    if s.op == 'C':
        k = s.x
        if k == 0:
            return t
        return zext(ext(t, k, t.w - k), t.w) if k < t.w else C(t.w, 0)
    return _mk('lshr', t.w, (t, s))


def ashr(t, s):
    if s.op == 'C':
        k = s.x
        if k == 0:
            return t
        k = min(k, t.w - 1)
        if urng(t)[1] < (1 << (t.w - 1)):
            return lshr(t, s)
        return sext(ext(t, k, t.w - k), t.w)
    return _mk('ashr', t.w, (t, s))


def udiv(a, b):
    if b.op == 'C' and b.x:
        if a.op == 'C':
            return C(a.w, a.x // b.x)
        if b.x & (b.x - 1) == 0:
            return lshr(a, C(a.w, b.x.bit_length() - 1))
    return _mk('udiv', a.w, (a, b))


def urem(a, b):
    if b.op == 'C' and b.x:
        if a.op == 'C':
            return C(a.w, a.x % b.x)
        if b.x & (b.x - 1) == 0:
            return band([a, C(a.w, b.x - 1)])
        if urng(a)[1] < b.x:
            return a
    return _mk('urem', a.w, (a, b))


def sdiv(a, b):
    if a.op == 'C' and b.op == 'C' and b.x:
        x, y = sgn(a.x, a.w), sgn(b.x, b.w)
        q = abs(x) // abs(y)
        return C(a.w, q if (x < 0) == (y < 0) else -q)
    if b.op == 'C' and sgn(b.x, b.w) > 0 and urng(a)[1] < (1 << (a.w - 1)):
        return udiv(a, b)
    return _mk('sdiv', a.w, (a, b))


def srem(a, b):
    if a.op == 'C' and b.op == 'C' and b.x:
        x, y = sgn(a.x, a.w), sgn(b.x, b.w)
        r = abs(x) % abs(y)
        return C(a.w, -r if x < 0 else r)
    if b.op == 'C' and sgn(b.x, b.w) > 0 and urng(a)[1] < (1 << (a.w - 1)):
        return urem(a, b)
    return _mk('srem', a.w, (a, b))


def ge0(p):
    if not p.m:
        return C(1, 1 if p.c >= 0 else 0)
    p = norm_ge(p)
    lo, hi = prange(p)
    if lo is not None and lo >= 0:
        return C(1, 1)
    if hi is not None and hi < 0:
        return C(1, 0)
    return _mk('ge0', 1, (), p)


def eq0(p):
    if not p.m:
        return C(1, 1 if p.c == 0 else 0)
    k0 = min(p.m, key=lambda k: [t.id for t in k])
    if p.m[k0] < 0:
        p = -p
    lo, hi = prange(p)
    if lo is not None and (lo > 0 or hi < 0):
        return C(1, 0)
    return _mk('eq0', 1, (), p)


def gcdl(it):
    from math import gcd
    g = 0
    for v in it:
        g = gcd(g, v)
        if g == 1:
            return 1
    return g


def norm_ge(p):
    g = gcdl(p.m.values())
    if g > 1:
        return P(p.c // g, {k: v // g for k, v in p.m.items()})
    return p


def icmp(pred, a, b):
    """condition word for icmp"""
    if pred == 'ne':
        return bnot1(icmp('eq', a, b))
    if pred in ('ugt', 'sgt'):
        return icmp(pred[0] + 'lt', b, a)
    if pred in ('uge', 'sge'):
        return bnot1(icmp(pred[0] + 'lt', a, b))
    if pred in ('ule', 'sle'):
        return bnot1(icmp(pred[0] + 'lt', b, a))
    w = a.w
    if a.op == 'C' and b.op == 'C':
        x, y = a.x, b.x
        if pred == 'eq':
            return C(1, int(x == y))
        if pred == 'ult':
            return C(1, int(x < y))
        return C(1, int(sgn(x, w) < sgn(y, w)))
    if pred == 'eq':
        if a is b:
            return C(1, 1)
        if a.op == 'C':
            a, b = b, a
        if w == 1:
            return bnot1(bxor([a, b]))
        # boolean-valued left side
        d = asP(a) - asP(b)
        if len(d.m) == 1:
            (k, v), = d.m.items()
            if len(k) == 1 and k[0].w == 1:
                c = k[0]
                r0 = d.c % (1 << w) == 0
                r1 = (d.c + v) % (1 << w) == 0
                return C(1, 1) if r0 and r1 else C(1, 0) if not (r0 or r1) else c if r1 else bnot1(c)
            if len(k) == 1 and k[0].op == 'ite' and v in (1, -1):
                t = k[0]
                tgt = C(t.w, -d.c if v == 1 else d.c)
                if (tgt.x - (-d.c if v == 1 else d.c)) % (1 << w) == 0 and \
                        (t.a[1].op == 'C' or t.a[2].op == 'C'):
                    return ite(t.a[0], icmp('eq', t.a[1], tgt), icmp('eq', t.a[2], tgt))
        if len(d.m) == 1:
            (k, v), = d.m.items()
            if len(k) == 1 and v in (1, -1):
                t = k[0]
                if t.w and t.w < w and not t.signed and t.op != 'S':
                    val = (-d.c if v == 1 else d.c) % (1 << w)
                    if val >> t.w:
                        return C(1, 0)
                    return icmp('eq', t, C(t.w, val))
        elif not d.m:
            return C(1, int(d.c % (1 << w) == 0))
        if d.m and len(d.m) == 2 and d.c == 0:
            (k1, v1), (k2, v2) = d.m.items()
            if len(k1) == 1 and len(k2) == 1 and v1 == -v2 and abs(v1) == 1:
                x, y = k1[0], k2[0]
                if x.w == y.w and x.w < w and x.w and (x.op == 'S') == (y.op == 'S') and x.signed == y.signed:
                    if x.op == 'S':
                        x, y = x.a[0], y.a[0]
                    return icmp('eq', x, y)
        for x, y in ((a, b), (b, a)):
            if y.op == 'C':
                r = urng(x)
                if y.x < r[0] or y.x > r[1]:
                    return C(1, 0)
        if b.id < a.id and b.op != 'C':
            a, b = b, a
        return _mk('cmp', 1, (a, b), 'eq')
    if a is b:
        return C(1, 0)
    if pred == 'ult':
        ra, rb = urng(a), urng(b)
        if ra[1] < rb[0]:
            return C(1, 1)
        if ra[0] >= rb[1]:
            return C(1, 0)
        if b.op == 'C' and b.x == 1:
            return icmp('eq', a, C(w, 0))
        if a.op == 'C' and a.x == 0:
            return bnot1(icmp('eq', b, C(w, 0)))
        # both from narrower unsigned atoms
        if a.op == 'W' or b.op == 'W':
            pass
        na, nb = narrow(a), narrow(b)
        if na is not None and nb is not None:
            n = max(na.w, nb.w)
            if n < w and n > 1:
                return icmp('ult', zext(na, n), zext(nb, n))
        return _mk('cmp', 1, (a, b), 'ult')
    if pred == 'slt':
        top = 1 << (w - 1)
        if urng(a)[1] < top and urng(b)[1] < top:
            return icmp('ult', a, b)
        sa, sb = prange(sview(a)), prange(sview(b))
        if sa[1] is not None and sb[0] is not None and sa[1] < sb[0]:
            return C(1, 1)
        if sa[0] is not None and sb[1] is not None and sa[0] >= sb[1]:
            return C(1, 0)
        return _mk('cmp', 1, (a, b), 'slt')
    raise ValueError(pred)


def narrow(t):
    """smallest word whose zero extension is t"""
    if t.op == 'C':
        n = max(1, t.x.bit_length())
        return C(n, t.x)
    if t.op == 'W':
        s = t.x.single()
        if s is not None and not s.signed and s.op != 'S' and s.w and s.w <= t.w:
            return s
    elif not t.signed:
        return t
    return None


def ite(c, a, b):
    if c.op == 'C':
        return a if c.x else b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    w = a.w
    if w == 1:
        if a.op == 'C' and b.op == 'C':
            return c if a.x else bnot1(c)
        if a.op == 'C':
            return bor([c, b]) if a.x else band([bnot1(c), b])
        if b.op == 'C':
            return bor([bnot1(c), a]) if b.x else band([c, a])
        return bor([band([c, a]), band([bnot1(c), b])])
    d = asP(a) - asP(b)
    dw = mkW(w, d)
    if dw.op == 'C':
        return mkW(w, asP(b) + pa(c).scale(sgn(dw.x, w)))
    # strip nested decisions on the same condition
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    return _mk('ite', w, (c, a, b))


def sel(mem, off, n, signed=False):
    t = _mk('sel', 8 * n, (), (mem, off, n))
    return t


def fn(name, w, args=(), x=None, signed=False):
    return _mk('fn', w, tuple(args), (name, x))


def tbl(name, idx):
    vals, w = TABLES[name], TABLES[('w', name)]
    if idx.op == 'C':
        return C(w, vals[idx.x])
    return _mk('tbl', w, (idx,), (name,))


# ------------------------------------------------------------------ substitution
_ticks = [0, None]


def deadline(t):
    _ticks[1] = t


def tick():
    _ticks[0] += 1
    if _ticks[0] & 1023 == 0 and _ticks[1] is not None and time.time() > _ticks[1]:
        raise TooBig('time')


class Subst:
    """simultaneous substitution of atoms by integer polynomials"""

    def __init__(s, m, fmap=None):
        s.m = m
        s.memo = {}
        s.keys = frozenset(m)

    def touches(s, t):
        return not s.keys.isdisjoint(syms(t))

    def P(s, p):
        hit = False
        for k in p.m:
            for t in k:
                if t in s.m or s.touches(t):
                    hit = True
                    break
        if not hit:
            return p
        r = pc(p.c)
        for k, v in p.m.items():
            q = pc(v)
            for t in k:
                q = q * s.atom(t)
            r = r + q
        return r

    def atom(s, t):
        q = s.m.get(t)
        if q is not None:
            return q
        if not s.touches(t):
            return pa(t)
        if t.op == 'S':
            return sview(s.T(t.a[0]))
        if t.op == 'U':
            return uview(s.T(t.a[0]))
        n = s.T(t)
        return uview(n) if not t.signed else pa(n)

    def T(s, t):
        r = s.memo.get(t)
        if r is not None:
            return r
        r = s.memo[t] = s._T(t)
        return r

    def _T(s, t):
        tick()
        if t in s.m:
            return mkW(t.w, s.m[t])
        if not s.touches(t):
            return t
        return rebuild(t, s.T, s.P)


def rebuild(t, fT, fP):
    op = t.op
    if op in ('C', 'sym'):
        return t
    if op == 'W':
        return mkW(t.w, fP(t.x))
    if op == 'sel':
        mem, off, n = t.x
        return sel(mem, fP(off), n)
    if op == 'fn':
        name, x = t.x
        if isinstance(x, tuple):
            x = tuple(fP(e) if isinstance(e, P) else e for e in x)
        return fn(name, t.w, tuple(fT(a) for a in t.a), x)
    if op == 'ge0':
        return ge0(fP(t.x))
    if op == 'eq0':
        return eq0(fP(t.x))
    a = tuple(fT(x) for x in t.a)
    if op == 'and':
        return band(a)
    if op == 'or':
        return bor(a)
    if op == 'xor':
        return bxor(a)
    if op == 'not':
        return bnot1(a[0])
    if op == 'ext':
        return ext(a[0], t.x, t.w)
    if op == 'ite':
        return ite(*a)
    if op == 'cmp':
        return icmp(t.x, *a)
    if op == 'tbl':
        return tbl(t.x[0], a[0])
    if op == 'S':
        return mkW(t.w, sview(a[0]))
    if op == 'U':
        return mkW(t.w, uview(a[0]))
    return {'shl': shl, 'lshr': lshr, 'ashr': ashr, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[op](*a)


def psyms(p):
    r = set()
    for k in p.m:
        for t in k:
            r |= syms(t)
    return r


def syms(t):
    """all sym/sel/... leaf atoms and base names below t (as a frozenset of T and mem names)"""
    r = t._syms
    if r is not None:
        return r
    s = set()
    if t.op == 'sym':
        s.add(t)
    elif t.op == 'W' or t.op in ('ge0', 'eq0'):
        s |= psyms(t.x)
    elif t.op == 'sel':
        s.add(t)
        s.add(t.x[0])
        s |= psyms(t.x[1])
    elif t.op == 'fn':
        s.add(t)
        x = t.x[1]
        if isinstance(x, tuple):
            for e in x:
                if isinstance(e, P):
                    s |= psyms(e)
                else:
                    s.add(e)
        for a in t.a:
            s |= syms(a)
    else:
        s.add(t)
        for a in t.a:
            s |= syms(a)
    t._syms = frozenset(s)
    return t._syms


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if t.op == 'C':
        return str(t.x) if t.x < 1024 else hex(t.x)
    if t.op == 'sym':
        return str(t.x)
    if d > 5:
        return '..'
    if t.op == 'W':
        return '(%s):%d' % (showP(t.x, d + 1), t.w)
    if t.op == 'sel':
        m, o, n = t.x
        return '%s[%s]%s' % (m, showP(o, d + 1), '' if n == 1 else ':%d' % n)
    if t.op == 'ge0':
        return '(%s >= 0)' % showP(t.x, d + 1)
    if t.op == 'eq0':
        return '(%s == 0)' % showP(t.x, d + 1)
    if t.op == 'cmp':
        return '(%s %s %s)' % (show(t.a[0], d + 1), {'eq': '==', 'ult': '<u', 'slt': '<s'}[t.x], show(t.a[1], d + 1))
    if t.op == 'fn':
        x = t.x[1]
        return '%s(%s)' % (t.x[0], ', '.join([show(a, d + 1) for a in t.a] + ([repr(e) for e in x] if isinstance(x, tuple) else [])))
    if t.op == 'ext':
        return '%s{%d+%d}' % (show(t.a[0], d + 1), t.x, t.w)
    if t.op == 'tbl':
        return '%s[%s]' % (t.x[0], show(t.a[0], d + 1))
    return '%s(%s)' % (t.op, ', '.join(show(a, d + 1) for a in t.a))


def showP(p, d=0):
    out = []
    for k, v in sorted(p.m.items(), key=lambda kv: [t.id for t in kv[0]]):
        n = '*'.join(show(t, d) for t in k)
        out.append(n if v == 1 else '-' + n if v == -1 else '%d*%s' % (v, n))
    if p.c or not out:
        out.append(str(p.c))
    return ' + '.join(out).replace('+ -', '- ')


# ------------------------------------------------------------------ ROBDD
class BDD:
    def __init__(s, limit=3000000):
        s.lv = [1 << 60, 1 << 60]
        s.lo = [0, 1]
        s.hi = [0, 1]
        s.u = {}
        s.memo = {}
        s.limit = limit
        s.serial = {}
        s.vars = {}

    def node(s, v, l, h):
        if l == h:
            return l
        k = (v, l, h)
        r = s.u.get(k)
        if r is None:
            r = len(s.lv)
            if r > s.limit:
                raise TooBig('bdd')
            s.lv.append(v)
            s.lo.append(l)
            s.hi.append(h)
            s.u[k] = r
        return r

    def var(s, t, bit):
        n = s.serial.get(t)
        if n is None:
            n = s.serial[t] = len(s.serial)
        v = n * 16 + (7 - bit) if 0 < t.w <= 8 else (1 << 40) + bit * 1000000 + n
        s.vars[v] = (t, bit)
        return s.node(v, 0, 1)

    def ite(s, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = s.memo.get(k)
        if r is not None:
            return r
        lv = s.lv
        v = min(lv[f], lv[g], lv[h])
        f0, f1 = (s.lo[f], s.hi[f]) if lv[f] == v else (f, f)
        g0, g1 = (s.lo[g], s.hi[g]) if lv[g] == v else (g, g)
        h0, h1 = (s.lo[h], s.hi[h]) if lv[h] == v else (h, h)
        r = s.node(v, s.ite(f0, g0, h0), s.ite(f1, g1, h1))
        s.memo[k] = r
        if len(s.memo) > 6000000:
            s.memo.clear()
        return r

    def AND(s, a, b):
        if a > b:
            a, b = b, a
        return s.ite(a, b, 0)

    def OR(s, a, b):
        return s.ite(a, 1, b)

    def NOT(s, a):
        return s.ite(a, 0, 1)

    def XOR(s, a, b):
        if a == b:
            return 0
        if a > b:
            a, b = b, a
        if a == 0:
            return b
        if a == 1:
            return s.NOT(b)
        return s.ite(a, s.NOT(b), b)

    def exists(s, f, drop):
        """quantify the variables v with drop(term) away"""
        memo = {}
        dv = {}

        def go(f):
            if f < 2:
                return f
            r = memo.get(f)
            if r is None:
                v = s.lv[f]
                d = dv.get(v)
                if d is None:
                    d = dv[v] = drop(s.vars[v][0])
                l, h = go(s.lo[f]), go(s.hi[f])
                r = memo[f] = s.OR(l, h) if d else s.ite(s.node(v, 0, 1), h, l)
            return r
        return go(f)

    def model(s, f):
        """one satisfying assignment {(T,bit):0/1}"""
        out = {}
        while f > 1:
            if s.hi[f] != 0:
                out[s.vars[s.lv[f]]] = 1
                f = s.hi[f]
            else:
                out[s.vars[s.lv[f]]] = 0
                f = s.lo[f]
        return out

    def support(s, f):
        seen = set()
        out = set()
        st = [f]
        while st:
            x = st.pop()
            if x <= 1 or x in seen:
                continue
            seen.add(x)
            out.add(s.vars[s.lv[x]])
            st += [s.lo[x], s.hi[x]]
        return out


B = BDD()
_bits = {}


def clear_bits():
    global B
    B = BDD()
    _bits.clear()
    _selrep.clear()
    _leaf.clear()


def bits(t, cut=None):
    """list of BDDs, LSB first"""
    if cut is not None and t in cut:
        return [B.var(t, i) for i in range(t.w)]
    r = _bits.get(t) if cut is None else cut.get(('b', t)) if isinstance(cut, dict) else None
    if r is None:
        r = _bitsof(t, cut)
        assert len(r) == t.w, (t.op, t.w, len(r))
        if cut is None:
            _bits[t] = r
        elif isinstance(cut, dict):
            cut[('b', t)] = r
    return r


def bv_add(a, b, cin=0):
    out = []
    c = cin
    for x, y in zip(a, b):
        xy = B.XOR(x, y)
        out.append(B.XOR(xy, c))
        c = B.OR(B.AND(x, y), B.AND(c, xy))
    return out, c


def bv_neg(a):
    return bv_add([B.NOT(x) for x in a], [0] * len(a), 1)[0]


def bv_ult(a, b):
    # a < b
    lt = 0
    for x, y in zip(a, b):
        lt = B.ite(B.XOR(x, y), y, lt)
    return lt


def bv_const(v, w):
    return [(v >> i) & 1 for i in range(w)]


def bv_mux(c, a, b):
    return [B.ite(c, x, y) for x, y in zip(a, b)]


def bv_mulc(a, k, w):
    """a * k (k >= 0) mod 2^w"""
    acc = [0] * w
    i = 0
    while k >> i and i < w:
        if (k >> i) & 1:
            acc, _ = bv_add(acc, [0] * i + a[:w - i])
        i += 1
    return acc


def bv_divmod(a, b):
    w = len(a)
    r = [0] * w
    q = [0] * w
    for i in range(w - 1, -1, -1):
        r2 = [a[i]] + r
        bb = list(b) + [0]
        lt = bv_ult(r2, bb)
        d, _ = bv_add(r2, [B.NOT(x) for x in bb], 1)
        r = bv_mux(lt, r2, d)[:w]
        q[i] = B.NOT(lt)
    return q, r


def atom_bits_ext(t, w, cut):
    """bits of the integer value of atom t, two's complement, width w"""
    if t.op == 'S':
        b = bits(t.a[0], cut)
        return (b + [b[-1]] * max(0, w - len(b)))[:w]
    if t.op == 'U':
        b = bits(t.a[0], cut)
        return (b + [0] * max(0, w - len(b)))[:w]
    if t.w == 0:
        return [B.var(t, i) for i in range(w)]
    b = bits(t, cut)
    f = b[-1] if t.signed else 0
    return (b + [f] * max(0, w - len(b)))[:w]


def poly_bits(p, w, cut=None):
    pos = bv_const(p.c, w)
    neg = [0] * w
    hasneg = False
    for k, v in p.m.items():
        x = atom_bits_ext(k[0], w, cut)
        for t in k[1:]:
            y = atom_bits_ext(t, w, cut)
            acc = [0] * w
            for i in range(w):
                if y[i]:
                    acc, _ = bv_add(acc, [0] * i + [B.AND(y[i], z) for z in x[:w - i]])
            x = acc
        if v > 0:
            pos, _ = bv_add(pos, bv_mulc(x, v, w))
        else:
            hasneg = True
            neg, _ = bv_add(neg, bv_mulc(x, -v, w))
    if hasneg:
        pos, _ = bv_add(pos, [B.NOT(x) for x in neg], 1)
    return pos


_selrep = {}


def selrep(t):
    """one name for reads of the same memory at bitwise equal small offsets"""
    mem, off, n = t.x
    if all(a.op in ('sym', 'sel') for a in off.atoms()):
        return t
    lo, hi = prange(off)
    if lo is None or hi is None or lo < 0 or hi >= 1 << 16:
        return t
    try:
        key = (mem, n, t.signed, tuple(poly_bits(off, 17)))
    except TooBig:
        return t
    return _selrep.setdefault(key, t)


def _bitsof(t, cut):
    op = t.op
    w = t.w
    b = lambda x: bits(x, cut)
    if op == 'C':
        return bv_const(t.x, w)
    if op == 'sel' and cut is None:
        t = selrep(t)
    if op in ('sym', 'sel', 'fn'):
        return [B.var(t, i) for i in range(w)]
    if op == 'W':
        return poly_bits(t.x, w, cut)
    if op in ('and', 'or', 'xor'):
        f = {'and': B.AND, 'or': B.OR, 'xor': B.XOR}[op]
        r = b(t.a[0])
        for x in t.a[1:]:
            r = [f(p, q) for p, q in zip(r, b(x))]
        return r
    if op == 'not':
        return [B.NOT(b(t.a[0])[0])]
    if op == 'ext':
        x = t.a[0]
        if x.w == 0:
            return [B.var(x, i) for i in range(t.x, t.x + w)]
        return b(x)[t.x:t.x + w]
    if op == 'ite':
        return bv_mux(b(t.a[0])[0], b(t.a[1]), b(t.a[2]))
    if op == 'cmp':
        x, y = b(t.a[0]), b(t.a[1])
        if t.x == 'eq':
            r = 1
            for p, q in zip(x, y):
                r = B.AND(r, B.NOT(B.XOR(p, q)))
            return [r]
        if t.x == 'slt':
            x = x[:-1] + [B.NOT(x[-1])]
            y = y[:-1] + [B.NOT(y[-1])]
        return [bv_ult(x, y)]
    if op in ('ge0', 'eq0'):
        lo, hi = prange(t.x)
        if lo is None:
            raise TooBig('unbounded')
        n = max(abs(lo), abs(hi)).bit_length() + 2
        if n > 40:
            raise TooBig('wide')
        x = poly_bits(t.x, n, cut)
        if op == 'ge0':
            return [B.NOT(x[-1])]
        r = 0
        for p in x:
            r = B.OR(r, p)
        return [B.NOT(r)]
    if op == 'tbl':
        idx = b(t.a[0])
        vals = TABLES[t.x[0]]
        n = min(len(idx), max(1, (len(vals) - 1).bit_length()))
        hi = 0
        for p in idx[n:]:
            hi = B.OR(hi, p)
        out = []
        for k in range(w):
            lv = [(vals[i] >> k) & 1 if i < len(vals) else 0 for i in range(1 << n)]
            for j in range(n):
                lv = [B.ite(idx[j], lv[2 * i + 1], lv[2 * i]) for i in range(len(lv) // 2)]
            out.append(lv[0])
        return out
    if op in ('shl', 'lshr', 'ashr'):
        x = b(t.a[0])
        s = b(t.a[1])
        fill = x[-1] if op == 'ashr' else 0
        j = 0
        while (1 << j) < w:
            k = 1 << j
            sh = [0] * k + x[:w - k] if op == 'shl' else x[k:] + [fill] * k
            x = bv_mux(s[j], sh, x)
            j += 1
        return x
    if op in ('udiv', 'urem'):
        if t.a[1].op != 'C' and t.w > 16:
            raise TooBig('div')
        q, r = bv_divmod(b(t.a[0]), b(t.a[1]))
        return q if op == 'udiv' else r
    if op in ('sdiv', 'srem'):
        if t.a[1].op != 'C' and t.w > 16:
            raise TooBig('div')
        x, y = b(t.a[0]), b(t.a[1])
        sx, sy = x[-1], y[-1]
        q, r = bv_divmod(bv_mux(sx, bv_neg(x), x), bv_mux(sy, bv_neg(y), y))
        if op == 'sdiv':
            return bv_mux(B.XOR(sx, sy), bv_neg(q), q)
        return bv_mux(sx, bv_neg(r), r)
    if op in ('S', 'U'):
        return b(t.a[0])
    raise TooBig(op)


_leaf = {}
_BIG = (None, 9999)


def support_bits(t):
    """number of leaf bits below t (9999: more than 100)"""
    r = _leaf.get(t)
    if r is not None:
        return r[1]
    st = [t]
    while st:
        x = st[-1]
        if x in _leaf:
            st.pop()
            continue
        if x.op in ('sym', 'sel', 'fn'):
            _leaf[x] = (frozenset((x,)), x.w if x.w else 64)
            st.pop()
            continue
        kids = x.x.atoms() if x.op in ('W', 'ge0', 'eq0', 'S', 'U') and isinstance(x.x, P) else x.a
        todo = [k for k in kids if k not in _leaf]
        if todo:
            if any(k in _leaf and _leaf[k] is _BIG for k in kids):
                _leaf[x] = _BIG
                st.pop()
                continue
            st += todo
            continue
        st.pop()
        if any(_leaf[k] is _BIG for k in kids):
            _leaf[x] = _BIG
            continue
        u = frozenset().union(*(_leaf[k][0] for k in kids))
        n = sum(k.w if k.w else 64 for k in u)
        _leaf[x] = (u, n) if n <= 100 else _BIG
    return _leaf[t][1]
    return n
