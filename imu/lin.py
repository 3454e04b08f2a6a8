"""Linear entailment for the relational part of the abstract domain: exact
rational arithmetic, bounds plus rows, with product lemmas for the bilinear
index expressions (element index * element size)."""
from fractions import Fraction
from term import P, T, pa, pc, prange, rng, norm_ge, ZERO

STAT = {'lp': 0, 'q': 0, 'fast': 0}


def _div(a, b):
    if type(a) is int and type(b) is int:
        q, r = divmod(a, b)
        return q if r == 0 else Fraction(a, b)
    r = Fraction(a) / b
    return r.numerator if r.denominator == 1 else r


def lp_feasible(rows, lo, hi, model=None):
    """rows: list of (dict var->int, c) meaning sum+c >= 0; lo/hi: dicts var->int.
    Is there a rational solution?"""
    STAT['lp'] += 1
    # nonbasic original variables
    val = {}
    for v in set(x for r, _ in rows for x in r):
        l, h = lo.get(v), hi.get(v)
        if l is not None and h is not None and l > h:
            return False
        if l is not None and l > 0:
            val[v] = l
        elif h is not None and h < 0:
            val[v] = h
        elif l is not None and l <= 0 and (h is None or h >= 0):
            val[v] = 0
        else:
            val[v] = 0
    tab = {}      # basic var -> row dict over nonbasic
    blo = {}
    order = {}
    for i, v in enumerate(sorted(val, key=lambda k: [t.id for t in k])):
        order[v] = i
    n0 = len(order)
    for i, (r, c) in enumerate(rows):
        b = ('s', i)
        order[b] = n0 + i
        tab[b] = dict(r)
        blo[b] = -c
    L = dict(lo)
    L.update(blo)
    H = hi
    for b, r in tab.items():
        val[b] = sum(k * val[v] for v, k in r.items())
    it = 0
    while True:
        it += 1
        if it > 2000:
            return True
        # Bland: smallest violated basic
        bad = None
        for b in tab:
            x = val[b]
            l = L.get(b)
            if l is not None and x < l:
                if bad is None or order[b] < order[bad]:
                    bad = b
                    low = True
                continue
            h = H.get(b)
            if h is not None and x > h:
                if bad is None or order[b] < order[bad]:
                    bad = b
                    low = False
        if bad is None:
            if model is not None:
                model.update(val)
            return True
        r = tab[bad]
        piv = None
        for v, k in r.items():
            if low:
                ok = (k > 0 and (H.get(v) is None or val[v] < H[v])) or (k < 0 and (L.get(v) is None or val[v] > L[v]))
            else:
                ok = (k < 0 and (H.get(v) is None or val[v] < H[v])) or (k > 0 and (L.get(v) is None or val[v] > L[v]))
            if ok and (piv is None or order[v] < order[piv]):
                piv = v
        if piv is None:
            return False
        target = L[bad] if low else H[bad]
        k = r[piv]
        theta = _div(target - val[bad], k)
        # pivot: piv = (bad - sum others)/k
        del tab[bad]
        newrow = {}
        for v, q in r.items():
            if v is not piv and v != piv:
                newrow[v] = _div(-q, k)
        newrow[bad] = _div(1, k)
        val[bad] = target
        val[piv] = val[piv] + theta
        for b, rr in tab.items():
            q = rr.pop(piv, None)
            if q is not None:
                for v, z in newrow.items():
                    n = rr.get(v, 0) + q * z
                    if n == 0:
                        rr.pop(v, None)
                    else:
                        rr[v] = n if type(n) is int else (n.numerator if n.denominator == 1 else n)
                val[b] = val[b] + q * theta
        tab[piv] = newrow


def bounds_of(mono):
    l, h = 1, 1
    if len(mono) == 1:
        return rng(mono[0])
    for t in mono:
        a, b = rng(t)
        if a is None or a < 0 or l is None:
            return (None, None)
        l = l * a
        h = None if (h is None or b is None) else h * b
    return (l, h)


class Facts:
    """conjunction of P >= 0 facts (normalised), persistent by copying"""
    __slots__ = ('f', 'ne', 'lo', 'hi', 'cache', 'nlb', 'dead')

    def __init__(s):
        s.f = {}          # key-without-const -> P  (tightest)
        s.ne = []
        s.nlb = ()        # products with a bound of their own
        s.lo = {}
        s.hi = {}
        s.cache = {}
        s.dead = False

    def copy(s):
        n = Facts.__new__(Facts)
        n.f = dict(s.f)
        n.ne = list(s.ne)
        n.nlb = s.nlb
        n.lo = dict(s.lo)
        n.hi = dict(s.hi)
        n.cache = dict(s.cache)
        n.dead = s.dead
        return n

    def bound(s, mono):
        l, h = bounds_of(mono)
        a = s.lo.get(mono)
        if a is not None and (l is None or a > l):
            l = a
        b = s.hi.get(mono)
        if b is not None and (h is None or b < h):
            h = b
        return l, h

    def interval(s, p):
        lo = hi = p.c
        for k, v in p.m.items():
            l, h = s.bound(k)
            if len(k) > 1 and (l is None or h is None):
                bl, bh = 1, 1
                for t in k:
                    a, b = s.bound((t,))
                    if a is None or a < 0:
                        bl = bh = None
                        break
                    bl = bl * a
                    bh = None if bh is None or b is None else bh * b
                if bl is not None and (l is None or bl > l):
                    l = bl
                if bh is not None and (h is None or bh < h):
                    h = bh
            if v < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + v * l
            hi = None if hi is None or h is None else hi + v * h
        return lo, hi

    def add(s, p):
        """assume p >= 0; returns False if plainly contradictory"""
        p = norm_ge(p)
        if not p.m:
            if p.c < 0:
                s.dead = True
                return False
            return True
        if len(p.m) == 1:
            (k, v), = p.m.items()
            if v == 1:
                l, _ = s.bound(k)
                if l is None or -p.c > l:
                    s.lo[k] = -p.c
                    s._flush()
            elif v == -1:
                _, h = s.bound(k)
                if h is None or p.c < h:
                    s.hi[k] = p.c
                    s._flush()
            if len(k) > 1 and k not in s.nlb:
                s.nlb += (k,)
            l, h = s.bound(k)
            if l is not None and h is not None and l > h:
                s.dead = True
                return False
            return True
        key = P(0, p.m).key
        q = s.f.get(key)
        if q is None or p.c < q.c:
            l, h = s.interval(p)
            if l is not None and l >= 0 and q is None:
                return True
            if h is not None and h < 0:
                s.dead = True
                return False
            s.f[key] = p
            s._flush()
        return True

    def _flush(s):
        # positive answers stay valid under more facts
        s.cache = {k: v for k, v in s.cache.items() if v}

    def entails(s, p):
        """p >= 0 ?"""
        STAT['q'] += 1
        if s.dead:
            return True
        p = norm_ge(p)
        if not p.m:
            return p.c >= 0
        l, h = s.interval(p)
        if l is not None and l >= 0:
            STAT['fast'] += 1
            return True
        q = s.f.get(P(0, p.m).key)
        if q is not None and q.c <= p.c:
            return True
        r = s.cache.get(p)
        if r is not None:
            return r
        # single fact + intervals
        for q in s.f.values():
            if q.m.keys() & p.m.keys():
                l, h = s.interval(p - q)
                if l is not None and l >= 0:
                    STAT['fast'] += 1
                    s.cache[p] = True
                    return True
        r = not s.sat(-p - 1)
        s.cache[p] = r
        return r

    def feasible(s):
        if s.dead:
            return False
        return s.sat(None)

    def model(s):
        m = {}
        if s.dead or not s.sat(None, m):
            return None
        return m

    def sat(s, extra, model=None):
        """rational feasibility of the facts plus extra >= 0"""
        rows = list(s.f.values())
        if extra is not None:
            # relevance closure
            want = set(t for k in extra.m for t in k)
            for k in s.nlb:
                if any(t in want for t in k):
                    want.update(k)
            pend = rows
            rows = []
            ch = True
            while ch:
                ch = False
                rest = []
                for q in pend:
                    at = [t for k in q.m for t in k]
                    if any(t in want for t in at):
                        rows.append(q)
                        for t in at:
                            if t not in want:
                                want.add(t)
                        ch = True
                    else:
                        rest.append(q)
                pend = rest
            rows.append(extra)
        # product lemmas
        monos = set(k for q in rows for k in q.m)
        nl = [k for k in monos if len(k) >= 2]
        if s.nlb:
            ats = set(t for k in monos for t in k)
            if extra is not None:
                ats |= want
            for k in s.nlb:
                if k not in monos and all(t in ats for t in k):
                    monos.add(k)
                    nl.append(k)
        if nl:
            rows = rows + s.products(rows, monos, nl)
            monos |= set(k for q in rows for k in q.m)
        lo, hi = {}, {}
        for k in monos:
            l, h = s.interval(P(0, {k: 1}))
            if l is not None:
                lo[k] = l
            if h is not None:
                hi[k] = h
            if l is not None and h is not None and l > h:
                return False
        R = []
        for q in rows:
            R.append((q.m, q.c))
        return lp_feasible(R, lo, hi, model)

    def products(s, rows, monos, nl):
        """(fact >= 0) * (atom - lb >= 0) where atom is the common factor of nonlinear monomials"""
        factors = {}
        for k in nl:
            for i, t in enumerate(k):
                rest = k[:i] + k[i + 1:]
                factors.setdefault(t, set()).add(rest)
        out = []
        seen = set()
        low = {}
        for _ in range(2):
            # lower bounds implied by one fact after another
            for q in rows:
                if len(q.m) > 3:
                    continue
                for k, v in q.m.items():
                    if v > 0 and len(k) == 1:
                        hi = q.c
                        for j, c in q.m.items():
                            if j is not k:
                                a, b = s.bound(j)
                                if c < 0:
                                    a2 = low.get(j)
                                    b = a if a2 is None or a is not None and a > a2 else a2
                                b = b if b is None else b * c
                                if b is None or hi is None:
                                    hi = None
                                    break
                                hi += b
                        if hi is not None:
                            a = -(hi // v)
                            o = s.bound(k)[0]
                            if (o is None or a > o) and a > low.get(k, a - 1):
                                low[k] = a
        for t, rests in factors.items():
            l, h = s.bound((t,))
            if l is None:
                continue
            # candidate multiplicands: linear facts over rests' monomials
            cand = []
            for q in rows:
                ks = set(q.m)
                if any(len(k) >= 2 for k in ks) and not all(t not in k for k in ks):
                    pass
                if ks and ks & rests and len(q.m) <= 4 and all(len(k) <= 2 for k in ks):
                    if all((tuple(sorted(k + (t,), key=lambda x: x.id)) in monos) or len(k) == 1 for k in ks):
                        cand.append(q)
            for r in rests:
                a, b = s.bound(r)
                if a is not None:
                    cand.append(P(-a, {r: 1}))
                if b is not None:
                    cand.append(P(b, {r: -1}))
                if r in low:
                    cand.append(P(-low[r], {r: 1}))
            f1 = pa(t) - l
            for q in cand:
                z = q * f1
                if z.m and z.key not in seen:
                    seen.add(z.key)
                    out.append(z)
            if h is not None and h - l < (1 << 16):
                f2 = pc(h) - pa(t)
                for q in cand:
                    z = q * f2
                    if z.m and z.key not in seen:
                        seen.add(z.key)
                        out.append(z)
        return out[:120]


if __name__ == '__main__':
    from term import sym
    i, n, es = sym('i', 32), sym('n', 32), sym('es', 32)
    F = Facts()
    F.add(pa(n) - pa(i) - 1)
    F.add(pa(es) - 1)
    assert F.entails(pa(n) * pa(es) - pa(i) * pa(es) - pa(es))
    assert not F.entails(pa(n) * pa(es) - pa(i) * pa(es) - pa(es) - 1)
    assert F.entails(pa(n) - 1)
    print('ok', STAT)
