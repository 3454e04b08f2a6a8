"""Scenarios for the sorts (C22-C24): arbitrary buffers, counts, sizes and comparators.

All sizes: an element-level abstraction.  The buffer is the multiset of its elements, possibly with one hole (the
element that was there is in a local copy).  Exchanging two elements and moving one element into the hole keep the
multiset; any other write to the buffer leaves the abstraction (then nothing is claimed for all sizes).
Fixed small sizes: every byte is followed."""
from specs_obj import *
import specs
import loops

SORTS = ('BubbleSort_sort', 'HeapSort_sort', 'InsertionSort_sort', 'SelectionSort_sort')
HOLE, RAW = ('C', 'hole'), ('C', 'raw')


class Arr:
    def __init__(s, sc, name):
        s.sc = sc
        nt = sc.size('n', 32, 0, (1 << 30) - 1 if name.startswith('Heap') else 0x7FFFFFFF)
        et = sc.size('es', 32, 1, 64 if name.startswith('Insertion') else 0x7FFFFFFF)
        s.nt, s.et = nt, et
        s.n, s.es = (pc(t.x) if t.op == 'C' else pa(t) for t in (nt, et))
        sc.st.add_ge(pc(0x7FFFFFFF) - s.n * s.es)
        s.p = sc.buf('buffer', s.n * s.es)
        s.cmp = FnPtr('compare')

    def index(s, st, off):
        """i when off is the offset of element i"""
        d, e = st.norm(off), st.norm(s.es)
        if not e.m:
            if not e.c or d.c % e.c or any(x % e.c for x in d.m.values()):
                return None
            return P(d.c // e.c, {k: x // e.c for k, x in d.m.items()})
        es = e.single()
        if es is None or d.c:
            return None
        h = ZERO
        for k, x in d.m.items():
            if es not in k:
                return None
            k = list(k)
            k.remove(es)
            h = h + (P(0, {tuple(k): x}) if k else pc(x))
        return h

    def element(s, st, off):
        """index of the complete element at off, or None"""
        i = s.index(st, off)
        if i is not None and st.prove(i) and st.prove(s.n - 1 - i):
            return i
        return None

    def forget(s, st):
        """the contents are followed as a multiset only"""
        eng = s.sc.eng
        t = tm.fresh('mem', 64)
        name = '%s@%d' % (s.p.r, tm._cnt[0])
        eng.membirth[name] = tm._cnt[0]
        st.mem[s.p.r] = MNode(None, 'base', None, None, name)


def all_sizes(s, name):
    a = Arr(s, name)
    if not feasible(s):
        return
    eng = s.eng
    rid = a.p.r
    cell = s.buf('hole', 8)

    def mark(st):
        # trial rounds of the invariant search use unproved facts
        if not st.opt:
            st.gh[RAW] = 1

    def hole(st, v=None):
        if v is None:
            w = eng.load_raw(st, st.mem[cell.r], ZERO, 8, False, cell.r)
            return st.sval(w)
        eng.write(st, cell.r, ZERO, 8, mkW(64, v))

    def icall(eng, st, ins, fv, args):
        if eng.record:
            for v in args:
                ok = isinstance(v, Ptr) and v.r is not None
                if ok and v.r == rid:
                    ok = a.element(st, v.off) is not None
                elif ok:
                    ok = st.gh.get(HOLE) == v.r and st.norm(v.off) == ZERO
                s.post('C23', 'the comparator gets complete elements of the buffer or the copy of one', ok or None, st, 'called with %r' % (v,), None)
        return [(st.clone(), TRUE), (st, FALSE)]

    def swap(eng, st, ins, args):
        x, y, n = args
        if not (isinstance(x, Ptr) and isinstance(y, Ptr) and x.r == rid and y.r == rid):
            return None
        n = st.uval(n)
        if a.element(st, x.off) is None or a.element(st, y.off) is None or st.norm(n - a.es) != ZERO or st.gh.get(HOLE):
            mark(st)
        for v in (x, y):
            eng.acc_ok(st, ins, v, n, True)
        a.forget(st)
        return [(st, None)]

    def copy(eng, st, ins, d, f, n):
        if d.r != rid and f.r != rid:
            if d.r == st.gh.get(HOLE):
                mark(st)
            return None
        if st.gh.get(RAW):
            return None
        h = st.gh.get(HOLE)
        if st.norm(n - a.es) != ZERO:
            if d.r == rid or d.r == h:
                mark(st)
            return None
        if d.r != rid:
            i = a.element(st, f.off)
            if h:
                if d.r == h:
                    mark(st)
                return None
            if i is None or st.norm(d.off) != ZERO:
                return None
            # the element moves to the copy
            hole(st, i)
            st.gh[HOLE] = d.r
            return None
        i = a.element(st, d.off)
        j = a.element(st, f.off) if f.r == rid else None
        if h and i is not None:
            k = st.norm(i - hole(st))
            if st.prove(k) and st.prove(-k):
                if f.r == h and st.norm(f.off) == ZERO:
                    del st.gh[HOLE]
                    a.forget(st)
                    return [st]
                if j is not None:
                    # the hole moves to where the element came from
                    hole(st, j)
                    a.forget(st)
                    return [st]
        elif h is None and f.r != rid:
            pass
        mark(st)
        return None

    def raw(st):
        mark(st)
    hole(s.st, ZERO)
    eng.on_icall = icall
    eng.fn_hooks['Utils_swapElements'] = swap
    eng.on_copy.append(copy)
    eng.guard[rid] = raw
    for base, some in cases(s, s.st, ge0(a.n - 1)):
        for x, r in s.call(name, a.p, a.nt, a.et, a.cmp, st=base):
            ok = not x.gh.get(RAW) and not x.gh.get(HOLE)
            s.post('C22', 'elements are only exchanged or moved through the hole', ok or None, x, 'other writes to the buffer' if x.gh.get(RAW) else 'element in %s is lost' % x.gh.get(HOLE), None)


class Elems:
    """the elements of a buffer of fixed size, told apart by their contents"""

    def __init__(s, sc, a):
        s.sc, s.a = sc, a
        s.n, s.es = sc.conc['n'], sc.conc['es']
        es = s.es
        s.J = list(range(es)) if es <= 400 else sorted(set(x for x in (0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, es - 2, es - 1) if 0 <= x < es))
        s.v = [[sc.at(sc.st, a.p, i * es + j)[0][1] for j in s.J] for i in range(s.n)]
        s.ix = {tuple(v.id for v in e): i for i, e in enumerate(s.v)}

    def read(s, st, p):
        try:
            return [st.canon(s.sc.eng.load_raw(st, st.mem[p.r], st.norm(p.off + j), 1, False, p.r)) for j in s.J]
        except Split:
            return None

    def which(s, st, p):
        bs = s.read(st, p)
        return None if bs is None or UNDEF in bs else s.ix.get(tuple(v.id for v in bs))

    def arg(s, st, v):
        """element a comparator argument refers to: (is it legal, index)"""
        eng = s.sc.eng
        if not isinstance(v, Ptr) or v.r is None:
            return False, None
        if v.r == s.a.p.r:
            o = st.norm(v.off)
            if o.m or o.c % s.es or not 0 <= o.c < s.n * s.es:
                return False, None
            return True, s.which(st, v)
        if not st.prove(eng.regions[v.r].size - v.off - s.es) or not st.prove(v.off):
            return False, None
        i = s.which(st, v)
        return i is not None, i

    def distinct(s):
        """an assignment in which the elements differ in every byte looked at"""
        return {v: (i * 59 + j * 17 + 1) & 255 for i, e in enumerate(s.v) for j, v in zip(s.J, e)}


def some_sizes(s, name):
    """fixed count and size, arbitrary contents; comparator answers arbitrary, or (ans) always the same"""
    a = Arr(s, name)
    n, es = s.conc['n'], s.conc['es']
    el = Elems(s, a)
    eng = s.eng
    eng.nomerge = True
    ans = s.conc.get('ans')

    def icall(eng, st, ins, fv, args):
        for v in args:
            s.post('C23', 'the comparator gets complete elements of the buffer or the copy of one', el.arg(st, v)[0], st, 'called with %r' % (v,), [[]])
        if ans is not None:
            return [(st, TRUE if ans else FALSE)]
        return [(st.clone(), TRUE), (st, FALSE)]
    eng.on_icall = icall
    for x, r in s.call(name, a.p, a.nt, a.et, a.cmp):
        out = [el.read(x, Ptr(a.p.r, pc(i * es))) for i in range(n)]
        undef = any(e is not None and UNDEF in e for e in out)
        out = [None if e is None or UNDEF in e else e for e in out]
        left = dict(el.ix)
        ok = all(e is not None and left.pop(tuple(v.id for v in e), None) is not None for e in out)
        q = Post('C22', 'the buffer holds the same elements', ok, 'final contents %s   path: %s' % (', '.join(show(v) for e in out if e for v in e)[:200], x.pstr()))
        s.posts.append(q)
        if not ok and None not in out and eng.exact(x):
            e = wit.find(x, [], 3, el.distinct())
            if e is not None and sorted(tuple(e.T(v) for v in f) for f in out) != sorted(tuple(e.T(v) for v in f) for f in el.v):
                q.wit = wit.describe(e, x)
        elif undef and eng.exact(x):
            q.wit = 'uninitialised bytes in the buffer'


# ---- order (C24): the relation the comparator answers describe, closed under transitivity
ORD = ('C', 'order')


def known(st, n):
    """m[a][b]: 0 unknown, 1 a <= b, 2 a < b"""
    m = st.gh.get(ORD)
    return [list(r) for r in m] if m else [[1 if a == b else 0 for b in range(n)] for a in range(n)]


def learn(st, m, a, b, k):
    n = len(m)
    m[a][b] = max(m[a][b], k)
    for x in range(n):
        for y in range(n):
            if m[x][a] and m[b][y]:
                m[x][y] = max(m[x][y], 2 if 2 in (m[x][a], m[b][y], k) else 1)
    st.gh[ORD] = tuple(tuple(r) for r in m)


def ranks(m):
    """an order with the known relations"""
    r = [0] * len(m)
    for _ in m:
        for a in range(len(m)):
            for b in range(len(m)):
                if m[a][b]:
                    r[b] = max(r[b], r[a] + (m[a][b] == 2))
    return r


def order_scn(s, name):
    """fixed count and size, arbitrary contents, the comparator any strict weak order ("first is greater than second")"""
    a = Arr(s, name)
    n, es = s.conc['n'], s.conc['es']
    el = Elems(s, a)
    eng = s.eng
    eng.nomerge = True
    eng.max_live = eng.max_outs = 20000
    pat = s.conc.get('pat')
    rk = None if pat is None else [(i, n - i, (i * 31 + 7) % (n + 1 - n % 2), (i + 1) % n, (i - 1) % n)[pat] for i in range(n)]

    def icall(eng, st, ins, fv, args):
        ids = []
        for v in args:
            ok, i = el.arg(st, v)
            if i is None:
                raise Unsupported('the comparator is called with something else')
            ids.append(i)
        x, y = ids
        if rk is not None:
            return [(st, TRUE if rk[x] > rk[y] else FALSE)]
        m = known(st, n)
        if m[y][x] == 2:
            return [(st, TRUE)]
        if m[x][y]:
            return [(st, FALSE)]
        z = st.clone()
        learn(z, known(z, n), y, x, 2)
        learn(st, m, x, y, 1)
        return [(z, TRUE), (st, FALSE)]
    eng.on_icall = icall
    for x, r in s.call(name, a.p, a.nt, a.et, a.cmp):
        out = [el.which(x, Ptr(a.p.r, pc(i * es))) for i in range(n)]
        m = known(x, n) if rk is None else None
        bad = [i for i in range(n - 1) if None in out[i:i + 2] or (not m[out[i]][out[i + 1]] if rk is None else rk[out[i]] > rk[out[i + 1]])]
        q = Post('C24', 'no element is greater than its successor', not bad, 'final order %s   path: %s' % (str(out)[:100], x.pstr()))
        s.posts.append(q)
        if bad and None not in out and eng.exact(x):
            k = rk
            if k is None:
                i = bad[0]
                learn(x, m, out[i + 1], out[i], 2)
                k = ranks(m)
            if wit.find(x, [], 3, el.distinct()) is not None:
                q.wit = 'elements ranked %s, final order %s' % (str(k)[:100], str([k[j] for j in out])[:100])


def OG(k):
    if k > 300:
        return [dict(n=2, es=k, pat=1), dict(n=2, es=k + 1, pat=1)]
    return [dict(n=2, es=k, pat=1), dict(n=2, es=k + 1, pat=1), dict(n=k + 2, es=2, pat=0), dict(n=k + 4, es=1, pat=1), dict(n=k + 2, es=1, pat=2), dict(n=k + 4, es=1, pat=3), dict(n=k + 3, es=1, pat=4)]


OI = [dict(n=n, es=e) for n, e in ((0, 1), (1, 1), (2, 1), (3, 1), (2, 3), (4, 1), (3, 2), (5, 1), (6, 1))]
OM = [dict(n=n, es=e) for n, e in ((4, 3), (5, 2), (7, 1))]


SI = [dict(n=n, es=e) for n, e in ((0, 1), (1, 1), (2, 1), (3, 2), (4, 1), (2, 3))]


def SG(k):
    r = [dict(n=2, es=k), dict(n=2, es=k + 1)]
    if k <= 300:
        r += [dict(n=3, es=k + 1), dict(n=k + 2, es=1, ans=0), dict(n=k + 1, es=1, ans=1), dict(n=k + 4, es=1, ans=1)]
    return r


def fits(n, cs):
    return [c for c in cs if c['es'] <= 64 or not n.startswith('Insertion')]


def sort_scn(s, name):
    if s.conc is None:
        all_sizes(s, name)
    else:
        some_sizes(s, name)


for _n in SORTS:
    scn(_n, ('C22', 'C23'), (_n,), SI, grow=lambda k, n=_n: fits(n, SG(k)), cost=5)(lambda s, n=_n: sort_scn(s, n))


for _n in SORTS:
    scn(_n + ':order', ('C24',), (_n,), OI, only_inst=True, more=OM, grow=lambda k, n=_n: fits(n, OG(k)), gen=False, cost=5, budget=8000000)(lambda s, n=_n: order_scn(s, n))


@scn('Sort:exchange', ('C22', 'C23'), ('Utils_swapElements',), [dict(n=k, i=i, j=j, J=x) for k in (1, 2, 3) for i, j in ((0, 1), (1, 0), (1, 1), (2, 0)) for x in range(3 * k)],
     grow=lambda k: [dict(n=x, i=0, j=1, J=y) for x in (k, k + 1) for y in (0, k - 1, x, x + k - 1)])
def _(s):
    """the contract of the exchange used by the sorts: complete elements of one buffer, possibly the same"""
    et = s.size('n', 32, 1, 0x7FFFFFFF)
    es = pc(et.x) if et.op == 'C' else pa(et)
    i, j = s.ghost('i', 0, 1 << 31), s.ghost('j', 0, 1 << 31)
    for x in (i, j):
        s.st.add_ge(pc(0x7FFFFFFF) - (x + 1) * es)
    ok = [(z, o) for z, o in cases(s, s.st, ge0(i - j)) if z.F.feasible()]
    for st, ge in ok:
        hi, lo = (i, j) if ge else (j, i)
        for b0, same in split_eq(s, st, i - j):
            if not same:
                b0.add_ge(hi - lo - 1)
            s.st = b0.clone()
            if not feasible(s):
                continue
            buf = s.buf('buffer', (hi + 1) * es)
            J = s.ghost('J', 0, (hi + 1) * es)
            zones = [('other', J)]
            if not feasible(s):
                continue
            for z1, in1 in cases(s, s.st, ge0(J - i * es), ge0(i * es + es - 1 - J)):
                for z2, in2 in cases(s, z1, ge0(J - j * es), ge0(j * es + es - 1 - J)):
                    if not z2.F.feasible():
                        continue
                    k = J - i * es + j * es if in1 else J - j * es + i * es if in2 else J
                    y = z2.clone()
                    y.tracked = y.tracked + [(buf.r, y.norm(J), 1)] + ([(buf.r, y.norm(k), 1)] if k is not J else [])
                    s.st = y
                    want = s.at(y, buf, k)[0][1]
                    for x, r in s.call('Utils_swapElements', Ptr(buf.r, i * es), Ptr(buf.r, j * es), et, st=y):
                        s.same_at(x, 'C22', 'exchange: byte J', buf, J, want)
