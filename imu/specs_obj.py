"""Scenarios for the objects: queue, priority queue, map, scheduler.

Each operation is analysed from an arbitrary state satisfying the representation invariant (which the init
function establishes and every operation preserves), so the postconditions hold along every history.  Where such a
proof is missing, histories starting at the init function are analysed to see whether the difference is observable."""
import ir
from specs import *
import specs

FALSE, TRUE = C(1, 0), C(1, 1)


class Obj:
    """an object of a public structure type"""

    def __init__(s, sc, typ, name, ro=False, undef=False):
        lay = ir.layout(typ)
        if lay is None:
            raise Missing('%s has other fields' % typ)
        s.sc, s.f, s.size = sc, lay[0], lay[1]
        s.p = sc.buf(name, s.size, ro, undef)

    def put(s, **kw):
        for k, v in kw.items():
            o, n = s.f[k]
            if isinstance(v, P):
                v = mkW(8 * n, v)
            s.sc.put(s.p, o, n, v)

    def get(s, st, k):
        o, n = s.f[k]
        if n == 8:
            return s.sc.eng.load_raw(st, st.mem[s.p.r], pc(o) + s.p.off, n, True, s.p.r)
        return s.sc.at(st, s.p, o, n)[0][1]

    def same(s, st, prop, label, want):
        for k, v in want.items():
            o, n = s.f[k]
            if isinstance(v, P):
                v = mkW(8 * n, v)
            if isinstance(v, Ptr):
                s.sc.same(st, prop, label + ': ' + k, s.get(st, k), v)
            else:
                s.sc.same_at(st, prop, label + ': ' + k, s.p, o, v, n)


def flag(r):
    return ext(r, 0, 1) if r.w > 1 else r


NULLP = Ptr(None, ZERO)


def fill(s, p, n, name):
    """arbitrary bytes, one symbol each"""
    vs = [s.word('%s%d' % (name, i), 8) for i in range(n)]
    for i, v in enumerate(vs):
        s.put(p, i, 1, v)
    return vs


# ------------------------------------------------------------------ queue (C18)
class Q:
    """a queue in an arbitrary state: where = mid (rear = front+size-1), high (... - capacity), low (empty at slot 0)"""

    def __init__(s, sc, where, lo=0, hi=None):
        s.sc = sc
        cap, es = sc.size('cap', 32, 1), sc.size('es', 32, 1)
        s.cap, s.es = uview(cap), uview(es)
        st = sc.st
        st.add_ge(pc(0xFFFFFFFF) - s.cap * s.es)
        if where == 'low':
            front, size = ZERO, ZERO
        else:
            front, size = uview(sc.size('front', 32)), uview(sc.size('size', 32))
        s.front, s.size = front, size
        st.add_ge(s.cap - 1 - front)
        st.add_ge(s.cap - size)
        last = front + size - 1
        if where == 'mid':
            st.add_ge(last)
            st.add_ge(s.cap - 1 - last)
        elif where == 'high':
            st.add_ge(last - s.cap)
            last = last - s.cap
        else:
            last = s.cap - 1
        s.rear = last
        s.buf = sc.buf('storage', s.cap * s.es)
        s.o = Obj(sc, 'Queue_t', 'queue')
        s.f = dict(front=front, rear=last, size=size, capacity=s.cap, element_size=s.es, buffer=s.buf)
        s.o.put(**s.f)
        s.p = s.o.p

    def slot(s, k):
        """(state split is the caller's) physical slot of the k-th oldest"""
        return s.front + k


def wheres(s, q):
    pass


WH = ('mid', 'high', 'low')


def feasible(s):
    return s.st.F.feasible()


def nth(s, st, q, k):
    """[(state, physical slot of the k-th oldest element)]"""
    out = []
    i = q.front + k
    for x, ok in cases(s, st, ge0(q.cap - 1 - i)):
        if x.F.feasible():
            out.append((x, i if ok else i - q.cap))
    return out


def q_enq(s, where):
    q = Q(s, where)
    if not feasible(s):
        return
    el = s.buf('element', q.es, ro=True)
    J = s.ghost('J', 0, q.es)
    want = s.at(s.st, el, J)[0][1]
    k = s.ghost('k', 0, q.cap)
    full = eq0(q.cap - q.size)
    for base, isfull in cases(s, s.st, full):
        if not base.F.feasible():
            continue
        for y, ps in nth(s, base, q, k):
            y = y.clone()
            off = y.norm(ps * q.es + J)
            s.st = y
            s.track(q.buf, off)
            old = s.at(y, q.buf, off)[0][1]
            for x, r in s.call('Queue_enqueue', q.p, el):
                s.same(x, 'C18', 'enqueue succeeds exactly when not full', flag(r), C(1, int(not isfull)))
                if isfull:
                    s.same_at(x, 'C18', 'failed enqueue: stored byte', q.buf, off, old)
                    s.same_at(x, 'C32', 'failed enqueue: stored byte', q.buf, off, old)
                    q.o.same(x, 'C18', 'failed enqueue', q.f)
                    q.o.same(x, 'C32', 'failed enqueue', q.f)
                    continue
                rear = [z for z in nth(s, x, q, q.size)]
                for z, rs in rear:
                    q.o.same(z, 'C18', 'enqueue', dict(q.f, size=q.size + 1, rear=rs))
                    for w, isnew in cases(s, z, eq0(k - q.size)):
                        if not w.F.feasible():
                            continue
                        s.same_at(w, 'C18', 'enqueue: the new element' if isnew else 'enqueue: the other elements', q.buf, off, want if isnew else old)


def q_out(s, name, where):
    q = Q(s, where)
    if not feasible(s):
        return
    out = s.buf('out', q.es)
    J = s.ghost('J', 0, q.es)
    prev = s.at(s.st, out, J)[0][1]
    s.track(out, J)
    B = s.ghost('B', 0, q.cap * q.es)
    s.track(q.buf, B)
    oldb = s.at(s.st, q.buf, B)[0][1]
    deq = name == 'Queue_dequeue'
    slot = q.rear if name == 'Queue_rear' else q.front
    nm = name[6:]
    want = s.at(s.st, q.buf, s.st.norm(slot * q.es + J))
    base0 = s.st
    for base1, v in want:
        for base, empty in cases(s, base1, eq0(q.size)):
            if not base.F.feasible():
                continue
            s.st = base
            for x, r in s.call(name, q.p, out):
                s.same(x, 'C18', nm + ' succeeds exactly when not empty', flag(r), C(1, int(not empty)))
                s.same_at(x, 'C18', nm + ': stored bytes unchanged', q.buf, B, oldb)
                if empty:
                    s.same_at(x, 'C18', 'failed %s: output' % nm, out, J, prev)
                    s.same_at(x, 'C32', 'failed %s: output' % nm, out, J, prev)
                    s.same_at(x, 'C32', 'failed %s: stored bytes' % nm, q.buf, B, oldb)
                    q.o.same(x, 'C32', 'failed ' + nm, q.f)
                    q.o.same(x, 'C18', 'failed ' + nm, q.f)
                    continue
                s.same_at(x, 'C18', nm + ': byte J of the element', out, J, v)
                if deq:
                    for z, ps in nth(s, x, q, ONE):
                        q.o.same(z, 'C18', nm, dict(q.f, size=q.size - 1, front=ps))
                else:
                    q.o.same(x, 'C18', nm, q.f)


def QI(k=4):
    out = []
    for cap in (1, 2, 3):
        for front in range(cap):
            for size in range(cap + 1):
                out.append(dict(cap=cap, es=2, front=front, size=size, J=0, B=0, k=min(size, cap - 1)))
    return out


def QG(k):
    out = []
    for front in (0, k - 1, k, k + 1):
        for size in (1, k, k + 1, k + 2):
            out.append(dict(cap=k + 2, es=1, front=front, size=size, J=0, B=0, k=min(size, k + 1)))
    return out + [dict(cap=2, es=k + d, front=1, size=1, J=k + d - 1, B=0, k=1) for d in (0, 1)] + [dict(cap=3, es=k // 2 + 1, front=f, size=1, J=0, B=0, k=1) for f in (0, 1, 2)]


for _w in WH:
    scn('Queue_enqueue:%s' % _w, ('C18', 'C32'), ('Queue_enqueue',), QI(), grow=QG, hist='Queue:history')(lambda s, w=_w: q_enq(s, w))
    for _f in ('Queue_dequeue', 'Queue_front', 'Queue_rear'):
        scn('%s:%s' % (_f, _w), ('C18', 'C32'), (_f,), QI(), grow=QG, hist='Queue:history')(lambda s, f=_f, w=_w: q_out(s, f, w))

    @scn('Queue_full/empty:%s' % _w, ('C18',), ('Queue_full', 'Queue_empty'), QI(), hist='Queue:history')
    def _(s, w=_w):
        q = Q(s, w)
        if not feasible(s):
            return
        for f, c in (('Queue_full', q.cap - q.size), ('Queue_empty', q.size)):
            for x, r in s.call(f, q.p):
                s.same(x, 'C18', f, flag(r), eq0(c))
                q.o.same(x, 'C18', f, q.f)


@scn('Queue_init', ('C18', 'C32'), ('Queue_init',), hist='Queue:history')
def _(s):
    cap, es = s.word('capacity', 32), s.word('element_size', 32)
    for null in (False, True):
        o = Obj(s, 'Queue_t', 'queue')
        old = {k: o.get(s.st, k) for k in ('front', 'rear', 'size', 'capacity', 'element_size')}
        b = NULLP if null else s.buf('storage', 1)
        for base, zero in cases(s, s.st, bnot1(icmp('eq', cap, C(32, 0))), bnot1(icmp('eq', es, C(32, 0)))):
            ok = zero and not null
            for x, r in s.call('Queue_init', o.p, cap, es, b, st=base):
                s.same(x, 'C18', 'init succeeds exactly for non-zero sizes and a buffer', flag(r), C(1, int(ok)))
                if ok:
                    o.same(x, 'C18', 'init', dict(front=ZERO, size=ZERO, rear=uview(cap) - 1, capacity=cap, element_size=es, buffer=b))
                else:
                    o.same(x, 'C32', 'failed init', old)


@scn('Queue:null arguments', ('C18', 'C32'), ('Queue_enqueue', 'Queue_dequeue', 'Queue_front', 'Queue_rear'))
def _(s):
    for f in ('Queue_enqueue', 'Queue_dequeue', 'Queue_front', 'Queue_rear'):
        for a in (0, 1):
            o = Obj(s, 'Queue_t', 'queue')
            e = s.buf('element', 8)
            old = {k: o.get(s.st, k) for k in ('front', 'rear', 'size', 'capacity', 'element_size')}
            J = s.ghost('J%s%d' % (f, a), 0, pc(8))
            s.track(e, J)
            oe = s.at(s.st, e, J)[0][1]
            for x, r in s.call(f, NULLP if a else o.p, e if a else NULLP):
                for pr in ('C18', 'C32'):
                    s.same(x, pr, f + ' with a null argument fails', flag(r), FALSE)
                    o.same(x, pr, f + ' with a null argument', old)
                    s.same_at(x, pr, f + ' with a null argument: element', e, J, oe)


def q_history(s):
    """every history of enqueue/dequeue of bounded length from the init function, against a list"""
    cap, es, depth = s.conc['cap'], s.conc['es'], s.conc['depth']
    buf = s.buf('storage', cap * es)
    o = Obj(s, 'Queue_t', 'queue')
    outs = s.call('Queue_init', o.p, C(32, cap), C(32, es), buf)
    n = [0]

    def rep(x, front, size):
        o.same(x, 'REP', 'representation', dict(front=pc(front), size=pc(size), rear=pc((front + size - 1) % cap), capacity=pc(cap), element_size=pc(es), buffer=buf))

    def probe(x, f, content, h):
        """front/rear/dequeue result against the list"""
        out = s.buf('out', es)
        s.st = x.clone()
        out = s.buf('out', es)
        old = [s.at(s.st, out, i)[0][1] for i in range(es)]
        res = s.call(f, o.p, out)
        for y, r in res:
            s.same(y, 'C18', '%s after %s: status' % (f, h or 'init'), flag(r), C(1, int(bool(content))))
            want = (content[-1] if f == 'Queue_rear' else content[0]) if content else old
            for i in range(es):
                s.same_at(y, 'C18' if content else 'C32', '%s after %s: byte %d' % (f, h or 'init', i), out, i, want[i])
        return res

    def go(x, content, front, h, d):
        rep(x, front, len(content))
        for f, c in (('Queue_full', len(content) == cap), ('Queue_empty', not content)):
            for y, r in s.call(f, o.p, st=x):
                s.same(y, 'C18', '%s after %s' % (f, h or 'init'), flag(r), C(1, int(c)))
        probe(x, 'Queue_front', content, h)
        probe(x, 'Queue_rear', content, h)
        if not d:
            return
        for y, r in probe(x, 'Queue_dequeue', content, h):
            go(y, content[1:], (front + 1) % cap if content else front, h + 'D', d - 1)
        s.st = x.clone()
        n[0] += 1
        el = s.buf('element%d' % n[0], es, ro=True)
        vs = fill(s, el, es, 'e%d_' % n[0])
        for y, r in s.call('Queue_enqueue', o.p, el):
            s.same(y, 'C18', 'enqueue after %s: status' % (h or 'init'), flag(r), C(1, int(len(content) < cap)))
            go(y, content + [vs] if len(content) < cap else content, front, h + 'E', d - 1)
    for x, r in outs:
        go(x, [], 0, '', depth)


helper('Queue:history', ('C18', 'C32'), ('Queue_init', 'Queue_enqueue', 'Queue_dequeue', 'Queue_front', 'Queue_rear', 'Queue_full', 'Queue_empty'),
       [dict(cap=c, es=e, depth=d) for c, e, d in ((1, 1, 4), (2, 2, 6), (3, 1, 7))])(q_history)


# ------------------------------------------------------------------ priority queue (C19)
class PQ:
    def __init__(s, sc, full=None):
        s.sc = sc
        cap, es = sc.size('cap', 32, 1), sc.size('es', 32, 1)
        s.cap, s.es = uview(cap), uview(es)
        st = sc.st
        st.add_ge(pc(0xFFFFFFFF) - s.cap * s.es)
        if full:
            s.size = s.cap
        else:
            s.size = uview(sc.size('size', 32))
            st.add_ge(s.cap - s.size - (0 if full is None else 1))
        s.buf = sc.buf('storage', s.cap * s.es)
        s.prio = sc.buf('priorities', s.cap * 4)
        s.o = Obj(sc, 'PriorityQueue_t', 'queue')
        s.f = dict(size=s.size, capacity=s.cap, element_size=s.es, priority_array=s.prio, buffer=s.buf)
        s.o.put(**s.f)
        s.p = s.o.p

    def item(s, ro=True):
        sc = s.sc
        s.el = sc.buf('element', s.es, ro=ro)
        s.pr = sc.buf('priority', 4, ro=ro)
        it = Obj(sc, 'PriorityQueueItem_t', 'item')
        it.put(priority=s.pr, element=s.el)
        return it.p


def slot_of(st, q, v, J):
    """slot H when v is byte J of the element stored in slot H at the start"""
    if not isinstance(v, T) or v.op != 'sel' or v.x[0] != q.buf.r:
        return None
    d = st.norm(v.x[1] - J)
    e = st.norm(q.es)
    if not e.m:
        return P(d.c // e.c, {k: x // e.c for k, x in d.m.items()}) if e.c and d.c % e.c == 0 and all(x % e.c == 0 for x in d.m.values()) else None
    es = e.single()
    if es is None or d.c:
        return None
    h = ZERO
    for k, x in d.m.items():
        if es not in k:
            return None
        k = list(k)
        k.remove(es)
        h = h + (P(0, {tuple(k): x}) if k else pc(x))
    return h


def pq_ghost(s, q, what):
    """an arbitrary slot K and byte J of it; its content and that of its successor followed through the call"""
    J = s.ghost('J', 0, q.es)
    K = s.ghost('K', 0, q.cap)
    if what == 'prio':
        s.track(q.prio, K * 4, 4)
        s.track(q.prio, K * 4 + 4, 4)
        s.st.watch = s.st.watch + [(q.prio.r, s.st.norm(K * 4), 4, ('R', 'prio K'))]
    else:
        s.track(q.buf, K * q.es + J)
        s.track(q.buf, K * q.es + q.es + J)
    return J, K


def pq_shifted(s, q, base, x, lab, what, J, K, H, prop='C19'):
    """slot K holds what slot K (K < H) or K+1 (K >= H) held before"""
    for z, ge in cases(s, x, ge0(x.norm(K - H))):
        if not z.F.feasible():
            continue
        if not z.assume(z.canon(ge0(z.norm(q.size - 2 - K))), True) or not z.F.feasible():
            continue
        k = K + 1 if ge else K
        if what == 'prio':
            s.same_at(z, prop, lab + ': priorities of the others', q.prio, K * 4, s.at(base, q.prio, k * 4, 4)[0][1], 4)
        else:
            s.same_at(z, prop, lab + ': bytes of the others', q.buf, K * q.es + J, s.at(base, q.buf, k * q.es + J)[0][1])


def pq_kept(s, q, base, x, lab, what, J, K, props):
    for pr in props:
        if what == 'prio':
            s.same_at(x, pr, lab + ': stored priority', q.prio, K * 4, s.at(base, q.prio, K * 4, 4)[0][1], 4)
        else:
            s.same_at(x, pr, lab + ': stored byte', q.buf, K * q.es + J, s.at(base, q.buf, K * q.es + J)[0][1])


def pq_deq(s, what):
    q = PQ(s)
    if not feasible(s):
        return
    out = s.buf('out', q.es)
    J, K = pq_ghost(s, q, what)
    s.track(out, J)
    old = s.at(s.st, out, J)[0][1]
    for base, nonempty in cases(s, s.st, ge0(q.size - 1)):
        if not base.F.feasible():
            continue
        s.st = base.clone()
        if nonempty:
            s.st.add_ge(q.size - 1 - K)
        if not feasible(s):
            continue
        base = s.st.clone()
        for x, r in s.call('PriorityQueue_dequeue', q.p, out):
            s.same(x, 'C19', 'dequeue succeeds exactly when not empty', flag(r), C(1, int(nonempty)))
            if not nonempty:
                for pr in ('C19', 'C32'):
                    s.same_at(x, pr, 'failed dequeue: output', out, J, old)
                    q.o.same(x, pr, 'failed dequeue', q.f)
                pq_kept(s, q, base, x, 'failed dequeue', what, J, K, ('C19', 'C32'))
                continue
            q.o.same(x, 'C19', 'dequeue', dict(q.f, size=q.size - 1))
            for y, v in s.at(x, out, J):
                H = slot_of(y, q, v, J)
                if H is None:
                    s.post('C19', 'dequeue: the output is a stored element', None, y, 'output %r' % v, None)
                    continue
                s.must(y, 'C19', 'dequeue: the output is a stored element', ge0(y.norm(q.size - 1 - H)))
                if what == 'prio':
                    a, b = s.at(base, q.prio, H * 4, 4)[0][1], s.at(base, q.prio, K * 4, 4)[0][1]
                    s.must(y, 'C19', 'dequeue: no stored priority is higher', bnot1(icmp('ult', y.canon(a), y.canon(b))))
                pq_shifted(s, q, base, y, 'dequeue', what, J, K, H)


def victims(y, q):
    """indices whose priority the code looked at"""
    out = []
    seen = set()

    def go(t):
        for z in syms(t):
            if isinstance(z, T) and z.op == 'sym' and '#' in str(z.x) and z not in seen:
                seen.add(z)
                out.append(z)
    for c in list(y.known):
        go(c)
    for t in y.eq:
        go(t)
    for p in list(y.F.f.values()):
        for z in psyms(p):
            if isinstance(z, T):
                go(z)
    return [z for z in out if z.w == 32]


def pq_enq(s, what, full):
    q = PQ(s, full)
    if not feasible(s):
        return
    it = q.item()
    J, K = pq_ghost(s, q, what)
    new = s.at(s.st, q.pr, 0, 4)[0][1]
    nb = s.at(s.st, q.el, J)[0][1]
    base = s.st.clone()

    def appended(x, slot):
        for z, isnew in cases(s, x, eq0(x.norm(K - slot))):
            if not z.F.feasible() or not isnew:
                continue
            z = z.clone()
            z.uc = {}
            z.add_eq(z.norm(K - slot))
            if what == 'prio':
                s.same_at(z, 'C19', 'enqueue: the new priority', q.prio, K * 4, new, 4)
            else:
                s.same_at(z, 'C19', 'enqueue: the new element', q.buf, K * q.es + J, nb)
    for x, r in s.call('PriorityQueue_enqueue', q.p, it):
        if not full:
            s.same(x, 'C19', 'enqueue into a queue that is not full succeeds', flag(r), TRUE)
            q.o.same(x, 'C19', 'enqueue', dict(q.f, size=q.size + 1))
            appended(x, q.size)
            y = x.clone()
            y.uc = {}
            y.add_ge(q.size - 1 - K)
            if y.F.feasible():
                pq_kept(s, q, base, y, 'enqueue', what, J, K, ('C19',))
            continue
        q.o.same(x, 'C19', 'enqueue into a full queue', q.f)
        for x, ok in cases(s, x, flag(r)):
            if not x.F.feasible():
                continue
            if not ok:
                if what == 'prio':
                    s.must(x, 'C19', 'enqueue into a full queue fails only if no stored priority is lower',
                           bnot1(icmp('ult', x.canon(s.at(base, q.prio, K * 4, 4)[0][1]), new)))
                pq_kept(s, q, base, x, 'failed enqueue', what, J, K, ('C19', 'C32'))
                continue
            appended(x, q.cap - 1)
            best = None
            for z in victims(x, q) + [None]:
                H = x.norm(pa(z)) if z is not None else ZERO
                n0 = len(s.posts)
                tries, guide = s.tries, list(s.guide)
                s.must(x, 'C19', 'enqueue: a stored element is evicted', ge0(x.norm(q.size - 1 - H)))
                if what == 'prio':
                    low = x.canon(s.at(base, q.prio, H * 4, 4)[0][1])
                    s.must(x, 'C19', 'enqueue: no stored priority is lower than the evicted one', bnot1(icmp('ult', x.canon(s.at(base, q.prio, K * 4, 4)[0][1]), low)))
                    s.must(x, 'C19', 'enqueue: the evicted priority is lower than the new one', icmp('ult', low, new))
                pq_shifted(s, q, base, x, 'enqueue', what, J, K, H)
                got = s.posts[n0:]
                del s.posts[n0:]
                if all(g.ok is True for g in got):
                    best = got
                    s.guide = guide
                    break
                if best is None or sum(g.ok is not True for g in got) < sum(g.ok is not True for g in best):
                    best = got
                s.guide = guide
            for g in best:
                g.wit = None
            s.posts += best


for _w in ('prio', 'elem'):
    scn('PriorityQueue_dequeue:%s' % _w, ('C19', 'C32'), ('PriorityQueue_dequeue',), [], hist='PriorityQueue:history')(lambda s, w=_w: pq_deq(s, w))
    for _f in (False, True):
        scn('PriorityQueue_enqueue:%s, %s' % ('full' if _f else 'not full', _w), ('C19', 'C32'), ('PriorityQueue_enqueue',), [], hist='PriorityQueue:history')(
            lambda s, w=_w, f=_f: pq_enq(s, w, f))


@scn('PriorityQueue_init/empty', ('C19', 'C32'), ('PriorityQueue_init', 'PriorityQueue_empty'), hist='PriorityQueue:history')
def _(s):
    cap, es = s.word('capacity', 32), s.word('element_size', 32)
    names = ('size', 'capacity', 'element_size')
    for null in (False, True):
        o = Obj(s, 'PriorityQueue_t', 'queue')
        old = {k: o.get(s.st, k) for k in names}
        it = Obj(s, 'PriorityQueueItem_t', 'items', ro=True)
        a, b = s.buf('storage', 1), s.buf('priorities', 4)
        it.put(element=a, priority=b)
        for base, nz in cases(s, s.st, bnot1(icmp('eq', cap, C(32, 0))), bnot1(icmp('eq', es, C(32, 0)))):
            ok = nz and not null
            for x, r in s.call('PriorityQueue_init', o.p, cap, es, NULLP if null else it.p, st=base):
                s.same(x, 'C19', 'init succeeds exactly for non-zero sizes and storage', flag(r), C(1, int(ok)))
                if ok:
                    o.same(x, 'C19', 'init', dict(size=ZERO, capacity=cap, element_size=es, buffer=a, priority_array=b))
                else:
                    o.same(x, 'C32', 'failed init', old)
    for x, r in s.call('PriorityQueue_init', NULLP, cap, es, it.p):
        s.same(x, 'C19', 'init without a queue fails', flag(r), FALSE)
    q = PQ(s)
    for x, r in s.call('PriorityQueue_empty', q.p):
        s.same(x, 'C19', 'empty', flag(r), eq0(q.size))
        q.o.same(x, 'C19', 'empty', q.f)


def pq_history(s):
    """every history of bounded length from the init function, against a multiset of (priority, element)"""
    if 'pat' in s.conc:
        pq_long(s)
        return
    cap, es, depth = s.conc['cap'], s.conc['es'], s.conc['depth']
    s.eng.nomerge = True
    buf, pb = s.buf('storage', cap * es), s.buf('priorities', cap * 4)
    o, it = Obj(s, 'PriorityQueue_t', 'queue'), Obj(s, 'PriorityQueueItem_t', 'items', ro=True)
    it.put(element=buf, priority=pb)
    n = [0]

    def rep(x, content):
        o.same(x, 'REP', 'representation', dict(size=pc(len(content)), capacity=pc(cap), element_size=pc(es), buffer=buf, priority_array=pb))
        for i, (p, vs) in enumerate(content):
            s.same_at(x, 'REP', 'representation', pb, 4 * i, p, 4)
            for j in range(es):
                s.same_at(x, 'REP', 'representation', buf, es * i + j, vs[j])

    def lower(x, a, b):
        return x.canon(icmp('ult', x.canon(a), x.canon(b)))

    def without(content, i):
        return content[:i] + content[i + 1:]

    def deq(x, content, h):
        """[(state, remaining)]"""
        s.st = x.clone()
        out = s.buf('out', es)
        old = [s.at(s.st, out, i)[0][1] for i in range(es)]
        res = []
        for y, r in s.call('PriorityQueue_dequeue', o.p, out):
            s.same(y, 'C19', 'dequeue after %s: status' % (h or 'init'), flag(r), C(1, int(bool(content))))
            if not content:
                for i in range(es):
                    s.same_at(y, 'C32', 'failed dequeue after %s: output' % (h or 'init'), out, i, old[i])
                res.append((y, content))
                continue
            got = [s.at(y, out, i)[0][1] for i in range(es)]
            k = [i for i, (p, vs) in enumerate(content) if y.canon(got[0]) is y.canon(vs[0])]
            if not k:
                s.same(y, 'C19', 'dequeue after %s: a stored element' % h, got[0], content[0][1][0])
                continue
            p, vs = content[k[0]]
            for i in range(es):
                s.same(y, 'C19', 'dequeue after %s: the whole element' % h, got[i], vs[i])
            for pp, vv in content:
                s.must(y, 'C19', 'dequeue after %s: no stored priority is higher' % h, bnot1(lower(y, p, pp)))
            res.append((y, without(content, k[0])))
        return res

    def drain(x, content, h):
        """what is stored, observed by removing it"""
        if not content:
            deq(x, content, h)
            return
        for y, rest in deq(x, content, h):
            drain(y, rest, h + 'D')

    def go(x, content, h, d):
        rep(x, content)
        for y, r in s.call('PriorityQueue_empty', o.p, st=x):
            s.same(y, 'C19', 'empty after %s' % (h or 'init'), flag(r), C(1, int(not content)))
        if not d:
            drain(x, content, h)
            return
        if h[-2:] not in ('', 'DD') and h:
            for y, rest in deq(x, content, h):
                go(y, rest, h + 'D', d - 1)
        s.st = x.clone()
        n[0] += 1
        el, pr = s.buf('element', es, ro=True), s.buf('priority', 4, ro=True)
        vs = fill(s, el, es, 'e%d_' % n[0])
        p = s.word('p%d' % n[0], 32)
        s.put(pr, 0, 4, p)
        item = Obj(s, 'PriorityQueueItem_t', 'item', ro=True)
        item.put(element=el, priority=pr)
        for y, r in s.call('PriorityQueue_enqueue', o.p, item.p):
            if len(content) < cap:
                s.same(y, 'C19', 'enqueue after %s: status' % (h or 'init'), flag(r), TRUE)
                go(y, content + [(p, vs)], h + 'E', d - 1)
                continue
            for z, ok in cases(s, y, flag(r)):
                if not z.F.feasible():
                    continue
                if not ok:
                    for pp, vv in content:
                        s.must(z, 'C19', 'enqueue after %s fails only if no stored priority is lower' % h, bnot1(lower(z, pp, p)))
                    go(z, content, h + 'F', d - 1)
                    continue
                # exactly one of the lowest priority is gone: the one no longer stored
                w = [i for i, (pp, vv) in enumerate(content) if not any(z.canon(s.at(z, buf, es * k)[0][1]) is z.canon(vv[0]) for k in range(cap))]
                if not w:
                    continue
                k = w[0]
                for pp, vv in content:
                    s.must(z, 'C19', 'enqueue after %s: the evicted priority is lowest' % h, bnot1(lower(z, pp, content[k][0])))
                s.must(z, 'C19', 'enqueue after %s: the evicted priority is lower than the new one' % h, lower(z, content[k][0], p))
                go(z, without(content, k) + [(p, vs)], h + 'R', d - 1)
    for x, r in s.call('PriorityQueue_init', o.p, C(32, cap), C(32, es), it.p):
        go(x, [], '', depth)


def pq_long(s):
    """one long history with distinct known priorities and arbitrary elements: fill, evict, refuse, remove all"""
    cap, es, pat = s.conc['cap'], s.conc['es'], s.conc['pat']
    s.eng.nomerge = True
    buf, pb = s.buf('storage', cap * es), s.buf('priorities', cap * 4)
    o, it = Obj(s, 'PriorityQueue_t', 'queue'), Obj(s, 'PriorityQueueItem_t', 'items', ro=True)
    it.put(element=buf, priority=pb)
    el, pr, out = s.buf('element', es), s.buf('priority', 4), s.buf('out', es)
    item = Obj(s, 'PriorityQueueItem_t', 'item', ro=True)
    item.put(element=el, priority=pr)
    J = sorted(set(j for j in (0, 1, 127, 128, 255, 256, es - 2, es - 1) if 0 <= j < es))
    content = []
    n = [0]

    def one(fn, *args):
        r = s.call(fn, *args)
        if len(r) != 1:
            raise Unsupported('several outcomes')
        s.st = r[0][0]
        return r[0]

    def enq(p):
        n[0] += 1
        vs = [s.word('e%d_%d' % (n[0], j), 8) for j in J]
        for j, v in zip(J, vs):
            s.put(el, j, 1, v)
        s.put(pr, 0, 4, C(32, p))
        full = len(content) == cap
        low = min(content)[0] if full else 0
        x, r = one('PriorityQueue_enqueue', o.p, item.p)
        s.same(x, 'C19', 'enqueue of priority %d into %d of %d: status' % (p, len(content), cap), flag(r), C(1, int(not full or low < p)))
        if full and low < p:
            content.remove(min(content, key=lambda c: c[0]))
        if not full or low < p:
            content.append((p, vs))

    def deq():
        x, r = one('PriorityQueue_dequeue', o.p, out)
        c = max(content, key=lambda c: c[0]) if content else None
        s.same(x, 'C19', 'dequeue from %d of %d: status' % (len(content), cap), flag(r), C(1, int(bool(content))))
        if c:
            for j, v in zip(J, c[1]):
                s.same_at(x, 'C19', 'dequeue from %d of %d: byte %d of the highest priority' % (len(content), cap, j), out, j, v)
            content.remove(c)
    one('PriorityQueue_init', o.p, C(32, cap), C(32, es), it.p)
    if pat >= 3:
        # a fixed mixture of insertions and removals with pairwise different priorities, hovering around full
        z = pat * 7919 + cap
        for i in range(5 * cap + 10):
            z = (z * 1103515245 + 12345) & 0x7FFFFFFF
            if (z >> 8) % 8 < (5 if len(content) < cap - 1 else 3) or not content:
                enq(((z >> 12) % 1000) * 1000 + i)
            else:
                deq()
        while content:
            deq()
        return
    for i in range(cap):
        enq(10 + 4 * (cap - i, i, i * 31 % cap if cap % 31 else (i + 7) % cap)[pat])
    enq(9)
    low = min(content)[0]
    enq(low + 1)
    enq(4 * cap + 50)
    deq()
    deq()
    enq(4 * (cap // 2) + 13)
    while content:
        deq()
    deq()


def PG(k):
    r = [dict(cap=3, es=e, pat=1) for e in (k, k + 1)]
    if k <= 300:
        r += [dict(cap=c, es=1, pat=p) for c in (k + 1, k + 2) for p in (0, 1, 2)]
    if k <= 40:
        r += [dict(cap=k + 3, es=1, pat=p) for p in (0, 3, 4, 5)]
    return r


helper('PriorityQueue:history', ('C19', 'C32'), ('PriorityQueue_init', 'PriorityQueue_enqueue', 'PriorityQueue_dequeue', 'PriorityQueue_empty'),
       [dict(cap=c, es=e, depth=d) for c, e, d in ((1, 1, 3), (2, 2, 4), (3, 1, 4))], grow=PG)(pq_history)


# ------------------------------------------------------------------ map (C20)
class M:
    """a map in an arbitrary state: cur entries with pairwise different keys"""

    def __init__(s, sc, cur=None):
        s.sc = sc
        s.max, s.ks, s.vs = (pa(x) if x.op != 'C' else pc(x.x) for x in (sc.size(n, 32, 1, 0x7FFFFFFF) for n in ('max', 'ks', 'vs')))
        st = sc.st
        for z in (s.ks, s.vs):
            st.add_ge(pc(0x7FFFFFFF) - s.max * z)
        if cur == 'full':
            s.cur = s.max
        else:
            c = sc.size('cur', 32, 0, 0x7FFFFFFF)
            s.cur = pc(c.x) if c.op == 'C' else pa(c)
            st.add_ge(s.max - s.cur - (1 if cur == 'room' else 0))
        s.keys, s.vals = sc.buf('keys', s.max * s.ks), sc.buf('values', s.max * s.vs)
        s.o = Obj(sc, 'Map_t', 'map')
        s.f = dict(keys=s.keys, values=s.vals, key_size=s.ks, value_size=s.vs, max_map_size=s.max, current_size=s.cur)
        s.o.put(**s.f)
        s.p = s.o.p
        s.key, s.val = sc.buf('key', s.ks, ro=True), sc.buf('value', s.vs, ro=True)

    def eq(s, st, i):
        import models
        return models.equal(s.sc.eng, st, None, Ptr(s.keys.r, st.norm(i * s.ks)), s.key, st.norm(s.ks))

    def entry(s, st, off):
        """i when the offset is that of key i"""
        d, e = st.norm(off), st.norm(s.ks)
        if not e.m:
            if not e.c or d.c % e.c or any(x % e.c for x in d.m.values()):
                return None
            return P(d.c // e.c, {k: x // e.c for k, x in d.m.items()})
        es = e.single()
        if es is None or d.c:
            return None
        h = ZERO
        for k, x in d.m.items():
            if es not in k:
                return None
            k = list(k)
            k.remove(es)
            h = h + (P(0, {tuple(k): x}) if k else pc(x))
        return h

    def compares(s):
        import analyse
        return bool(analyse.reach(s.sc.eng.p, ['Map_insert', 'Map_getValue']) & {'memcmp', 'bcmp'})

    def where(s, H):
        """the sought key is that of entry H only (None: of no entry)"""
        sc = s.sc
        ks, cur = sc.st.norm(s.ks), sc.st.norm(s.cur)
        if sc.conc and not ks.m and not cur.m:
            # fixed sizes: the keys differ in their bytes
            h = None if H is None else sc.st.norm(H).c
            n = min(ks.c, 4)
            if cur.c >= 256 ** n - 1 or cur.c > 2000 and not s.compares():
                # the keys can only be told apart here by what memcmp is known to return
                sc.st.F.dead = True
            elif cur.c > 2000:
                pass
            elif ks.c > 16 or cur.c > 8:
                def put(buf, at, x):
                    for j in range(ks.c):
                        sc.put(buf, at + j, 1, C(8, x >> (8 * (ks.c - 1 - j)) & 255 if j >= ks.c - n else 0))
                for i in range(cur.c):
                    put(s.keys, i * ks.c, 1 + i)
                put(s.key, 0, 0 if h is None else 1 + h)
            else:
                for i in range(cur.c):
                    if i != h:
                        c = s.eq(sc.st, pc(i))
                        sc.st.hard += ((c, False),)
                        if not sc.st.assume(c, False):
                            sc.st.F.dead = True
        if H is not None:
            if not sc.st.assume(s.eq(sc.st, H), True):
                sc.st.F.dead = True
            sc.st.watch = sc.st.watch + [(s.keys.r, sc.st.norm(H * s.ks), 1, ('R', 'key H'))]

        def axiom(eng, st, a, b, n, val):
            if a.r is not s.keys.r:
                a, b = b, a
            if a.r != s.keys.r or b.r != s.key.r or st.norm(b.off) != ZERO or st.norm(n - s.ks) != ZERO:
                return
            i = s.entry(st, a.off)
            if i is None or not st.entails(i) or not st.entails(st.norm(s.cur - 1 - i)):
                return
            if val:
                if H is None:
                    st.F.dead = True
                elif not st.add_eq(st.norm(i - H)):
                    st.F.dead = True
            elif H is not None:
                if not st.add_ne(st.norm(i - H)):
                    st.F.dead = True
        sc.eng.on_memeq.append(axiom)


def map_ghosts(s, m):
    """an arbitrary byte of an arbitrary slot of keys and values"""
    I, J = s.ghost('I', 0, m.ks), s.ghost('J', 0, m.vs)
    K = s.ghost('K', 0, m.max)
    s.track(m.keys, K * m.ks + I)
    s.track(m.vals, K * m.vs + J)
    return I, J, K


def kept(s, m, base, x, lab, I, J, K, props=('C20',), k=True, v=True):
    for pr in props:
        if k:
            s.same_at(x, pr, lab + ': stored key', m.keys, K * m.ks + I, s.at(base, m.keys, K * m.ks + I)[0][1])
        if v:
            s.same_at(x, pr, lab + ': stored value', m.vals, K * m.vs + J, s.at(base, m.vals, K * m.vs + J)[0][1])


def split_eq(s, x, p):
    """[(state, p == 0)]"""
    for z, iseq in cases(s, x, eq0(x.norm(p))):
        if not z.F.feasible():
            continue
        if iseq:
            z = z.clone()
            z.uc = {}
            z.add_eq(z.norm(p))
        yield z, iseq


def map_get(s, hit):
    m = M(s)
    if not feasible(s):
        return
    I, J, K = map_ghosts(s, m)
    out = s.buf('out', m.vs)
    s.track(out, J)
    old = s.at(s.st, out, J)[0][1]
    H = s.ghost('H', 0, m.cur) if hit else None
    m.where(H)
    if not feasible(s):
        return
    base = s.st.clone()
    for x, r in s.call('Map_getValue', m.p, m.key, out):
        s.same(x, 'C20', 'lookup succeeds exactly when the key was inserted', flag(r), C(1, int(hit)))
        m.o.same(x, 'C20', 'lookup', m.f)
        kept(s, m, base, x, 'lookup', I, J, K)
        if hit:
            for y, v in s.at(base, m.vals, H * m.vs + J):
                s.same_at(x, 'C20', 'lookup: byte of the value', out, J, v)
        else:
            for pr in ('C20', 'C32'):
                s.same_at(x, pr, 'failed lookup: output', out, J, old)


def map_put(s, hit, cur):
    m = M(s, cur)
    if not feasible(s):
        return
    I, J, K = map_ghosts(s, m)
    H = s.ghost('H', 0, m.cur) if hit else None
    m.where(H)
    if not feasible(s):
        return
    base = s.st.clone()
    kb, vb = s.at(base, m.key, I)[0][1], s.at(base, m.val, J)[0][1]
    for x, r in s.call('Map_insert', m.p, m.key, m.val):
        s.same(x, 'C20', 'insert fails exactly for a new key in a full map', flag(r), C(1, int(hit or cur != 'full')))
        if hit:
            m.o.same(x, 'C20', 'overwrite', m.f)
            kept(s, m, base, x, 'overwrite', I, J, K, v=False)
            for z, it in split_eq(s, x, K - H):
                if it:
                    s.same_at(z, 'C20', 'overwrite: the new value', m.vals, K * m.vs + J, vb)
                else:
                    kept(s, m, base, z, 'overwrite: other entries', I, J, K, k=False)
        elif cur == 'full':
            m.o.same(x, 'C20', 'failed insert', m.f)
            m.o.same(x, 'C32', 'failed insert', m.f)
            kept(s, m, base, x, 'failed insert', I, J, K, ('C20', 'C32'))
        else:
            m.o.same(x, 'C20', 'insert', dict(m.f, current_size=m.cur + 1))
            for z, it in split_eq(s, x, K - m.cur):
                if it:
                    s.same_at(z, 'C20', 'insert: the new key', m.keys, K * m.ks + I, kb)
                    s.same_at(z, 'C20', 'insert: the new value', m.vals, K * m.vs + J, vb)
                else:
                    kept(s, m, base, z, 'insert: other entries', I, J, K)


for _h in (False, True):
    scn('Map_getValue:%s' % ('present' if _h else 'absent'), ('C20', 'C32'), ('Map_getValue',), [], hist='Map:history')(lambda s, h=_h: map_get(s, h))
    for _c in ('room', 'full'):
        scn('Map_insert:%s, %s' % ('present' if _h else 'absent', _c), ('C20', 'C32'), ('Map_insert',), [], hist='Map:history')(lambda s, h=_h, c=_c: map_put(s, h, c))


@scn('Map_init', ('C20', 'C32'), ('Map_init',), hist='Map:history')
def _(s):
    ks, vs, mx = s.word('key_size', 32), s.word('value_size', 32), s.word('max_map_size', 32)
    names = ('key_size', 'value_size', 'max_map_size', 'current_size')
    for null in (0, 1, 2):
        o = Obj(s, 'Map_t', 'map')
        old = {k: o.get(s.st, k) for k in names}
        a = NULLP if null == 1 else s.buf('keys', 1)
        b = NULLP if null == 2 else s.buf('values', 1)
        for base, nz in cases(s, s.st, *[bnot1(icmp('eq', x, C(32, 0))) for x in (ks, vs, mx)]):
            ok = nz and not null
            for x, r in s.call('Map_init', o.p, a, b, ks, vs, mx, st=base):
                s.same(x, 'C20', 'init succeeds exactly for non-zero sizes and storage', flag(r), C(1, int(ok)))
                if ok:
                    o.same(x, 'C20', 'init', dict(keys=a, values=b, key_size=ks, value_size=vs, max_map_size=mx, current_size=ZERO))
                else:
                    o.same(x, 'C32', 'failed init', old)
    k, v = s.buf('key', 1, ro=True), s.buf('value', 1)
    I = s.at(s.st, v, 0)[0][1]
    for f in ('Map_insert', 'Map_getValue'):
        for x, r in s.call(f, NULLP, k, v):
            s.same(x, 'C20', f + ' without a map fails', flag(r), FALSE)
            s.same_at(x, 'C32', f + ' without a map', v, 0, I)


def map_history(s):
    """every history of bounded length from the init function, against an association list"""
    mx, ks, vs, depth = (s.conc[k] for k in ('max', 'ks', 'vs', 'depth'))
    s.eng.nomerge = True
    keys, vals = s.buf('keys', mx * ks), s.buf('values', mx * vs)
    o = Obj(s, 'Map_t', 'map')
    n = [0]

    def rep(x, content):
        o.same(x, 'REP', 'representation', dict(keys=keys, values=vals, key_size=pc(ks), value_size=pc(vs), max_map_size=pc(mx), current_size=pc(len(content))))
        for i, (k, v) in enumerate(content):
            for j in range(ks):
                s.same_at(x, 'REP', 'representation', keys, ks * i + j, k[j])
            for j in range(vs):
                s.same_at(x, 'REP', 'representation', vals, vs * i + j, v[j])

    def find(x, content, key):
        """[(state, index or None)]"""
        work = [(x, 0)]
        while work:
            y, i = work.pop()
            if i == len(content):
                yield y, None
                continue
            e = band([icmp('eq', y.canon(a), y.canon(b)) for a, b in zip(content[i][0], key)])
            for z, eq in cases(s, y, e):
                if eq:
                    yield z, i
                else:
                    work.append((z, i + 1))

    def lookup(x, content, h):
        n[0] += 1
        s.st = x.clone()
        kb, out = s.buf('key', ks, ro=True), s.buf('out', vs)
        key = fill(s, kb, ks, 'q%d_' % n[0])
        old = [s.at(s.st, out, j)[0][1] for j in range(vs)]
        base = s.st
        for y, i in find(base, content, key):
            for z, r in s.call('Map_getValue', o.p, kb, out, st=y):
                s.same(z, 'C20', 'lookup after %s: status' % (h or 'init'), flag(r), C(1, int(i is not None)))
                for j in range(vs):
                    s.same_at(z, 'C20' if i is not None else 'C32', 'lookup after %s: byte %d' % (h or 'init', j), out, j, content[i][1][j] if i is not None else old[j])

    def go(x, content, h, d):
        rep(x, content)
        lookup(x, content, h)
        if not d:
            return
        n[0] += 1
        s.st = x.clone()
        kb, vb = s.buf('key', ks, ro=True), s.buf('value', vs, ro=True)
        k, v = fill(s, kb, ks, 'k%d_' % n[0]), fill(s, vb, vs, 'v%d_' % n[0])
        for y, i in find(s.st, content, k):
            for z, r in s.call('Map_insert', o.p, kb, vb, st=y):
                ok = i is not None or len(content) < mx
                s.same(z, 'C20', 'insert after %s: status' % (h or 'init'), flag(r), C(1, int(ok)))
                if i is not None:
                    go(z, content[:i] + [(content[i][0], v)] + content[i + 1:], h + 'O', d - 1)
                else:
                    go(z, content + [(k, v)] if ok else content, h + ('I' if ok else 'F'), d - 1)
    for x, r in s.call('Map_init', o.p, keys, vals, C(32, ks), C(32, vs), C(32, mx)):
        go(x, [], '', depth)


helper('Map:history', ('C20', 'C32'), ('Map_init', 'Map_insert', 'Map_getValue'),
       [dict(max=m, ks=k, vs=v, depth=d) for m, k, v, d in ((1, 1, 1, 3), (2, 2, 1, 3), (3, 1, 2, 4))])(map_history)


def MI(hit, cur):
    out = []
    for mx, c in ((1, 1), (2, 1), (3, 2), (3, 3), (1, 0), (3, 0)):
        if (hit and not c) or (cur == 'room' and c == mx) or (cur == 'full' and c != mx):
            continue
        for H in range(c) if hit else (0,):
            for K in range(mx):
                out.append(dict(max=mx, cur=c, ks=2, vs=2, H=H, K=K, I=1, J=0))
    return out


def MG(hit, cur):
    def f(k):
        out = []
        for n in (k + 1,) if k > 20000 else (k, k + 1):
            c = n if cur == 'full' else n - 1 if not hit else n
            m, z = c if cur == 'full' else c + 1, 1 if k < 200 else 4
            out.append(dict(max=m, cur=c, ks=z, vs=1, H=c - 1, K=c - 1, I=z - 1, J=0))
        if k < 20000:
            out += [dict(max=3, cur=c, ks=d, vs=e, H=c - 1, K=c - 1, I=d - 1, J=e - 1) for c in ((3,) if cur == 'full' else (2,)) for d, e in ((k, 1), (k + 1, 1), (1, k), (1, k + 1), (k // 2 + 1, 1), (1, k // 2 + 1))]
        return out
    return f


for _e in specs.SCN:
    if _e.name.startswith('Map_insert:') or _e.name.startswith('Map_getValue:'):
        _a = (_e.name.split(':')[1].startswith('present'), _e.name.split(', ')[1] if ', ' in _e.name else None)
        _e.inst, _e.grow = MI(*_a), MG(*_a)


# ------------------------------------------------------------------ scheduler (C21)
class Tasks:
    """a table of n tasks in an arbitrary state"""

    def __init__(s, sc, ro=False):
        s.sc = sc
        lay = ir.layout('SchedulerTask_t')
        if lay is None or set(lay[0]) != {'function', 'active'}:
            raise Missing('SchedulerTask_t has other fields')
        (s.fo, fn), (s.ao, an) = lay[0]['function'], lay[0]['active']
        if fn != 8 or an != 1:
            raise Missing('SchedulerTask_t has other fields')
        s.es = lay[1]
        n = s.nt = sc.size('n', 32)
        s.n = uview(n)
        s.p = sc.buf('tasks', s.n * s.es, ro)

    def fn(s, st, i):
        v = s.sc.at(st, s.p, i * s.es + s.fo, 8)[0][1]
        return v.t if isinstance(v, PtrT) else C(64, 0) if v == NULLP else v

    def active(s, st, i):
        return flag(s.sc.at(st, s.p, i * s.es + s.ao)[0][1])

    def free(s, st, i):
        return icmp('eq', s.fn(st, i), C(64, 0))

    def track(s, i):
        s.sc.track(s.p, i * s.es + s.fo, 8)
        s.sc.track(s.p, i * s.es + s.ao, 1)

    def watch(s, i, nm):
        sc = s.sc
        sc.st.watch = sc.st.watch + [(s.p.r, sc.st.norm(i * s.es + o), n, ('R', nm)) for o, n in ((s.fo, 8), (s.ao, 1))]

    def index(s, st, off):
        d = st.norm(off) - s.fo
        if d.c % s.es or any(x % s.es for x in d.m.values()):
            return None
        return P(d.c // s.es, {k: x // s.es for k, x in d.m.items()})


def asw(v):
    return v.t if isinstance(v, PtrT) else C(64, 0) if v == NULLP else v


def sched_init(s):
    t = Tasks(s)
    K = s.ghost('K', 0, t.n)
    if not feasible(s):
        return
    t.track(K)
    for x, r in s.call('Scheduler_init', t.p, t.nt):
        s.same(x, 'C21', 'init: the slot is empty', t.fn(x, K), C(64, 0))
        s.same(x, 'C21', 'init: the slot is inactive', s.at(x, t.p, K * t.es + t.ao)[0][1], C(8, 0))


def sched_kept(s, t, base, x, lab, K, props=('C21',)):
    for pr in props:
        s.same(x, pr, lab + ': function', t.fn(x, K), t.fn(base, K))
        s.same(x, pr, lab + ': active flag', t.active(x, K), t.active(base, K))


def sched_add(s, hit):
    t = Tasks(s)
    new = s.buf('new_task', t.es, ro=True)
    nf, na = asw(s.at(s.st, new, t.fo, 8)[0][1]), flag(s.at(s.st, new, t.ao)[0][1])
    K = s.ghost('K', 0, t.n)
    H = s.ghost('H', 0, t.n) if hit else None
    if not feasible(s):
        return
    t.track(K)
    if hit:
        if not s.st.assume(t.free(s.st, H), True):
            return
        s.st.watch = s.st.watch + [(t.p.r, s.st.norm(H * t.es + t.fo), 8, ('R', 'first free slot'))]
    init = s.st.mem[t.p.r]
    if s.conc is not None and 'n' in s.conc:
        for i in range(s.conc['n']):
            if not hit or i < s.conc['H']:
                if not s.st.assume(t.free(s.st, pc(i)), False):
                    return
    else:
        def axiom(eng, st, ptr, n, v):
            """the slots before H (all slots, if none is free) are taken"""
            if ptr.r != t.p.r or n != 8:
                return
            i = t.index(st, ptr.off)
            if i is None or not st.entails(i) or not st.entails(st.norm(t.n - 1 - i)):
                return
            if hit:
                b = st.truth(ge0(st.norm(H - 1 - i)))
                if b is None:
                    raise Split(ge0(st.norm(H - 1 - i)))
                if not b:
                    return
            w = eng.load_raw(st, init, ptr.off, 8, False, t.p.r)
            if not st.assume(bnot1(icmp('eq', asw(w), C(64, 0))), True):
                st.F.dead = True
        s.eng.on_load.append(axiom)
        # the axiom for the observed slot
        if not hit:
            if not s.st.assume(t.free(s.st, K), False):
                return
    base = s.st.clone()
    for x, r in s.call('Scheduler_addTask', t.p, t.nt, new):
        s.same(x, 'C21', 'adding succeeds exactly when a slot is free', flag(r), C(1, int(hit)))
        if not hit:
            sched_kept(s, t, base, x, 'failed add', K, ('C21', 'C32'))
            continue
        for z, it in split_eq(s, x, K - H):
            if it:
                s.same(z, 'C21', 'add: the first free slot has the function', t.fn(z, K), nf)
                s.same(z, 'C21', 'add: the first free slot has the active flag', t.active(z, K), na)
            else:
                sched_kept(s, t, base, z, 'add: other slots', K)


def sched_run(s):
    t = Tasks(s, ro=True)
    K = s.ghost('K', 0, t.n)
    L = s.ghost('L', 0, t.n)
    s.st.add_ge(L - K - 1)
    if not feasible(s):
        return
    t.watch(K, 'slot K')
    t.watch(L, 'slot L')
    init = s.st.mem[t.p.r]

    def icall(eng, st, ins, fv, args):
        """which observed slots' functions have been called so far, in order"""
        w = None if isinstance(fv, FnPtr) else st.canon(asw(fv)) if fv != NULLP else C(64, 0)
        if w is not None and w.op == 'ite':
            raise Split(w.a[0])
        if w is not None and w.op == 'C':
            eng.check(st, ins, 'null', w.x != 0, 'call of a null pointer', [[]])
            w = None
        i = t.index(st, w.x[1]) if w is not None and w.op == 'sel' and w.x[0] == t.p.r and w.w == 64 else None
        if i is None:
            s.post('C21', 'only functions of slots are called', False if eng.exact(st) else None, st, 'call of %r' % (fv,), [[]])
            return [(st, None)]
        nul = icmp('eq', w, C(64, 0))
        eng.check(st, ins, 'null', st.truth(nul) is False, 'call of a null pointer', [[(nul, True)]])
        x = st.clone()
        seq = x.gh.get(('C', 'calls'), '')
        for g, nm in ((K, 'K'), (L, 'L')):
            b = st.truth(eq0(st.norm(i - g)))
            if b is None:
                raise Split(eq0(st.norm(i - g)))
            if b and len(seq) < 3:
                x.gh[('C', 'calls')] = seq + nm
        return [(x, None)]
    s.eng.on_icall = icall
    run = []
    for g in (K, L):
        run.append((bnot1(t.free(s.st, g)), t.active(s.st, g)))
    for bk, k in cases(s, s.st, *run[0]):
        for base, l in cases(s, bk, *run[1]):
            if not base.F.feasible():
                continue
            for x, r in s.call('Scheduler_run', t.p, t.nt, st=base):
                seq = x.gh.get(('C', 'calls'), '')
                s.post('C21', 'the functions of active non-empty slots are called, once each, in slot order, and no others', seq == 'K' * k + 'L' * l, x,
                       'called %s of slots K < L with %s' % (list(seq), ['K runnable: %s' % k, 'L runnable: %s' % l]), [[]])


scn('Scheduler_run', ('C21',), ('Scheduler_run',),
    [dict(n=n, K=k, L=l) for n, k, l in ((2, 0, 1), (3, 0, 1), (3, 1, 2), (3, 0, 2))],
    grow=lambda k: [dict(n=n, K=n - 2, L=n - 1) for n in (k, k + 1, k + 2) if n > 1])(sched_run)
scn('Scheduler_init', ('C21',), ('Scheduler_init',), [dict(n=n, K=k) for n in (1, 2, 3) for k in range(n)],
    grow=lambda k: [dict(n=n, K=n - 1) for n in (k, k + 1)])(sched_init)
for _h in (False, True):
    scn('Scheduler_addTask:%s' % ('room' if _h else 'full'), ('C21', 'C32'), ('Scheduler_addTask',),
        [dict(n=n, K=k, H=h) for n in (1, 2, 3) for k in range(n) for h in (range(n) if _h else (0,))],
        grow=lambda k: [dict(n=n, K=x, H=n - 1) for n in (k, k + 1) for x in (n - 1, 0)])(lambda s, h=_h: sched_add(s, h))


def sched_history(s):
    """init, then adds and runs, against a list"""
    n = s.conc['n']
    s.eng.nomerge = True
    t = Tasks(s)
    k = [0]

    def icall(eng, st, ins, fv, args):
        w = st.canon(asw(fv)) if isinstance(fv, (PtrT, Ptr)) else fv
        x = st.clone()
        x.gh[('C', 'calls')] = x.gh.get(('C', 'calls'), ()) + (w,)
        return [(x, None)]
    s.eng.on_icall = icall

    def runnable(x, content):
        """[(state, functions to be called)]"""
        cur = [(x, ())]
        for f, a in content:
            nxt = []
            for y, fs in cur:
                for z, ok in cases(s, y, a):
                    nxt.append((z, fs + (f,) if ok else fs))
            cur = nxt
        return cur

    def go(x, content, h):
        for base, want in runnable(x, content):
            base.gh.pop(('C', 'calls'), None)
            for y, r in s.call('Scheduler_run', t.p, C(32, n), st=base):
                got = y.gh.get(('C', 'calls'), ())
                s.post('C21', 'run after %s: the active tasks are called in the order of their slots' % h,
                       len(got) == len(want) and all(y.canon(a) is y.canon(b) for a, b in zip(got, want)), y, 'called %s, specified %s' % (got, want), [[]])
        if len(content) > n:
            return
        k[0] += 1
        s.st = x.clone()
        new = s.buf('task', t.es, ro=True)
        f, a = s.word('f%d' % k[0], 64), s.word('active%d' % k[0], 8)
        s.put(new, t.fo, 8, f)
        s.put(new, t.ao, 1, a)
        s.st.assume(icmp('eq', f, C(64, 0)), False)
        s.st.assume(icmp('ult', a, C(8, 2)), True)
        for y, r in s.call('Scheduler_addTask', t.p, C(32, n), new):
            ok = len(content) < n
            s.same(y, 'C21', 'adding after %s: status' % h, flag(r), C(1, int(ok)))
            if ok:
                go(y, content + [(f, flag(a))], h + ', add')
    for x, r in s.call('Scheduler_init', t.p, C(32, n)):
        go(x, [], 'init')


helper('Scheduler:history', ('C21',), ('Scheduler_init', 'Scheduler_addTask', 'Scheduler_run'), [dict(n=n) for n in (1, 2, 3)])(sched_history)
