"""Scenarios: a library function analysed under its documented preconditions, with the
postconditions of the properties checked on every abstract outcome."""
import time
import ir
from ir import Unsupported
import term as tm
from term import *
import engine as en
from engine import *
import loops
import wit

MEMSAFE = ('oob-read', 'oob-write', 'null', 'ro-write', 'uninit', 'ptrcmp', 'lifetime', 'overlap')
ARITH = ('shift', 'divzero', 'overflow')


class Missing(Exception):
    pass


class Refuted(Exception):
    """a history refuting the property: no need to look at longer ones"""


class Post:
    """one postcondition instance"""
    __slots__ = ('prop', 'label', 'ok', 'why', 'st', 'wit', 'neg')

    def __init__(s, prop, label, ok, why='', st=None, neg=None):
        s.prop, s.label, s.ok, s.why, s.st, s.neg = prop, label, ok, why, st, neg
        s.wit = None


class Scn:
    def __init__(s, prog, name, conc=None, budget=400000, tlimit=200, debug=False):
        s.p = prog
        s.name = name
        s.conc = conc
        s.eng = Engine(prog, budget, tlimit)
        s.eng.debug = debug
        if conc is not None:
            s.eng.concrete = True
            s.eng.max_live = 400
            s.eng.max_outs = 2000
            big = max([abs(v) for v in conc.values()] + [1])
            s.eng.max_iter = max(2000, 40 * big, min(4 * big * big, 100000))
        s.st = State(s.eng)
        s.st.frames.append(en.Frame(None))
        s.posts = s.eng.posts = []
        s.outs = None
        s.fn = None
        s.tries = 0
        s.guide = []
        s.names = {}
        s.calls = []
        s.stop = None

    # ---- inputs
    def fnof(s, name):
        f = s.p.fns.get(name)
        if f is None:
            raise Missing('function %s not found' % name)
        return f

    def size(s, name, w, lo=0, hi=None, vals=None):
        """a size argument: symbolic in [lo,hi], or fixed in an instance"""
        if s.conc is not None and name in s.conc:
            return C(w, s.conc[name])
        t = s.names[name] = sym(name, w)
        if lo:
            s.st.add_ge(pa(t) - lo)
        if hi is not None and hi < (1 << w) - 1:
            s.st.add_ge(pc(hi) - pa(t))
        return t

    def word(s, name, w):
        return sym(name, w)

    def ghost(s, name, lo, hi):
        """arbitrary but fixed integer lo <= g < hi (P bounds)"""
        if s.conc is not None and name in s.conc:
            p = pc(s.conc[name])
        else:
            s.names[name] = sym(name, 0)
            p = pa(s.names[name])
        s.st.add_ge(p - lo)
        s.st.add_ge((hi if isinstance(hi, P) else pc(hi)) - p - 1)
        return p

    def buf(s, name, size, ro=False, undef=False):
        size = size if isinstance(size, P) else pc(size)
        rid = s.eng.region(s.st, name, s.st.norm(size), 'param', ro, undef=undef)
        return Ptr(rid, ZERO)

    def strbuf(s, name, length, size=None, ro=False):
        """NUL-terminated string of the given length in an object of the given size"""
        p = s.buf(name, size if size is not None else length + 1, ro)
        length = s.st.norm(length)
        s.st.strz[p.r] = length
        s.st.mem[p.r] = MNode(s.st.mem[p.r], 'cell', length, 1, C(8, 0))
        return p

    def track(s, ptr, off, n=1):
        off = s.st.norm(off)
        s.st.tracked = s.st.tracked + [(ptr.r, off, n)]
        return off

    def put(s, ptr, off, n, v):
        s.eng.write(s.st, ptr.r, s.st.norm(ptr.off + off), n, v)

    def at(s, st, ptr, off, n=1):
        """[(state, value)] of memory in a state (splitting where needed)"""
        off = off if isinstance(off, P) else pc(off)
        work, out = [st], []
        while work:
            x = work.pop()
            try:
                v = s.eng.load_raw(x, x.mem[ptr.r], x.norm(ptr.off + off), n, n == 8 and False, ptr.r)
            except Split as e:
                work += s.eng.fork(x, e.cond)
                if len(out) + len(work) > 200:
                    raise Unsupported('too many cases')
                continue
            if n == 1 and ptr.r in x.strz:
                s.eng.str_fact(x, ptr.r, ptr.off + off, v)
            out.append((x, v))
        return out

    # ---- run
    def call(s, name, *args, st=None):
        f = s.fnof(name)
        s.fn = f
        if len(args) != len(f.params):
            raise Missing('%s takes %d parameters, expected %d' % (name, len(f.params), len(args)))
        args = [a if isinstance(a, (Ptr, FnPtr, PtrT)) else a for a in args]
        for a, (t, nm, at) in zip(args, f.params):
            if isinstance(a, T) and (t.k != 'int' or t.w != a.w):
                raise Missing('%s: parameter %s has another type' % (name, nm))
        pre = (st or s.st).clone()
        outs = s.eng.call_fn((st or s.st).clone(), f, list(args))
        if not s.eng.concrete:
            s.calls.append((pre, [x.clone() for x, v in outs]))
        res = []
        for x, v in outs:
            x.frames = x.frames[:1]
            res.append((x, v))
        return res

    # ---- postconditions
    def post(s, prop, label, ok, st=None, why='', neg=((),)):
        q = Post(prop, label, ok, why + (('\n      path: ' + st.pstr()) if st is not None and ok is not True else ''), st if not s.eng.concrete else None)
        s.posts.append(q)
        if ok is not True and st is not None and neg is not None:
            if s.eng.exact(st):
                if s.tries < 60:
                    s.tries += 1
                    for alt in neg:
                        e = wit.find(st, list(alt))
                        if e is not None:
                            q.wit = wit.describe(e, st)
                            if s.stop and prop in s.stop:
                                raise Refuted(label)
                            break
            elif len(s.guide) < 6:
                s.guide.append((st.clone(), [list(a) for a in neg], prop, label))
        return ok

    def must(s, st, prop, label, c, why=''):
        """the 1-bit word c holds in st"""
        v = cond_truth(s.eng, st, c)
        return s.post(prop, label, v, st, why, [[(st.canon(c), False)]])

    def same(s, st, prop, label, a, b, why=''):
        """words a, b equal in st"""
        if isinstance(a, tuple) or not isinstance(a, T) or not isinstance(b, T):
            ok = (a == b) or (isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r and not st.norm(a.off - b.off).m and st.norm(a.off - b.off).c == 0)
            return s.post(prop, label, bool(ok), st, why or '%r is not %r' % (a, b))
        r = eqT(s.eng, st, a, b)
        if r is not True and not why:
            why = 'value %s, specified %s' % (show(st.canon(a)), show(st.canon(b)))
        neg = None
        if r is not True and a.w == b.w:
            neg = [[(icmp('eq', st.canon(a), st.canon(b)), False)]]
        elif r is not True:
            neg = [[]]
        return s.post(prop, label, r, st, why, neg)

    def same_at(s, st, prop, label, ptr, off, want, n=1):
        for x, v in s.at(st, ptr, off, n):
            w = want(x) if callable(want) else want
            s.same(x, prop, label, v, w)


def eqT(eng, st, a, b, d=0):
    a, b = st.canon(a), st.canon(b)
    if a is b:
        return True
    if a.w != b.w:
        return False
    try:
        c = icmp('eq', a, b)
        v = st.truth(c)
    except Split as e:
        v = None
    if v is not None:
        return v
    return cond_truth(eng, st, c, d)


def cond_truth(eng, st, c, d=0):
    """True / False / None, splitting on undecided choices inside"""
    try:
        v = st.truth(c)
    except Split as e:
        v = None
        if d < 12:
            rs = [cond_truth(eng, x, c, d + 1) for x in eng.fork(st, e.cond)]
            if rs and all(r is True for r in rs):
                return True
            return None
    if v is not None:
        return v
    try:
        cc = st.canon(c)
        if cc.op in ('ge0', 'eq0') and support_bits(cc) > 48:
            raise TooBig('wide arithmetic')
        b = bits(cc)[0]
        x = tm.B.AND(st.care, tm.B.NOT(b))
        if x == 0:
            return True
        if st.relink() and tm.B.AND(st.care, tm.B.NOT(b)) == 0:
            return True
    except TooBig:
        pass
    # try a contradiction with the linear facts
    x = st.clone()
    x.uc = {}
    try:
        if not x.assume(c, False) or not x.F.feasible():
            return True
    except Split:
        pass
    if d < 4:
        # one case of a disjunction at a time
        for k, v in list(st.known.items()):
            if v and k.op == 'or' and k.w == 1:
                p = k.a[0]
                try:
                    if st.truth(p) is not None:
                        continue
                    rs = []
                    for x in eng.fork(st, p):
                        x.known.pop(k, None)
                        if not x.assume(k, True) or not x.F.feasible():
                            continue
                        x.known.pop(k, None)
                        rs.append(cond_truth(eng, x, c, d + 1))
                        if rs[-1] is not True:
                            break
                except Split:
                    continue
                if all(r is True for r in rs):
                    return True
                break
    return None
