"""Contracts of the external string/memory functions the library may call."""
from ir import Unsupported
import term as tm
from term import *
from engine import *
import engine as en
from pts import base_name


def call(eng, st, ins, name, args):
    if name.startswith('llvm.'):
        n = name.split('.')
        if n[1] in ('dbg', 'lifetime', 'assume', 'experimental'):
            return [(st, None)]
        if n[1] in ('umin', 'umax', 'smin', 'smax'):
            a, b = args
            c = icmp('ult' if n[1][0] == 'u' else 'slt', a, b)
            v = st.truth(c)
            if v is None:
                if bitsy(c):
                    return [(st, ite(c, a, b) if n[1].endswith('min') else ite(c, b, a))]
                raise Split(c)
            return [(st, a if v == n[1].endswith('min') else b)]
        if n[1] in ('fshl', 'fshr') and args[2].op == 'C':
            w = args[0].w
            k = args[2].x % w
            if n[1] == 'fshr':
                k = w - k if k else 0
                if k == 0:
                    return [(st, args[1])]
            if k == 0:
                return [(st, args[0])]
            return [(st, bor([shl(args[0], C(w, k)), lshr(args[1], C(w, w - k))]))]
        if n[1] == 'bswap':
            w = args[0].w
            return [(st, bor([shl(zext(ext(args[0], 8 * i, 8), w), C(w, w - 8 - 8 * i)) for i in range(w // 8)]))]
    b = base_name(name)
    eng.ext_calls[b] = eng.ext_calls.get(b, 0) + 1
    f = globals().get('m_' + str(b))
    if f is None:
        raise Unsupported('external function %s' % name)
    return f(eng, st, ins, args)


def length(st, t):
    return st.uval(t)


# ------------------------------------------------------------------ memory
def overlap_ok(eng, st, d, s, n):
    if d.r != s.r or d.r is None:
        return True
    x = st.norm(d.off - s.off)
    if st.prove(-n) or st.prove(x - n) or st.prove(-x - n):
        return True
    if st.prove(x) and st.prove(-x):
        return True        # exact self copy: harmless in every implementation, still counted below
    return False


def overlap_neg(st, d, s, n):
    x = st.norm(d.off - s.off)
    return [[(st.norm(n - x - 1), True), (st.norm(n + x - 1), True), (st.norm(n - 1), True)]]


def copy(eng, st, ins, args, strict):
    d, s, n = args[0], args[1], length(st, args[2])
    if st.prove(-n):
        return [(st, d)]
    eng.acc_ok(st, ins, s, n, False)
    eng.acc_ok(st, ins, d, n, True)
    if not isinstance(d, Ptr) or not isinstance(s, Ptr) or d.r is None or s.r is None:
        return [(st, d)]
    if strict:
        eng.check(st, ins, 'overlap', overlap_ok(eng, st, d, s, n), 'overlapping memory copy', overlap_neg(st, d, s, n))
    eng.watch_read(st, s, n)
    n = st.norm(n)
    for h in eng.on_copy:
        r = h(eng, st, ins, d, s, n)
        if r is not None:
            return [(x, d) for x in r]
    do_copy(eng, st, d, s, n)
    return [(st, d)]


def do_copy(eng, st, d, s, n):
    if not n.m and 0 < n.c <= 8:
        # small: move values
        vals = None
        if n.c in (1, 2, 4, 8):
            vals = [(0, n.c, eng.load_raw(st, st.mem[s.r], s.off, n.c, False, s.r))]
        else:
            vals = [(i, 1, eng.load_raw(st, st.mem[s.r], s.off + i, 1, False, s.r)) for i in range(n.c)]
        for o, k, v in vals:
            eng.write(st, d.r, d.off + o, k, v)
        return
    eng.copy_range(st, d.r, d.off, s.r, s.off, n)


def m_memcpy(eng, st, ins, args):
    return copy(eng, st, ins, args, True)


def m_memmove(eng, st, ins, args):
    return copy(eng, st, ins, args, False)


def m_memset(eng, st, ins, args):
    d, v, n = args[0], args[1], length(st, args[2])
    if st.prove(-n):
        return [(st, d)]
    eng.acc_ok(st, ins, d, n, True)
    if not isinstance(d, Ptr) or d.r is None:
        return [(st, d)]
    n = st.norm(n)
    b = trunc(v, 8)
    st_fill(eng, st, d, n, b)
    return [(st, d)]


def st_fill(eng, st, d, n, b):
    if d.r in eng.guard:
        eng.guard[d.r](st)
    z = st.strz.pop(d.r, None)
    st.mem[d.r] = MNode(st.mem[d.r], 'fill', st.norm(d.off), n, b)
    if b.op == 'C' and b.x == 0 and z is not None and st.entails(d.off) and st.entails(z - d.off):
        st.strz[d.r] = st.norm(d.off)


def root_range(eng, st, node, rid, off, n):
    """skip writes disjoint from [off,off+n) and follow enclosing copies: (key, off)"""
    off = st.norm(off)
    while node is not None:
        if node.k == 'base':
            return (node.v, off)
        if node.k == 'mark':
            node = node.p
            continue
        cn = pc(node.n) if isinstance(node.n, int) else node.n
        d = st.norm(off - node.off)
        if st.entails(d - cn) or st.entails(-d - n):
            node = node.p
            continue
        if node.k == 'copy' and st.entails(d) and st.entails(cn - d - n):
            src, soff, srid = node.x
            node, off = src, st.norm(soff + d)
            continue
        if node.k == 'havocr' and st.entails(d) and st.entails(cn - d - n):
            return (node.v, off)
        return (('n', node.id), off)
    return (None, off)


def memeq(eng, st, a, b, n):
    if not n.m and n.c <= 2000:
        # decided byte by byte?
        same = True
        for i in range(n.c):
            try:
                x = eng.load_raw(st, st.mem[a.r], a.off + i, 1, False, a.r)
                y = eng.load_raw(st, st.mem[b.r], b.off + i, 1, False, b.r)
                v = st.truth(icmp('eq', x, y)) if isinstance(x, T) and isinstance(y, T) else None
            except Split:
                v = None
            if v is False:
                return C(1, 0)
            if v is None:
                same = False
                if not eng.concrete:
                    break
        if same:
            return C(1, 1)
    ka, oa = root_range(eng, st, st.mem[a.r], a.r, a.off, n)
    kb, ob = root_range(eng, st, st.mem[b.r], b.r, b.off, n)
    if (str(ka), oa.key) > (str(kb), ob.key):
        ka, oa, kb, ob = kb, ob, ka, oa
    if ka == kb and oa == ob:
        return C(1, 1)
    return fn('memeq', 1, (mkW(64, oa), mkW(64, ob), mkW(64, st.norm(n))), (ka, kb))


def equal(eng, st, ins, a, b, n):
    if not n.m and n.c <= 16:
        # byte by byte: equality exactly, order left open
        e = C(1, 1)
        for i in range(n.c):
            x = eng.load_raw(st, st.mem[a.r], a.off + i, 1, False, a.r)
            y = eng.load_raw(st, st.mem[b.r], b.off + i, 1, False, b.r)
            if x is UNDEF or y is UNDEF:
                eng.check(st, ins, 'uninit', False, 'comparison of uninitialised bytes')
                e = tm.fresh('uninit', 1)
                break
            e = band([e, icmp('eq', x, y)])
    else:
        e = memeq(eng, st, a, b, n)
    return e


def m_memcmp(eng, st, ins, args):
    a, b, n = args[0], args[1], length(st, args[2])
    if st.prove(-n):
        return [(st, C(32, 0))]
    eng.acc_ok(st, ins, a, n, False)
    eng.acc_ok(st, ins, b, n, False)
    if not isinstance(a, Ptr) or not isinstance(b, Ptr) or a.r is None or b.r is None:
        return [(st, tm.fresh('memcmp', 32))]
    eng.watch_read(st, a, n)
    eng.watch_read(st, b, n)
    n = st.norm(n)
    e = equal(eng, st, ins, a, b, n)
    v = st.truth(e)
    if v is True:
        return [(st, C(32, 0))]
    out = []
    if v is None:
        for val in (True, False):
            x = st.clone()
            x.uc = {}
            if x.assume(e, val):
                for h in eng.on_memeq:
                    h(eng, x, a, b, n, val)
                if x.F.dead:
                    continue
                if n.m or n.c > 16:
                    x.lossy = True
                out.append((x, C(32, 0) if val else nonzero(x)))
        return out
    return [(st, nonzero(st))]


def nonzero(st):
    r = tm.fresh('order', 32, True)
    st.known[st.canon(icmp('eq', r, C(32, 0)))] = False
    st.add_ne(pa(r))
    return r


m_bcmp = m_memcmp


# ------------------------------------------------------------------ strings
def str_end(eng, st, ins, p, what='string'):
    """P position (absolute offset) of the terminator of the string at p"""
    if not isinstance(p, Ptr) or p.r is None:
        eng.check(st, ins, 'null', False, 'null pointer as string')
        return None
    eng.check(st, ins, 'null', True, 'null pointer as string')
    r = eng.regions[p.r]
    off = st.norm(p.off)
    if r.data is not None and not off.m:
        for i in range(off.c, len(r.data)):
            if r.data[i] == 0:
                return pc(i)
    z = st.strz.get(p.r)
    if z is not None:
        if st.prove(z - off) and st.prove(off):
            return st.norm(z)
        if st.prove(off) and st.truth(ge0(st.norm(z - off))) is None:
            raise Split(ge0(st.norm(z - off)))
    # constant contents
    if not off.m:
        for i in range(off.c, off.c + 64):
            if not st.entails(r.size - i - 1):
                break
            try:
                v = eng.load_raw(st, st.mem[p.r], pc(i), 1, False, p.r)
            except Split:
                break
            if not isinstance(v, T):
                break
            t = st.truth(icmp('eq', v, C(8, 0)))
            if t is True:
                return pc(i)
            if t is None:
                break
    eng.check(st, ins, 'oob-read', False, 'no terminator is guaranteed in %s' % r.name, None)
    return None


def m_strlen(eng, st, ins, args):
    p = args[0]
    e = str_end(eng, st, ins, p)
    if e is None:
        return [(st, tm.fresh('strlen', 64))]
    eng.check(st, ins, 'oob-read', True, 'no terminator is guaranteed in %s' % eng.regions[p.r].name)
    eng.watch_read(st, p, e - p.off + 1)
    return [(st, mkW(64, st.norm(e - p.off)))]


def m_strcpy(eng, st, ins, args, start=None):
    d, s = args
    e = str_end(eng, st, ins, s)
    if e is None:
        return [(st, d)]
    n = st.norm(e - s.off + 1)
    eng.acc_ok(st, ins, s, n, False)
    eng.acc_ok(st, ins, d, n, True)
    if not isinstance(d, Ptr) or d.r is None:
        return [(st, d)]
    eng.check(st, ins, 'overlap', overlap_ok(eng, st, d, s, n), 'overlapping string copy', overlap_neg(st, d, s, n))
    eng.watch_read(st, s, n)
    z = st.strz.get(d.r)
    keep = (z is not None and st.prove(z - d.off) and st.prove(d.off)) or (not d.off.m and d.off.c == 0)
    do_copy(eng, st, d, s, n)
    if keep:
        st.strz[d.r] = st.norm(d.off + n - 1)
    else:
        st.strz.pop(d.r, None)
    return [(st, d)]


def m_strcat(eng, st, ins, args):
    d, s = args
    e = str_end(eng, st, ins, d)
    if e is None:
        return [(st, d)]
    r = m_strcpy(eng, st, ins, [Ptr(d.r, e), s])
    return [(x, d) for x, _ in r]


def m_strncpy(eng, st, ins, args):
    d, s = args[0], args[1]
    n = length(st, args[2])
    if st.prove(-n):
        return [(st, d)]
    e = str_end(eng, st, ins, s)
    if e is None:
        return [(st, d)]
    ln = st.norm(e - s.off)
    c = ge0(st.norm(n - ln - 1))     # terminator copied
    v = st.truth(c)
    if v is None:
        raise Split(c)
    eng.acc_ok(st, ins, d, n, True)
    if not isinstance(d, Ptr) or d.r is None:
        return [(st, d)]
    if v:
        z = st.strz.get(d.r)
        keep = (z is not None and st.prove(z - d.off) and st.prove(d.off)) or (not d.off.m and d.off.c == 0)
        do_copy(eng, st, d, s, st.norm(ln))
        rest = st.norm(n - ln)
        st.mem[d.r] = MNode(st.mem[d.r], 'fill', st.norm(d.off + ln), rest, C(8, 0))
        st.strz.pop(d.r, None)
        if keep:
            st.strz[d.r] = st.norm(d.off + ln)
    else:
        do_copy(eng, st, d, s, n)
        st.strz.pop(d.r, None)
    return [(st, d)]


def m_strcmp(eng, st, ins, args):
    return strcmp_n(eng, st, ins, args[0], args[1], None)


def m_strncmp(eng, st, ins, args):
    n = length(st, args[2])
    return strcmp_n(eng, st, ins, args[0], args[1], n)


def strcmp_n(eng, st, ins, a, b, n):
    """both sides are read up to the first difference or terminator, at most n bytes"""
    if n is not None and st.prove(-n):
        return [(st, C(32, 0))]
    for p in (a, b):
        if not isinstance(p, Ptr) or p.r is None:
            eng.check(st, ins, 'null', False, 'null pointer as string')
            return [(st, tm.fresh('strcmp', 32, True))]
    ea = st.strz.get(a.r)
    eb = st.strz.get(b.r)
    for r_, p in ((0, a), (1, b)):
        rg = eng.regions[p.r]
        if rg.data is not None and not st.norm(p.off).m:
            for i in range(p.off.c, len(rg.data)):
                if rg.data[i] == 0:
                    if r_ == 0:
                        ea = pc(i)
                    else:
                        eb = pc(i)
                    break
    la = st.norm(ea - a.off + 1) if ea is not None and st.prove(ea - a.off) else None
    lb = st.norm(eb - b.off + 1) if eb is not None and st.prove(eb - b.off) else None
    cands = [x for x in (n, la, lb) if x is not None]
    if not cands:
        eng.check(st, ins, 'oob-read', False, 'comparison of unterminated strings', None)
        return [(st, tm.fresh('strcmp', 32, True))]
    m = None
    for c in cands:
        if all(c is o or st.prove(o - c) for o in cands):
            m = c
            break
    if m is None:
        for i, c in enumerate(cands):
            for o in cands[i + 1:]:
                q = ge0(st.norm(o - c))
                if st.truth(q) is None:
                    raise Split(q)
        m = cands[0]
    m = st.norm(m)
    eng.acc_ok(st, ins, a, m, False)
    eng.acc_ok(st, ins, b, m, False)
    eng.watch_read(st, a, m)
    eng.watch_read(st, b, m)
    lim = 2000 if eng.concrete else 16
    if not m.m and m.c <= lim:
        eqs, zs, e = [], [], None
        for i in range(m.c):
            x = eng.load_raw(st, st.mem[a.r], a.off + i, 1, False, a.r)
            y = eng.load_raw(st, st.mem[b.r], b.off + i, 1, False, b.r)
            if x is UNDEF or y is UNDEF:
                e = tm.fresh('uninit', 1)
                break
            q = icmp('eq', x, y)
            if la is None and lb is None:
                # a terminator in both ends the comparison
                zs.append(band(eqs + [q, icmp('eq', x, C(8, 0))]))
            eqs.append(q)
            if st.truth(q) is False:
                break
        if e is None:
            e = band(eqs) if eqs else C(1, 1)
        if zs:
            e = bor(zs + [e])
    else:
        e = memeq(eng, st, a, b, m)
        if la is None and lb is None and st.truth(e) is not True:
            # equal up to a terminator in both, or not
            e = bor([e, tm.fresh('equal prefix', 1)])
    v = st.truth(e)
    if v is not None:
        return [(st, C(32, 0) if v else nonzero(st))]
    out = []
    for val in (True, False):
        x = st.clone()
        x.uc = {}
        if x.assume(e, val):
            if not val or la is not None or lb is not None:
                for h in eng.on_memeq:
                    h(eng, x, a, b, m, val)
            if m.m or m.c > lim:
                x.lossy = True
            if not x.F.dead:
                out.append((x, C(32, 0) if val else nonzero(x)))
    return out


def m_memchr(eng, st, ins, args):
    p, c, n = args[0], args[1], length(st, args[2])
    if st.prove(-n):
        return [(st, NULL)]
    eng.acc_ok(st, ins, p, n, False)
    if not isinstance(p, Ptr) or p.r is None:
        return [(st, NULL)]
    return found(eng, st, p, n)


def found(eng, st, p, n):
    x = st.clone()
    x.uc = {}
    k = tm.fresh('found', 0)
    x.add_ge(pa(k))
    x.add_ge(n - 1 - pa(k))
    return [(st, NULL), (x, Ptr(p.r, p.off + pa(k)))]


def m_strchr(eng, st, ins, args):
    p = args[0]
    e = str_end(eng, st, ins, p)
    if e is None:
        return [(st, NULL)]
    return found(eng, st, p, st.norm(e - p.off + 1))


def m_toupper(eng, st, ins, args):
    v = args[0]
    lo = band([bnot1(icmp('slt', v, C(32, 97))), icmp('slt', v, C(32, 123))])
    return [(st, ite(lo, sub_(v, C(32, 32)), v))]


def m_tolower(eng, st, ins, args):
    v = args[0]
    up = band([bnot1(icmp('slt', v, C(32, 65))), icmp('slt', v, C(32, 91))])
    return [(st, ite(up, add(v, C(32, 32)), v))]


def m_abs(eng, st, ins, args):
    v = args[0]
    c = icmp('slt', v, C(v.w, 0))
    t = st.truth(c)
    if t is None:
        raise Split(c)
    return [(st, sub_(C(v.w, 0), v) if t else v)]
