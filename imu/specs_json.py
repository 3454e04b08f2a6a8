"""Scenarios for the JSON builder and lookup (C15-C17, C32)."""
from specs_obj import *

QUOTE = C(8, 34)
MAXLEN = (1 << 31) - 1


def prior(s, bs_name='bs', fits=True):
    """(buffer, buffer_size, P length): a buffer of buffer_size bytes holding a string; fits=False: a longer string
    than the size that is passed"""
    bs = s.size('bs', 64, 0, 1 << 60)
    L = uview(s.size('len', 64, 0, MAXLEN))
    b = uview(bs)
    if fits:
        s.st.add_ge(b - 1 - L)
    else:
        s.st.add_ge(L - b)
    if not feasible(s):
        return None
    return s.strbuf('buffer', L, b if fits else L + 1), bs, L


def unchanged(s, x, name, buf, J, old):
    for p in ('C15', 'C32'):
        s.same_at(x, p, name + ': buffer unchanged when it does not fit', buf, J, old)


def chars(st, text):
    return [C(8, ord(c)) for c in text] + [C(8, 0)]


@scn('Json_startString', ('C15', 'C16', 'C32'), ('Json_startString',), [dict(bs=k, J=j) for k in range(5) for j in range(max(k, 1))])
def _(s):
    bs = s.size('bs', 64, 0, 1 << 60)
    b = uview(bs)
    buf = s.buf('buffer', b)
    for base, some in cases(s, s.st, ge0(b - 1)):
        s.st = base
        J = old = None
        if some:
            J = s.ghost('J', 0, b)
            if not feasible(s):
                continue
            s.track(buf, J)
            old = s.at(s.st, buf, J)[0][1]
        for x, r in s.call('Json_startString', buf, bs, st=s.st):
            for y, ok in cases(s, x, ge0(b - 2)):
                if not y.F.feasible():
                    continue
                s.same(y, 'C15', 'start succeeds exactly when it fits', flag(r), C(1, int(ok)))
                if ok:
                    for i, c in enumerate(chars(y, '{')):
                        s.same_at(y, 'C16' if i < 1 else 'C15', 'start: character %d' % i, buf, i, c)
                elif some:
                    unchanged(s, y, 'start', buf, J, old)


def end(s, fits, zone):
    r = prior(s, fits=fits)
    if r is None:
        return
    buf, bs, L = r
    b = uview(bs)
    top = b if fits else L + 1
    J = s.ghost('J', 0, top)
    if zone == 'prefix':
        s.st.add_ge(L - 1 - J)
    else:
        s.st.add_ge(J - L)
    if not feasible(s):
        return
    s.track(buf, J)
    for base, old in s.at(s.st, buf, J):
        for x, r in s.call('Json_endString', buf, bs, st=base):
            for y, ok in cases(s, x, ge0(b - L - 2)):
                if not y.F.feasible():
                    continue
                s.same(y, 'C15', 'end succeeds exactly when it fits', flag(r), C(1, int(ok)))
                if not ok:
                    unchanged(s, y, 'end', buf, J, old)
                elif zone == 'prefix':
                    s.same_at(y, 'C16', 'end: text so far', buf, J, old)
                else:
                    for i, c in enumerate(chars(y, '}')):
                        s.same_at(y, 'C16' if i < 1 else 'C15', 'end: character %d' % i, buf, L + i, c)


EI = [dict(len=k, bs=k + d, J=j) for k in (0, 1, 3) for d in (1, 2, 3) for j in range(k + d)]
EX = [dict(len=k, bs=max(0, k - d), J=j) for k in (0, 1, 3) for d in (0, 1) for j in range(k + 1)]
for _z in ('prefix', 'rest'):
    for _f in (True, False):
        scn('Json_endString:%s%s' % (_z, '' if _f else ', longer string'), ('C15', 'C16', 'C32'), ('Json_endString',), EI if _f else EX)(
            lambda s, z=_z, f=_f: end(s, f, z))


def add(s, fits, sep, zone):
    """sep: none (empty text), yes (the text ends with a quote), no"""
    r = prior(s, fits=fits)
    if r is None:
        return
    buf, bs, L = r
    b = uview(bs)
    K = uview(s.size('klen', 64, 0, MAXLEN))
    V = uview(s.size('vlen', 64, 0, MAXLEN))
    if sep == 'none':
        s.st.add_ge(-L)
    else:
        s.st.add_ge(L - 1)
    if not feasible(s):
        return
    L = s.st.norm(L)
    if sep != 'none':
        c = s.at(s.st, buf, L - 1)[0][1]
        if not s.st.assume(icmp('eq', c, QUOTE), sep == 'yes'):
            return
    n = int(sep == 'yes')
    key, val = s.strbuf('key', K, ro=True), s.strbuf('value', V, ro=True)
    total = L + n + K + V + 6
    # where the arbitrary byte is
    k0 = L + n + 1
    v0 = k0 + K + 3
    base, size = {'prefix': (ZERO, L), 'key': (k0, K), 'value': (v0, V), 'rest': (L, (b if fits else L + 1) - L)}[zone]
    j = s.ghost('J', 0, size)
    if not feasible(s):
        return
    off = s.st.norm(base + j)
    s.st.add_ge((b if fits else L + 1) - 1 - off)
    if not feasible(s):
        return
    s.track(buf, off)
    src = None
    if zone in ('key', 'value'):
        src = s.at(s.st, key if zone == 'key' else val, j)[0][1]
        s.st.tracked = s.st.tracked + [((key if zone == 'key' else val).r, s.st.norm(j), 1)]
    for base, old in s.at(s.st, buf, off):
        for x, r in s.call('Json_addData', buf, bs, key, val, st=base):
            for y, ok in cases(s, x, ge0(b - total)):
                if not y.F.feasible():
                    continue
                s.same(y, 'C15', 'add succeeds exactly when it fits', flag(r), C(1, int(ok)))
                if not ok:
                    unchanged(s, y, 'add', buf, off, old)
                elif zone == 'prefix':
                    s.same_at(y, 'C16', 'add: text so far', buf, off, old)
                elif zone in ('key', 'value'):
                    s.same_at(y, 'C16', 'add: character J of the ' + zone, buf, off, src)
                else:
                    put = [(L, ',')] if n else []
                    put += [(k0 - 1, '"'), (k0 + K, '"'), (k0 + K + 1, ':'), (k0 + K + 2, '"'), (v0 + V, '"')]
                    for o, c in put:
                        s.same_at(y, 'C16', 'add: punctuation %s' % c, buf, y.norm(o), C(8, ord(c)))
                    s.same_at(y, 'C15', 'add: terminator', buf, y.norm(total - 1), C(8, 0))


AI = [dict(len=l, klen=k, vlen=v, bs=max(l + 1, l + k + v + 6 + d), J=j) for l, k, v in ((0, 1, 1), (0, 0, 0), (1, 2, 1), (2, 1, 2), (3, 0, 1)) for d in (-1, 0, 1, 2) for j in range(3)]
AX = [dict(len=l, klen=k, vlen=v, bs=max(l - d, 0), J=j) for l, k, v in ((0, 1, 1), (1, 0, 0), (4, 1, 1)) for d in (0, 1) for j in range(3)]


def AG(k):
    return [dict(len=k, klen=1, vlen=1, bs=k + 8 + d, J=j) for d in (0, 1) for j in (0, 1)] + [dict(len=1, klen=a, vlen=c, bs=k + 8 + d, J=j) for a, c in ((k, 1), (1, k)) for d in (0, 1) for j in (0, k - 1)]


for _z in ('prefix', 'key', 'value', 'rest'):
    for _s in ('none', 'yes', 'no'):
        for _f in (True, False):
            if _s == 'none' and _z == 'prefix' or not _f and _z in ('key', 'value'):
                continue
            scn('Json_addData:%s, separator %s%s' % (_z, _s, '' if _f else ', longer string'), ('C15', 'C16', 'C32'), ('Json_addData',), AI if _f else AX, grow=AG)(
                lambda s, z=_z, f=_f, p=_s: add(s, f, p, z))


# ------------------------------------------------------------------ lookup (C17)
def terminator(st, p):
    """P offset of the last NUL written to the region of p on this path"""
    n = st.mem[p.r]
    d = 0
    while n is not None and d < 200:
        if n.k == 'cell' and isinstance(n.v, T) and n.v.w == 8 and st.canon(n.v) is C(8, 0):
            return st.norm(n.off)
        n = n.base if hasattr(n, 'base') else n.p
        d += 1
    return None


def offsets(y, buf):
    """offsets of the text the path conditions talk about, and of the texts known to equal the key"""
    at, eq = [], []
    for c in list(y.known) + [k for k in y.eq if isinstance(k, T)]:
        if c.op == 'fn' and c.x[0] == 'memeq' and y.truth(c) is True:
            for r, w in zip(c.x[1], c.a):
                if str(r).split('@')[0] == buf.r:
                    eq.append(y.norm(y.uval(w)))
        for t in syms(c):
            if isinstance(t, T) and t.op == 'sel' and str(t.x[0]) == buf.r:
                at.append(y.norm(t.x[1]))
    for l in (at, eq):
        l[:] = [o for i, o in enumerate(l) if o not in l[:i]]
    return at, eq


def char_at(s, y, buf, off):
    v = s.at(y, buf, off)
    return v[0][1] if len(v) == 1 else None


def char_is(s, y, buf, off, ch):
    v = char_at(s, y, buf, off)
    return v is not None and cond_truth(s.eng, y, icmp('eq', v, C(8, ord(ch)))) is True


SPACE = (32, 9, 10, 13)


def find(s, part):
    bs = s.size('bs', 64, 0, 1 << 60)
    b = uview(bs)
    K = uview(s.size('klen', 64, 0, MAXLEN))
    mx = s.size('max', 64, 0, 1 << 60)
    m = uview(mx)
    buf = s.buf('buffer', b, ro=True)
    key = s.strbuf('key', K, ro=True)
    val = s.buf('value', m)
    J = Q = None
    if part == 'text':
        J = s.ghost('J', 0, m)
        if not feasible(s):
            return
        s.track(val, J)
    else:
        Q = s.ghost('Q', 0, b)
        if not feasible(s):
            return

    def on_memeq(eng, st, x, y, n, val):
        if val and Q is not None:
            st.gh.pop(('L', 'Q'), None)
            st.watch = [(buf.r, Q, 1, ('L', 'Q'))]
    s.eng.on_memeq.append(on_memeq)
    for x, r in s.call('Json_findByKey', buf, bs, key, val, mx):
        for y, ok in cases(s, x, icmp('eq', flag(r), TRUE)):
            if not ok:
                continue
            e = terminator(y, val)
            s.post('C17', 'find: the value is terminated', e is not None and y.prove(e) and y.prove(m - 1 - e) or None, y, 'no terminator in the value', None)
            if e is None:
                continue
            at, eq = offsets(y, buf)
            # the key between quotes, then a colon
            hit = [(i, p) for i in eq for p in at if char_is(s, y, buf, i - 1, '"') and char_is(s, y, buf, i + K, '"') and y.prove(p - i - K - 1) and char_is(s, y, buf, p, ':')]
            s.post('C17', 'find: the key is in the text between quotes and followed by a colon', bool(hit) or None, y, 'matches %s' % [showP(i) for i in eq], None)
            if not hit:
                continue
            i, p = hit[0]
            if part == 'text':
                for z, before in cases(s, y, ge0(e - 1 - J)):
                    if before and z.F.feasible():
                        for u, v in s.at(z, val, J):
                            s.must(u, 'C17', 'find: no quote in the value', bnot1(icmp('eq', v, QUOTE)))
                            o = u.norm(v.x[1] - J) if isinstance(v, T) and v.op == 'sel' and str(v.x[0]) == buf.r else None
                            ok = o is not None and char_is(s, u, buf, o - 1, '"') and char_is(s, u, buf, o + e, '"') and u.prove(o - 1 - i - K - 1)
                            s.post('C17', 'find: the value is the text between two quotes after the key', ok or None, u, 'value[J] is %s' % show(v), None)
                continue
            for z, before in cases(s, y, ge0(Q - i - K - 1), ge0(p - 1 - Q)):
                if before and z.F.feasible():
                    v = char_at(s, z, buf, Q)
                    s.must(z, 'C17', 'find: only white space between key and colon', bor([icmp('eq', v, C(8, c)) for c in SPACE]))


def find_fixed(s):
    """fixed sizes, all contents of the text, one key"""
    B, K, M = s.conc['bs'], s.conc['klen'], s.conc['max']
    buf, val = s.buf('buffer', pc(B), ro=True), s.buf('value', pc(M))
    key = s.strbuf('key', pc(K), ro=True)
    tx = [s.at(s.st, buf, i)[0][1] for i in range(B)]
    ks = [C(8, 107 + i % 16) for i in range(K)]
    for i, k in enumerate(ks):
        s.eng.write(s.st, key.r, pc(i), 1, k)
    s.eng.nomerge = True

    def is_(i, ch):
        return icmp('eq', tx[i], C(8, ord(ch))) if i < B else FALSE
    colon = [FALSE] * (B + 1)
    for i in reversed(range(B)):
        colon[i] = bor([is_(i, ':'), band([bor([is_(i, chr(c)) for c in SPACE]), colon[i + 1]])])
    hit = bor([FALSE] + [band([is_(i - 1, '"')] + [icmp('eq', tx[i + j], ks[j]) for j in range(K)] + [is_(i + K, '"'), colon[i + K + 1]]) for i in range(1, B - K)])
    for x, r in s.call('Json_findByKey', buf, C(64, B), key, val, C(64, M)):
        for y, ok in cases(s, x, icmp('eq', flag(r), TRUE)):
            if not ok:
                continue
            s.must(y, 'C17', 'find: the key is in the text between quotes and followed by a colon', hit)
            vs = [char_at(s, y, val, i) for i in range(M)]
            e = next((i for i, v in enumerate(vs) if isinstance(v, T) and cond_truth(s.eng, y, icmp('eq', v, C(8, 0))) is True), None)
            if e is None:
                s.must(y, 'C17', 'find: the value is terminated', bor([FALSE] + [icmp('eq', v, C(8, 0)) for v in vs if isinstance(v, T)]))
                continue
            for v in vs[:e]:
                s.must(y, 'C17', 'find: no quote in the value', bnot1(icmp('eq', v, QUOTE)))
            s.must(y, 'C17', 'find: the value is the text between two quotes after the key',
                   bor([FALSE] + [band([is_(o - 1, '"'), is_(o + e, '"')] + [icmp('eq', vs[i], tx[o + i]) for i in range(e)]) for o in range(K + 4, B - e)]))


def find_scn(s, part):
    if s.conc is None:
        find(s, part)
    else:
        find_fixed(s)


FI = [dict(bs=b, klen=k, max=m) for b, k, m in ((0, 0, 1), (1, 1, 1), (3, 0, 0), (5, 1, 1), (6, 1, 1), (6, 0, 1), (7, 1, 1), (7, 1, 2), (8, 1, 2))]
for _p in ('match', 'text'):
    scn('Json_findByKey:' + _p, ('C17',), ('Json_findByKey',), FI if _p == 'match' else [])(lambda s, p=_p: find_scn(s, p))


BT = [dict(k1=a, v1=b, k2=c, v2=d, q=q, hit=h, dif=0, max=m, ws=w) for a, b, c, d, q, h, m, w in (
    (1, 1, 1, 1, 1, 1, 2, 0), (1, 1, 1, 1, 1, 2, 2, 0), (1, 1, 1, 1, 1, 0, 2, 0), (1, 1, 1, 1, 1, 2, 1, 0), (1, 0, 2, 1, 1, 1, 1, 0), (2, 1, 1, 2, 1, 2, 3, 0),
    (2, 1, 1, 2, 2, 1, 9, 0), (1, 2, 2, 0, 2, 2, 2, 0), (1, 3, 2, 1, 1, 1, 4, 0), (1, 1, 1, 1, 1, 2, 2, 1), (2, 0, 2, 2, 2, 2, 3, 1), (1, 1, 1, 1, 2, 0, 2, 0), (3, 2, 2, 3, 2, 2, 4, 0))]
BT += [dict(k1=2, v1=2, k2=2, v2=1, q=2, hit=2, dif=1, max=4, ws=0), dict(k1=3, v1=1, k2=3, v2=2, q=3, hit=0, dif=2, max=4, ws=0)]


@scn('Json_findByKey:built text', ('C17',), ('Json_findByKey',), BT, only_inst=True, gen=False, cost=2,
     more=[dict(k1=k, v1=3, k2=k, v2=2, q=k, hit=h, dif=k - 1, max=m, ws=w) for k in (3, 4) for h in (0, 1, 2) for m in (3, 5) for w in (0, 2)],
     grow=lambda k: [dict(k1=k, v1=1, k2=1, v2=1, q=1, hit=2, dif=0, max=2, ws=0), dict(k1=1, v1=k, k2=1, v2=1, q=1, hit=2, dif=0, max=2, ws=0), dict(k1=1, v1=k, k2=1, v2=1, q=1, hit=1, dif=0, max=k + 1, ws=0),
                     dict(k1=1, v1=1, k2=k, v2=1, q=k, hit=2, dif=0, max=2, ws=0),
                     dict(k1=k + 2, v1=1, k2=k + 2, v2=1, q=k + 2, hit=2, dif=k + 1, max=2, ws=0), dict(k1=k + 3, v1=1, k2=k + 1, v2=1, q=k + 1, hit=2, dif=0, max=2, ws=0, sub=0),
                     dict(k1=k + 3, v1=1, k2=k + 1, v2=1, q=k + 1, hit=2, dif=0, max=2, ws=0, sub=2),
                     dict(k1=1, v1=k + 4, k2=k + 1, v2=1, q=k + 1, hit=2, dif=0, max=2, ws=0, vsub=0)] if k <= 300 else [])
def _(s):
    """text as the builder makes it (ws: and some white space characters around each colon and comma), all keys and values
    of these lengths; the key looked up is that of pair hit, or (0) another; a different key of the same length differs
    in character dif (at least); with sub (vsub), the second key is part of the
    first key (value), from that character on"""
    c = s.conc
    alpha = lambda b: bor([UPPER(b), LOWER(b), digit(b), icmp('eq', b, C(8, 95))])
    body, asm = [], []
    vals, keys = [], []
    other = [s.word('key%d' % i, 8) for i in range(c['q'])]
    # Boolean variable order: what is compared lies close together
    for i in range(max(c.values())):
        for nm, n in [('key', 0)] + [('%s%d.' % (w, z), c['%s%d' % (w[0], z)]) for z in (1, 2) for w in ('key', 'value')]:
            if i < (n or c['q']):
                tm.bits(other[i] if not n and nm == 'key' else s.word(nm + str(i), 8))

    def ch(x):
        body.append(C(8, ord(x)))

    def space():
        for _ in range(c['ws']):
            b = s.word('space%d' % len(body), 8)
            asm.append((0, bor([icmp('eq', b, C(8, v)) for v in SPACE]), True))
            body.append(b)

    def word(n, ok, name):
        bs = [s.word('%s%d' % (name, i), 8) for i in range(n)]
        if name == 'key1.' and 'sub' in c:
            bs[c['sub']:c['sub'] + c['k2']] = [s.word('key2.%d' % i, 8) for i in range(c['k2'])]
        if name == 'value1.' and 'vsub' in c:
            bs[c['vsub']:c['vsub'] + c['k2']] = [s.word('key2.%d' % i, 8) for i in range(c['k2'])]
        asm.extend((i, ok(b), True) for i, b in enumerate(bs))
        body.extend(bs)
        return bs
    inner = lambda b: bnot1(bor([icmp('eq', b, QUOTE), icmp('eq', b, C(8, 0))]))
    ch('{')
    for i in (1, 2):
        if i == 2:
            ch(',')
            space()
        ch('"')
        keys.append(word(c['k%d' % i], alpha, 'key%d.' % i))
        ch('"')
        space()
        ch(':')
        space()
        ch('"')
        vals.append(word(c['v%d' % i], inner, 'value%d.' % i))
        ch('"')
    ch('}')
    body.append(C(8, 0))
    B, M = len(body), c['max']
    buf, val = s.buf('buffer', pc(B), ro=True), s.buf('value', pc(M))
    for i, b in enumerate(body):
        s.eng.write(s.st, buf.r, pc(i), 1, b)
    key = s.strbuf('key', pc(c['q']), ro=True)
    ks = keys[c['hit'] - 1] if c['hit'] else other
    if not c['hit']:
        asm.extend((i, alpha(k), True) for i, k in enumerate(ks))
    for k in keys[:c['hit'] - 1 if c['hit'] else 2]:
        if len(k) == len(ks) and k:
            asm.append((c['dif'], icmp('eq', k[c['dif']], ks[c['dif']]), False))
    # last variables first: every assumption then adds to the top of the diagram only
    for i, b, v in sorted(asm, key=lambda x: -x[0]):
        s.st.assume(b, v)
    for i, k in enumerate(ks):
        s.eng.write(s.st, key.r, pc(i), 1, k)
    s.eng.nomerge = True
    v = vals[c['hit'] - 1] if c['hit'] else None
    ok = v is not None and len(v) < M
    for x, r in s.call('Json_findByKey', buf, C(64, B), key, val, C(64, M)):
        s.same(x, 'C17', 'find: succeeds exactly when the key is there and its value fits', flag(r), C(1, int(ok)))
        if ok:
            for i, b in enumerate(v + [C(8, 0)]):
                s.same_at(x, 'C17', 'find: value of the first pair with the key, character %d' % i, val, i, b)
