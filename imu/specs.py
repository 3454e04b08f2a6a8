"""Scenarios for every public function: preconditions, call, postconditions."""
from harness import *

SCN = []


by_name = {}


class Entry:
    def __init__(s, name, props, f, inst, fns, target=None, budget=400000, tlimit=200, cost=1, only_inst=False, thorough=False, grow=None, hist=None, helper=False, more=()):
        s.more = list(more)
        s.grow = grow
        s.hist, s.helper = hist, helper
        s.name, s.props, s.f, s.inst, s.fns, s.target, s.budget = name, set(props), f, inst, fns, target, budget
        s.tlimit, s.cost, s.only_inst, s.thorough = tlimit, cost, only_inst, thorough
        assert name not in by_name, name
        by_name[name] = s


GEN = ('C29', 'C30', 'C31')


def scn(name, props, fns, inst=(), gen=True, **kw):
    def d(f):
        SCN.append(Entry(name, tuple(props) + (GEN if gen else ()), f, list(inst), fns, **kw))
        return f
    return d


def helper(name, props, fns, inst, **kw):
    """fixed-size analyses consulted only when a proof is missing"""
    def d(f):
        SCN.append(Entry(name, props, f, list(inst), fns, helper=True, **kw))
        return f
    return d


def bytesval(vs, w):
    """word of width w whose bytes, most significant first, are vs"""
    p = ZERO
    for i, v in enumerate(reversed(vs)):
        p = p + uview(v).scale(1 << (8 * i))
    return mkW(w, p)


# ------------------------------------------------------------------ integer serialization (C04)
def ser(s, bits_, be, buf='buf'):
    name = 'Utils_serialize%d%s' % (bits_, '' if bits_ == 8 else 'BE' if be else 'LE')
    n = bits_ // 8
    w = 32 if bits_ == 24 else bits_
    v = s.word('value', w)
    b = s.buf('buf', n)
    outs = s.call(name, b, v)
    for st, r in outs:
        for i in range(n):
            k = (n - 1 - i) if be else i
            s.same_at(st, 'C04', '%s byte %d' % (name, i), b, i, ext(v, 8 * k, 8))
    return outs


def deser(s, bits_, be):
    name = 'Utils_deserialize%d%s' % (bits_, '' if bits_ == 8 else 'BE' if be else 'LE')
    n = bits_ // 8
    w = 32 if bits_ == 24 else bits_
    b = s.buf('buf', n, ro=True)
    bs = [s.at(s.st, b, i)[0][1] for i in range(n)]
    for st, r in s.call(name, b):
        s.same(st, 'C04', '%s value' % name, r, bytesval(bs if be else bs[::-1], w))


for _t in (None, 'big'):
    for _b in (8, 16, 24, 32):
        for _be in ((True, False) if _b > 8 else (True,)):
            _n = '%d%s' % (_b, '' if _b == 8 else 'BE' if _be else 'LE')
            scn('serialize%s%s' % (_n, '@big-endian' if _t else ''), ('C04',), ('Utils_serialize' + _n,), target=_t, gen=not _t)(
                lambda s, b=_b, be=_be: ser(s, b, be))
            scn('deserialize%s%s' % (_n, '@big-endian' if _t else ''), ('C04',), ('Utils_deserialize' + _n,), target=_t, gen=not _t)(
                lambda s, b=_b, be=_be: deser(s, b, be))


# ------------------------------------------------------------------ blobs and swap (C05)
def blob(s, name, rev, src_first):
    n = s.size('n', 32)
    N = uview(n)
    dst = s.buf('dst', N)
    src = s.buf('src', N, ro=True)
    J = s.ghost('J', 0, N)
    s.track(dst, J)
    want = s.at(s.st, src, (N - 1 - J) if rev else J)[0][1]
    for st, r in s.call(name, *((src, dst, n) if src_first else (dst, src, n))):
        s.same_at(st, 'C05', '%s: byte J of the destination' % name, dst, J, want)


def GROW(k):
    return [dict(n=k + 4, J=j) for j in (0, 1, k - 1, k, k + 1)] + [dict(n=k, J=j) for j in (0, k - 1)]


SIZES = [dict(n=k, J=j) for k in (0, 1, 2, 3, 8) for j in range(max(1, k))]
for _nm, _rev, _sf in (('Utils_serializeBlobBE', 0, 0), ('Utils_serializeBlobLE', 1, 0), ('Utils_deserializeBlobBE', 0, 1), ('Utils_deserializeBlobLE', 1, 1)):
    scn(_nm[6:], ('C05',), (_nm,), SIZES, grow=GROW)(lambda s, nm=_nm, rev=_rev, sf=_sf: blob(s, nm, rev, sf))
    # a zero-length copy is fine whatever the pointers
    @scn(_nm[6:] + ':size 0', ('C05',), (_nm,))
    def _(s, nm=_nm, sf=_sf):
        for st, r in s.call(nm, *((s.buf('src', 0, ro=True), s.buf('dst', 0), C(32, 0)) if sf else (s.buf('dst', 0), s.buf('src', 0, ro=True), C(32, 0)))):
            s.post('C05', nm + ': returns', True)


@scn('swapElements', ('C05',), ('Utils_swapElements',), SIZES, grow=GROW)
def _(s):
    n = s.size('n', 32)
    N = uview(n)
    a, b = s.buf('first', N), s.buf('second', N)
    J = s.ghost('J', 0, N)
    s.track(a, J)
    s.track(b, J)
    va, vb = s.at(s.st, a, J)[0][1], s.at(s.st, b, J)[0][1]
    for st, r in s.call('Utils_swapElements', a, b, n):
        s.same_at(st, 'C05', 'swap: byte J of the first element', a, J, vb)
        s.same_at(st, 'C05', 'swap: byte J of the second element', b, J, va)


def swap_in(s, where):
    """two elements at non-overlapping places of one buffer; an arbitrary byte of the first, of the second, or of neither"""
    n = s.size('n', 32, 1)
    N = uview(n)
    da, D = s.ghost('da', 0, 1 << 40), s.ghost('D', 1, 1 << 40)
    s.st.add_ge(D - N)
    db = da + D
    x = s.buf('buffer', db + N + N)
    J = s.ghost('J', 0, db + N + N)
    other = J
    if where == 'first':
        s.st.add_ge(J - da)
        s.st.add_ge(da + N - 1 - J)
        other = J + D
    elif where == 'second':
        s.st.add_ge(J - db)
        s.st.add_ge(db + N - 1 - J)
        other = J - D
    elif where == 'before':
        s.st.add_ge(da - 1 - J)
    elif where == 'between':
        s.st.add_ge(J - da - N)
        s.st.add_ge(db - 1 - J)
    else:
        s.st.add_ge(J - db - N)
    if not s.st.F.feasible():
        return
    s.track(x, J)
    if other is not J:
        s.track(x, other)
    want = s.at(s.st, x, other)[0][1]
    for rev in (False, True):
        for st, r in s.call('Utils_swapElements', Ptr(x.r, db if rev else da), Ptr(x.r, da if rev else db), n):
            s.same_at(st, 'C05', 'swap in one buffer: byte J', x, J, want)


for _w in ('first', 'second', 'before', 'between', 'after'):
    scn('swapElements:one buffer, %s' % _w, ('C05',), ('Utils_swapElements',),
        [dict(n=k, da=da, D=dd, J=j) for k, da, dd in ((2, 1, 3), (3, 0, 4)) for j in range(9)])(lambda s, w=_w: swap_in(s, w))


def cases(s, st, *cs):
    """split st on the conjunction of cs"""
    out = []
    cur = [st]
    for c in cs:
        nxt = []
        for x in cur:
            v = x.truth(x.canon(c))
            if v is True:
                nxt.append(x)
            elif v is False:
                out.append((x, False))
            else:
                for val in (True, False):
                    y = x.clone()
                    y.uc = {}
                    if y.assume(c, val):
                        if val:
                            nxt.append(y)
                        else:
                            out.append((y, False))
        cur = nxt
    return out + [(x, True) for x in cur]


# ------------------------------------------------------------------ bit operations (C06)
def bitop(s, name, spec):
    data, n = s.word('data', 32), s.word('n', 8) if s.conc is None or 'n' not in s.conc else C(8, s.conc['n'])
    out = s.buf('out', 1 if name.endswith('bitSet') else 4)
    w = 8 if name.endswith('bitSet') else 32
    old = s.at(s.st, out, 0, w // 8)[0][1]
    small = icmp('ult', n, C(8, 32))
    one = shl(C(32, 1), zext(n, 32))
    for st, r in s.call(name, data, n, out):
        s.same(st, 'C06', name + ': succeeds exactly for positions 0..31', r, small)
        for x, ok in cases(s, st, small):
            if ok:
                s.same_at(x, 'C06', name + ': result', out, 0, spec(data, one), w // 8)
            else:
                s.same_at(x, 'C06', name + ': output untouched for positions above 31', out, 0, old, w // 8)
                s.same_at(x, 'C32', name + ': output untouched on failure', out, 0, old, w // 8)


for _nm, _sp in (('bitSet', lambda d, o: zext(bnot1(icmp('eq', band([d, o]), C(32, 0))), 8)), ('setBit', lambda d, o: bor([d, o])),
                 ('clearBit', lambda d, o: band([d, bnot(o)])), ('toggleBit', lambda d, o: bxor([d, o]))):
    scn(_nm, ('C06', 'C32'), ('BitManipulation_' + _nm,), [dict(n=k) for k in list(range(36)) + [63, 64, 127, 128, 255]])(lambda s, nm='BitManipulation_' + _nm, sp=_sp: bitop(s, nm, sp))


@scn('rotl32', ('C06',), ('BitManipulation_rotl32',), [dict(n=k) for k in list(range(36)) + [63, 64, 95, 255, 256, 287, 65567, (1 << 32) - 1]])
def _(s):
    d, n = s.word('data', 32), s.word('n', 32) if s.conc is None or 'n' not in s.conc else C(32, s.conc['n'])
    k = band([n, C(32, 31)])
    wide = shl(zext(d, 64), zext(k, 64))
    want = bor([ext(wide, 0, 32), ext(wide, 32, 32)])
    for st, r in s.call('BitManipulation_rotl32', d, n):
        s.same(st, 'C06', 'rotation by n mod 32', r, want)


for _n in range(33):
    @scn('reflect:%d bits' % _n, ('C06',), ('BitManipulation_reflect',))
    def _(s, n=_n):
        d = s.word('data', 32)
        want = C(32, 0)
        for i in range(n):
            want = bor([want, shl(zext(ext(d, i, 1), 32), C(32, n - 1 - i))])
        for st, r in s.call('BitManipulation_reflect', d, C(8, n)):
            s.same(st, 'C06', 'reflect of %d bits' % n, r, want)


@scn('reflect:any bits', (), ('BitManipulation_reflect',))
def _(s):
    s.call('BitManipulation_reflect', s.word('data', 32), s.word('n', 8))


# ------------------------------------------------------------------ characters and numbers (C07)
def inrange(c, lo, hi):
    return band([bnot1(icmp('ult', c, C(8, lo))), bnot1(icmp('ult', C(8, hi), c))])


UPPER = lambda c: inrange(c, 65, 90)
LOWER = lambda c: inrange(c, 97, 122)
for _nm, _sp in (('Utils_isUpperChar', UPPER), ('Utils_isLowerChar', LOWER), ('Utils_isAlpha', lambda c: bor([UPPER(c), LOWER(c)]))):
    @scn(_nm[6:], ('C07',), (_nm,))
    def _(s, nm=_nm, sp=_sp):
        c = s.word('c', 8)
        for st, r in s.call(nm, c):
            s.same(st, 'C07', nm + ' for all 256 values', r, zext(sp(c), r.w))


@scn('quickUint32Pow10', ('C07', 'C32'), ('Utils_quickUint32Pow10',))
def _(s):
    e = s.word('exponent', 8)
    out = s.buf('result', 4)
    old = s.at(s.st, out, 0, 4)[0][1]
    want = C(32, 0)
    for i in range(10):
        want = ite(icmp('eq', e, C(8, i)), C(32, 10 ** i), want)
    for st, r in s.call('Utils_quickUint32Pow10', e, out):
        s.same(st, 'C07', 'pow10: succeeds exactly for exponents 0..9', r, icmp('ult', e, C(8, 10)))
        for x, ok in cases(s, st, icmp('ult', e, C(8, 10))):
            s.same_at(x, 'C07' if ok else 'C32', 'pow10: result' if ok else 'pow10: output untouched on failure', out, 0, want if ok else old, 4)


def digit(c):
    return inrange(c, 48, 57)


for _n in range(0, 15):
    @scn('stringToUint32:length %d' % _n, ('C07',), ('Utils_stringToUint32',),
         [dict(text=int(t), var=v) for t in dict.fromkeys(('4294967295'[:_n], '4294967299'[-_n:], '4294967305'[:_n], '4294967285'[:_n], '4294967195'[:_n], '4999999999'[:_n], '0' * _n, '9' * _n, '1' + '0' * (_n - 1), '1234567890'[:_n])) for v in (_n - 1, 0, _n - 2)]
         if 2 < _n <= 10 else [])
    def _(s, n=_n):
        s.eng.nomerge = True
        b = s.buf('str', n, ro=True)
        if s.conc and 'text' in s.conc:
            # all characters but one are given
            for i, ch in enumerate('%0*d' % (n, s.conc['text'])):
                if i != s.conc['var']:
                    s.put(b, i, 1, C(8, ord(ch)))
        out = s.buf('integer', 4)
        cs = [s.at(s.st, b, i)[0][1] for i in range(n)]
        alld = band([digit(c) for c in cs]) if cs else C(1, 1)
        for st, r in s.call('Utils_stringToUint32', b, C(8, n), out):
            val = ZERO
            for c in cs:
                val = val.scale(10) + uview(c) - 48
            r1 = ext(r, 0, 1) if r.w > 1 else r
            if n > 10:
                s.same(st, 'C07', 'length %d is rejected' % n, r1, C(1, 0))
                continue
            for x, ok in cases(s, st, r1):
                if ok:
                    for i, c in enumerate(cs):
                        s.must(x, 'C07', 'accepted text of length %d: character %d is a digit' % (n, i), digit(c))
                        x.assume(digit(c), True)
                    s.must(x, 'C07', 'accepted text of length %d fits 32 bits' % n, ge0(pc(0xFFFFFFFF) - val))
                    s.same_at(x, 'C07', 'value of accepted text of length %d' % n, out, 0, mkW(32, val), 4)
                else:
                    for i, c in enumerate(cs):
                        if not x.assume(digit(c), True):
                            s.post('C07', 'rejected text of length %d' % n, True)
                            break
                    else:
                        if n == 10:
                            s.must(x, 'C07', 'digits of length 10 are rejected only above 2^32-1', ge0(val - 0x100000000))
                        else:
                            s.must(x, 'C07', 'digits of length %d are accepted' % n, C(1, 0))


@scn('stringToUint32:long', ('C07',), ('Utils_stringToUint32',), [dict(n=k) for k in (11, 12, 40, 255)])
def _(s):
    n = s.size('n', 8, 11)
    b = s.buf('str', uview(n), ro=True)
    out = s.buf('integer', 4)
    for st, r in s.call('Utils_stringToUint32', b, n, out):
        s.same(st, 'C07', 'text longer than 10 characters is rejected', ext(r, 0, 1) if r.w > 1 else r, C(1, 0))


# ------------------------------------------------------------------ CRC (C01-C03)
# name: (polynomial, initial value, final xor, reflected, has a final_crc parameter); the CRC catalogue
CRC8 = {'Crc8': (0x07, 0, 0, 0, 0), 'Crc8_8h2f': (0x2F, 0xFF, 0xFF, 0, 1), 'Crc8_cdma2000': (0x9B, 0xFF, 0, 0, 0), 'Crc8_darc': (0x39, 0, 0, 1, 1),
        'Crc8_dvbS2': (0xD5, 0, 0, 0, 0), 'Crc8_ebu': (0x1D, 0xFF, 0, 1, 1), 'Crc8_icode': (0x1D, 0xFD, 0, 0, 0), 'Crc8_itu': (0x07, 0, 0x55, 0, 1),
        'Crc8_maxim': (0x31, 0, 0, 1, 1), 'Crc8_rohc': (0x07, 0xFF, 0, 1, 1), 'Crc8_saeJ1850': (0x1D, 0xFF, 0xFF, 0, 1), 'Crc8_saeJ1850Zero': (0x1D, 0, 0, 0, 0),
        'Crc8_wcdma': (0x9B, 0, 0, 1, 1)}
CRC16 = {'Crc16_a': (0x1021, 0xC6C6, 0, 1, 1), 'Crc16_arc': (0x8005, 0, 0, 1, 1), 'Crc16_augCcit': (0x1021, 0x1D0F, 0, 0, 0), 'Crc16_buypass': (0x8005, 0, 0, 0, 0),
         'Crc16_ccitFalse': (0x1021, 0xFFFF, 0, 0, 0), 'Crc16_ccitZero': (0x1021, 0, 0, 0, 0), 'Crc16_cdma2000': (0xC867, 0xFFFF, 0, 0, 0),
         'Crc16_dds110': (0x8005, 0x800D, 0, 0, 0), 'Crc16_dectR': (0x0589, 0, 1, 0, 1), 'Crc16_dectX': (0x0589, 0, 0, 0, 0), 'Crc16_dnp': (0x3D65, 0, 0xFFFF, 1, 1),
         'Crc16_en13757': (0x3D65, 0, 0xFFFF, 0, 1), 'Crc16_genibus': (0x1021, 0xFFFF, 0xFFFF, 0, 1), 'Crc16_kermit': (0x1021, 0, 0, 1, 1),
         'Crc16_maxim': (0x8005, 0, 0xFFFF, 1, 1), 'Crc16_mcrf4xx': (0x1021, 0xFFFF, 0, 1, 1), 'Crc16_modbus': (0x8005, 0xFFFF, 0, 1, 1),
         'Crc16_riello': (0x1021, 0xB2AA, 0, 1, 1), 'Crc16_t10Dif': (0x8BB7, 0, 0, 0, 0), 'Crc16_teledisk': (0xA097, 0, 0, 0, 0),
         'Crc16_tms37157': (0x1021, 0x89EC, 0, 1, 1), 'Crc16_usb': (0x8005, 0xFFFF, 0xFFFF, 1, 1), 'Crc16_x25': (0x1021, 0xFFFF, 0xFFFF, 1, 1)}
CRC32 = {'Crc32': (0x04C11DB7, 0xFFFFFFFF, 0xFFFFFFFF, 1, 1), 'Crc32_bzip2': (0x04C11DB7, 0xFFFFFFFF, 0xFFFFFFFF, 0, 1), 'Crc32_c': (0x1EDC6F41, 0xFFFFFFFF, 0xFFFFFFFF, 1, 1),
         'Crc32_d': (0xA833982B, 0xFFFFFFFF, 0xFFFFFFFF, 1, 1), 'Crc32_jamcrc': (0x04C11DB7, 0xFFFFFFFF, 0, 1, 1), 'Crc32_mpeg2': (0x04C11DB7, 0xFFFFFFFF, 0, 0, 0),
         'Crc32_posix': (0x04C11DB7, 0, 0xFFFFFFFF, 0, 1), 'Crc32_q': (0x814141AB, 0, 0, 0, 0), 'Crc32_xfer': (0x000000AF, 0, 0, 0, 0)}


def rev(t, w=None):
    """bit reversal"""
    w = w or t.w
    out = C(t.w, 0)
    for i in range(w):
        out = bor([out, shl(zext(ext(t, i, 1), t.w), C(t.w, w - 1 - i))])
    return out


def crc_step(w, poly, refl):
    """one byte of polynomial division, most significant bit first"""
    top, mask = 1 << (w - 1), (1 << w) - 1

    def rem(x):
        for _ in range(8):
            x = ((x << 1) ^ (poly if x & top else 0)) & mask
        return x
    col = [rem(1 << (w - 8 + i)) for i in range(8)]

    def step(crc, byte):
        b = rev(byte) if refl else byte
        hi = bxor([ext(crc, w - 8, 8), b])
        out = shl(crc, C(w, 8)) if w > 8 else C(w, 0)
        return bxor([out] + [band([C(w, col[i]), sext(ext(hi, i, 1), w)]) for i in range(8)])
    return step


def crc(s, name, w, par, last, final):
    poly, ini, xo, refl, hasf = par
    n = s.size('n', 32)
    N = uview(n)
    data = s.buf('data', N, ro=True)
    lp = Ptr(None, ZERO)
    init = C(w, ini)
    if last:
        lp = s.buf('last', w // 8, ro=True)
        init = s.at(s.st, lp, 0, w // 8)[0][1]
    st1 = crc_step(w, poly, refl)
    fo = loops.Fold(name, w, init, lambda v, k: st1(v, tm.sel('data', k, 1)), [lambda t: t])
    if refl:
        fo.encs.append(rev)
    s.eng.folds = [fo]
    args = [data, n] + ([C(1, final)] if hasf else []) + [lp]
    for x, r in s.call(name, *args):
        if s.conc is not None and 'n' in s.conc:
            want = init
            for k in range(s.conc['n']):
                want = st1(want, s.at(x, data, k)[0][1])
        else:
            want = fo.at(N)
            if x.norm(N).m == {} and x.norm(N).c == 0:
                want = init
        if final or not hasf:
            if refl:
                want = rev(want)
            full = bxor([want, C(w, xo)])
        else:
            full = want
        if not last and final:
            s.same(x, 'C01', name + ': checksum of a fresh message', r, full)
        s.same(x, 'C02', '%s: %s %s' % (name, 'continuation' if last else 'start', 'finished' if final else 'unfinished'), r, full)


CRCN = [dict(n=k) for k in (0, 1, 2, 3)]


def CRCGROW(k):
    return [dict(n=k + 1), dict(n=k)] if k <= 260 else []


for _w, _T in ((8, CRC8), (16, CRC16), (32, CRC32)):
    for _nm, _par in _T.items():
        for _last in (0, 1):
            for _fin in ((1, 0) if _par[4] else (1,)):
                scn('%s:%s%s' % (_nm, 'last ' if _last else '', 'final' if _fin else 'open'), (('C01', 'C02') if _fin and not _last else ('C02',)), (_nm,), CRCN, grow=CRCGROW)(
                    lambda s, nm=_nm, w=_w, par=_par, last=_last, fin=_fin: crc(s, nm, w, par, last, fin))


def crcbase(s, w, ro, ri, fx):
    name = 'Crc%dBase' % w
    n = s.size('n', 32)
    N = uview(n)
    data = s.buf('data', N, ro=True)
    tab = s.buf('table', 256 * w // 8, ro=True)
    init, xo = s.word('init', w), s.word('xor', w)

    def step(v, b):
        b = rev(b) if ri else b
        hi = bxor([ext(v, w - 8, 8), b])
        x = tm.sel('table', uview(hi).scale(w // 8), w // 8)
        return bxor([shl(v, C(w, 8)), x]) if w > 8 else x
    fo = loops.Fold('crc', w, init, lambda v, k: step(v, tm.sel('data', k, 1)))
    s.eng.folds = [fo]
    for x, r in s.call(name, tab, data, n, init, xo, C(1, ro), C(1, ri), C(1, fx)):
        if s.conc is not None and 'n' in s.conc:
            want = init
            for k in range(s.conc['n']):
                want = step(want, s.at(x, data, k)[0][1])
        else:
            want = init if x.norm(N).m == {} and x.norm(N).c == 0 else fo.at(N)
        if ro:
            want = rev(want)
        if fx:
            want = bxor([want, xo])
        s.same(x, 'C03', '%s with reflected_output=%d reflected_input=%d final_xor=%d' % (name, ro, ri, fx), r, want)


def crctab(s, w, poly=None):
    name = 'Crc%dBase_tableCalculator' % w
    p = s.word('polynomial', w) if poly is None else C(w, poly)
    tab = s.buf('table', 256 * w // 8)
    for x, r in s.call(name, p, tab):
        for d in range(256):
            v = shl(C(w, d), C(w, w - 8))
            if w == 8:
                v = C(8, d)
            for _ in range(8):
                v = bxor([shl(v, C(w, 1)), band([p, sext(ext(v, w - 1, 1), w)])])
            s.same_at(x, 'C03', '%s: entry %d' % (name, d), tab, d * (w // 8), v, w // 8)


for _w in (8, 16, 32):
    for _k in range(8):
        scn('Crc%dBase:%d' % (_w, _k), ('C03',), ('Crc%dBase' % _w,), CRCN, grow=CRCGROW)(lambda s, w=_w, k=_k: crcbase(s, w, k & 1, k >> 1 & 1, k >> 2))
    scn('Crc%dBase_tableCalculator' % _w, ('C03',), ('Crc%dBase_tableCalculator' % _w,), [{}])(lambda s, w=_w: crctab(s, w))


# ------------------------------------------------------------------ ciphers (C08, C09)
def rotate(c, k, sub=False):
    """the letter k (a word of 16 bits) places after/before the letter c, other bytes unchanged"""
    c16 = zext(c, 16)
    base = ite(UPPER(c), C(16, 65), C(16, 97))
    k = mod26(k)
    x = mkW(16, uview(c16) - uview(base) + (-uview(k) if sub else uview(k)) + 26)
    r = ext(mkW(16, uview(mod26(x)) + uview(base)), 0, 8)
    return ite(bor([UPPER(c), LOWER(c)]), r, c)


def mod26(x):
    return tm.urem(x, C(x.w, 26))


def known_text(s, ptr, n, J, text):
    """in a larger fixed-size instance only byte J stays arbitrary"""
    if s.conc and s.conc.get('len', 0) >= 5:
        for i in range(n):
            if i != s.conc['J']:
                s.put(ptr, i, 1, C(8, ord(text[i % len(text)])))


def letters(s, name, dec, where):
    L = uview(s.size('len', 64, 0, 1 << 60))
    J = s.ghost('J', 0, L + 4)
    if where == 'text':
        s.st.add_ge(L - 1 - J)
    elif where == 'end':
        s.st.add_eq(J - L)
    else:
        s.st.add_ge(J - L - 1)
    if not s.st.F.feasible():
        return
    J = s.st.norm(J)
    msg = s.strbuf('msg', L, L + 4)
    s.track(msg, J)
    if s.conc:
        known_text(s, msg, s.conc['len'], J, 'mQ-z')
    old = s.at(s.st, msg, J)[0][1]
    s.st.watch = [(msg.r, J, 1, 'Lseen')]
    shift = s.word('shift', 8)
    want = rotate(old, zext(shift, 16), dec) if where == 'text' else old
    for x, r in s.call(name, msg, shift):
        s.same_at(x, 'C08', '%s: %s' % (name, {'text': 'byte J of the text', 'end': 'terminator', 'after': 'byte beyond the terminator'}[where]), msg, J, want)


STR = [dict(len=k, J=j) for k in (0, 1, 2, 3, 9) for j in range(k + 2)]


def STRGROW(k):
    return [dict(len=k + 2, J=j) for j in (0, k - 1, k, k + 1, k + 2)] + [dict(len=k, J=k - 1)]


for _nm, _dec in (('CaesarCipher_encrypt', False), ('CaesarCipher_decrypt', True)):
    for _w in ('text', 'end', 'after'):
        scn('%s:%s' % (_nm, _w), ('C08',), (_nm,), STR, grow=STRGROW)(lambda s, nm=_nm, dec=_dec, w=_w: letters(s, nm, dec, w))


@scn('Caesar:inverse', ('C08',), ('CaesarCipher_encrypt', 'CaesarCipher_decrypt'), gen=False)
def _(s):
    c, k = s.word('c', 8), s.word('shift', 8)
    s.same(s.st, 'C08', 'decryption of an encrypted byte', rotate(rotate(c, zext(k, 16)), zext(k, 16), True), c)


def vernam(s, name, dec, where):
    L = uview(s.size('len', 64, 0, (1 << 31) - 1))
    J = s.ghost('J', 0, L + 4)
    if where == 'text':
        s.st.add_ge(L - 1 - J)
    elif where == 'end':
        s.st.add_eq(J - L)
    else:
        s.st.add_ge(J - L - 1)
    if not s.st.F.feasible():
        return
    J = s.st.norm(J)
    msg = s.strbuf('msg', L, L + 4)
    klen = s.size('klen', 32, 0, (1 << 31) - 1)
    key = s.buf('key', uview(klen), ro=True)
    s.track(msg, J)
    if s.conc:
        known_text(s, msg, s.conc['len'], J, 'mQ-z')
        known_text(s, key, s.conc['klen'], J, 'kBzAa')
    old = s.at(s.st, msg, J)[0][1]
    s.st.watch = [(msg.r, J, 1, 'Lseen')]
    for x, r in s.call(name, msg, key, klen):
        for y, ok in cases(s, x, ge0(uview(klen) - L), ge0(L - uview(klen))):
            s.same(y, 'C09', name + ': succeeds exactly when the lengths agree', r, C(1, ok))
            if not ok:
                s.same_at(y, 'C09', name + ': message unchanged when the lengths differ', msg, J, old)
                s.same_at(y, 'C32', name + ': message unchanged when the lengths differ', msg, J, old)
            elif where == 'text':
                kb = s.at(y, key, J)[0][1]
                kb = y.canon(kb)
                if not y.assume(bor([UPPER(kb), LOWER(kb)]), True):
                    continue
                kk = mkW(16, uview(zext(kb, 16)) - uview(ite(UPPER(kb), C(16, 65), C(16, 97))))
                s.same_at(y, 'C09', name + ': byte J of the text', msg, J, rotate(old, kk, dec))
            else:
                s.same_at(y, 'C09', name + ': bytes after the text', msg, J, old)


VSTR = [dict(len=k, J=j, klen=q) for k in (0, 1, 2, 3) for q in (k, k + 1) for j in range(k + 2)]


def VGROW(k):
    return [dict(len=k + 2, J=j, klen=k + 2) for j in (0, k - 1, k, k + 1)] + \
        [dict(len=a, J=0, klen=b) for a, b in ((k + 1, 1), (1, k + 1), (k + 1, k), (k, k + 1), (k + 2, k + 1), (k + 1, k + 2))]


for _nm, _dec in (('VernamCipher_encrypt', False), ('VernamCipher_decrypt', True)):
    for _w in ('text', 'end', 'after'):
        scn('%s:%s' % (_nm, _w), ('C09', 'C32'), (_nm,), VSTR, grow=VGROW)(lambda s, nm=_nm, dec=_dec, w=_w: vernam(s, nm, dec, w))


@scn('Vernam:inverse', ('C09',), ('VernamCipher_encrypt', 'VernamCipher_decrypt'), gen=False)
def _(s):
    c, k = s.word('c', 8), s.word('key', 8)
    kk = band([zext(k, 16), C(16, 31)])
    s.same(s.st, 'C09', 'decryption of an encrypted byte', rotate(rotate(c, kk), kk, True), c)


# ------------------------------------------------------------------ ChaCha20 (C10)
def rotl(x, n):
    return bor([shl(x, C(32, n)), tm.lshr(x, C(32, 32 - n))])


def chacha_block(key, nonce, counter):
    """RFC 8439 section 2.3: the 16 words of a key stream block"""
    le = lambda bs: bytesval(bs[::-1], 32)
    x = [C(32, c) for c in (0x61707865, 0x3320646e, 0x79622d32, 0x6b206574)]
    x += [le(key[i:i + 4]) for i in range(0, 32, 4)] + [counter] + [le(nonce[i:i + 4]) for i in range(0, 12, 4)]
    add = lambda a, b: mkW(32, asP(a) + asP(b))
    s = list(x)

    def qr(a, b, c, d):
        s[a] = add(s[a], s[b])
        s[d] = rotl(bxor([s[d], s[a]]), 16)
        s[c] = add(s[c], s[d])
        s[b] = rotl(bxor([s[b], s[c]]), 12)
        s[a] = add(s[a], s[b])
        s[d] = rotl(bxor([s[d], s[a]]), 8)
        s[c] = add(s[c], s[d])
        s[b] = rotl(bxor([s[b], s[c]]), 7)
    for _ in range(10):
        qr(0, 4, 8, 12)
        qr(1, 5, 9, 13)
        qr(2, 6, 10, 14)
        qr(3, 7, 11, 15)
        qr(0, 5, 10, 15)
        qr(1, 6, 11, 12)
        qr(2, 7, 8, 13)
        qr(3, 4, 9, 14)
    return [add(a, b) for a, b in zip(x, s)]


def chacha(s, inplace, which=range(64)):
    """all bytes of an arbitrary (also the last, incomplete) block Q"""
    n = s.size('len', 32)
    N = uview(n)
    Q = s.ghost('Q', 0, 1 << 26)
    s.st.add_ge(N - Q.scale(64) - 1)
    s.eng.max_undec = 70
    if not s.st.F.feasible():
        return
    J = [Q.scale(64) + r for r in range(64)]
    msg = s.buf('msg', N, ro=not inplace)
    out = msg if inplace else s.buf('out', N)
    key, nonce = s.buf('key', 32, ro=True), s.buf('nonce', 12, ro=True)
    inc = s.word('inc', 32)
    for j in J:
        s.track(out, j)
    mb = [s.at(s.st, msg, j)[0][1] for j in J]
    kb = [s.at(s.st, key, i)[0][1] for i in range(32)]
    nb = [s.at(s.st, nonce, i)[0][1] for i in range(12)]
    ks = chacha_block(kb, nb, mkW(32, uview(inc) + s.st.norm(Q)))
    for x, r in s.call('Chacha20_crypt', msg, n, key, nonce, inc, out):
        for i in which:
            for y, ok in cases(s, x, ge0(N - J[i] - 1)):
                if ok:
                    s.same_at(y, 'C10', 'byte %d of block Q' % i, out, J[i], bxor([mb[i], ext(ks[i // 4], i % 4 * 8, 8)]))


for _ip in (0, 1):
    scn('Chacha20_crypt%s' % (' in place' if _ip else ''), ('C10',), ('Chacha20_crypt',), [dict(len=k, Q=q) for k in (64, 65, 1, 3, 130) for q in range((k + 63) // 64)],
        cost=20, tlimit=300, budget=3000000)(lambda s, ip=_ip: chacha(s, ip))
scn('Chacha20_crypt first byte', ('C10',), ('Chacha20_crypt',), [], gen=False, cost=20, tlimit=300, budget=3000000)(lambda s: chacha(s, 0, (0,)))


# ------------------------------------------------------------------ Base64 (C12-C14)
B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
tm.TABLES['$b64'] = list(B64)
tm.TABLES[('w', '$b64')] = 8


def b64chars(bs):
    """the four characters for one to three bytes"""
    v = bs + [C(8, 0)] * (3 - len(bs))
    n = bytesval(v, 24)
    cs = [tm.tbl('$b64', ext(n, 18 - 6 * i, 6)) for i in range(4)]
    return cs[:len(bs) + 1] + [C(8, 61)] * (3 - len(bs))


def b64enc(s, rem, where):
    """3*G+rem input bytes; the four characters of an arbitrary group, or the terminator"""
    G = s.ghost('G', 0, 1 << 58)
    n = G.scale(3) + rem
    groups = G + (1 if rem else 0)
    mx = s.size('max', 64)
    M = uview(mx)
    s.st.add_ge(pc(1 << 61) - M)
    data = s.buf('data', n, ro=True)
    out = s.buf('result', M)
    if where == 'group':
        Q = s.ghost('Q', 0, G)
        cells = [Q.scale(4) + i for i in range(4)]
        want = b64chars([s.at(s.st, data, Q.scale(3) + i)[0][1] for i in range(3)])
    elif where == 'last':
        if not rem:
            return
        cells = [G.scale(4) + i for i in range(4)]
        want = b64chars([s.at(s.st, data, G.scale(3) + i)[0][1] for i in range(rem)])
    else:
        cells = [groups.scale(4)]
        want = [C(8, 0)]
    if not s.st.F.feasible():
        return
    # the cells exist only if the text fits
    for big in (False, True):
        st = s.st.clone()
        if big:
            st.add_ge(groups.scale(4) - M)
        else:
            st.add_ge(M - groups.scale(4) - 1)
        if not st.F.feasible():
            continue
        if big:
            J = s.ghost('J', 0, 1 << 61)
            st.add_ge(J)
            st.add_ge(M - J - 1)
            empty = not st.F.feasible()
            cs = [] if empty else [J]
            old = [] if empty else [s.at(st, out, J)[0][1]]
        else:
            cs = [st.norm(c) for c in cells]
            old = want
        if big and empty:
            st = s.st.clone()
            st.add_ge(groups.scale(4) - M)
        for c in cs:
            st.tracked = st.tracked + [(out.r, st.norm(c), 1)]
        for x, r in s.call('Base64_encode', data, mkW(64, n), out, mx, st=st):
            s.same(x, 'C12', 'status', r, C(32, 1 if big else 0))
            for c, w in zip(cs, old):
                s.same_at(x, 'C14' if big else 'C12', ('nothing is written when the text does not fit' if big else {'group': 'characters of group Q', 'last': 'characters of the last group', 'end': 'terminator'}[where]),
                          out, c, w)


B64I = [dict(G=g, Q=q, max=m, J=j) for g in (0, 1, 2) for q in range(max(1, g)) for m in (4 * g + 1, 4 * g + 4, 4 * g + 5, 4 * g) for j in ((0, m - 1) if m else (0,))]


def B64GROW(k):
    if k > 20000:
        return [dict(G=k // 3 + 2, Q=0, max=2 * k, J=0)]
    return [dict(G=k + 2, Q=q, max=4 * k + 20, J=0) for q in (0, k - 1, k, k + 1)] + [dict(G=k // 3 + 1, Q=0, max=m, J=0) for m in (k, k + 1)]


for _rem in range(3):
    for _w in ('group', 'last', 'end'):
        if _w != 'last' or _rem:
            scn('Base64_encode:%d mod 3, %s' % (_rem, _w), ('C12', 'C14'), ('Base64_encode',), B64I, grow=B64GROW)(lambda s, rem=_rem, w=_w: b64enc(s, rem, w))


def b64dec(s, rem, padded, where):
    """the text of 3*G+rem bytes; the bytes of an arbitrary group Q, or of the last group"""
    G = s.ghost('G', 0, 1 << 58)
    n = G.scale(3) + rem
    s.st.add_ge(n - 1)
    tl = G.scale(4) + (0 if not rem else 4 if padded else rem + 1)
    mx = s.size('max', 64)
    M = uview(mx)
    s.st.add_ge(pc(1 << 61) - M)
    s.st.add_ge(M - n)
    text = s.buf('text', tl, ro=True)
    out = s.buf('out', M)
    lastn = rem or 3
    lastg = G if rem else G - 1
    bs = [sym('b%d' % i, 8) for i in range(3)]
    ls = [sym('l%d' % i, 8) for i in range(lastn)]
    cs = b64chars(ls)
    for i, c in enumerate(cs):
        if padded or i <= lastn:
            s.put(text, lastg.scale(4) + i, 1, c)
    if where == 'group':
        Q = s.ghost('Q', 0, lastg)
        if not s.st.F.feasible():
            return
        for i, c in enumerate(b64chars(bs)):
            s.put(text, Q.scale(4) + i, 1, c)
        want = [(Q.scale(3) + i, bs[i]) for i in range(3)]
    else:
        want = [(lastg.scale(3) + i, ls[i]) for i in range(lastn)]
    for off, b in want:
        s.track(out, off)
    for x, r in s.call('Base64_decode', text, mkW(64, tl), out, mx):
        s.same(x, 'C13', 'status', r, C(32, 0))
        for off, b in want:
            s.same_at(x, 'C13', 'bytes of %s' % ('group Q' if where == 'group' else 'the last group'), out, off, b)


B64D = [dict(G=g, Q=q, max=3 * g + e) for g in (0, 1, 2, 3) for q in range(max(1, g)) for e in (0, 1, 2, 3, 4)]


def B64DGROW(k):
    if k > 20000:
        return [dict(G=k // 3 + 2, Q=0, max=k + 10)]
    return [dict(G=k + 2, Q=q, max=3 * k + 20) for q in (0, k - 1, k, k + 1)] + [dict(G=k // 3 + 1, Q=0, max=m) for m in (k + 3, k + 4)]


for _rem in range(3):
    for _p in ((1, 0) if _rem else (1,)):
        for _w in ('group', 'last'):
            scn('Base64_decode:%d mod 3%s, %s' % (_rem, '' if _p else ' unpadded', _w), ('C13',), ('Base64_decode',), B64D, grow=B64DGROW)(
                lambda s, rem=_rem, p=_p, w=_w: b64dec(s, rem, p, w))


def b64any(s, r4):
    """any text of 4*D+r4 characters"""
    D, mx = s.ghost('D', 0, 1 << 58), s.size('max', 64)
    M = uview(mx)
    s.st.add_ge(pc(1 << 61) - M)
    N = s.st.norm(D.scale(4) + r4)
    n = mkW(64, N)
    text, out = s.buf('text', N, ro=True), s.buf('out', M)
    base = s.st.clone()
    for x, r in s.call('Base64_decode', text, n, out, mx):
        s.post('C14', 'returns', True)
    # refused from the sizes alone (shorter than one byte, or no room for the complete groups): nothing is written
    for short in (True, False):
        s.st = base.clone()
        J = s.ghost('J', 0, M)
        if short:
            s.st.add_ge(pc(1) - N)
        else:
            s.st.add_ge((D if r4 else D - 1).scale(3) - M - 1)
        if not s.st.F.feasible():
            continue
        s.track(out, J)
        old = s.at(s.st, out, J)[0][1]
        for x, r in s.call('Base64_decode', text, n, out, mx):
            s.must(x, 'C14', 'failure is reported', icmp('ne', r, C(32, 0)))
            s.same_at(x, 'C14', 'nothing is written when refused from the sizes', out, J, old)


def B64AGROW(k):
    if k > 20000:
        return [dict(D=k // 3 + 2, max=k - 10, J=0), dict(D=k // 4 + 1, max=10, J=0)]
    return [dict(D=d, max=m, J=max(0, m - 1)) for d in sorted({k // 4 + 1, k // 3, k // 3 + 1, k // 3 + 2}) for m in range(max(0, 3 * d - 3), 3 * d + 3)]


for _r in range(4):
    scn('Base64_decode:any input, %d mod 4' % _r, ('C14',), ('Base64_decode',), [dict(D=n, max=m, J=j) for n in range(4) for m in range(8) for j in (0, max(0, m - 1))], grow=B64AGROW)(
        lambda s, r=_r: b64any(s, r))


import specs_obj
import specs_sort
import specs_json
