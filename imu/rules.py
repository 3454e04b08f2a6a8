"""Whole-library structural rules decided on the resolved program (IR call graph,
points-to sets, taint closure).  Every rule returns a Verdict."""
from ir import Unsupported
import pts as P_
from pts import Pts, Taint, base_name, READS, COPIES, FILLS, PURE


class Broken(Exception):
    """the analysis lost its anchors: neither a pass nor a violation"""


class Verdict:
    def __init__(s):
        s.bad = []          # (loc, function, text)
        s.n = {}            # what was analysed
        s.samples = []
        s.obl = 0           # rule instances decided
        s.undecided = []
        s.trusted = []
        s.notes = []

    def add(s, loc, fn, text):
        e = (loc, fn, text)
        if e not in s.bad:
            s.bad.append(e)

    def merge(s, o):
        s.bad += [b for b in o.bad if b not in s.bad]
        for k, v in o.n.items():
            s.n[k] = s.n.get(k, 0) + v
        s.samples += o.samples
        s.obl += o.obl
        s.undecided += o.undecided
        s.trusted += [t for t in o.trusted if t not in s.trusted]
        s.notes += o.notes


_cache = {}


def whole(prog):
    if 'pts' not in _cache or _cache['pts'][0] is not prog:
        _cache['pts'] = (prog, Pts(prog))
    return _cache['pts'][1]


def need(cond, msg):
    if not cond:
        raise Broken(msg)


def oname(o):
    if o[0] == 'P':
        f = o[1]
        return 'memory behind parameter %d of %s' % (o[2], f.name)
    if o[0] == 'D':
        return 'memory reached through a pointer stored in (%s)' % oname(o[1])
    if o[0] == 'A':
        return 'local %s of %s' % (o[2], o[1].name)
    if o[0] == 'G':
        return 'static object %s' % o[1].name
    return 'function'


# ------------------------------------------------------------------ no hidden state
def no_hidden_state(prog):
    v = Verdict()
    t = whole(prog)
    globs = [(m, g) for m in prog.mods for g in m.globs.values() if g.init is not None]
    mutable = [(m, g) for m, g in globs if not g.const]
    need(len(t.fns) >= 100, 'only %d functions reached from the exported API' % len(t.fns))
    nw = 0
    for f, ins, rw, op, w in t.accesses():
        if rw != 'w':
            continue
        nw += 1
        v.obl += 1
        for o, off in t.val(f, op):
            if o[0] == 'G':
                v.add(prog.loc(ins), f.name, 'writes static storage %s: the result of a call can depend on earlier or concurrent calls' % o[1].name)
    # a mutable object whose address leaves the library can be changed behind its back
    for (o, m) in t.m.items():
        if t.ext_obj(o):
            for off, vals in m.items():
                for x, _ in vals:
                    if x[0] == 'G' and not x[1].const:
                        v.add('?', '?', 'address of mutable static object %s is stored in caller memory' % x[1].name)
    for (f, ins, k, tg) in t.calls:
        if k == 'ext' and base_name(tg) in ('strtok', 'rand', 'srand', 'setlocale', 'localeconv', 'asctime', 'strerror'):
            v.add(prog.loc(ins), f.name, 'calls %s, which keeps hidden state' % tg)
    need(nw > 100, 'only %d writes seen' % nw)
    v.n = {'functions': len(t.fns), 'write_sites': nw, 'static_objects': len(globs), 'mutable_static_objects': len(mutable)}
    v.samples = ['%s: constant' % g.name for m, g in globs[:3]] + ['%s: never written' % g.name for m, g in mutable[:3]]
    return v


# ------------------------------------------------------------------ call graph
ALLOWED = set(READS) | set(COPIES) | set(FILLS) | PURE


def closed_call_graph(prog):
    v = Verdict()
    t = whole(prog)
    need(len(t.fns) >= 100, 'only %d functions reached' % len(t.fns))
    edges = {}
    ncall = nind = 0
    for (f, ins, k, tg) in t.calls:
        ncall += 1
        v.obl += 1
        if k == 'fn':
            edges.setdefault(f, set()).add(tg)
        elif k == 'ext':
            b = base_name(tg)
            if b is None:
                n = tg.split('.')
                if n[1] in ('dbg', 'lifetime', 'umin', 'umax', 'smin', 'smax', 'abs', 'fshl', 'fshr', 'bswap', 'ctpop', 'bitreverse',
                            'expect', 'assume', 'ctlz', 'cttz'):
                    continue
                if n[1] in ('stacksave', 'stackrestore'):
                    v.add(prog.loc(ins), f.name, 'variable-size automatic object')
                    continue
            if b in ALLOWED:
                continue
            what = {'malloc': 'heap allocation', 'calloc': 'heap allocation', 'realloc': 'heap allocation', 'free': 'heap use',
                    'alloca': 'variable-size automatic object'}.get(b)
            v.add(prog.loc(ins), f.name, 'calls %s (%s)' % (tg, what or 'not one of the pure string/memory functions the library may use'))
        else:
            nind += 1
            if tg is None or not t.ext_obj(tg):
                v.add(prog.loc(ins), f.name, 'indirect call whose target is not a callback supplied by the caller')
    # recursion: strongly connected components
    idx, low, st, on, cnt, sccs = {}, {}, [], set(), [0], []

    def tarjan(u):
        work = [(u, iter(edges.get(u, ())))]
        idx[u] = low[u] = cnt[0]
        cnt[0] += 1
        st.append(u)
        on.add(u)
        while work:
            x, it = work[-1]
            for y in it:
                if y not in idx:
                    idx[y] = low[y] = cnt[0]
                    cnt[0] += 1
                    st.append(y)
                    on.add(y)
                    work.append((y, iter(edges.get(y, ()))))
                    break
                elif y in on:
                    low[x] = min(low[x], idx[y])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == idx[x]:
                    c = []
                    while True:
                        y = st.pop()
                        on.discard(y)
                        c.append(y)
                        if y is x:
                            break
                    sccs.append(c)
    for f in t.fns.values():
        if f not in idx:
            tarjan(f)
    for c in sccs:
        if len(c) > 1 or c[0] in edges.get(c[0], ()):
            v.add('%s:?' % c[0].mod.src.split('/Src/')[-1], c[0].name, 'recursion: ' + ' -> '.join(x.name for x in c))
    # dynamic automatic storage
    na = 0
    for f in t.fns.values():
        for b in f.blocks.values():
            for ins in b.ins:
                if ins.op == 'alloca':
                    na += 1
                    if ins.a and ins.a[0][1][0] != 'const':
                        v.add(prog.loc(ins), f.name, 'variable-size automatic object')
    need(ncall > 100 and nind >= 5, 'call graph too small: %d calls, %d callbacks' % (ncall, nind))
    # static stack need along the deepest chain
    memo = {}

    def stack(f, seen=()):
        if f in memo:
            return memo[f]
        if f in seen:
            return 0
        own = sum(prog.layout.size(i.ty) for b in f.blocks.values() for i in b.ins if i.op == 'alloca')
        memo[f] = own + max([stack(g, seen + (f,)) for g in edges.get(f, ())] or [0])
        return memo[f]
    deepest = max(t.fns.values(), key=stack)
    v.n = {'functions': len(t.fns), 'call_sites': ncall, 'callback_sites': nind, 'strong_components': len(sccs), 'automatic_objects': na}
    v.samples = ['deepest automatic storage: %s, %d bytes of named objects' % (deepest.name, stack(deepest))]
    return v


# ------------------------------------------------------------------ const inputs / retention
RETAIN = {  # documented: the object keeps the storage given at initialisation / the registered callback
    'Queue_init': 'queue storage', 'PriorityQueue_init': 'queue storage', 'Map_init': 'map storage', 'Scheduler_addTask': 'task function',
}


def param_const(f, i):
    d = f.mod.dbgi
    ts = d.fn_types(f)
    if not ts or i + 1 >= len(ts) or ts[i + 1] is None:
        return None
    t, _ = d.strip(ts[i + 1])
    if t is None or 'DW_TAG_pointer_type' not in d.raw(t[1]):
        return None
    pt = d.pointee(t)
    if pt is None:
        return False
    _, q = d.strip(pt)
    return 'const' in q


def exported(prog):
    return [f for m in prog.mods for f in m.fns.values() if not f.internal]


def const_inputs(prog):
    """per entry point: its own const inputs are not written by anything it reaches; no pointer survives the call"""
    v = Verdict()
    np = nw = 0
    for f in exported(prog):
        t = Pts(prog, [f])
        cs = [i for i in range(len(f.params)) if f.params[i][0].k == 'ptr' and param_const(f, i)]
        np += len(cs)
        v.obl += len(cs) + 1
        for g, ins, rw, op, w in t.accesses():
            if rw != 'w':
                continue
            nw += 1
            for o, off in t.val(g, op):
                if o[0] == 'P' and o[2] in cs:
                    v.add(prog.loc(ins), g.name, 'writes the read-only input %d (%s) of %s' % (o[2] + 1, f.params[o[2]][1], f.name))
                if o[0] == 'G' and o[1].const:
                    v.add(prog.loc(ins), g.name, 'writes the constant object %s' % o[1].name)
        for o, m in t.m.items():
            keep = t.ext_obj(o) or o[0] == 'G'
            if not keep:
                continue
            for off, vals in m.items():
                for x, _ in vals:
                    if x[0] == 'A':
                        v.add('?', f.name, 'address of %s is left in %s after the call' % (oname(x), oname(o)))
                    elif x[0] == 'P' and f.name not in RETAIN:
                        v.add('?', f.name, 'keeps a pointer to %s in %s after the call' % (oname(x), oname(o)))
        for x, _ in t.ret.get(f, ()):
            if x[0] == 'A':
                v.add('?', f.name, 'returns the address of %s' % oname(x))
    need(np > 60, 'only %d read-only inputs recognised' % np)
    v.n = {'entry_points': len(exported(prog)), 'read_only_inputs': np, 'write_sites_examined': nw}
    return v


# ------------------------------------------------------------------ byte buffers
def byte_object(t, o):
    """True when the declared type of the caller object makes no alignment promise"""
    if o[0] == 'P':
        f, i = o[1], o[2]
        d = f.mod.dbgi
        ts = d.fn_types(f)
        if not ts or ts[i + 1] is None:
            return None
        ty, _ = d.strip(ts[i + 1])
        if ty is None or 'DW_TAG_pointer_type' not in d.raw(ty[1]):
            return None
        pt = d.pointee(ty)
        b = d.basic(pt)
        if b[0] == 'void':
            return True
        return b[0] in ('signed', 'unsigned', 'bool') and b[1] == 8
    if o[0] == 'D' and o[1][0] == 'P' and o[2] is not None:
        f, i = o[1][1], o[1][2]
        d = f.mod.dbgi
        ts = d.fn_types(f)
        if not ts or ts[i + 1] is None:
            return None
        ty, _ = d.strip(ts[i + 1])
        pt = d.pointee(ty)
        if pt is None or d.basic(pt)[0] != 'struct':
            return None
        for nm, off, sz, mt in d.members(pt):
            if off == o[2]:
                tt, _ = d.strip(mt)
                if tt is not None and 'DW_TAG_pointer_type' in d.raw(tt[1]):
                    p2 = d.pointee(tt)
                    b = d.basic(p2)
                    return b[0] == 'void' or (b[0] in ('signed', 'unsigned', 'bool') and b[1] == 8)
    return None


def byte_access(prog):
    v = Verdict()
    objs = set()
    n = 0
    for f in exported(prog):
        t = Pts(prog, [f])
        for g, ins, rw, op, w in t.accesses():
            for o, off in t.val(g, op):
                if byte_object(t, o):
                    objs.add(o)
                    n += 1
                    v.obl += 1
                    if w is not None and w > 1:
                        v.add(prog.loc(ins), g.name, '%d-byte %s of %s through %s: byte order and alignment become the host\'s' %
                              (w, 'read' if rw == 'r' else 'write', oname(o), f.name))
    need(len(objs) >= 40, 'only %d byte buffers recognised' % len(objs))
    v.n = {'byte_buffers': len(objs), 'accesses': n}
    v.samples = sorted(oname(o) for o in objs)[:5]
    return v


# ------------------------------------------------------------------ constant time
def chacha_constant_time(prog):
    v = Verdict()
    f = prog.fns.get('Chacha20_crypt')
    need(f is not None and len(f.params) == 6, 'Chacha20_crypt not found')
    t = Pts(prog, [f])
    ptrs = [i for i, (ty, nm, at) in enumerate(f.params) if ty.k == 'ptr']
    need(ptrs == [0, 2, 3, 5], 'unexpected signature of Chacha20_crypt')
    sec = [('P', f, 0), ('P', f, 2)]        # message and key (the nonce and the counter are public)
    ta = Taint(t, sec)
    nb = na = 0

    def bad(g, ins, what):
        v.add(prog.loc(ins), g.name, '%s depends on the key or the message' % what)
    for g in t.fns.values():
        for b in g.blocks.values():
            for ins in b.ins:
                op = ins.op
                if op in ('cbr', 'switch'):
                    nb += 1
                    v.obl += 1
                    if ta.op(g, ins.a[0]):
                        bad(g, ins, 'branch')
                elif op == 'select':
                    nb += 1
                    v.obl += 1
                    if ta.op(g, ins.a[0]):
                        bad(g, ins, 'conditional')
                elif op in ('load', 'store'):
                    na += 1
                    v.obl += 1
                    if ta.op(g, ins.a[0] if op == 'load' else ins.a[1]):
                        bad(g, ins, 'memory address')
                elif op in ('udiv', 'sdiv', 'urem', 'srem'):
                    v.obl += 1
                    if ta.op(g, ins.a[0]) or ta.op(g, ins.a[1]):
                        bad(g, ins, 'operand of a division')
                elif op in ('shl', 'lshr', 'ashr'):
                    v.obl += 1
                    if ta.op(g, ins.a[1]):
                        bad(g, ins, 'shift amount')
                elif op == 'alloca' and ins.a and ta.op(g, ins.a[0][1]):
                    bad(g, ins, 'object size')
                elif op == 'call':
                    for k, tg in t.targets(g, ins):
                        if k == 'ext':
                            bn = base_name(tg)
                            if bn in ('memcpy', 'memmove', 'memset'):
                                if ta.op(g, ins.a[3][1]) or ta.op(g, ins.a[1][1]) or (bn != 'memset' and ta.op(g, ins.a[2][1])):
                                    bad(g, ins, 'length or address of %s' % bn)
                            elif bn in READS or bn in COPIES:
                                idx = list(READS.get(bn, ())) + ([1] if bn in COPIES else [])
                                for i in idx:
                                    if any(ta.is_mem(o, None) for o, _ in t.val(g, ins.a[1 + i][1])):
                                        bad(g, ins, 'running time of %s' % bn)
                            elif bn is not None and any(ta.op(g, a[1]) for a in ins.a[1:]):
                                bad(g, ins, 'external call')
                        elif k == 'cb':
                            bad(g, ins, 'indirect call')
    # positive control: the secrets really reach the output
    need(ta.is_mem(('P', f, 5), None), 'taint does not reach the output: analysis lost the data flow')
    need(nb >= 4 and na >= 30 and len(ta.val) > 50, 'too little analysed: %d branches, %d accesses' % (nb, na))
    v.n = {'functions': len(t.fns), 'branches': nb, 'memory_accesses': na, 'secret_values': len(ta.val)}
    v.samples = ['%s: %d secret values' % (g.name, sum(1 for (h, r) in ta.val if h is g)) for g in t.fns.values()]
    return v
