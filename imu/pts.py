"""Whole-program points-to / provenance analysis over the IR (inclusion based,
field sensitive on constant offsets, context insensitive), plus a forward taint
closure on top of it.

Abstract objects
  ('P', fn, i)      memory the caller passes through parameter i of an entry point
  ('D', obj, off)   memory behind a pointer stored at `off` in a caller object
  ('A', fn, reg)    automatic object
  ('G', name)       global / static object
  ('F', name)       function
A pointer value is a set of (obj, off) with off an int or None (anywhere)."""
from ir import Unsupported

READS = {'memcmp': (0, 1), 'strlen': (0,), 'strcmp': (0, 1), 'strncmp': (0, 1), 'strnlen': (0,), 'memchr': (0,), 'strchr': (0,),
         'strrchr': (0,), 'strstr': (0, 1), 'strspn': (0, 1), 'strcspn': (0, 1), 'strpbrk': (0, 1)}
COPIES = {'memcpy': (0, 1), 'memmove': (0, 1), 'strcpy': (0, 1), 'strncpy': (0, 1), 'strcat': (0, 1), 'strncat': (0, 1),
          'stpcpy': (0, 1)}
FILLS = {'memset': (0,)}
RETARG = {'memcpy', 'memmove', 'strcpy', 'strncpy', 'strcat', 'strncat', 'memset', 'strchr', 'strrchr', 'memchr', 'strstr', 'stpcpy',
          'strpbrk'}
PURE = {'abs', 'labs', 'isalpha', 'isdigit', 'isupper', 'islower', 'isalnum', 'isspace', 'isxdigit', 'toupper', 'tolower', 'llabs'}


def base_name(n):
    if n.startswith('llvm.'):
        p = n.split('.')
        if p[1] in ('memcpy', 'memmove', 'memset'):
            return p[1]
        return None
    if n.startswith('__') and n.endswith('_chk'):
        return n[2:-4]
    return n


class Pts:
    def __init__(s, prog, roots=None):
        """roots: entry points (Fn); default every exported function"""
        s.p = prog
        s.roots = roots if roots is not None else [f for m in prog.mods for f in m.fns.values() if not f.internal]
        s.v = {}         # (fnid, reg) -> set
        s.m = {}         # obj -> {off: set}
        s.fns = {}
        s.calls = []     # (fn, ins, callee Fn | name | 'indirect', set)
        s.ret = {}
        s.solve()

    @staticmethod
    def fid(fn):
        return fn.mod.src.rsplit('/', 1)[-1] + ':' + fn.name if fn.internal else fn.name

    # ------------------------------------------------------------ helpers
    def ext_obj(s, o):
        return o[0] in ('P', 'D')

    def root(s, o):
        while o[0] == 'D':
            o = o[1]
        return o

    def content(s, obj, off):
        m = s.m.setdefault(obj, {})
        out = set()
        if off is None:
            for x in m.values():
                out |= x
        else:
            out |= m.get(off, set()) | m.get(None, set())
        if s.ext_obj(obj):
            d = obj
            n = 0
            while d[0] == 'D':
                d = d[1]
                n += 1
            out.add((('D', obj, off), 0) if n < 2 else (obj, None))
        return out

    def put(s, obj, off, vals):
        m = s.m.setdefault(obj, {})
        if off is not None and off not in m and len(m) > 64:
            off = None
        x = m.setdefault(off, set())
        n = len(x)
        x |= vals
        return len(x) != n

    def val(s, fn, op):
        k = op[0]
        if k == 'reg':
            return s.v.get((fn, op[1]), set())
        if k == 'glob':
            f = s.p.lookup(fn.mod, op[1])
            if f is not None:
                return {(('F', f), 0)}
            if op[1] in fn.mod.decls:
                return {(('F', op[1]), 0)}
            g = fn.mod.globs.get(op[1])
            if g is not None and g.init is None:
                for m in s.p.mods:
                    h = m.globs.get(op[1])
                    if h is not None and h.init is not None:
                        g = h
                        break
            return {(('G', g), 0)} if g is not None else set()
        if k == 'gep':
            return s.gep(fn, op[1], op[2])
        if k == 'cast':
            return s.val(fn, op[3])
        return set()

    def gep(s, fn, bt, ops):
        base = s.val(fn, ops[0][1])
        off = 0
        t = None
        for i, (ty, o) in enumerate(ops[1:]):
            c = o[1] if o[0] == 'const' else (0 if o[0] == 'zero' else None)
            if i == 0:
                sz = s.p.layout.size(bt)
                t = bt
                if c is None:
                    off = None
                elif off is not None:
                    off += c * sz
            elif t.k == 'struct':
                if off is not None:
                    off += s.p.layout.field_off(t, c)
                t = t.fields[c]
            else:
                if c is None:
                    off = None
                elif off is not None:
                    off += c * s.p.layout.size(t.elem)
                t = t.elem
        return {(o, None if (off is None or b is None) else b + off) for o, b in base}

    def upd(s, fn, reg, vals):
        x = s.v.setdefault((fn, reg), set())
        new = vals - x
        if not new:
            return
        wide = {o for o, off in x if off is None}
        new = {(o, None if o in wide else off) for o, off in new} - x
        if not new:
            return
        x |= new
        s.chg = True
        if len(x) > 40:
            cnt = {}
            for o, off in x:
                cnt[o] = cnt.get(o, 0) + 1
            for o, k in cnt.items():
                if k > 24:
                    x -= {e for e in x if e[0] == o}
                    x.add((o, None))

    # ------------------------------------------------------------ solver
    def solve(s):
        work = list(s.roots)
        for f in s.roots:
            s.enter(f)
            for i, (t, nm, at) in enumerate(f.params):
                if t.k == 'ptr':
                    s.upd(f, nm, {(('P', f, i), 0)})
        s.chg = True
        n = 0
        while s.chg:
            s.chg = False
            n += 1
            if n > 400:
                raise Unsupported('points-to analysis does not converge')
            s.calls = []
            for f in list(s.fns.values()):
                for b in f.blocks.values():
                    for ins in b.phis:
                        if ins.ty.k == 'ptr':
                            for v, _ in ins.a:
                                s.upd(f, ins.dst, s.val(f, v))
                    for ins in b.ins:
                        s.step(f, ins)

    def enter(s, f):
        if f not in s.fns:
            s.fns[f] = f
            s.chg = True

    def step(s, f, ins):
        op = ins.op
        if op == 'alloca':
            s.upd(f, ins.dst, {(('A', f, ins.dst), 0)})
        elif op == 'load' and ins.ty.k == 'ptr':
            r = set()
            for o, off in s.val(f, ins.a[0]):
                r |= s.content(o, off)
            s.upd(f, ins.dst, r)
        elif op == 'store':
            v = s.val(f, ins.a[0]) if ins.ty.k == 'ptr' else None
            if v:
                for o, off in s.val(f, ins.a[1]):
                    if s.put(o, off, v):
                        s.chg = True
        elif op == 'gep':
            s.upd(f, ins.dst, s.gep(f, ins.ty, ins.a))
        elif op == 'select' and ins.ty.k == 'ptr':
            s.upd(f, ins.dst, s.val(f, ins.a[1]) | s.val(f, ins.a[2]))
        elif op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
            s.upd(f, ins.dst, {(o, None if op in ('inttoptr', 'ptrtoint') else x) for o, x in s.val(f, ins.a[0])})
        elif op in ('add', 'sub', 'and', 'or') and any(s.val(f, a) for a in ins.a[:2]):
            s.upd(f, ins.dst, {(o, None) for a in ins.a[:2] for o, x in s.val(f, a)})
        elif op == 'ret' and ins.a and ins.ty.k == 'ptr':
            x = s.ret.setdefault(f, set())
            n = len(x)
            x |= s.val(f, ins.a[0])
            if len(x) != n:
                s.chg = True
        elif op == 'call':
            s.call(f, ins)

    def targets(s, f, ins):
        cal = ins.a[0]
        if cal[0] == 'glob':
            t = s.p.lookup(f.mod, cal[1])
            return [('fn', t)] if t is not None else [('ext', cal[1])]
        out = []
        for o, off in s.val(f, cal):
            if o[0] == 'F':
                out.append(('fn', o[1]) if not isinstance(o[1], str) else ('ext', o[1]))
            else:
                out.append(('cb', o))
        return out or [('cb', None)]

    def call(s, f, ins):
        for k, t in s.targets(f, ins):
            s.calls.append((f, ins, k, t))
            if k == 'fn':
                s.enter(t)
                for (ty, nm, at), a in zip(t.params, ins.a[1:]):
                    if a[1][0] != 'md':
                        s.upd(t, nm, s.val(f, a[1]))
                if ins.dst is not None:
                    s.upd(f, ins.dst, s.ret.get(t, set()))
            elif k == 'ext':
                b = base_name(t)
                if b in COPIES:
                    d, sr = COPIES[b]
                    vals = set()
                    for o, off in s.val(f, ins.a[1 + sr][1]):
                        for x in list(s.m.setdefault(o, {}).values()):
                            vals |= x
                        if s.ext_obj(o):
                            vals |= s.content(o, None)
                    if vals:
                        for o, off in s.val(f, ins.a[1 + d][1]):
                            if s.put(o, None, vals):
                                s.chg = True
                if b in RETARG and ins.dst is not None:
                    s.upd(f, ins.dst, {(o, None) for o, x in s.val(f, ins.a[1][1])})

    # ------------------------------------------------------------ accesses
    def accesses(s):
        """(fn, ins, 'r'/'w', pointer operand, width or None)"""
        for f in s.fns.values():
            for b in f.blocks.values():
                for ins in b.ins:
                    if ins.op == 'load':
                        yield f, ins, 'r', ins.a[0], s.p.layout.size(ins.ty)
                    elif ins.op == 'store':
                        yield f, ins, 'w', ins.a[1], s.p.layout.size(ins.ty)
                    elif ins.op == 'call':
                        for k, t in s.targets(f, ins):
                            if k == 'ext':
                                bn = base_name(t)
                                for i in READS.get(bn, ()):
                                    yield f, ins, 'r', ins.a[1 + i][1], None
                                if bn in COPIES:
                                    yield f, ins, 'w', ins.a[1][1], None
                                    yield f, ins, 'r', ins.a[2][1], None
                                if bn in FILLS:
                                    yield f, ins, 'w', ins.a[1][1], None


class Taint:
    """secret data: contents of given objects; explicit flows through SSA values and memory"""

    def __init__(s, pts, secret_objs):
        s.t = pts
        s.val = set()            # (fn, reg)
        s.mem = set()            # (obj, off|None)
        for o in secret_objs:
            s.mem.add((o, None))
        s.retv = set()
        s.run()

    def is_mem(s, o, off):
        if (o, None) in s.mem:
            return True
        if off is None:
            return any(x[0] == o for x in s.mem)
        return (o, off) in s.mem

    def op(s, f, o):
        return o[0] == 'reg' and (f, o[1]) in s.val

    def mark(s, f, r):
        if r is not None and (f, r) not in s.val:
            s.val.add((f, r))
            s.chg = True

    def markmem(s, o, off):
        if (o, off) not in s.mem and (o, None) not in s.mem:
            s.mem.add((o, off))
            s.chg = True

    def run(s):
        T = s.t
        s.chg = True
        while s.chg:
            s.chg = False
            for f in T.fns.values():
                for b in f.blocks.values():
                    for ins in b.phis:
                        if any(s.op(f, v) for v, _ in ins.a):
                            s.mark(f, ins.dst)
                    for ins in b.ins:
                        op = ins.op
                        if op == 'load':
                            if s.op(f, ins.a[0]) or any(s.covers(o, off, T.p.layout.size(ins.ty)) for o, off in T.val(f, ins.a[0])):
                                s.mark(f, ins.dst)
                        elif op == 'store':
                            if s.op(f, ins.a[0]):
                                for o, off in T.val(f, ins.a[1]):
                                    if off is None:
                                        s.markmem(o, None)
                                    else:
                                        for k in range(T.p.layout.size(ins.ty)):
                                            s.markmem(o, off + k)
                        elif op == 'call':
                            for k, t in T.targets(f, ins):
                                if k == 'fn':
                                    for (ty, nm, at), a in zip(t.params, ins.a[1:]):
                                        if s.op(f, a[1]):
                                            s.mark(t, nm)
                                    if t in s.retv:
                                        s.mark(f, ins.dst)
                                elif k == 'ext':
                                    bn = base_name(t)
                                    if bn in COPIES:
                                        if any(s.is_mem(o, None) for o, off in T.val(f, ins.a[2][1])):
                                            n = ins.a[3][1] if len(ins.a) > 3 else None
                                            for o, off in T.val(f, ins.a[1][1]):
                                                if off is not None and n and n[0] == 'const':
                                                    for k in range(n[1]):
                                                        s.markmem(o, off + k)
                                                else:
                                                    s.markmem(o, None)
                                    elif bn in FILLS:
                                        if s.op(f, ins.a[2][1]):
                                            for o, off in T.val(f, ins.a[1][1]):
                                                s.markmem(o, None)
                                    elif bn in READS:
                                        if any(s.is_mem(o, None) for i in READS[bn] for o, off in T.val(f, ins.a[1 + i][1])):
                                            s.mark(f, ins.dst)
                                    elif any(s.op(f, a[1]) for a in ins.a[1:]):
                                        s.mark(f, ins.dst)
                                elif any(s.op(f, a[1]) for a in ins.a[1:]):
                                    s.mark(f, ins.dst)
                        elif op == 'ret':
                            if ins.a and s.op(f, ins.a[0]) and f not in s.retv:
                                s.retv.add(f)
                                s.chg = True
                        elif op == 'gep':
                            if any(s.op(f, o) for _, o in ins.a):
                                s.mark(f, ins.dst)
                        elif ins.dst is not None:
                            if any(isinstance(x, tuple) and x and x[0] == 'reg' and s.op(f, x) for x in ins.a):
                                s.mark(f, ins.dst)

    def covers(s, o, off, n):
        if off is None:
            return s.is_mem(o, None)
        return any(s.is_mem(o, off + k) for k in range(n))
