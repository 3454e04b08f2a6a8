"""LLVM IR front end: builds the IR of every library translation unit from the
current source tree (clang front end, no optimisation beyond SSA construction)
and parses it into a small object model.  Nothing is executed."""
import os, re, subprocess, hashlib, glob, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('IMU_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'elem', 'n', 'fields', 'packed')

    def __init__(s, k, w=0, elem=None, n=0, fields=None, packed=False):
        s.k, s.w, s.elem, s.n, s.fields, s.packed = k, w, elem, n, fields, packed

    def __repr__(s):
        return {'int': lambda: 'i%d' % s.w, 'ptr': lambda: 'ptr', 'arr': lambda: '[%d x %r]' % (s.n, s.elem),
                'struct': lambda: '{%s}' % ', '.join(map(repr, s.fields)), 'void': lambda: 'void',
                'float': lambda: 'float%d' % s.w}.get(s.k, lambda: s.k)()


class Layout:
    """Size/alignment for the target of the module."""

    def __init__(s, ptrsize):
        s.ptr = ptrsize

    def align(s, t):
        if t.k == 'int':
            b = max(1, (t.w + 7) // 8)
            p = 1
            while p < b:
                p *= 2
            return min(p, 8 if s.ptr == 8 else 8)
        if t.k == 'ptr':
            return s.ptr
        if t.k == 'float':
            return t.w // 8
        if t.k == 'arr':
            return s.align(t.elem)
        if t.k == 'struct':
            return 1 if t.packed else max([s.align(f) for f in t.fields] + [1])
        raise Unsupported('align of %r' % t)

    def size(s, t):
        if t.k == 'int':
            a = s.align(t)
            b = max(1, (t.w + 7) // 8)
            return (b + a - 1) // a * a
        if t.k == 'ptr':
            return s.ptr
        if t.k == 'float':
            return t.w // 8
        if t.k == 'arr':
            return t.n * s.size(t.elem)
        if t.k == 'struct':
            o = 0
            for f in t.fields:
                if not t.packed:
                    a = s.align(f)
                    o = (o + a - 1) // a * a
                o += s.size(f)
            a = s.align(t)
            return (o + a - 1) // a * a
        raise Unsupported('size of %r' % t)

    def field_off(s, t, i):
        o = 0
        for k, f in enumerate(t.fields):
            if not t.packed:
                a = s.align(f)
                o = (o + a - 1) // a * a
            if k == i:
                return o
            o += s.size(f)
        raise IndexError


# ---------------------------------------------------------------- operands
# ('reg',name) ('const',int) ('null',) ('undef',) ('glob',name) ('gep',basety,[operands...])
# ('agg',[ (ty,op) ]) ('zero',) ('str',bytes)

class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'attrs', 'line', 'fn')

    def __init__(s, op, dst, ty, a, attrs, line):
        s.op, s.dst, s.ty, s.a, s.attrs, s.line = op, dst, ty, a, attrs, line

    def __repr__(s):
        return '%s=%s %s' % (s.dst, s.op, s.a)


class Block:
    __slots__ = ('name', 'ins', 'phis', 'succ', 'pred')

    def __init__(s, name):
        s.name, s.ins, s.phis, s.succ, s.pred = name, [], [], [], []


class Fn:
    def __init__(s):
        s.name = s.ret = None
        s.params = []       # (ty, regname, attrs)
        s.blocks = {}
        s.order = []
        s.dbg = None
        s.internal = False
        s.mod = None
        s.file = None


class Glob:
    __slots__ = ('name', 'ty', 'const', 'init', 'mod', 'linkage', 'align', 'line')


class Module:
    def __init__(s):
        s.types = {}
        s.fns = {}
        s.decls = {}
        s.globs = {}
        s.md = {}
        s.src = None
        s.layout = None
        s.triple = ''


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 | (?P<local>%(?:"[^"]*"|[-\w.$]+))
 | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
 | (?P<md>![\w.]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+e[+-]?\d+)?|0x[0-9A-Fa-f]+)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<dots>\.\.\.)
 | (?P<p><\{|\}>|[][(){}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '':
                break
            raise Unsupported('token at %r' % s[i:i + 40])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


def unq(n):
    n = n[1:]
    return n[1:-1] if n.startswith('"') else n


ATTRW = {'noundef', 'zeroext', 'signext', 'nocapture', 'readonly', 'nonnull', 'noalias', 'readnone', 'immarg',
         'writeonly', 'returned', 'dso_local', 'internal', 'private', 'unnamed_addr', 'local_unnamed_addr', 'hidden',
         'inreg', 'nofree', 'nosync', 'willreturn', 'linkonce_odr', 'available_externally', 'weak', 'external',
         'common', 'global', 'constant', 'tail', 'notail', 'musttail', 'fastcc', 'ccc', 'arm_aapcscc', 'arm_aapcs_vfpcc', 'returns_twice',
         'noalias', 'dereferenceable', 'swiftself'}


class Cur:
    def __init__(s, toks, mod):
        s.t, s.i, s.m = toks, 0, mod

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else (None, None)

    def next(s):
        r = s.peek()
        s.i += 1
        return r

    def accept(s, v):
        if s.peek()[1] == v and s.peek()[0] != 'str':
            s.i += 1
            return True
        return False

    def expect(s, v):
        if not s.accept(v):
            raise Unsupported('expected %s got %r in %r' % (v, s.peek(), s.t))

    def ty(s):
        k, v = s.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', v):
                t = Ty('int', int(v[1:]))
            elif v == 'ptr':
                t = Ty('ptr')
            elif v == 'void':
                t = Ty('void')
            elif v in ('float', 'double', 'half', 'fp128', 'x86_fp80'):
                t = Ty('float', {'float': 32, 'double': 64}.get(v, 128))
            elif v in ('metadata', 'label'):
                t = Ty(v)
            else:
                raise Unsupported('type %s' % v)
        elif k == 'local':
            nm = unq(v)
            t = s.m.types.get(nm)
            if t is None:
                t = s.m.types[nm] = Ty('struct')
        elif v == '[':
            n = int(s.next()[1])
            s.expect('x')
            e = s.ty()
            s.expect(']')
            t = Ty('arr', elem=e, n=n)
        elif v == '{' or v == '<{':
            close = '}' if v == '{' else '}>'
            fs = []
            while not s.accept(close):
                fs.append(s.ty())
                s.accept(',')
            t = Ty('struct', fields=fs, packed=(v == '<{'))
        elif v == '<':
            raise Unsupported('vector type')
        else:
            raise Unsupported('type %r' % (v,))
        while s.peek()[1] == '(' and s.peek()[0] == 'p' and t.k in ('int', 'void', 'ptr') and s._is_fnty():
            s._skip_paren()
            t = Ty('fn')
        while s.accept('*'):
            t = Ty('ptr')
        return t

    def _is_fnty(s):
        # only used for variadic call types:  call i32 (ptr, ...) @printf(...)
        d = 0
        j = s.i
        while j < len(s.t):
            v = s.t[j][1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return j + 1 < len(s.t) and s.t[j + 1][0] in ('glob', 'local')
            j += 1
        return False

    def _skip_paren(s):
        d = 0
        while True:
            v = s.next()[1]
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return

    def attrs(s):
        r = []
        while True:
            k, v = s.peek()
            if k == 'word' and (v in ATTRW):
                s.i += 1
                r.append(v)
                if s.peek()[1] == '(':
                    s._skip_paren()
            elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'memory',
                                       'addrspace', 'range'):
                s.i += 1
                if s.peek()[1] == '(':
                    s._skip_paren()
                elif s.peek()[0] == 'num':
                    s.i += 1
                r.append(v)
            else:
                return r

    def value(s, ty):
        k, v = s.next()
        if k == 'local':
            return ('reg', unq(v))
        if k == 'glob':
            return ('glob', unq(v))
        if k == 'num':
            if ty is not None and ty.k == 'float':
                return ('fconst', v)
            if v.startswith('0x'):
                return ('fconst', v)
            return ('const', int(v))
        if k == 'word':
            if v == 'true':
                return ('const', 1)
            if v == 'false':
                return ('const', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'getelementptr':
                s.accept('inbounds')
                s.expect('(')
                bt = s.ty()
                s.expect(',')
                ops = []
                while True:
                    t = s.ty()
                    ops.append((t, s.value(t)))
                    if not s.accept(','):
                        break
                s.expect(')')
                return ('gep', bt, ops)
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
                s.expect('(')
                t = s.ty()
                o = s.value(t)
                s.expect('to')
                t2 = s.ty()
                s.expect(')')
                return ('cast', v, t, o, t2)
            raise Unsupported('constant %s' % v)
        if k == 'str':
            body = v[2:-1] if v.startswith('c') else v[1:-1]
            bs = bytearray()
            i = 0
            while i < len(body):
                if body[i] == '\\' and body[i + 1] == '\\':
                    bs.append(92)
                    i += 2
                elif body[i] == '\\':
                    bs.append(int(body[i + 1:i + 3], 16))
                    i += 3
                else:
                    bs.append(ord(body[i]))
                    i += 1
            return ('str', bytes(bs))
        if v in ('[', '{', '<{'):
            close = {'[': ']', '{': '}', '<{': '}>'}[v]
            out = []
            while not s.accept(close):
                t = s.ty()
                out.append((t, s.value(t)))
                s.accept(',')
            return ('agg', out)
        raise Unsupported('value %r %r' % (k, v))


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'}


def parse_instr(line, mod):
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m:
        dbg = int(m.group(1))
    line = re.sub(r'(,\s*!\w[\w.]*\s*!(\d+|\{[^}]*\}))+\s*(#\d+)?\s*$', '', line)
    c = Cur(tokenize(line), mod)
    dst = None
    if c.peek()[0] == 'local' and c.peek(1)[1] == '=':
        dst = unq(c.next()[1])
        c.next()
    k, op = c.next()
    while op in ('tail', 'notail', 'musttail'):
        k, op = c.next()
    if op in BIN:
        fl = []
        while c.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'):
            fl.append(c.next()[1])
        t = c.ty()
        a = c.value(t)
        c.expect(',')
        b = c.value(t)
        return Instr(op, dst, t, [a, b], fl, dbg)
    if op == 'icmp':
        p = c.next()[1]
        t = c.ty()
        a = c.value(t)
        c.expect(',')
        b = c.value(t)
        return Instr('icmp', dst, t, [a, b], p, dbg)
    if op in CAST:
        fl = []
        while c.peek()[1] in ('nneg', 'nuw', 'nsw'):
            fl.append(c.next()[1])
        t = c.ty()
        a = c.value(t)
        c.expect('to')
        t2 = c.ty()
        return Instr(op, dst, t2, [a], (t, fl), dbg)
    if op == 'alloca':
        t = c.ty()
        n = None
        while c.accept(','):
            if c.accept('align'):
                c.next()
            else:
                nt = c.ty()
                n = (nt, c.value(nt))
        return Instr('alloca', dst, t, [n] if n else [], None, dbg)
    if op == 'load':
        vol = c.accept('volatile')
        if c.accept('atomic'):
            raise Unsupported('atomic load')
        t = c.ty()
        c.expect(',')
        pt = c.ty()
        p = c.value(pt)
        al = None
        if c.accept(','):
            if c.accept('align'):
                al = int(c.next()[1])
        return Instr('load', dst, t, [p], {'volatile': vol, 'align': al}, dbg)
    if op == 'store':
        vol = c.accept('volatile')
        if c.accept('atomic'):
            raise Unsupported('atomic store')
        t = c.ty()
        v = c.value(t)
        c.expect(',')
        pt = c.ty()
        p = c.value(pt)
        al = None
        if c.accept(','):
            if c.accept('align'):
                al = int(c.next()[1])
        return Instr('store', None, t, [v, p], {'volatile': vol, 'align': al}, dbg)
    if op == 'getelementptr':
        inb = c.accept('inbounds')
        c.accept('nuw')
        bt = c.ty()
        c.expect(',')
        ops = []
        while True:
            t = c.ty()
            ops.append((t, c.value(t)))
            if not c.accept(','):
                break
        return Instr('gep', dst, bt, ops, inb, dbg)
    if op == 'br':
        if c.accept('label'):
            return Instr('br', None, None, [unq(c.next()[1])], None, dbg)
        t = c.ty()
        v = c.value(t)
        c.expect(',')
        c.expect('label')
        l1 = unq(c.next()[1])
        c.expect(',')
        c.expect('label')
        l2 = unq(c.next()[1])
        return Instr('cbr', None, t, [v, l1, l2], None, dbg)
    if op == 'switch':
        t = c.ty()
        v = c.value(t)
        c.expect(',')
        c.expect('label')
        d = unq(c.next()[1])
        c.expect('[')
        cases = []
        while not c.accept(']'):
            ct = c.ty()
            cv = c.value(ct)
            c.expect(',')
            c.expect('label')
            cases.append((cv[1], unq(c.next()[1])))
        return Instr('switch', None, t, [v, d, cases], None, dbg)
    if op == 'ret':
        t = c.ty()
        return Instr('ret', None, t, [c.value(t)] if t.k != 'void' else [], None, dbg)
    if op == 'phi':
        t = c.ty()
        inc = []
        while True:
            c.expect('[')
            v = c.value(t)
            c.expect(',')
            inc.append((v, unq(c.next()[1])))
            c.expect(']')
            if not c.accept(','):
                break
        return Instr('phi', dst, t, inc, None, dbg)
    if op == 'select':
        t1 = c.ty()
        a = c.value(t1)
        c.expect(',')
        t2 = c.ty()
        b = c.value(t2)
        c.expect(',')
        t3 = c.ty()
        d = c.value(t3)
        return Instr('select', dst, t2, [a, b, d], None, dbg)
    if op == 'call':
        ra = c.attrs()
        rt = c.ty()
        kk, callee = c.next()
        if kk == 'word' and callee == 'asm':
            raise Unsupported('inline asm')
        cal = ('glob', unq(callee)) if kk == 'glob' else ('reg', unq(callee))
        c.expect('(')
        args = []
        while not c.accept(')'):
            t = c.ty()
            at = c.attrs()
            if t.k == 'metadata':
                d = 0
                while True:
                    v = c.peek()[1]
                    if v in (',', ')') and d == 0:
                        break
                    if v == '(':
                        d += 1
                    if v == ')':
                        d -= 1
                    c.next()
                args.append((t, ('md',), at))
            else:
                args.append((t, c.value(t), at))
            c.accept(',')
        return Instr('call', dst, rt, [cal] + args, ra, dbg)
    if op == 'unreachable':
        return Instr('unreachable', None, None, [], None, dbg)
    if op == 'freeze':
        t = c.ty()
        return Instr('freeze', dst, t, [c.value(t)], None, dbg)
    return Instr('unsupported', dst, None, [op, line], None, dbg)


def parse_module(text, src):
    mod = Module()
    mod.src = src
    lines = text.split('\n')
    i = 0
    cur = None
    blk = None
    while i < len(lines):
        ln = lines[i]
        i += 1
        s = ln.strip()
        if cur is None:
            if not s or s.startswith(';') or s.startswith('source_filename') or s.startswith('attributes') or s.startswith('$'):
                continue
            if s.startswith('target datalayout'):
                m = re.search(r'"(.*)"', s)
                dl = m.group(1)
                pm = re.search(r'(?:^|-)p:(\d+):', dl)
                mod.layout = Layout(int(pm.group(1)) // 8 if pm else 8)
                mod.big = dl.startswith('E')
                continue
            if s.startswith('target triple'):
                mod.triple = re.search(r'"(.*)"', s).group(1)
                continue
            if s.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', s)
                if m:
                    mod.md[int(m.group(1))] = m.group(2)
                continue
            if s.startswith('%') and '= type' in s:
                nm, rest = s.split('= type', 1)
                nm = unq(nm.strip())
                if rest.strip() == 'opaque':
                    continue
                t = Cur(tokenize(rest), mod).ty()
                o = mod.types.get(nm)
                if o is None:
                    mod.types[nm] = t
                else:
                    o.k, o.fields, o.packed = t.k, t.fields, t.packed
                continue
            if s.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)$', s)
                g = Glob()
                g.name = unq(m.group(1))
                rest = m.group(2)
                g.line = None
                m2 = re.search(r'!dbg !(\d+)', rest)
                if m2:
                    g.line = int(m2.group(1))
                rest = re.sub(r'(,\s*!\w[\w.]*\s*!\d+)+\s*$', '', rest)
                c = Cur(tokenize(rest), mod)
                g.const = False
                g.linkage = []
                while True:
                    k, v = c.peek()
                    if k == 'word' and v in ATTRW:
                        c.next()
                        g.linkage.append(v)
                        if v == 'constant':
                            g.const = True
                        if v in ('constant', 'global'):
                            break
                    else:
                        raise Unsupported('global %s' % s[:80])
                g.ty = c.ty()
                g.init = None
                if c.peek()[0] is not None and c.peek()[1] != ',':
                    g.init = c.value(g.ty)
                g.align = None
                g.mod = mod
                mod.globs[g.name] = g
                continue
            if s.startswith('declare'):
                m = re.search(r'@((?:"[^"]*"|[-\w.$]+))\(', s)
                mod.decls[m.group(1).strip('"')] = s
                continue
            if s.startswith('define'):
                f = Fn()
                f.mod = mod
                m = re.search(r'!dbg !(\d+)', s)
                f.dbg = int(m.group(1)) if m else None
                head = s[len('define'):]
                head = head[:head.rindex('{')]
                head = re.sub(r'\s*(#\d+)?\s*(!\w+ !\d+\s*)*$', '', head)
                c = Cur(tokenize(head), mod)
                at = c.attrs()
                f.internal = 'internal' in at or 'private' in at
                f.ret = c.ty()
                f.ret_attrs = at
                f.name = unq(c.next()[1])
                c.expect('(')
                f.vararg = False
                while not c.accept(')'):
                    if c.peek()[0] == 'dots':
                        c.next()
                        f.vararg = True
                        continue
                    t = c.ty()
                    a = c.attrs()
                    nm = unq(c.next()[1])
                    f.params.append((t, nm, a))
                    c.accept(',')
                cur = f
                n_un = len([1 for p in f.params if p[1].isdigit()])
                # implicit entry label is the next unnamed number
                j = i
                first = lines[j].strip()
                m = re.match(r'((?:"[^"]*"|[-\w.$]+)):', first)
                if m:
                    blk = None
                else:
                    nm = str(n_un)
                    blk = Block(nm)
                    f.blocks[nm] = blk
                    f.order.append(nm)
                continue
            continue
        # inside function
        if s == '}':
            finish(cur)
            mod.fns[cur.name] = cur
            cur = None
            blk = None
            continue
        if not s or s.startswith(';'):
            continue
        m = re.match(r'((?:"[^"]*"|[-\w.$]+)):(\s*;.*)?$', s)
        if m:
            nm = m.group(1).strip('"')
            blk = Block(nm)
            cur.blocks[nm] = blk
            cur.order.append(nm)
            continue
        if '@llvm.dbg.' in s or s.startswith('#dbg'):
            continue
        if s.startswith('switch') and not s.endswith(']'):
            while ']' not in lines[i]:
                s += ' ' + lines[i].strip()
                i += 1
            s += ' ' + lines[i].strip()
            i += 1
        ins = parse_instr(s, mod)
        ins.fn = cur
        if ins.op == 'phi':
            blk.phis.append(ins)
        else:
            blk.ins.append(ins)
    return mod


def finish(f):
    for b in f.blocks.values():
        t = b.ins[-1]
        if t.op == 'br':
            b.succ = [t.a[0]]
        elif t.op == 'cbr':
            b.succ = [t.a[1], t.a[2]]
        elif t.op == 'switch':
            b.succ = [t.a[1]] + [x[1] for x in t.a[2]]
        else:
            b.succ = []
    # drop unreachable
    seen = set()
    st = [f.order[0]]
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        st += f.blocks[n].succ
    f.order = [n for n in f.order if n in seen]
    f.blocks = {n: f.blocks[n] for n in f.order}
    for b in f.blocks.values():
        for s in dict.fromkeys(b.succ):
            f.blocks[s].pred.append(b.name)
    f.entry = f.order[0]
    analyse_cfg(f)


def analyse_cfg(f):
    """dominators, post-dominators, natural loops"""
    order = []
    seen = set()

    def dfs(n):
        stack = [(n, iter(f.blocks[n].succ))]
        seen.add(n)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(f.blocks[y].succ)))
                    break
            else:
                order.append(x)
                stack.pop()
    dfs(f.entry)
    rpo = order[::-1]
    f.rpo = {n: i for i, n in enumerate(rpo)}
    f.rpo_list = rpo
    f.idom = domtree(rpo, lambda n: f.blocks[n].pred)
    # postdominators with virtual exit
    ex = '$exit'
    preds = {n: list(f.blocks[n].succ) for n in rpo}
    rsucc = {n: list(f.blocks[n].pred) for n in rpo}
    rsucc[ex] = [n for n in rpo if not f.blocks[n].succ]
    for n in rsucc[ex]:
        preds[n] = preds[n] + [ex]
    o2 = []
    seen2 = {ex}
    stack = [(ex, iter(rsucc[ex]))]
    while stack:
        x, it = stack[-1]
        for y in it:
            if y not in seen2:
                seen2.add(y)
                stack.append((y, iter(rsucc[y])))
                break
        else:
            o2.append(x)
            stack.pop()
    f.ipdom = domtree(o2[::-1], lambda n: [p for p in preds.get(n, []) if p in seen2])
    # loops
    f.loops = {}
    for b in rpo:
        for s in f.blocks[b].succ:
            if dominates(f, s, b):
                body = f.loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st += f.blocks[x].pred
    f.irreducible = False
    for b in rpo:
        for s in f.blocks[b].succ:
            if f.rpo[s] <= f.rpo[b] and not dominates(f, s, b):
                f.irreducible = True


def domtree(rpo, preds):
    idx = {n: i for i, n in enumerate(rpo)}
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            ps = [p for p in preds(n) if p in idom]
            if not ps:
                continue
            x = ps[0]
            for p in ps[1:]:
                a, b = p, x
                while a != b:
                    while idx[a] > idx[b]:
                        a = idom[a]
                    while idx[b] > idx[a]:
                        b = idom[b]
                x = a
            if idom.get(n) != x:
                idom[n] = x
                ch = True
    return idom


def dominates(f, a, b):
    while True:
        if a == b:
            return True
        if f.idom.get(b, b) == b:
            return False
        b = f.idom[b]


# ---------------------------------------------------------------- debug info
class Dbg:
    def __init__(s, mod):
        s.m = mod

    def raw(s, n):
        return s.m.md.get(n, '')

    def fld(s, n, name):
        r = s.raw(n)
        m = re.search(r'[( ]%s: ("(?:[^"]*)"|!?[-\w.]+)' % re.escape(name), r)
        if not m:
            return None
        v = m.group(1)
        if v.startswith('"'):
            return v[1:-1]
        if v.startswith('!'):
            try:
                return ('md', int(v[1:]))
            except ValueError:
                return None
        return v

    def loc(s, n):
        """(file, line) of a DILocation"""
        if n is None:
            return None, None
        ln = s.fld(n, 'line')
        sc = s.fld(n, 'scope')
        f = None
        while sc:
            x = s.fld(sc[1], 'file')
            if x:
                f = s.fld(x[1], 'filename')
                break
            sc = s.fld(sc[1], 'scope')
        return f, int(ln) if ln else None

    def elems(s, ref):
        r = s.raw(ref[1])
        return [None if x.strip() == 'null' else ('md', int(x.strip()[1:])) for x in
                re.search(r'!\{(.*)\}', r).group(1).split(',')] if '!{' in r and re.search(r'!\{(.+)\}', r) else []

    def strip(s, t):
        """resolve typedef / const"""
        q = set()
        while t is not None:
            r = s.raw(t[1])
            if 'DW_TAG_typedef' in r:
                t = s.fld(t[1], 'baseType')
            elif 'DW_TAG_const_type' in r:
                q.add('const')
                t = s.fld(t[1], 'baseType')
            elif 'DW_TAG_volatile_type' in r:
                q.add('volatile')
                t = s.fld(t[1], 'baseType')
            elif 'DW_TAG_restrict_type' in r:
                t = s.fld(t[1], 'baseType')
            else:
                break
        return t, q

    def fn_types(s, fn):
        """list of type refs: [ret, p0, p1...]"""
        if fn.dbg is None:
            return None
        st = s.fld(fn.dbg, 'type')
        ts = s.fld(st[1], 'types')
        return s.elems(ts)

    def fn_loc(s, fn):
        if fn.dbg is None:
            return None, None
        x = s.fld(fn.dbg, 'file')
        ln = s.fld(fn.dbg, 'line')
        return (s.fld(x[1], 'filename') if x else None), int(ln) if ln else None

    def is_ptr(s, t):
        t, _ = s.strip(t)
        return t is not None and 'DW_TAG_pointer_type' in s.raw(t[1])

    def pointee(s, t):
        t, _ = s.strip(t)
        return s.fld(t[1], 'baseType')

    def basic(s, t):
        """('unsigned',bits)/('signed',bits)/('bool',8)/('ptr',64)/('struct',ref)/('fn',)/(None,)"""
        t, q = s.strip(t)
        if t is None:
            return ('void',)
        r = s.raw(t[1])
        if 'DIBasicType' in r:
            e = s.fld(t[1], 'encoding')
            sz = int(s.fld(t[1], 'size'))
            if e == 'DW_ATE_boolean':
                return ('bool', sz)
            if e in ('DW_ATE_unsigned', 'DW_ATE_unsigned_char'):
                return ('unsigned', sz)
            return ('signed', sz)
        if 'DW_TAG_pointer_type' in r:
            return ('ptr', int(s.fld(t[1], 'size')))
        if 'DW_TAG_structure_type' in r:
            return ('struct', t)
        if 'DW_TAG_array_type' in r:
            return ('array', t)
        if 'DW_TAG_enumeration_type' in r:
            return ('unsigned', int(s.fld(t[1], 'size')))
        if 'DISubroutineType' in r:
            return ('fn',)
        return ('?', r)

    def members(s, t):
        t, _ = s.strip(t)
        el = s.fld(t[1], 'elements')
        out = []
        for e in s.elems(el):
            nm = s.fld(e[1], 'name')
            off = int(s.fld(e[1], 'offset') or 0) // 8
            sz = int(s.fld(e[1], 'size')) // 8
            out.append((nm, off, sz, s.fld(e[1], 'baseType')))
        return out


# ---------------------------------------------------------------- program
class Program:
    def __init__(s):
        s.mods = []
        s.fns = {}       # public name -> Fn ; internal via (mod)
        s.big = False
        s.layout = None

    def lookup(s, mod, name):
        if name in mod.fns:
            return mod.fns[name]
        f = s.fns.get(name)
        if f is not None and not f.internal:
            return f
        return None

    def loc(s, ins):
        r = _locs.get(ins)
        if r is None:
            r = _locs[ins] = s.loc1(ins)
        return r

    def loc1(s, ins):
        m = ins.fn.mod
        f, l = m.dbgi.loc(ins.line)
        if f is None:
            f = m.src
        f = os.path.relpath(f, REPO) if f.startswith('/') and f.startswith(REPO) else f
        return '%s:%s' % (f, l if l is not None else '?')


_locs = {}


def sources():
    return sorted(glob.glob(REPO + '/Src/**/*.c', recursive=True))


def incdirs():
    out = []
    for d, _, fs in sorted(os.walk(REPO + '/Inc')):
        out.append('-I' + d)
    for d in sorted({os.path.dirname(x) for x in sources()}):
        out.append('-I' + d)
    return out


def compile_ir(src, inc, target, extra, tmp):
    base = os.path.join(tmp, hashlib.sha1(src.encode()).hexdigest()[:12])
    cmd = ['clang-18', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g', '-w', '-S', '-emit-llvm', '-std=gnu99',
           '-D_POSIX_C_SOURCE=200809'] + target + inc + extra + [src, '-o', base + '.ll']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Unsupported('front end failed on %s: %s' % (src, r.stderr[-2000:]))
    r = subprocess.run(['opt-18', '-passes=mem2reg', '-S', base + '.ll', '-o', base + '.m.ll'], capture_output=True, text=True)
    if r.returncode:
        raise Unsupported('opt failed on %s: %s' % (src, r.stderr[-2000:]))
    # the front end drops the signedness of a left shift: a second translation with traps tells where it is
    r = subprocess.run(cmd[:-1] + [base + '.s.ll', '-fsanitize=shift-base', '-fsanitize-trap=shift-base'], capture_output=True, text=True)
    sites = {}
    if r.returncode == 0:
        with open(base + '.s.ll') as fh:
            sites = shift_sites(fh.read())
    with open(base + '.m.ll') as fh:
        return fh.read(), sites


def shift_sites(text):
    """(line, column) -> number of signed left shifts there"""
    locs = dict(re.findall(r'(?m)^!(\d+) = !DILocation\(line: (\d+, column: \d+)', text))
    out = {}
    for n in re.findall(r'call void @llvm\.ubsantrap\(.*!dbg !(\d+)', text):
        k = locs.get(n)
        out[k] = out.get(k, 0) + 1
    return out


def mark_shifts(m, sites):
    """signed left shifts of the module get the attribute 'nsw' (the language's rule for them)"""
    at = {}
    for f in m.fns.values():
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == 'shl' and i.line is not None:
                    g = re.search(r'line: (\d+, column: \d+)', m.dbgi.raw(i.line))
                    if g and g.group(1) in sites:
                        at.setdefault(g.group(1), []).append(i)
    for k, l in at.items():
        if len(l) == sites[k]:
            for i in l:
                if 'nsw' not in i.attrs:
                    i.attrs.append('nsw')


def load(files=None, target=()):
    tmp = tempfile.mkdtemp(prefix='imu-ir-')
    try:
        srcs = sources()
        if files is not None:
            srcs = [s for s in srcs if any(s.endswith(x) for x in files)]
        inc = incdirs()
        p = Program()
        with ThreadPoolExecutor(8) as ex:
            texts = list(ex.map(lambda s: compile_ir(s, inc, list(target), [], tmp), srcs))
        for s_, (t, sites) in zip(srcs, texts):
            m = parse_module(t, s_)
            m.dbgi = Dbg(m)
            mark_shifts(m, sites)
            p.mods.append(m)
            p.layout = m.layout
            p.big = m.big
            for f in m.fns.values():
                f.file = s_
                if f.internal:
                    continue
                p.fns[f.name] = f
        p.srcs = srcs
        return p
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    import sys
    p = load()
    print(len(p.mods), 'modules', sum(len(m.fns) for m in p.mods), 'functions')
    from collections import Counter
    c = Counter()
    for m in p.mods:
        for f in m.fns.values():
            for b in f.blocks.values():
                for i in b.ins:
                    c[i.op] += 1
    print(c)
    f = p.fns['Queue_init']
    print(f.mod.dbgi.fn_types(f), f.params)
    t = f.mod.dbgi.fn_types(f)[1]
    print(f.mod.dbgi.members(f.mod.dbgi.pointee(t)))
    print(p.loc(f.blocks[f.entry].ins[0]))


# ---------------------------------------------------------------- object layouts
STRUCTS = {'Queue_t': ('queue.h', ('front', 'rear', 'size', 'capacity', 'element_size', 'buffer')),
           'PriorityQueue_t': ('priority_queue.h', ('size', 'capacity', 'element_size', 'priority_array', 'buffer')),
           'PriorityQueueItem_t': ('priority_queue.h', ('priority', 'element')),
           'Map_t': ('map.h', ('keys', 'values', 'key_size', 'value_size', 'max_map_size', 'current_size')),
           'SchedulerTask_t': ('scheduler.h', ('function', 'active'))}
_lay = {}


def layout(t):
    """{field: (offset, size)} and the size of a public structure, from the current headers (None: no longer has these fields)"""
    if t not in _lay:
        h, fs = STRUCTS[t]
        tmp = tempfile.mkdtemp(prefix='imu-ly-')
        try:
            with open(os.path.join(tmp, 'l.c'), 'w') as fh:
                fh.write('#include <stddef.h>\n#include "%s"\nconst unsigned long imu_size = sizeof(%s);\n' % (h, t))
                for f in fs:
                    fh.write('const unsigned long imu_o_%s = offsetof(%s, %s);\nconst unsigned long imu_s_%s = sizeof(((%s*)0)->%s);\n' % (f, t, f, f, t, f))
            try:
                x = compile_ir(os.path.join(tmp, 'l.c'), incdirs(), [], [], tmp)[0]
                g = dict((m.group(1), int(m.group(2))) for m in re.finditer(r'@imu_(\w+) = .*constant i64 (\d+)', x))
                _lay[t] = ({f: (g['o_' + f], g['s_' + f]) for f in fs}, g['size'])
            except (Unsupported, KeyError):
                _lay[t] = None
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return _lay[t]
