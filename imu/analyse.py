"""Runs the scenarios of a property: inductive analysis for all sizes, then, only where a
proof is missing, the same analysis with the sizes fixed to separate defects from imprecision."""
import os
import sys
import time
import traceback
import threading
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(400000)
import ir
from ir import Unsupported
from rules import Verdict, Broken
from lin import Facts
from harness import *
import harness
import wit
import term
import specs

GENK = {'C29': MEMSAFE, 'C30': ARITH, 'C31': ('termination',)}
_P = {}
HERE = os.path.dirname(os.path.abspath(__file__))
NPROC = min(8, os.cpu_count() or 8)


def prog(target):
    if target not in _P:
        if target == 'big':
            _P[target] = ir.load(files=['/utils.c', '/bit_manipulation.c'], target=('--target=powerpc64-unknown-linux-gnu', '-ffreestanding', '-isystem', os.path.join(HERE, 'bigh')))
        else:
            _P[target] = ir.load()
    return _P[target]


def run(e, conc=None, debug=False, tlimit=None, budget=None, stop=None):
    term.clear_bits()
    s = Scn(prog(e.target), e.name, conc, budget=budget or e.budget, tlimit=tlimit or e.tlimit, debug=debug)
    s.err = None
    s.stop = stop
    t = time.time()
    term.deadline(t + 1.2 * s.eng.tlimit)
    try:
        if conc is None and e.only_inst:
            s.err = 'instances only'
        else:
            e.f(s)
    except Refuted as ex:
        s.err = 'stopped: %s' % ex
    except Missing as ex:
        s.err = 'Missing: %s' % ex
    except (Unsupported, Budget, TooBig, Split) as ex:
        s.err = '%s: %s' % (type(ex).__name__, ex)
        if debug:
            traceback.print_exc()
    except RecursionError as ex:
        s.err = 'RecursionError'
    except MemoryError as ex:
        s.err = 'MemoryError'
    except Exception as ex:
        s.err = 'INTERNAL %s: %s' % (type(ex).__name__, ex)
        if debug or os.environ.get('IMU_TRACE'):
            traceback.print_exc()
    s.dt = time.time() - t
    term.deadline(None)
    return s


def split_items(s, kinds=None):
    """(proved posts by prop, missing posts, missing obligations)"""
    miss = [q for q in s.posts if q.ok is not True]
    obl = [o for o in s.eng.obl.values() if o.bad]
    return miss, obl


def sizes_from(s):
    """size assignments suggested by states in which a proof is missing"""
    out = []
    g = list(s.guide)
    for o in s.eng.obl.values():
        g += o.guide if o.bad else []
    for st, negs in [(x[0], x[1]) for x in g[:10]]:
        for alt in negs[:2] or [[]]:
            x = st.clone()
            x.uc = {}
            try:
                for c, v in alt:
                    if isinstance(c, P):
                        x.add_ge(c if v else -c - 1)
                    else:
                        x.assume(c, v)
                m = x.F.model()
            except Exception:
                continue
            if m is None:
                continue
            d = {}
            for n, t in s.names.items():
                p = x.norm(pa(t))
                try:
                    v = p.c
                    for k, c in p.m.items():
                        if k in m:
                            z = m[k]
                        elif len(k) == 1:
                            l, h = x.F.bound(k)
                            z = l if l is not None else 0
                        else:
                            raise KeyError
                        v += c * z
                    d[n] = int(v) if v == int(v) else int(v) + 1
                except KeyError:
                    d = None
                    break
            if d and all(0 <= v <= 1500 for v in d.values()) and sum(d.values()) <= 3000 and d not in out:
                out.append(d)
    return out[:6]


GRACE = 90


def funs(p):
    return [f for m in p.mods for f in m.fns.values()]


def harvest(p, names, extra=()):
    """integer constants the code compares or masks with (and widths it truncates to)"""
    out = set()
    for f in funs(p):
        if f.name not in names:
            continue
        for b in f.blocks.values():
            for ins in b.ins:
                if ins.op in ('icmp', 'and', 'urem', 'udiv', 'or', 'switch', 'select', 'sub', 'add', 'xor', 'br'):
                    for c in consts_in(ins.a):
                        if c < 0:
                            c = -c
                        if 3 <= c <= 1200:
                            out.add(c)
                if ins.op in ('trunc', 'add', 'sub', 'phi') and ins.ty is not None and ins.ty.k == 'int' and ins.ty.w == 8:
                    out.add(256)
    return sorted(out)


def reach(p, names):
    """functions reached by direct calls"""
    seen, work = set(), list(names)
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        for f in funs(p):
            if f.name == n:
                for b in f.blocks.values():
                    for ins in b.ins:
                        if ins.op == 'call' and ins.a[0][0] == 'glob':
                            work.append(ins.a[0][1])
    return seen


def narrow16(p, names, any_=False):
    """a loop counter or a size (any_: anything) is held in 16 bits somewhere"""
    for f in funs(p):
        if f.name not in names:
            continue
        defs = {}
        for b in f.blocks.values():
            for ins in list(b.phis) + list(b.ins):
                if ins.dst is not None:
                    defs[ins.dst] = ins
        params = set(x[1] for x in f.params)
        heads = set(ph.dst for H in f.loops for ph in f.blocks[H].phis)

        def counts(v, d=0):
            """v is a counter: reached from itself by adding constants"""
            if v[0] != 'reg' or d > 6:
                return False
            if v[1] in heads:
                return True
            i = defs.get(v[1])
            return i is not None and i.op in ('add', 'sub', 'zext', 'sext', 'trunc') and (len(i.a) < 2 or i.a[1][0] == 'const') and counts(i.a[0], d + 1)
        for i in defs.values():
            if i.ty is None or i.ty.k != 'int' or i.ty.w != 16:
                if any_ and i.op == 'and' and any(c == 65535 for c in consts_in(i.a)):
                    return True
                continue
            if any_:
                return True
            if i.op == 'phi' and i.dst in heads and any(v[0] == 'reg' and v[1] != i.dst and counts(v) for v, _ in i.a):
                return True
            if i.op == 'trunc' and (i.a[0][0] == 'reg' and i.a[0][1] in params or counts(i.a[0])):
                return True
    return False


def consts_in(a):
    out = []
    for x in a if isinstance(a, (list, tuple)) else ():
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'const' and isinstance(x[1], int):
            out.append(x[1])
        elif isinstance(x, (tuple, list)):
            out += consts_in(x)
    return out


def wrapped(st, alt):
    """an assignment in which a truncated sum of sizes or counters loses bits"""
    todo = []
    for x, w in wit.truncations([c for c, _ in alt] + list(st.known)):
        p = x.x if x.op == 'W' else uview(x)
        if p.m and all(len(k) == 1 and (k[0].op == 'sym' or k[0].op == 'ext' and k[0].a[0].op == 'sym') for k in p.m):
            todo.append((p, w))
    for p, w in todo[:40]:
        try:
            y = st.clone()
            y.uc = {}
            y.add_ge(p - (1 << w))
            m = None if y.F.dead or not y.F.feasible() else y.F.model()
            if m is None:
                continue
        except Exception:
            continue
        base = {k[0]: int(v) for k, v in m.items() if len(k) == 1 and k[0].op == 'sym' and v == int(v) and k[0] not in st.eq}
        e = wit.find(st, list(alt), 20, base)
        if e is not None:
            return e
    return None


def unique(s, e, st, pr, lab):
    for pre, outs in s.calls:
        if wit.compatible(e, pre) and sum(1 for o in outs if wit.compatible(e, o)) != 1:
            return False
    vs = [q for q in s.posts if q.prop == pr and q.label == lab and q.st is not None and wit.compatible(e, q.st)]
    return len(set(id(q.st) for q in vs)) == 1


def input_witness(s, props):
    """a refuting input in the inductive analysis: an assignment that leaves exactly one abstract outcome of each call,
    in which the value computed is expressed in the inputs alone and differs from the specified one"""
    term.deadline(time.time() + 60)
    try:
        return witness1(s, props)
    finally:
        term.deadline(None)


def witness1(s, props):
    for st, negs, pr, lab in s.guide:
        if pr not in props:
            continue
        for alt in negs:
            if any(isinstance(t, T) and '#' in str(t.x) and not str(t.x).startswith('K') for c, _ in alt for t in (psyms(c) if isinstance(c, P) else syms(c)) if not isinstance(t, T) or t.op == 'sym'):
                continue
            if any(isinstance(t, str) and '@' in t for c, _ in alt for t in (psyms(c) if isinstance(c, P) else syms(c))):
                continue
            try:
                e = wit.find(st, list(alt), 300) or wrapped(st, alt)
                ok = e is not None and unique(s, e, st, pr, lab)
            except TooBig:
                continue
            if ok:
                return pr, lab, wit.describe(e, st) + '   path: ' + st.pstr()
    return None


def summarise(s, e):
    miss, obl = split_items(s)
    return dict(name=e.name, err=s.err, dt=s.dt,
                posts=[(q.prop, q.label, q.ok is True, q.wit, q.why) for q in s.posts],
                obl=[(o.kind, o.loc, o.fn, o.desc, o.n, not o.bad, o.wit, o.bad[0][0] if o.bad else '') for o in s.eng.obl.values()],
                loops=dict(s.eng.loopstat), fns=sorted(x[1] for x in s.eng.fns_seen), steps=s.eng.steps)


def drop(r):
    r['posts'] = [(pr, lab, ok, None, why) for pr, lab, ok, x, why in r['posts']]
    r['obl'] = [o[:6] + (None,) + o[7:] for o in r['obl']]


def refutations_all(r, props):
    return refutations(r, props) or any(refutations(z, props) for z in r['inst'])


def history(e, r, props, tier):
    """analyse short histories from the init function with the actual representation"""
    h = specs.by_name[e.hist]
    todo = [(c, True) for c in h.inst]
    if h.grow:
        p = prog(e.target)
        for k in harvest(p, reach(p, h.fns)):
            todo += [(c, False) for c in h.grow(k)]
    t0 = time.time()
    for c, must in todo:
        if not must and time.time() - t0 > (120 if tier == 'quick' else 400):
            continue
        q = run(h, c, tlimit=100, stop=props, budget=None if must else 8000000)
        z = summarise(q, h)
        z['conc'] = c
        r['inst'].append(z)
        if must and (q.err or any(p[0] == 'REP' and not p[2] for p in z['posts'])):
            r['norep'] = True
        if refutations(z, props):
            break


def bounded(e, props, tier):
    """scenarios with fixed sizes only: the claim is made within these bounds"""
    r = None
    p = prog(e.target)
    todo = [(c, True) for c in e.inst + (e.more if tier == 'thorough' else [])]
    t0 = time.time()
    if e.grow:
        for k in harvest(p, reach(p, e.fns)):
            todo += [(c, False) for c in e.grow(k)]
        if narrow16(p, reach(p, e.fns), True):
            todo += [(c, False) for c in e.grow(65536)]
    for c, must in todo:
        if not must and time.time() - t0 > (150 if tier == 'quick' else 600):
            continue
        q = run(e, c, tlimit=300 if tier == 'quick' else 800, budget=None if must else 8000000)
        z = summarise(q, e)
        z['conc'] = c
        z['inst'] = []
        z['open'] = open_items(z, props)
        if r is None:
            r = dict(z)
            r['posts'], r['obl'] = [], []
            r['steps'] = 0
            r['open'] = []
            r['dt'] = 0
        r['inst'].append(z)
        r['posts'] += [(pr, lab, ok, None, why) for pr, lab, ok, w, why in z['posts']]
        r['obl'] += [o[:6] + (None,) + o[7:] for o in z['obl']]
        r['steps'] += z['steps']
        r['dt'] += z['dt']
        r['open'] += z['open']
        if refutations(z, props):
            break
    return r


def job(a):
    idx, props, tier = a
    e = specs.SCN[idx]
    res = {}

    def go():
        if e.only_inst:
            res['r'] = bounded(e, props, tier)
            return
        # without sizes to vary, the complete unfolding is the analysis of all inputs
        s = run(e, {} if e.inst == [{}] else None)
        r = summarise(s, e)
        r['inst'] = []
        need = open_items(r, props)
        r['open'] = need
        if need and not (s.err or '').startswith('Missing'):
            w = input_witness(s, props)
            if w is not None:
                r['posts'] = [(pr, lab, ok, w[2] if (pr, lab) == w[:2] and not ok else x, why) for pr, lab, ok, x, why in r['posts']]
            if e.hist and tier != 'none':
                history(e, r, props, tier)
                if r.get('norep'):
                    # the objects are represented differently: states outside small histories mean nothing
                    drop(r)
                    w = None
            guided = [] if r.get('norep') or (e.hist and refutations_all(r, props)) else sizes_from(s)
            names = set(r['fns']) | reach(s.p, e.fns)
            cs = harvest(s.p, names)
            todo = [(c, True) for c in guided] + [(c, False) for c in e.inst if c]
            if e.grow:
                for k in cs:
                    todo += [(c, False) for c in e.grow(k)]
                if narrow16(s.p, names, bool(e.hist)):
                    todo += [(c, False) for c in e.grow(65536)]
            seen = []
            t0 = time.time()
            lim = 100 if tier == 'quick' else 400
            for c, g in todo:
                if w is not None or refutations_all(r, props) or r.get('norep'):
                    break
                if c in seen or time.time() - t0 > (lim if max(c.values(), default=0) < 20000 else 2 * lim):
                    continue
                seen.append(c)
                big = max(c.values(), default=0) > 20000
                q = run(e, c, tlimit=250 if big else 80, budget=8000000 if big or max(c.values(), default=0) > 200 else None)
                z = summarise(q, e)
                z['conc'] = c
                r['inst'].append(z)
                if refutations(z, props):
                    break
        res['r'] = r
    th = threading.Thread(target=go)
    th.start()
    th.join()
    return res.get('r') or dict(name=e.name, err='INTERNAL worker', dt=0, posts=[], obl=[], loops={}, fns=[], steps=0, inst=[], open=['worker failed'])


def open_items(r, props):
    """items of the given properties not proved"""
    out = []
    for (pr, lab, ok, w, why) in r['posts']:
        if not ok and pr in props:
            out.append('%s: %s%s' % (pr, lab, (' [' + why.replace('\n', ' ')[:200] + ']')))
    for p in props:
        ks = GENK.get(p) or (MEMSAFE + ARITH + ('termination',))
        if ks:
            for (k, loc, fn, desc, n, ok, w, path) in r['obl']:
                if not ok and k in ks:
                    out.append('%s: %s %s (%s): %s' % (p, loc, fn, k, desc))
    if r['err']:
        out.append('%s' % r['err'])
    return out


def refutations(r, props):
    out = []
    for (pr, lab, ok, w, why) in r['posts']:
        if not ok and pr in props and w is not None:
            out.append((pr, None, lab, why, w))
    for p in props:
        # undefined behaviour on a specified input also breaks the functional property
        ks = GENK.get(p) or (MEMSAFE + ARITH + ('termination',))
        if ks:
            for (k, loc, fn, desc, n, ok, w, path) in r['obl']:
                if not ok and k in ks and w is not None:
                    out.append((p, loc, '%s: %s' % (k, desc), fn, w))
    return out


def check(pid, tier):
    todo = [(i, (pid,), tier) for i, e in enumerate(specs.SCN) if pid in e.props and not e.helper and (tier == 'thorough' or not e.thorough)]
    if not todo:
        raise Broken('no scenario for %s' % pid)
    v = Verdict()
    for t in set(specs.SCN[i].target for i, _, _ in todo):
        try:
            prog(t)
        except Unsupported as ex:
            if t is None:
                raise
            # no C library for that target here: an include it lacks leaves those scenarios undecided
            v.undecided += ['%s: %s' % (specs.SCN[i].name, str(ex)[:300]) for i, _, _ in todo if specs.SCN[i].target == t]
            todo = [a for a in todo if specs.SCN[a[0]].target != t]
    threading.stack_size(512 << 20)
    order = sorted(todo, key=lambda a: -specs.SCN[a[0]].cost)
    if os.environ.get('IMU_SEQ'):
        rs = [job(a) for a in order]
    else:
        rs = []
        # a violation ends the run after a grace period; what is not finished in time stays undecided
        t0, end = time.time(), time.time() + (760 if tier == 'quick' else 6000)
        ctx = mp.get_context('fork')
        with ctx.Pool(min(NPROC, len(order)), maxtasksperchild=12) as pool:
            it = pool.imap_unordered(job, order, 1)
            while len(rs) < len(order):
                try:
                    r = it.next(max(0.1, end - time.time()))
                except mp.TimeoutError:
                    break
                rs.append(r)
                if refutations_all(r, (pid,)):
                    end = min(end, max(time.time() + 5, t0 + GRACE))
        got = set(r['name'] for r in rs)
        for i, _, _ in order:
            if specs.SCN[i].name not in got:
                rs.append(dict(name=specs.SCN[i].name, err='not finished', dt=0, posts=[], obl=[], loops={}, fns=[], steps=0, inst=[],
                               open=['the analysis was not finished in the time of a run']))
    rs.sort(key=lambda r: r['name'])
    v.n = dict(scenarios=len(rs), functions=len(set(f for r in rs for f in r['fns'])), loops_inductive=sum(r['loops'].get('inductive', 0) for r in rs),
               loops_unfolded=sum(r['loops'].get('unfolded', 0) for r in rs), interpreted_steps=sum(r['steps'] for r in rs), instance_runs=sum(len(r['inst']) for r in rs))
    gk = GENK.get(pid)
    for r in rs:
        np = [q for q in r['posts'] if q[0] == pid]
        ob = [o for o in r['obl'] if o[0] in (gk or MEMSAFE + ARITH + ('termination',))]
        v.obl += len(np) + len(ob)
        refs = [(r, x) for x in refutations(r, (pid,))]
        for z in r['inst']:
            refs += [(z, x) for x in refutations(z, (pid,))]
        fnames = specs.by_name[r['name']].fns
        for z, (pr, loc, lab, why, w) in refs[:6]:
            c = z.get('conc')
            v.add(loc or ('%s%s' % (r['name'], ' with ' + ' '.join('%s=%s' % kv for kv in sorted(c.items())) if c else '')), why if loc else '/'.join(fnames),
                  lab + (' fails for ' + w if w else '') + ('' if loc else '  ' + why.replace('\n', ' ')))
        if not refs and r['open']:
            inst = '' if not r['inst'] else '; no violation in %d fixed-size analyses%s' % (len(r['inst']), ''.join(' [%s: %s]' % (z['conc'], z['err']) for z in r['inst'] if z['err'])[:200])
            v.undecided.append('%s: %s%s' % (r['name'], ' | '.join(r['open'])[:400], inst))
        if r['err'] and 'INTERNAL' in r['err']:
            v.notes.append('%s: %s' % (r['name'], r['err']))
        v.samples.append('%s: %d postconditions, %d obligations, %s%s, %.1fs' % (r['name'], len(np), len(ob), '/'.join(fnames), ' proved' if not r['open'] else '', r['dt']))
    return v
