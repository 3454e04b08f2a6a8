import sys, time, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 << 20)
import ir
from harness import *
import harness, term
import specs

import analyse
from analyse import run


def report(s, verbose=0):
    bad = [o for o in s.eng.obl.values() if o.bad]
    un = [q for q in s.posts if q.ok is not True]
    print('%-40s %5.2fs obl %d bad %d posts %d unproved %d loops %s %s' % (s.name, s.dt, len(s.eng.obl), len(bad), len(s.posts), len(un), s.eng.loopstat['inductive'], 'ERR ' + s.err if s.err else ''))
    if verbose or True:
        for o in bad[:6]:
            print('     BAD %s %s %s %s WIT %s' % (o.kind, o.loc, o.fn, o.desc, o.wit))
            if verbose:
                print('          ', o.bad[0])
        for q in un[:4]:
            print('     POST %s %s %s WIT %s %s' % (q.prop, q.label, q.ok, q.wit, q.why[:1500 if verbose else 200]))


def main():
    import re
    pat = sys.argv[1] if len(sys.argv) > 1 else '.'
    v = '-v' in sys.argv
    inst = '-i' in sys.argv
    for e in specs.SCN:
        if re.search(pat, e.name):
            if inst or e.helper or e.only_inst:
                for c in e.inst:
                    s = run(e, c, v)
                    s.name += str(c)
                    report(s, v)
            else:
                report(run(e, None, v), v)


if __name__ == '__main__':
    th = threading.Thread(target=main)
    th.start()
    th.join()
