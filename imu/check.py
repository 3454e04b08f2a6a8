#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current sources."""
import json
import os
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import ir
from ir import Unsupported
import rules
from rules import Verdict, Broken

VERIF = ir.VERIF


def registry():
    import props
    return props.REG


def main(argv):
    pid = argv[1]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    reg = registry()
    if pid not in reg:
        print('unknown property %s' % pid)
        return 2
    spec = reg[pid]
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, '%s.violation.txt' % pid)
    try:
        os.remove(replay)
    except OSError:
        pass
    try:
        v = spec['run'](tier)
    except (Broken, Unsupported) as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        if os.environ.get('IMU_TRACE'):
            traceback.print_exc()
        return 2
    known = load_known(pid)
    new = []
    for (loc, fn, text) in v.bad:
        sig = '%s: %s' % (fn, text)
        hit = [k for k in known if k in sig]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, sig))
        else:
            new.append((loc, fn, text))
    cov = {'explanation': spec['rule'], 'rule_instances': v.obl, 'analysed': v.n, 'samples': v.samples[:12],
           'undecided': v.undecided[:40], 'notes': v.notes[:20], 'violations': ['%s (%s) %s' % b for b in new[:40]]}
    if spec['level'] == 'proof':
        cov['obligations'] = v.obl
        cov['discharged'] = v.obl - len(v.undecided) - len(new)
        cov['checker_cmd'] = 'python3 imu/check.py %s' % pid
        cov['trusted_base'] = spec.get('trusted') or ['clang 18 front end and mem2reg', 'imu/ir.py IR parser', 'imu abstract interpreter']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec['level'], 'coverage': cov, 'wall_s': round(time.time() - t0, 3)}
    with open(os.path.join(evdir, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write('\n')
    print('%s: %s' % (pid, ', '.join('%s=%s' % kv for kv in v.n.items())))
    print('%s: %d rule instances, %d undecided, %d violations, %.1f s' % (pid, v.obl, len(v.undecided), len(new), time.time() - t0))
    for u in v.undecided[:10]:
        print('  undecided: %s' % (u,))
    if new:
        with open(replay, 'w') as fh:
            fh.write('property %s\nrule: %s\n\n' % (pid, spec['rule']))
            for loc, fn, text in new:
                fh.write('%s: in %s: %s\n' % (loc, fn, text))
        for loc, fn, text in new[:20]:
            print('  %s: in %s: %s' % (loc, fn, text.split('\n')[0]))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0


def load_known(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                out.append(l.split(' ', 2)[2])
    except OSError:
        pass
    return out


if __name__ == '__main__':
    try:
        rc = main(sys.argv)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
