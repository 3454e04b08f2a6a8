#!/usr/bin/env python3
"""mkseeds.py [-j J] [-n] BATCH.py [ID ...]: like mkseed.py, in scratch copies of /repo and in parallel.  BATCH defines SEEDS, a list of
dicts id, prop, needs, breaks, edits=[(file, old, new[, n])], c (text of demo.c), flags (compiler options), files, demo, checks.
Writes /verif/seeded/<id>/ when the seed counts."""
import sys, os, subprocess, json, runpy, shutil, threading
from concurrent.futures import ThreadPoolExecutor
S = '/verif/seeded'
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
inc=$(find Inc -type d -printf '-I%p ')
gcc -w @FLAGS@ $inc "$d/demo.c" $(find Src -name '*.c') -o "$t/demo" || exit 1
timeout 100 "$t/demo"
'''
loc = threading.local()
N = [0]
lock = threading.Lock()


def sh(c, cwd, t=900, env=None):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=env, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, 'TIMEOUT'


def work():
    if not hasattr(loc, 'd'):
        with lock:
            N[0] += 1
            k = N[0]
        loc.d = '/tmp/mkseeds_%d_%d' % (os.getpid(), k)
        shutil.copytree('/repo', loc.d, symlinks=True, ignore=shutil.ignore_patterns('_build'))
        os.makedirs(loc.d + '/_build')
        open(loc.d + '/_build/b.sh', 'w').write(open('/opt/vp/build.sh').read().replace('/repo', loc.d))
        sh('git checkout -q -- . && bash _build/b.sh', loc.d)
    return loc.d


def one(m):
    r = work()
    out = S + '/' + m['id']
    d = r + '/_build/seed'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    files = dict(m.get('files', {}))
    if 'c' in m:
        files['demo.c'] = m['c']
    for n, t in files.items():
        open(d + '/' + n, 'w').write(t)
    open(d + '/demo.sh', 'w').write(m.get('demo') or DEMO.replace('@FLAGS@', m.get('flags', '-O1')))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': m['prop'], 'needs': m['needs'], 'what_it_breaks': m['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r0 = sh('bash _build/seed/demo.sh', r, 300)
    try:
        for e in m['edits']:
            f, a, b = e[:3]
            p = r + '/' + f
            s = open(p, newline='').read()
            if '\r\n' in s:
                a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
            want = e[3] if len(e) > 3 else 1
            if s.count(a) != want:
                return '%-34s BAD %s: %d matches of %r' % (m['id'], f, s.count(a), a)
            open(p, 'w', newline='').write(s.replace(a, b))
        open(d + '/patch.diff', 'wb').write(subprocess.run('git diff --binary', shell=True, cwd=r, stdout=subprocess.PIPE).stdout)
        b = sh('bash _build/b.sh', r)
        t = (1, '')
        if b[0] == 0:
            sh('python3 /opt/vp/run_unity.py _build/all_tests.out > _build/results.lines; python3 /opt/vp/results.py %s/_build/o.json lines:%s/_build/results.lines' % (r, r), r)
            t = json.load(open(r + '/_build/o.json'))['failed']
        r1 = sh('bash _build/seed/demo.sh', r, 300)
        cs, caught = [], False
        if '-n' not in sys.argv:
            for c in m.get('checks', [m['prop']]):
                x = sh('timeout 900 python3 /verif/imu/check.py %s' % c, r, env=dict(os.environ, IMU_REPO=r, VERIF_TIER='quick'))
                cs.append('%s=%d' % (c, x[0]))
                ls = x[1].splitlines()
                if x[0] != 1:
                    cs.append('MISSED ' + ' '.join(l.strip()[:300] for l in ls[:3]))
                else:
                    cs.append(next((l.strip()[:160] for l in ls if 'fails' in l or 'Src/' in l), ''))
    finally:
        sh('git checkout -q -- .', r)
    ok = r0[0] == 0 and r1[0] not in (0, 99) and b[0] == 0 and not t
    if ok:
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
    s = '%-34s %s demo0=%d demo1=%d build=%d failed=%s | %s' % (m['id'], 'OK ' if ok else 'BAD', r0[0], r1[0], b[0], t, ' '.join(cs))
    if not ok:
        s += '\n   ' + '\n   '.join((r0[1][-300:], r1[1][-300:], b[1][-300:]))
    return s


a = [x for x in sys.argv[1:] if x != '-n']
J = 6
if a[0] == '-j':
    J = int(a[1])
    a = a[2:]
seeds = runpy.run_path(a[0])['SEEDS']
if a[1:]:
    seeds = [m for m in seeds if m['id'] in a[1:]]
with ThreadPoolExecutor(J) as ex:
    for r in ex.map(one, seeds):
        print(r, flush=True)
for k in range(1, N[0] + 1):
    shutil.rmtree('/tmp/mkseeds_%d_%d' % (os.getpid(), k), ignore_errors=True)
