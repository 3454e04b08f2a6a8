#!/usr/bin/env python3
"""mkseed.py SPEC.py ... : each SPEC defines id, prop, needs, breaks, edits=[(file,old,new)], demo (text of demo.sh), files={name:text}.
Applies to /repo, builds, runs tests, demo and check, writes /verif/seeded/<id>/, undoes."""
import subprocess, sys, os, json, runpy
R = '/repo'
S = '/verif/seeded'

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def main(path, checks=None):
    m = runpy.run_path(path)
    id_ = m['id']
    d = S + '/' + id_
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    for n, t in m.get('files', {}).items():
        open(d + '/' + n, 'w').write(t)
    open(d + '/demo.sh', 'w').write(m['demo'])
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': m['prop'], 'needs': m['needs'], 'what_it_breaks': m['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    sh('bash /opt/vp/build.sh')
    r0 = sh('bash %s/demo.sh' % d, cwd=R, timeout=300)
    try:
        for f, a, b in m['edits']:
            p = R + '/' + f
            s = open(p, newline='').read()
            crlf = '\r\n' in s
            if crlf:
                a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
            assert s.count(a) == 1, '%s: %d matches of %r' % (f, s.count(a), a)
            open(p, 'w', newline='').write(s.replace(a, b))
        open(d + '/patch.diff', 'w', newline='').write(subprocess.run('git -C /repo diff --binary', shell=True, capture_output=True).stdout.decode())
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/w/seed.json')
        r1 = sh('bash %s/demo.sh' % d, cwd=R, timeout=300)
        cs = []
        for c in m.get('checks', [m['prop']]):
            x = sh('timeout 900 python3 /verif/imu/check.py %s' % c, cwd='/verif')
            cs.append('%s=%d' % (c, x.returncode))
            if x.returncode != 1:
                cs.append(x.stdout[-600:])
            else:
                cs.append(x.stdout.strip().split('\n')[-2][:200])
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
    ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and ' 0 failed' in t.stdout
    print('%-28s %s demo0=%d demo1=%d build=%d tests=%s | %s' % (id_, 'OK ' if ok else 'BAD', r0.returncode, r1.returncode, b.returncode, t.stdout.strip().split('\n')[-1], ' '.join(cs)))
    if not ok:
        print(r0.stdout[-400:], r0.stderr[-400:], '---', r1.stdout[-300:], r1.stderr[-300:], b.stderr[-300:])

for p in sys.argv[1:]:
    main(p)
