"""mkseed.seed(id, prop, edits, demo, needs, breaks, sim=False): make and confirm one planted bug."""
import json, os, subprocess, shutil, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)

def sh(cmd, **kw):
    return subprocess.run(cmd, shell = True, capture_output = True, text = True, **kw)

def seed(id, prop, edits, demo, needs, breaks, sim = False, check = True):
    d = os.path.join(V, 'seeded', id)
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    assert sh('git -C /repo status --porcelain').stdout == '', '/repo not clean'
    base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[0]
    try:
        for f, a, b in edits:
            p = os.path.join('/repo', f)
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            s0 = sh('git -C /repo show %s:%s' % (base, f)).stdout
            if a not in s0:
                print('  note: changed text is not verbatim in the base commit: %r' % a)
            open(p, 'w').write(s.replace(a, b))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
        open(os.path.join(d, 'demo.py'), 'w').write(demo)
        if sim:
            for n in ('sim.py', 'boot.py', 'wire.py'): shutil.copy(os.path.join(V, 'lib', n), d)
            if os.path.exists(os.path.join(V, 'lib', 'b2b.py')) and 'b2b' in demo: shutil.copy(os.path.join(V, 'lib', 'b2b.py'), d)
            shutil.copy(os.path.join(HERE, 'demolib', 'core.py'), d)
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# cwd: /repo\nD="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 VERIF_REPO="$PWD" PYTHONPATH="$PWD:$D"\nexec timeout -k 5 250 /opt/venv/bin/python "$D/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent = 1)
        r1 = sh('bash %s/demo.sh' % d, cwd = '/repo')
        t = sh('bash /tmp/chk.sh').stdout.strip().split('\n')[-1]
        c = None
        if check:
            cr = sh('./run.py %s' % prop, cwd = V)
            c = (cr.returncode, [l[:200] for l in cr.stdout.split('\n') if 'VIOLATION' in l][:1])
    finally:
        sh('git -C /repo checkout -- .')
    r0 = sh('bash %s/demo.sh' % d, cwd = '/repo')
    ok = r1.returncode != 0 and r0.returncode == 0 and t.startswith('30 3')
    print('%s %s: demo patched=%d clean=%d tests=%s check=%s %s' % (id, prop, r1.returncode, r0.returncode, t, c, 'OK' if ok else 'BAD'))
    if not ok:
        print(' patched:', (r1.stdout + r1.stderr)[-600:]); print(' clean:', (r0.stdout + r0.stderr)[-900:])
    sh('git -C %s checkout -- evidence' % V)
