"""Plant and validate a bug in a scratch copy: seed(id, property, [(file, old, new)], demo_python, needs, breaks)."""
import subprocess, os, json, shutil, sys
R = '/tmp/seedrepo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
STAB = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def tests():
    # runs the stable tests on the scratch copy, which takes the place of /repo for the moment
    sh('bash /opt/vp/build.sh'); sh('bash /opt/vp/test.sh /tmp/seed_o.json')
    return sorted(STAB - set(json.load(open('/tmp/seed_o.json'))['passed']))
def seed(id, prop, edits, demo, needs, breaks, check=True, force=False):
    d = '/verif/seeded/' + id
    if os.path.exists(d) and not force: print(id, 'exists'); return
    sh('git -C /repo checkout -- .')
    for f, old, new in edits:
        p = '/repo/pypower/' + f; s = open(p).read()
        if s.count(old) != 1: print(id, 'old text occurs', s.count(old), 'times in', f); sh('git -C /repo checkout -- .'); return
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git -C /repo diff').stdout
    try:
        m = tests()
        if m: print(id, 'TESTS FAIL', len(m), m[:3]); return
        tmp = '/tmp/seed_demo'; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + '/demo.py', 'w').write(demo.strip() + '\n')
        open(tmp + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(tmp + '/demo.sh', 0o755)
        bad = sh('bash %s/demo.sh' % tmp, cwd='/repo')
        chk = sh('cd /verif; ./check %s' % prop) if check else None
    finally:
        sh('git -C /repo checkout -- .')
    good = sh('bash %s/demo.sh' % tmp, cwd='/repo')
    if good.returncode or not bad.returncode: print(id, 'DEMO good', good.returncode, good.stderr[-300:], 'bad', bad.returncode); return
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f in ('demo.py', 'demo.sh'): shutil.copy(tmp + '/' + f, d)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print(id, 'OK', 'CAUGHT' if chk and chk.returncode == 1 else 'MISSED', [l[:150] for l in chk.stdout.splitlines() if 'VIOL' in l][:2] if chk else '')
