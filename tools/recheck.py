"""Run the checks of the planted bugs on scratch copies: recheck.py [ids]"""
import subprocess, os, json, shutil, sys, glob
ids = sys.argv[1:] or sorted(os.path.basename(d) for d in glob.glob('/verif/seeded/*') if os.path.isdir(d))
W = '/tmp/recheck_wk'
for i in ids:
    shutil.rmtree(W, ignore_errors=True); shutil.copytree('/repo', W, symlinks=True)
    d = '/verif/seeded/' + i; p = json.load(open(d + '/meta.json'))['property']
    r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=W, capture_output=True, text=True)
    if r.returncode: print(i, 'DOES NOT APPLY', r.stderr[:200]); continue
    r = subprocess.run(['/verif/check', p], env=dict(os.environ, PV_REPO=W), capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(i, p, 'caught' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, '(no input)' if v and all('no-failing' in l for l in v) else '', flush=True)
shutil.rmtree(W, ignore_errors=True)
