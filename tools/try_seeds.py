"""Runs the checks against planted changes in scratch copies: try_seeds.py [seed=ID[,ID]...]; prints caught or missed."""
import os, sys, subprocess, json, shutil, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = '/tmp/fpv-seeds'
def tree(id):
    d = os.path.join(W, id); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for m in sorted(os.listdir('/repo')):
        if os.path.isdir('/repo/%s/src/main' % m): shutil.copytree('/repo/%s/src/main' % m, '%s/%s/src/main' % (d, m))
    subprocess.run(['patch', '-s', '-p1', '-i', os.path.join(ROOT, 'seeded', id, 'patch.diff')], cwd=d, check=True)
    return d
for a in sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    id, _, ps = a.partition('='); meta = json.load(open(os.path.join(ROOT, 'seeded', id, 'meta.json')))
    d = tree(id)
    for p in (ps.split(',') if ps else [meta['property']]):
        t = time.time()
        r = subprocess.run(['python3-vt', os.path.join(ROOT, 'fpv/check.py'), p], env=dict(os.environ, FPV_REPO=d), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print('%-22s %s rc=%d %5.1fs %s' % (id, p, r.returncode, time.time() - t, v[0] if v else r.stdout[-200:]), flush=True)
    shutil.rmtree(d)
