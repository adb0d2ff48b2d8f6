#!/usr/bin/env python3
"""tools/seeded.py [--only ID,...]: run each planted bug's check against a scratch copy of /repo
with the patch applied (development aid; no check uses it)."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(ROOT, 'seeded')


def one(i):
    m = json.load(open(os.path.join(S, i, 'meta.json')))
    w = '/tmp/seeded_%s' % i
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('.git'))
    p = subprocess.run(['git', 'apply', '--directory=' + w[1:], '--unsafe-paths', os.path.join(S, i, 'patch.diff')],
                       cwd='/', capture_output=True, text=True)
    t = time.time()
    o = '/tmp/seeded_%s_out' % i
    r = subprocess.run(['python3', os.path.join(ROOT, 'check.py'), m['property']] + sys.argv[3:],
                       env=dict(os.environ, VERIF_REPO=w, VERIF_SEED='1', VF_OUT=o), capture_output=True, text=True)
    shutil.rmtree(w)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return i, m['property'], r.returncode, time.time() - t, p.stderr, v, r.stderr[-300:] if not v else ''


ids = sorted(os.listdir(S))
if '--only' in sys.argv:
    ids = sys.argv[sys.argv.index('--only') + 1].split(',')
with ThreadPoolExecutor(4) as ex:
    for i, p, rc, dt, e, v, err in ex.map(one, ids):
        print(i, p, 'caught' if rc == 1 and v else 'MISSED', rc, '%.0fs' % dt, len(v), v[:1], e, err)
