#!/usr/bin/env python3
"""seedeval.py [ids|property ids]: the check of each planted bug's property against a
scratch copy of /repo with the bug applied"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:]
allp = '--all' in ids
ids = [i for i in ids if i != '--all']
wt = tempfile.mkdtemp(prefix='seedeval')
shutil.copytree('/repo', wt + '/r', symlinks=True, ignore=shutil.ignore_patterns('docs'))
for s in sorted(os.listdir(ROOT + '/seeded')):
    d = ROOT + '/seeded/' + s
    prop = json.load(open(d + '/meta.json'))['property']
    if ids and s not in ids and prop not in ids and s.split('_')[0] not in ids:
        continue
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=wt + '/r')
    r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=wt + '/r', capture_output=True, text=True)
    if r.returncode:
        print(s, 'does not apply', r.stderr[:200])
        continue
    t0 = time.time()
    env = dict(os.environ, VERIF_REPO=wt + '/r')
    r = subprocess.run([sys.executable, 'run.py', 'check', prop], cwd=ROOT, env=env, capture_output=True, text=True)
    v = [x for x in r.stdout.splitlines() if x.strip().startswith('violated:')]
    print('%-28s %s rc=%d %s %5.1fs %s' % (s, prop, r.returncode, 'CAUGHT' if r.returncode == 1 else 'missed',
                                          time.time() - t0, (v[0].strip()[10:170] if v else r.stderr[-200:])), flush=True)
shutil.rmtree(wt)
