#!/usr/bin/env python3
"""runseeds.py [-j N] [ID...]: runs the check of its property against each planted bug, and prints which are caught.
Each runs in a mount namespace of its own, with a patched clone of /repo in the place of /repo and a copy of the working tree of
/verif in the place of /verif, so that neither is touched. -c PROP runs the check PROP instead."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
jobs, only = 2, None
while args and args[0].startswith('-'):
    o, x = args[0], args[1]
    args = args[2:]
    if o == '-j':
        jobs = int(x)
    if o == '-c':
        only = x
ids = args or sorted(os.listdir(os.path.join(V, 'seeded')))
top = tempfile.mkdtemp(prefix='runseeds-')
verif = os.path.join(top, 'verif')
subprocess.run(['rsync', '-a', '--exclude', '/build', '--exclude', '/.git', '--exclude', '/seeded', '--exclude', '/evidence', V + '/', verif + '/'], check=True) if shutil.which('rsync') else \
    shutil.copytree(V, verif, ignore=lambda d, ns: [n for n in ns if d == V and n in ('build', '.git', 'seeded', 'evidence')])
os.makedirs(os.path.join(verif, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(verif, 'build'), exist_ok=True)
missed = []


def run(i):
    d = os.path.join(V, 'seeded', i)
    prop = only or json.load(open(os.path.join(d, 'meta.json')))['property']
    t = time.time()
    repo = os.path.join(top, i)
    subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
    subprocess.run(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')], check=True)
    r = subprocess.run(['unshare', '-rm', 'sh', '-c', 'mount --bind %s /repo && mount --bind %s /verif && cd /verif && exec python3 checks/run.py %s' % (repo, verif, prop)],
                       capture_output=True, text=True)
    shutil.rmtree(repo)
    caught = r.returncode == 1 and 'VIOLATION property=%s ' % prop in r.stdout
    if not caught:
        missed.append(i)
    lines = r.stdout.splitlines()
    print('%-7s %-28s %s rc=%d %4.0fs %s' % ('caught' if caught else 'MISSED', i, prop, r.returncode, time.time() - t, ' | '.join(lines[:2])[:220] if caught else (r.stderr or r.stdout)[-300:]), flush=True)


try:
    with ThreadPoolExecutor(jobs) as ex:
        for f in [ex.submit(run, i) for i in ids]:
            try:
                f.result()
            except Exception as e:
                print('ERROR', e, flush=True)
finally:
    shutil.rmtree(top)
print('missed:', sorted(missed))
