#!/usr/bin/env python3
"""Writes known-findings.jsonl: the repaired defects (from the fix: commits of /repo) and the ones recorded, not repaired."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = dict(l.split() for l in '''8a50ecf C04
94ad588 C01
427519f C03
c441069 C02
f05ace9 C21
aedda9e C05
d49cd7d C04
cf1b8fd C10
8b0305b C05
0c06968 C05
ce55bf5 C05
6388e5b C05
944ba6e C05
51800eb C06
fae87a2 C06
3d95780 C09
6d54142 C05
98a2fd3 C05
27e470c C19
e02f5bf C19
0fc9444 C07
1e96d90 C07
e46d9d0 C05
c00469e C05
fef8af1 C05
8de6fd5 C13
9cdbe3f C11
144a50e C11
37189f3 C11
13a2746 C07
6b7ee4b C05
95b74df C11
2ace90f C14
5ad77a6 C14
6c33ef0 C15
efdda4d C15
376f5b8 C13
a6fdbff C04
a97c7e9 C18
731937e C22
5b6826b C13
67e5b94 C04
2a4a820 C11
5fe744c C11
a3c3300 C11
9f67f7f C23
b366e01 C23
4dbf7c0 C23
31ddb76 C04
13db5bd C03
0a776f5 C09
bdee4ab C23
bb864ae C23'''.splitlines())
EXTRA = json.load(open(os.path.join(V, 'tools', 'findings-extra.json'))) if os.path.exists(os.path.join(V, 'tools', 'findings-extra.json')) else {}
PROP.update(EXTRA.get('fixed', {}))
out = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%H %h %s', '589cb8a..HEAD'], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s, m = l.split(' ', 2)
    if m.startswith('fix: '):
        out.append({'status': 'fixed', 'property': PROP[s[:7]], 'commit': h, 'what': m[5:],
                    'line': 'fixed: property=%s %s %s' % (PROP[s[:7]], h, m[5:])})
for k in EXTRA.get('known', []):
    out.append(dict({'status': 'known'}, **k))
with open(os.path.join(V, 'known-findings.jsonl'), 'w') as f:
    for o in out:
        f.write(json.dumps(o) + '\n')
print(len(out))
