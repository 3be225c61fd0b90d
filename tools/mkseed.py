#!/usr/bin/env python3
"""mkseed.py [ID...]: builds /verif/seeded/<id>/ from the definitions in tools/seeds.py and confirms each planted bug:
it builds, the stable tests pass, and the demonstration passes without and fails with it."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
ENV = dict(os.environ, HOME='/root', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build', GOTOOLCHAIN='local',
           GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off', PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'])
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
[ -w /root/.cache/go-build ] && export GOCACHE=/root/.cache/go-build || export GOCACHE=$t/cache
printf '{"Replace":{"%s/verifdemo/main.go":"%s/main.go","%s/verifdemo/demo.go":"%s/demo.go"}}' "$PWD" "$d" "$PWD" "$d" > "$t/overlay.json"
go build -overlay "$t/overlay.json" -o "$t/demo" ./verifdemo || exit 3
export REPO=$PWD
cd "$t" && timeout 120 ./demo
'''
PRELUDE = open(os.path.join(V, 'tools', 'demo.go.txt')).read() if os.path.exists(os.path.join(V, 'tools', 'demo.go.txt')) else ''
IMPORTS = {'fmt.': 'fmt', 'os.': 'os', 'strings.': 'strings', 'io.': 'io', 'bytes.': 'bytes', 'bufio.': 'bufio', 'rand.': 'math/rand', 'errors.': 'errors', 'reflect.': 'reflect', 'sync.': 'sync',
           'exec.': 'os/exec', 'ioutil.': 'io/ioutil', 'runtime.': 'runtime', 'time.': 'time', 'filepath.': 'path/filepath',
           'xsqlparser.': 'github.com/akito0107/xsqlparser', 'sqlast.': 'github.com/akito0107/xsqlparser/sqlast',
           'sqlastutil.': 'github.com/akito0107/xsqlparser/sqlastutil', 'sqltoken.': 'github.com/akito0107/xsqlparser/sqltoken',
           'dialect.': 'github.com/akito0107/xsqlparser/dialect'}


def passed(path):
    o = json.load(open(path))
    for k in ('passed', 'pass', 'stable'):
        if k in o:
            return set(o[k])
    return {k for k, v in o.items() if v in ('pass', 'passed', True)}


def main():
    import seeds
    want = sys.argv[1:]
    base = passed('/opt/vp/BASELINE.json')
    bad = []
    for s in seeds.SEEDS:
        if want and s['id'] not in want or not want and os.path.exists(os.path.join(V, 'seeded', s['id'], 'patch.diff')):
            continue
        d = os.path.join(V, 'seeded', s['id'])
        w = tempfile.mkdtemp(prefix='seed-')
        try:
            repo = os.path.join(w, 'repo')
            subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
            subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            body = s['demo']
            imps = ''.join('import "%s"\n' % v for k, v in IMPORTS.items() if re.search(r'(?<![\w.])' + re.escape(k), body + s.get('decls', '')))
            open(os.path.join(d, 'main.go'), 'w').write('package main\n\n' + imps + '\nfunc main() {\n' + body.strip('\n') + '\n}\n' + s.get('decls', ''))
            open(os.path.join(d, 'demo.go'), 'w').write(PRELUDE)
            r0 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=repo, env=ENV, capture_output=True, text=True)
            for f, old, new in s['edits']:
                p = os.path.join(repo, f)
                t = open(p).read()
                if t.count(old) != 1:
                    raise LookupError('%s: %r occurs %d times in %s' % (s['id'], old, t.count(old), f))
                open(p, 'w').write(t.replace(old, new))
            diff = subprocess.run(['git', '-C', repo, 'diff'], capture_output=True, text=True).stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            # at least one removed line is of the original repository
            orig = set()
            for f, _, _ in s['edits']:
                orig |= set(subprocess.run(['git', '-C', '/repo', 'show', '589cb8a:' + f], capture_output=True, text=True).stdout.splitlines())
            # (a line of the original, by blame)
            touched = 0
            for f in {e[0] for e in s['edits']}:
                bl = subprocess.run(['git', '-C', repo, 'blame', '-s', '589cb8a..HEAD', '--', f], capture_output=True, text=True).stdout.splitlines()
                hunk = subprocess.run(['git', '-C', repo, 'diff', '-U0', '--', f], capture_output=True, text=True).stdout
                for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', hunk, re.M):
                    a, n = int(m.group(1)), int(m.group(2) or 1)
                    touched += sum(1 for l in bl[a - 1:a - 1 + n] if l.startswith('^'))
            b = subprocess.run(['go', 'build', './...'], cwd=repo, env=ENV, capture_output=True, text=True)
            t = subprocess.run(['go', 'vet', './sqltoken', './sqlast', '.'], cwd=repo, env=ENV, capture_output=True, text=True)
            tests = subprocess.run(['go', 'test', '-json', './...'], cwd=repo, env=ENV, capture_output=True, text=True)
            ok = set()
            for l in tests.stdout.splitlines():
                try:
                    e = json.loads(l)
                except ValueError:
                    continue
                if e.get('Action') == 'pass' and e.get('Test'):
                    ok.add((e['Package'], e['Test']))
            names = {x.split('::')[-1] if '::' in x else x for x in base}
            missing = [x for x in base if not any(t2 == x or x.endswith(t2) for _, t2 in ok)]
            r1 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=repo, env=ENV, capture_output=True, text=True)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            good = r0.returncode == 0 and r1.returncode not in (0, 3) and b.returncode == 0 and not missing and touched > 0
            print('%s %s clean=%d planted=%d build=%d missing=%s original=%d %s' % (
                'ok ' if good else 'BAD', s['id'], r0.returncode, r1.returncode, b.returncode, missing[:4], touched,
                (r1.stdout + r1.stderr).strip().splitlines()[-1:] ))
            if not good:
                bad.append(s['id'])
                print((r0.stdout + r0.stderr)[-800:], b.stderr[-800:])
                shutil.rmtree(d)
        except LookupError as e:
            print('BAD', e)
            bad.append(s['id'])
            shutil.rmtree(d)
        finally:
            shutil.rmtree(w)
    if bad:
        print('BAD:', bad)


main()
