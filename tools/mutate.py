#!/usr/bin/env python3
"""Mutation campaign: small changes to /repo that its tests do not notice, and which check notices them.
  mutate.py filter MUTANTS SURVIVORS [-j N] [-n SAMPLE]   keeps the mutants (of tools/mutants) that build and pass the tests
  mutate.py run SURVIVORS LOG [-j N]                      runs the checks on each, until one reports a violation
What TLC generates does not depend on the code: it is computed once and kept in /tmp/tlccache."""
import json, os, random, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = '/tmp/tlccache'
TOK = ['C01', 'C02', 'C03', 'C21', 'C04', 'C08', 'C20', 'C12', 'C05', 'C11', 'C19', 'C18']
AST = ['C07', 'C19', 'C23', 'C18', 'C17', 'C13', 'C12', 'C14', 'C15', 'C16', 'C05', 'C04', 'C20', 'C06']
ORDER = {
    'parser.go': ['C05', 'C11', 'C07', 'C23', 'C06', 'C18', 'C12', 'C10', 'C09', 'C08', 'C19', 'C13', 'C21', 'C04', 'C20', 'C22'],
    'sqltoken': TOK, 'dialect': TOK, 'sqlast/walk.go': ['C14', 'C13', 'C12', 'C15', 'C16', 'C20'], 'sqlastutil': ['C15', 'C16', 'C20'],
    'sqlast/commentmap.go': ['C13', 'C04', 'C20'], 'sqlast/comment.go': ['C12', 'C13', 'C23'], 'sqlast': AST, 'cmd': ['C22'],
}


def goenv():
    sys.path.insert(0, os.path.join(V, 'checks'))
    import lib
    e = lib.goenv()
    e['GOFLAGS'] = '-mod=readonly'
    return e


def order_of(f):
    for k in sorted(ORDER, key=len, reverse=True):
        if f.startswith(k):
            return ORDER[k]
    raise KeyError(f)


def mutate(repo, m):
    p = os.path.join(repo, m['file'])
    b = open(p, 'rb').read()
    open(p, 'wb').write(b[:m['start']] + m['new'].encode() + b[m['end']:])


def restore(repo, m):
    subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', m['file']], check=True)


def opts(args):
    o = {'-j': 4, '-n': 0}
    rest = []
    while args:
        a = args.pop(0)
        if a in o:
            o[a] = int(args.pop(0))
        else:
            rest.append(a)
    return o, rest


def pool(jobs, items, work):
    top = tempfile.mkdtemp(prefix='mutate-')
    local = threading.local()

    def one(x):
        if not hasattr(local, 'repo'):
            local.repo = tempfile.mkdtemp(dir=top)
            subprocess.run(['git', 'clone', '-q', '/repo', local.repo], check=True)
        try:
            work(local.repo, x, top)
        except Exception as e:
            print('ERROR', x, e, flush=True)
            restore(local.repo, x)
    try:
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(one, items))
    finally:
        shutil.rmtree(top)


def cmd_filter(args):
    o, (mf, sf) = opts(args)
    ms = [json.loads(l) for l in open(mf)]
    random.Random(1).shuffle(ms)
    if o['-n']:
        ms = ms[:o['-n']]
    env = goenv()
    lock = threading.Lock()
    out = open(sf, 'a')

    def work(repo, m, top):
        mutate(repo, m)
        try:
            ok = subprocess.run('go build ./... && timeout 60 go test -vet=off -timeout 50s ./...', shell=True, cwd=repo, env=env, capture_output=True).returncode == 0
        finally:
            restore(repo, m)
        if ok:
            with lock:
                out.write(json.dumps(m) + '\n')
                out.flush()
    pool(o['-j'], ms, work)


def cmd_run(args):
    o, (sf, lf) = opts(args)
    ms = [json.loads(l) for l in open(sf)]
    done = set()
    if os.path.exists(lf):
        for l in open(lf):
            d = json.loads(l)
            done.add(json.dumps(d['mutant'], sort_keys=True))
    ms = [m for m in ms if json.dumps(m, sort_keys=True) not in done]
    lock = threading.Lock()
    out = open(lf, 'a')
    verif = tempfile.mkdtemp(prefix='mutverif-')
    shutil.copytree(V, verif, dirs_exist_ok=True, ignore=lambda d, ns: [n for n in ns if d == V and n in ('build', '.git', 'seeded', 'evidence')])
    for d in ('evidence', 'build'):
        os.makedirs(os.path.join(verif, d), exist_ok=True)

    def work(repo, m, top):
        mutate(repo, m)
        t = time.time()
        try:
            r = subprocess.run(['unshare', '-rm', 'sh', '-c', 'mount --bind %s /repo && mount --bind %s /verif && cd /verif && exec python3 tools/mutate.py one %s' %
                                (repo, verif, ' '.join(order_of(m['file'])))], capture_output=True, text=True, timeout=3000)
        finally:
            restore(repo, m)
        by = [l.split()[1] for l in r.stdout.splitlines() if l.startswith('CAUGHT')]
        err = [l for l in r.stdout.splitlines() if l.startswith('NOANSWER')]
        with lock:
            out.write(json.dumps({'mutant': m, 'by': by, 'noanswer': err, 's': round(time.time() - t), 'err': r.stderr[-500:] if not by else ''}) + '\n')
            out.flush()
            print('%-8s %s:%d %s -> %s %ds %s' % (' '.join(by) or 'SURVIVES', m['file'], m['line'], m['op'], m['new'][:60].replace('\n', ' '), time.time() - t, ' '.join(err)), flush=True)
    try:
        pool(o['-j'], ms, work)
    finally:
        shutil.rmtree(verif)


def cmd_one(args):
    import hashlib
    sys.path.insert(0, os.path.join(V, 'checks'))
    os.environ['VERIF_FAILFAST'] = '1'
    import lib, props
    orig = lib.Check.tlc

    def tlc(self, module, constants=None, invariants=(), **kw):
        if 'TraceFile' in (constants or {}):
            return orig(self, module, constants, invariants, **kw)
        h = hashlib.sha256()
        for f in sorted(os.listdir(lib.SPECS)):
            h.update(open(os.path.join(lib.SPECS, f), 'rb').read())
        h.update(json.dumps([module, constants, list(invariants), {k: v for k, v in kw.items() if k not in ('workers', 'timeout', 'heap')}], sort_keys=True).encode())
        d = os.path.join(CACHE, h.hexdigest()[:24])
        name = (kw.get('name') or module) + '.out'
        if not os.path.exists(os.path.join(d, name)):
            out = orig(self, module, constants, invariants, **kw)
            tmp = tempfile.mkdtemp(dir=CACHE)
            shutil.copy(out, os.path.join(tmp, name))
            try:
                os.rename(tmp, d)
            except OSError:
                shutil.rmtree(tmp)
        return os.path.join(d, name)
    lib.Check.tlc = tlc
    os.makedirs(CACHE, exist_ok=True)
    import io, contextlib
    for p in args:
        c = lib.Check(p)
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                props.CHECKS[p](c)
                rc = c.finish()
        except lib.CheckError as e:
            with contextlib.redirect_stdout(buf):
                rc = c.finish() if c.violations else 2
            if rc == 2:
                print('NOANSWER', p, str(e)[-300:].replace('\n', ' '), flush=True)
        finally:
            c.cleanup()
        if rc == 1:
            print('CAUGHT', p, flush=True)
            return
        print('held', p, round(time.time() - c.t0), file=sys.stderr, flush=True)


{'filter': cmd_filter, 'run': cmd_run, 'one': cmd_one}[sys.argv[1]](sys.argv[2:])
