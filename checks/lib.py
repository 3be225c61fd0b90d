"""Plumbing of the checks: building the harness from /repo, running TLC, running the harness, verdicts, evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
SPECS = os.path.join(VERIF, 'specs')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class CheckError(Exception):
    """The check could not give an answer."""


def goenv():
    e = dict(os.environ)
    e.update(HOME='/root', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOTOOLCHAIN='local', GOPROXY='off',
             GOFLAGS='-mod=mod', GOWORK='off', GOCACHE=os.path.join(BUILD, 'gocache'), CGO_ENABLED=e.get('CGO_ENABLED', '1'))
    if os.path.isdir('/opt/veriftools/go1.27.3/bin'):
        e['PATH'] = '/opt/veriftools/go1.27.3/bin:' + e.get('PATH', '')
    # the cache of the build of the repository holds the standard library already
    if os.access('/root/.cache/go-build', os.W_OK):
        e['GOCACHE'] = '/root/.cache/go-build'
    return e


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.level = level
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, 'run-%s-%d' % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.distinct = 0
        self.counts = {}
        self.samples = []
        self.violations = []
        self.total = 0
        self.models = []
        self.notes = []
        self.assumptions = []
        self.extra = {}
        self.lock = threading.Lock()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # -- building -----------------------------------------------------------------------------------------------
    def build(self, race=False, pkg='.', name='harness'):
        out = os.path.join(self.dir, name + ('-race' if race else ''))
        d = out + '.mod'  # one for each, since they may be built at the same time
        os.makedirs(d, exist_ok=True)
        for f in ('go.mod', 'go.sum'):
            shutil.copy(os.path.join(VERIF, 'harness', f), d)
        mod = os.path.join(d, 'go.mod')
        cmd = ['go', 'build', '-modfile', mod, '-o', out]
        if race:
            cmd.insert(2, '-race')
        p = subprocess.run(cmd + [pkg], cwd=os.path.join(VERIF, 'harness'), env=goenv(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError('building the harness failed:\n' + p.stdout[-4000:])
        return out

    def build_command(self, name, pkg='cmd'):
        """a command of the repository itself"""
        d = os.path.join(self.dir, 'mod-' + name)
        os.makedirs(d)
        for f in ('go.mod', 'go.sum'):
            shutil.copy(os.path.join(REPO, f), d)
        out = os.path.join(self.dir, name)
        p = subprocess.run(['go', 'build', '-modfile', os.path.join(d, 'go.mod'), '-o', out, './%s/%s' % (pkg, name)], cwd=REPO, env=goenv(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError('building %s failed:\n%s' % (name, p.stdout[-4000:]))
        return out

    # -- TLC ----------------------------------------------------------------------------------------------------
    def tlc(self, module, constants=None, invariants=(), init='Init', nxt='Next', workers=8, timeout=800,
            env=None, heap='5g', name=None, spec=None, properties=(), constraint=None, postcondition=None, defs=None):
        """Run TLC; returns the file holding its output (cases are the lines starting with a double quote)."""
        name = name or module
        cfg = os.path.join(self.dir, name + '.cfg')
        with open(cfg, 'w') as f:
            if spec:
                f.write('SPECIFICATION %s\n' % spec)
            else:
                f.write('INIT %s\nNEXT %s\n' % (init, nxt))
            if constants or defs:
                f.write('CONSTANTS\n')
                for k in defs or {}:
                    f.write('  %s <- MC_%s\n' % (k, k))
            if constants:
                for k, v in constants.items():
                    f.write('  %s = %s\n' % (k, v))
            for i in invariants:
                f.write('INVARIANT %s\n' % i)
            for i in properties:
                f.write('PROPERTY %s\n' % i)
            if constraint:
                f.write('CONSTRAINT %s\n' % constraint)
            if postcondition:
                f.write('POSTCONDITION %s\n' % postcondition)
            f.write('CHECK_DEADLOCK FALSE\n')
        # definitions that a configuration cannot hold go into a module of their own
        top = module
        if defs:
            top = 'MC_' + re.sub(r'\W', '_', name)
            with open(os.path.join(self.dir, top + '.tla'), 'w') as f:
                f.write('---- MODULE %s ----\nEXTENDS %s\n' % (top, module))
                for k, v in defs.items():
                    f.write('MC_%s == %s\n' % (k, v))
                f.write('====\n')
        out = os.path.join(self.dir, name + '.out')
        meta = os.path.join(self.dir, name + '.meta')
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xss512m', '-Xmx' + heap, '-Djava.io.tmpdir=' + self.dir, '-DTLA-Library=' + SPECS, '-cp', JARS, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg,
               os.path.join(self.dir if defs else SPECS, top + '.tla')]
        t = time.time()
        with open(out, 'w') as f:
            try:
                p = subprocess.run(cmd, cwd=SPECS, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e)
            except subprocess.TimeoutExpired:
                raise CheckError('TLC did not finish %s in %d s' % (module, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        gen = dist = None
        tail = []
        with open(out) as f:
            for line in f:
                if line.startswith('"'):
                    continue
                m = re.match(r'(\d+) states generated, (\d+) distinct states found', line)
                if m:
                    gen, dist = int(m.group(1)), int(m.group(2))
                tail.append(line)
                if len(tail) > 80:
                    tail.pop(0)
        if p.returncode != 0 or gen is None:
            raise CheckError('TLC failed on %s (exit %d):\n%s' % (module, p.returncode, ''.join(tail)[-5000:]))
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.models.append({'model': name, 'states': dist, 'transitions': gen, 'constants': dict(constants or {}, **(defs or {})),
                                'invariants': list(invariants), 's': round(time.time() - t, 1)})
        return out

    def parallel(self, *fs):
        """Run functions concurrently; raise the first error."""
        res = [None] * len(fs)
        errs = []

        def go(i):
            try:
                res[i] = fs[i]()
            except BaseException as ex:
                errs.append(ex)
        ts = [threading.Thread(target=go, args=(i,)) for i in range(len(fs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        return res

    # -- harness ------------------------------------------------------------------------------------------------
    def harness(self, exe, cmd, files=(), args=None, trace=None, name=None, timeout=700, env=None, traces=True):
        name = name or cmd
        res = os.path.join(self.dir, name + '.json')
        err = os.path.join(self.dir, name + '.err')

        def run(extra):
            if os.path.exists(res):
                os.unlink(res)
            c = [exe, cmd, '-out', res, '-prop', self.prop, '-seed', str(self.seed), '-tier', self.tier]
            if files:
                c += ['-in', ','.join(files)]
            if args:
                c += ['-args', ','.join('%s=%s' % kv for kv in args.items())]
            if trace:
                c += ['-trace', trace]
            e = dict(os.environ)
            e.update(env or {})
            with open(err, 'w') as f:
                try:
                    p = subprocess.run(c + extra, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e)
                except subprocess.TimeoutExpired:
                    raise CheckError('harness %s did not finish in %d s' % (cmd, timeout))
            return p.returncode

        rc = run([])
        if rc != 0 or not os.path.exists(res):
            # the code under test may have killed the process: find the case that does it, alone
            text = open(err).read()
            if rc == 3:
                raise CheckError('harness %s: %s' % (cmd, text[-3000:]))
            cur = os.path.join(self.dir, name + '.current')
            rc2 = run(['-isolate', cur])
            if rc2 != 0 or not os.path.exists(res):
                import struct
                b = open(cur, 'rb').read()
                if rc2 == 3 or len(b) < 8:
                    raise CheckError('harness %s: %s' % (cmd, open(err).read()[-3000:]))
                idx = struct.unpack('<Q', b[:8])[0]
                if run(['-isolate', cur, '-only', str(idx)]) in (0, 3):
                    raise CheckError('harness %s died (%d): %s' % (cmd, rc2, text[-3000:]))
                self.add_violation({'case': 'case %d of %s' % (idx, ' '.join(files)), 'what':
                                    'the process dies: ' + open(err).read()[:1500]}, files, idx)
                self.total += 1
                return {'evaluations': 0, 'counts': {}, 'extra': {}}
        if os.environ.get('VERIF_SLOW'):
            print(''.join(l for l in open(err, errors='replace') if l.startswith('slow case')), end='', flush=True)
        r = json.load(open(res))
        with self.lock:
            self.evaluations += r['evaluations']
            if traces:
                self.traces += r['evaluations']
            self.distinct += r['distinct']
            for k, v in r['counts'].items():
                self.counts[k] = self.counts.get(k, 0) + v
            for s in r['samples'][:6]:
                self.samples.append('%s: %s' % (name, s))
            for v in r['violations']:
                self.add_violation(v)
            self.total += r['total_violations']
        return r

    def validate(self, module, trace, name=None, constants=None, workers=8, timeout=800, heap='6g', invariants=('Emit',)):
        """Have TLC judge every recorded trace of a file; a trace that is no behaviour of the specification is a violation."""
        labels = open(trace + '.labels', encoding='utf-8', errors='replace').read().split('\n')[:-1]
        if not labels:
            raise CheckError('no traces in %s' % trace)
        out = self.tlc(module, dict(constants or {}, TraceFile='"%s"' % trace), invariants, name=name or os.path.basename(trace),
                       workers=workers, timeout=timeout, heap=heap)
        seen = set()
        for v in cases(out):
            if v['n'] in seen:
                continue
            seen.add(v['n'])
            if v['verdict'].startswith('tool:'):
                raise CheckError('trace %d: %s' % (v['n'], v['verdict']))
            if v['verdict'] != 'ok':
                self.total += 1
                if len(self.violations) < 25:
                    self.add_violation({'case': labels[v['n'] - 1][:3000], 'what': 'event %s: %s' % (v['at'], v['verdict']), 'got': v})
        if len(seen) != len(labels):
            raise CheckError('%d verdicts for %d traces' % (len(seen), len(labels)))
        self.counts['traces judged by TLC'] = self.counts.get('traces judged by TLC', 0) + len(seen)

    def add_violation(self, v, files=(), idx=None):
        if idx is not None:
            # copy the case itself
            n = -1
            for fn in files:
                for line in open(fn):
                    if line[:1] in '"{[':
                        n += 1
                        if n == idx:
                            v['input'] = line.strip()[:20000]
        self.violations.append(v)

    # -- verdict ------------------------------------------------------------------------------------------------
    def finish(self):
        known, _ = read_known()
        mine = {k['key']: k for k in known if k['property'] == self.prop}
        new = [v for v in self.violations if v.get('key') not in mine]
        for k in mine.values():
            seen = any(v.get('key') == k['key'] for v in self.violations)
            print('KNOWN-FINDING: property=%s %s%s' % (self.prop, k['what'], '' if seen else ' (not reproduced in this run)'))
        cov = {
            'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
            'distinct_nontrivial': self.distinct,
            'rule': self.extra.pop('rule', 'cases are behaviours of the specification; a case is non-trivial and distinct by its source text'),
            'samples': self.samples[:12] or ['none'], 'counts': self.counts, 'models': self.models,
        }
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        rc = 0
        if new:
            rep = os.path.join(VERIF, 'build', 'replay-%s.json' % self.prop)
            with open(rep, 'w') as f:
                json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier, 'violations': new}, f, indent=1)
            for v in new[:5]:
                print('  case: %s' % str(v.get('case'))[:600])
                print('  what: %s' % str(v.get('what'))[:600])
                for k in ('expected', 'got'):
                    if v.get(k) is not None:
                        print('  %s: %s' % (k, json.dumps(v[k])[:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(rep, VERIF)))
            rc = 1
        else:
            print('%s held: %d states, %d transitions, %d cases against the implementation, %.1f s' % (
                self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))
        return rc

    def cleanup(self):
        if os.environ.get('VERIF_KEEP') != '1':
            shutil.rmtree(self.dir, ignore_errors=True)


def read_known():
    """known-findings.jsonl: {"status": "known"|"fixed", "property":..., ...}; fixed entries suppress nothing."""
    known, fixed = [], []
    p = os.path.join(VERIF, 'known-findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                (known if d.get('status') == 'known' else fixed).append(d)
    return known, fixed


def cases(path):
    """the JSON documents printed by TLC into its output"""
    with open(path) as f:
        for line in f:
            if line.startswith('"'):
                yield json.loads(json.loads(line))
