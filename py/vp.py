"""Runs the checks: model checking of the specifications, generation of behaviours by TLC,
replay in the real package, validation of the recorded traces by TLC.

Nothing is judged here: the verdict on a trace is computed by a TLA+ trace specification."""
import atexit
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TLA = '/opt/veriftools/tla'
PYPY = '/opt/venv/bin/python'
CORES = min(8, os.cpu_count() or 1)


class Broken(Exception):
    """The machinery could not do its work (exit 2, not a verdict)."""


def strip(text):
    return ''.join(t for t in text.splitlines(True) if not t.startswith('Loading '))


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.dir = tempfile.mkdtemp(prefix='vp-%s-' % prop)
        atexit.register(self.clean)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
        self.t0 = time.time()
        self.cls = os.path.join(self.dir, 'cls')
        self.src = os.path.join(self.dir, 'src')
        os.mkdir(self.cls)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.notes = []
        self.n = 0

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, '%03d-%s' % (self.n, name))

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------- tools
    def prepare(self):
        def javac():
            p = subprocess.run(['javac', '-cp', TLA + '/tla2tools.jar', '-d', self.cls,
                                os.path.join(HERE, 'java', 'Rat.java')], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise Broken('javac: ' + p.stdout)

        def translate():
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
            p = subprocess.run([PYPY, '-W', 'ignore', os.path.join(HERE, 'py2', 'translate.py'), REPO, self.src],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            if p.returncode:
                raise Broken('translate: ' + p.stdout)
        with ThreadPoolExecutor(2) as ex:
            for f in [ex.submit(javac), ex.submit(translate)]:
                f.result()

    def tlc(self, spec, cfg, args, env=None, timeout=800, heap='4g', gc='-XX:+UseParallelGC', workers=None):
        cfgp = self.path(spec + '.cfg')
        with open(cfgp, 'w') as f:
            f.write(cfg)
        meta = self.path('meta')
        out = self.path(spec + '.out')
        cmd = ['java', gc, '-Xss64m', '-Xmx' + heap, '-Djava.io.tmpdir=' + self.dir, '-cp',
               '%s:%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (self.cls, TLA, TLA), 'tlc2.TLC',
               '-metadir', meta, '-noGenerateSpecTE', '-deadlock', '-config', cfgp] + args + [spec + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        with open(out, 'w') as f:
            try:
                p = subprocess.run(cmd, cwd=os.path.join(HERE, 'specs'), stdout=f, stderr=subprocess.STDOUT,
                                   env=e, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -99
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    # ------------------------------------------------------------- stages
    def check(self, spec, cfg, what, args=None, timeout=800):
        """Exhaustive model checking of the specification itself."""
        rc, out = self.tlc(spec, cfg, ['-workers', str(CORES)] + (args or []), timeout=timeout)
        text = strip(open(out).read())
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
        if rc != 0 or 'Model checking completed. No error' not in text:
            raise Broken('model checking %s (%s): rc %d\n%s' % (spec, what, rc, text[-3000:]))
        self.cov['transitions'] += int(m[-1][0])
        self.cov['states'] += int(m[-1][1])
        self.notes.append('%s (%s): %s distinct states, %s generated' % (spec, what, m[-1][1], m[-1][0]))
        self.log(self.notes[-1])

    def generate(self, spec, cfgs, what):
        """Behaviours of the specification, by TLC simulation.  cfgs: (cfg, number, depth).
        One worker per process and explicit seeds: the same behaviours at each run."""
        jobs = []
        for k, (cfg, n, depth) in enumerate(cfgs):
            parts = max(1, min(CORES, n // 4, CORES * n // sum(c[1] for c in cfgs) + 1))
            for p in range(parts):
                q = n // parts + (1 if p < n % parts else 0)
                jobs.append((cfg, q, depth, self.seed * 1000003 + k * 1009 + p))

        def go(j):
            cfg, q, depth, seed = j
            rc, out = self.tlc(spec, cfg, ['-workers', '1', '-simulate', 'num=%d' % q, '-depth', str(depth),
                                           '-seed', str(seed)], heap='1500m', gc='-XX:+UseSerialGC')
            res = []
            for line in open(out):
                if line.startswith('"BEHAVIOUR '):
                    res.append(json.loads(json.loads(line)[len('BEHAVIOUR '):]))
            text = strip(open(out).read())
            if 'Error:' in text or rc != 0 or not res:
                raise Broken('generation with %s: rc %d\n%s' % (spec, rc, text[-3000:]))
            m = re.findall(r'(\d+) states checked', text) or re.findall(r'The number of states generated: (\d+)', text)
            return res, int(m[-1]) if m else 0
        with ThreadPoolExecutor(CORES) as ex:
            rs = list(ex.map(go, jobs))
        beh = [b for r, n in rs for b in r]
        gen = sum(n for r, n in rs)
        self.cov['states'] += gen
        self.cov['transitions'] += gen
        self.notes.append('%s (%s): %d behaviours generated, %d states' % (spec, what, len(beh), gen))
        self.log(self.notes[-1])
        return beh

    def replay(self, driver, beh, timeout=700):
        """Replay behaviours in the real package; returns the recorded traces."""
        parts = [beh[k::CORES] for k in range(CORES)]
        parts = [p for p in parts if p]

        def go(k):
            inp, outp = self.path('beh.ndjson'), self.path('trace.ndjson')
            with open(inp, 'w') as f:
                for b in parts[k]:
                    f.write(json.dumps(b) + '\n')
            home = self.path('home')
            os.mkdir(home)
            env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': home, 'LANG': 'C.UTF-8',
                   'PYTHONPATH': self.src + ':' + os.path.join(HERE, 'drivers'), 'PYTHONDONTWRITEBYTECODE': '1',
                   'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'PYTHONHASHSEED': '0', 'TMPDIR': home,
                   'VERIF_SEED': str(self.seed)}
            try:
                p = subprocess.run([PYPY, '-W', 'ignore', os.path.join(HERE, 'drivers', driver), inp, outp],
                                   cwd=home, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env,
                                   timeout=timeout)
                rc, text = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                rc, text = -99, 'timeout'
            lines = []
            if os.path.exists(outp):
                for line in open(outp):
                    try:
                        lines.append(json.loads(line))
                    except ValueError:
                        pass
            if len(lines) != len(parts[k]) and rc == 0:
                raise Broken('driver %s: %d traces for %d behaviours' % (driver, len(lines), len(parts[k])))
            if rc != 0:
                raise Broken('driver %s: rc %d\n%s' % (driver, rc, text[-3000:]))
            return lines
        with ThreadPoolExecutor(CORES) as ex:
            traces = [t for r in ex.map(go, range(len(parts))) for t in r]
        for k, t in enumerate(traces):
            t['id'] = k + 1
        self.log('%s: %d traces recorded' % (driver, len(traces)))
        return traces

    def judge(self, spec, traces, cfg=None, timeout=800, chunk=None):
        """The trace specification's verdict on each trace: {id: [clauses]}."""
        cfg = cfg or 'INIT Init\nNEXT Next\nVIEW View\n'
        verdict, steps = {}, 0

        def run(ts):
            p = self.path('traces.ndjson')
            with open(p, 'w') as f:
                for t in ts:
                    f.write(json.dumps(t) + '\n')
            rc, out = self.tlc(spec, cfg, ['-workers', str(CORES)], env={'TRACES': p}, timeout=timeout, heap='12g')
            text = strip(open(out).read())
            got = {}
            for line in text.splitlines():
                if line.startswith('"TRACE '):
                    r = json.loads(json.loads(line)[len('TRACE '):])
                    got[r['id']] = r
            m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
            if m:
                self.cov['transitions'] += int(m[-1][0])
                self.cov['states'] += int(m[-1][1])
            if rc in (-99, -9, 137, 143) or 'OutOfMemory' in text:
                raise Broken('trace validation with %s: rc %d\n%s' % (spec, rc, text[-2000:]))
            return rc, got, text
        todo = [traces]
        while todo:
            ts = todo.pop()
            rc, got, text = run(ts)
            for k, r in got.items():
                verdict[k] = r['bad']
                steps += r['n']
            left = [t for t in ts if t['id'] not in got]
            if rc == 0 and left:
                raise Broken('no verdict for %d traces\n%s' % (len(left), text[-2000:]))
            if not left:
                continue
            if len(left) == 1 and len(ts) == 1:
                m = re.search(r'Error: (.*(?:\n.*){0,6})', text)
                verdict[left[0]['id']] = ['%s observation outside the specification: %s' % (
                    self.prop, ' '.join((m.group(1) if m else text[-400:]).split())[:300])]
            else:
                h = (len(left) + 1) // 2
                todo += [left[:h], left[h:]] if len(left) > 1 else [left]
        self.cov['traces_validated_against_impl'] += len(traces)
        self.notes.append('%s: %d recorded traces validated, %d observations' % (spec, len(traces), steps))
        self.log(self.notes[-1])
        return verdict


def known_findings(prop):
    res = []
    p = os.path.join(HERE, 'known-findings.txt')
    for line in open(p):
        m = re.match(r'known: property=(\S+) match=/(.*?)/ (.*)$', line.strip())
        if m and m.group(1) == prop:
            res.append((re.compile(m.group(2)), m.group(3)))
    return res


def finish(ctx, traces, verdicts, spec):
    """verdicts: {id: clauses}.  Reports the clauses of this property."""
    prop = ctx.prop
    known = known_findings(prop)
    seen = {}
    viol = []
    byid = {t['id']: t for t in traces}
    for tid in sorted(verdicts):
        for b in verdicts[tid]:
            if b.split(' ', 1)[0] != prop:
                continue
            for rx, text in known:
                if rx.search(b):
                    seen[text] = seen.get(text, 0) + 1
                    break
            else:
                viol.append((tid, b))
    for rx, text in known:
        print('KNOWN-FINDING: property=%s %s (observed %d times)' % (prop, text, seen.get(text, 0)))
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    for old in glob.glob(os.path.join(ev, prop + '.replay*')):
        os.remove(old)
    cov = ctx.cov
    cov['samples'] = cov['samples'][:5] or [summary(t) for t in traces[:3]]
    cov['notes'] = ctx.notes
    if viol:
        tid, b = viol[0]
        rp = os.path.join(ev, prop + '.replay.json')
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'clauses': [c for i, c in viol if i == tid], 'spec': spec,
                       'trace': byid.get(tid)}, f)
        shown = []
        for i, c in viol:
            c0 = re.sub(r' @\d+$', '', c)
            if c0 not in shown:
                shown.append(c0)
        for c in shown[:12]:
            print('  ' + c)
        print('  (%d violated clauses in %d of %d traces)' % (len(viol), len({i for i, c in viol}), len(traces)))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': 'model_checking',
                   'coverage': cov, 'wall_s': round(time.time() - ctx.t0, 2),
                   'violations': len(viol)}, f, indent=1)
    return 1 if viol else 0


def summary(t):
    s = json.dumps(t.get('in', [e.get('c') for e in t.get('ev', [])]))
    return s[:600]
