"""Shared machinery of the checks (system python3): running TLC, running the harness in parallel, verdicts."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
PY = '/opt/venv/bin/python'
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
    pass


class Work(object):
    """A scratch directory, removed at the end."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-')

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def harness_env():
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    env.pop('PYTHONPATH', None)
    return env


def run_harness(script, jobs, work, timeout=600):
    """Runs script once per job (a dict) in parallel; returns the parsed last lines of stdout."""
    def one(i_job):
        i, job = i_job
        p = work.path('job%s-%d.json' % (os.path.basename(script), i))
        with open(p, 'w') as f:
            json.dump(job, f)
        r = subprocess.run([PY, os.path.join(HARNESS, script), p], env=harness_env(), cwd=work.dir,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        out = r.stdout.decode('utf-8', 'replace').strip().splitlines()
        if r.returncode != 0 or not out:
            return {'crash': (r.stderr.decode('utf-8', 'replace') + r.stdout.decode('utf-8', 'replace'))[-3000:],
                    'rc': r.returncode}
        try:
            return json.loads(out[-1])
        except ValueError:
            return {'crash': (r.stderr.decode('utf-8', 'replace') + '\n'.join(out))[-3000:], 'rc': r.returncode}
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(one, enumerate(jobs)))


TLC_STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def run_tlc(module, cfg, work, env=None, workers=None, args=(), timeout=800, tag='m', heap='8g', spec_dir=SPEC):
    """Runs TLC; returns dict(rc, out, generated, distinct). The module's directory is not written to."""
    meta = work.path('meta-' + tag)
    e = dict(os.environ)
    e.update(env or {})
    e['JAVA_TOOL_OPTIONS'] = (e.get('JAVA_TOOL_OPTIONS', '') + ' -Xss16m -Djava.io.tmpdir=' + work.dir).strip()
    jar = '/opt/veriftools/tla/tla2tools.jar'
    cmd = ['tlc', '-config', cfg, '-metadir', meta, '-noGenerateSpecTE', '-workers',
           str(workers or NCPU)] + list(args) + [module]
    r = subprocess.run(cmd, cwd=spec_dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = r.stdout.decode('utf-8', 'replace')
    gen = dist = 0
    for m in TLC_STATS.finditer(out):
        gen, dist = int(m.group(1)), int(m.group(2))
    shutil.rmtree(meta, ignore_errors=True)
    return {'rc': r.returncode, 'out': out, 'generated': gen, 'distinct': dist}


def tlc_ok(res, what):
    if res['rc'] != 0 or 'Error:' in res['out']:
        raise MachineryError('%s: TLC failed (rc=%s)\n%s' % (what, res['rc'], res['out'][max(0, res['out'].find('Error:')):][:3000]))
    return res


MARK = re.compile(r'^"?@@(\w+) (.*?)"?$')


def marked(out, word):
    """JSON objects printed by PrintT("@@WORD " \\o ToJson(..))."""
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"@@' + word + ' '):
            s = line[1:-1] if line.endswith('"') else line[1:]
            s = s[len(word) + 3:]
            s = s.replace('\\"', '"').replace('\\\\', '\\')
            res.append(json.loads(s))
    return res


class Check(object):
    """One run of one check: collects what was covered and what was violated, writes the evidence."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.work = Work()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.notes = {}
        self.violations = []     # (text, object to be written as replay file)
        self.known = []

    def quick(self):
        return self.tier == 'quick'

    def pick(self, quick, thorough):
        return quick if self.quick() else thorough

    def add_tlc(self, res, what):
        self.cov['states'] += res['distinct']
        self.cov['transitions'] += res['generated']
        self.notes.setdefault('tlc_runs', []).append('%s: %d states' % (what, res['distinct']))

    def sample(self, x, limit=3):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(x)

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    def violation(self, text, replay):
        self.violations.append((text, replay))

    def finish(self, level='model_checking'):
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        for name in os.listdir(ev):
            if name.startswith('replay-%s-' % self.prop):
                os.unlink(os.path.join(ev, name))
        cov = dict(self.cov)
        cov.update(self.notes)
        cov['violations'] = len(self.violations)
        with open(os.path.join(ev, self.prop + '.json'), 'w') as f:
            json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
                       'wall_s': round(time.time() - self.t0, 2)}, f, indent=1, ensure_ascii=False)
            f.write('\n')
        for text in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        rc = 0
        for i, (text, replay) in enumerate(self.violations[:5]):
            path = os.path.join(ev, 'replay-%s-%d.json' % (self.prop, i))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'what': text, 'replay': replay}, f, indent=1, ensure_ascii=False)
                f.write('\n')
            print(text[:2000])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            rc = 1
        print('%s %s: %s in %.1f s; %s' % (self.prop, self.tier, 'VIOLATED' if rc else 'held', time.time() - self.t0,
                                          json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, float))})))
        self.work.close()
        return rc


def split(n, k=NCPU):
    return [n // k + (1 if i < n % k else 0) for i in range(k)]
