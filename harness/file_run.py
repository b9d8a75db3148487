"""The file-based backend: histories of spec/FileStore.tla on the real code, in scratch directories only."""
import os
import resource
import shutil
import signal
import sys
import tempfile

import venv_env
from venv_env import clock, TICK
import smallrun

venv_env.configure()
from django_cache_dependencies import backends
from django_cache_dependencies.backends import FileBasedCache
from django.core.cache.backends import filebased

FILES = (backends.__file__.replace('.pyc', '.py'), filebased.__file__.replace('.pyc', '.py'))
SCRATCH = tempfile.mkdtemp(prefix='file-', dir=os.getcwd())
ODD = ['k0', 'k1', 'k2', 'with:colon', '../up', '1:k0', 'x' * 200, '\u043a\u043b\u044e\u0447', 'a/b']


def generate(r, prop, hdr_only=False):
    hdr = dict(kind=r.randrange(3))
    if hdr_only:
        return hdr
    keys = r.sample(ODD, r.randint(1, 4))
    vers = r.choice([[1], [1, 2], [1, 2, 11]])
    pres = r.choice([[''], ['', 'q']])
    n = [0]

    def key(e):
        e.update(key=r.choice(keys), ver=r.choice(vers), pre=r.choice(pres))
        return e

    def val():
        n[0] += 1
        return 'v%d' % n[0]
    ev = []
    faults = r.random() < 0.6
    for _ in range(r.randint(5, 30)):
        op = r.choice(['get', 'get', 'get', 'set', 'set', 'set', 'add', 'has', 'del', 'tick', 'bad', 'clear', 'wipe'] +
                      (['crash', 'crash', 'crash', 'inter', 'watch'] if faults else []))
        if op in ('clear', 'wipe') and r.random() < 0.7:
            continue
        e = dict(op=op, f=r.randint(0, 99999))
        if op == 'tick':
            e['n'] = r.choice([1, 1, 2, 5])
        elif op not in ('clear', 'wipe'):
            key(e)
            if op in ('set', 'add', 'crash', 'inter', 'watch'):
                e.update(val=val(), timeout=r.choice([1, 2, 4, 1200, 1200, 1200, 0 if op == 'set' else 1200]))
            if op == 'inter':
                e['val2'] = val()
            if op == 'get':
                e['dflt'] = r.choice(['None', 'D1'])
            if op in ('crash', 'inter'):
                e['landed'] = ''
        ev.append(e)
        if op == 'crash' and r.random() < 0.3:
            ev.append(dict(key(dict(op='get')), f=r.randint(0, 99999), dflt='None'))
    return hdr, ev


FALSY = [0, '', [], {}, False, 0.0, b'', ()]


def real(v, f, size):
    n = int(v[1:])
    kind = n % 4
    if kind == 0:
        return [FALSY[n // 4 % len(FALSY)]] if n // 4 >= len(FALSY) else FALSY[n // 4]
    body = os.urandom(size) if size else b''
    return (v, body) if kind == 1 else {'v': v, 'body': body} if kind == 2 else (v + ':').encode() + body


def same(a, b):
    return type(a) is type(b) and a == b


class World(object):
    def __init__(self, hdr):
        self.dir = tempfile.mkdtemp(dir=SCRATCH)
        self.path = [self.dir, os.path.join(self.dir, 'sub'), os.path.join(self.dir, 'a', 'b')][hdr['kind']]
        self.values = {}
        self.objs = {}

    def make(self, pre):
        params = {'TIMEOUT': 300, 'OPTIONS': {'MAX_ENTRIES': 100000}}
        if pre:
            params['KEY_PREFIX'] = pre
        return FileBasedCache(self.path, params)

    def obj(self, e, other=False):
        n = 3 if other else e['f'] % 3
        k = (e['pre'], n)
        if k not in self.objs or e['f'] % 11 == 0:
            self.objs[k] = self.make(e['pre'])
        return self.objs[k]

    def value(self, name, f):
        if name not in self.values:
            self.values[name] = real(name, f, [0, 10, 3000, 30000, 200000][f % 5])
        return self.values[name]

    def name(self, v, dflt=None):
        if v is dflt:
            return 'None' if dflt is None else 'D1'
        found = [n for n, x in self.values.items() if same(x, v)]
        return found[0] if len(found) == 1 else '?%s' % repr(v)[:60]

    def read(self, e, obj=None):
        marker = object()
        try:
            v = (obj or self.obj(e, True)).get(e['key'], marker, **self.kw(e))
        except Exception as x:
            return smallrun.name_of(x)
        return 'None' if v is marker else self.name(v, marker)

    def kw(self, e, store=False):
        kw = {}
        if e['ver'] != 1 or e['f'] % 2:
            kw['version'] = e['ver']
        if store:
            t = e['timeout']
            if t != 1200:
                kw['timeout'] = t * TICK - TICK / 2 if t else 0
            elif e['f'] % 3 == 0:
                kw['timeout'] = 300
            elif e['f'] % 3 == 1 and e['op'] != 'add':
                kw['timeout'] = None         # the default timeout of the backend
        return kw

    def step(self, e):
        op, f = e['op'], e['f']
        if op == 'tick':
            clock.advance(e['n'])
            return ['ok']
        if op == 'wipe':
            shutil.rmtree(self.path, ignore_errors=True)
            return ['ok']
        if op == 'clear':
            self.make('').clear()
            return ['ok']
        c = self.obj(e)
        if op == 'get':
            dflt = None if e['dflt'] == 'None' else 'D1'
            return [self.name(c.get(e['key'], dflt, **self.kw(e)) if dflt or f % 2 else c.get(e['key'], **self.kw(e)), dflt)]
        if op == 'has':
            return [{True: 'True', False: 'False'}[c.has_key(e['key'], **self.kw(e))]]
        if op == 'del':
            c.delete(e['key'], **self.kw(e))
            return ['ok']
        if op == 'bad':
            try:
                c.set(e['key'], [lambda: 0, 'x' * (f % 100000)] if f % 2 else ['x' * (f % 100000), lambda: 0], **dict(self.kw(e)))
            except Exception:
                pass
            return ['ok']
        v = self.value(e['val'], f)
        kw = self.kw(e, True)
        if op == 'set':
            c.set(e['key'], v, **kw)
            return ['ok']
        if op == 'add':
            return ['True' if c.add(e['key'], v, **kw) else 'False']
        if op == 'watch':
            return self.watch(e, c, v, kw)
        before = self.read(e)
        if op == 'crash':
            return self.crash(e, c, v, kw, before)
        return self.inter(e, c, v, kw)

    def traced(self, hook, fn):
        def local(frame, event, arg):
            hook()
            return local

        def trace(frame, event, arg):
            if frame.f_code.co_filename in FILES:
                return local(frame, event, arg)
        busy = [False]
        original = hook

        def guarded():
            if busy[0]:
                return
            busy[0] = True
            sys.settrace(None)
            try:
                original()
            finally:
                sys.settrace(trace)
                busy[0] = False
        hook = guarded

        def run():
            sys.settrace(trace)
            try:
                fn()
            finally:
                sys.settrace(None)
        run()

    def watch(self, e, c, v, kw):
        seen = [self.read(e)]
        self.traced(lambda: seen.append(self.read(e)), lambda: c.set(e['key'], v, **kw))
        seen.append(self.read(e))
        old = seen[0]
        i = 0
        while i < len(seen) and seen[i] == old:
            i += 1
        rest = set(seen[i:])
        if seen[-1] == e['val'] and rest <= set([e['val']]):
            return ['old or new']
        return ['a concurrent reader saw %s while %s was replaced by %s' % (sorted(set(seen)), old, e['val'])]

    def crash(self, e, c, v, kw, before):
        """A child process stops at some point of the store: killed at a line, or at a byte of the file, or failing to write it."""
        f = e['f']
        how = f % 3
        pid = os.fork()
        if pid == 0:
            try:
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 2)
                backends.random = Fixed(f)
                if how == 0:
                    left = [f // 3 % 30]

                    def hook():
                        if left[0] == 0:
                            os._exit(9)
                        left[0] -= 1
                    self.traced(hook, lambda: c.set(e['key'], v, **kw))
                else:
                    size = [0, 1, 10, 20, 27, 28, 29, 30, 100, 1000, 4096, 8192, 20000, 100000][f // 3 % 14] + f // 42 % 3
                    limit(size, how == 1)
                    c.set(e['key'], v, **kw)
            except BaseException:
                pass
            os._exit(0)
        os.waitpid(pid, 0)
        after = self.read(e)
        e['landed'] = 'new' if after == e['val'] else 'old' if after == before else after
        return ['whole' if e['landed'] in ('old', 'new') else 'damaged: %s' % after]

    def inter(self, e, c, v, kw):
        """Another object stores val2 in the middle of the store of val, which may come to its end or not."""
        f = e['f']
        v2 = self.value(e['val2'], f // 7)
        left = [f // 3 % 25]
        die = f % 5 > 2
        size = [0, 1, 10, 28, 29, 30, 100, 1000, 4096, 20000, 100000][f // 75 % 11] + f // 825 % 3

        def hook():
            if left[0] == 0:
                self.obj(e, True).set(e['key'], v2, **kw)
                if die:
                    limit(size, f % 5 == 3)
            left[0] -= 1
        if die:
            pid = os.fork()
            if pid == 0:
                try:
                    os.dup2(os.open(os.devnull, os.O_RDWR), 2)
                    backends.random = Fixed(f)
                    self.traced(hook, lambda: c.set(e['key'], v, **kw))
                except BaseException:
                    pass
                os._exit(0)
            os.waitpid(pid, 0)
        else:
            self.traced(hook, lambda: c.set(e['key'], v, **kw))
        after = self.read(e)
        e['landed'] = '1' if after == e['val'] else '2' if after == e['val2'] else after
        return ['whole' if e['landed'] in ('1', '2') else 'damaged: %s' % after]


def limit(size, ignore):
    """No file can grow over the size: the write fails, or the process is killed."""
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN if ignore else signal.SIG_DFL)


class Fixed(object):
    """Stands in for the module random inside of the backend (in a child process only): no culling thread."""
    def __init__(self, f):
        pass

    @staticmethod
    def random():
        return 0.0

    def __getattr__(self, name):
        import random
        return getattr(random, name)


def execute(hdr, ev):
    clock.reset()
    w = World(hdr)
    res = []
    for e in ev:
        try:
            res.append(w.step(e))
        except Exception as x:
            res.append([smallrun.name_of(x)])
    shutil.rmtree(w.dir, ignore_errors=True)
    return res


smallrun.main('file', generate, execute)
