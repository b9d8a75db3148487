"""Executes events of spec/CacheDeps.tla on the real library, one real thread per session, in lock step."""
import _thread
import threading
import pickle
import collections

import venv_env
from venv_env import clock, TICK

_settings = venv_env.configure()

import django.core.cache
import vbackend
import django_cache_dependencies as ddc
from cache_dependencies import dependencies
from cache_dependencies.tagging import CacheTagging
from cache_dependencies.relations import RelationManager, ThreadSafeRelationManagerDecorator
from cache_dependencies.locks import DependencyLock
from cache_dependencies.transaction import TransactionManager, ThreadSafeTransactionManagerDecorator
from django.core import signals as core_signals

SimpleCache = vbackend.make_simple_cache_class()


class Point(object):
    """A picklable user object."""
    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return type(self) is type(other) and self.x == other.x

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def __repr__(self):
        return 'Point(%r)' % (self.x,)


def make_value(n):
    """A real value for the symbolic value number n; values of different numbers differ."""
    kinds = [
        lambda: n, lambda: 'value-%d' % n, lambda: {'n': n}, lambda: [n, None], lambda: ('t', n),
        lambda: '\u0437\u043d\u0430\u0447%d' % n, lambda: b'b%d' % n, lambda: {'__value': n, 'x': [1, {}]},
        lambda: Point(n), lambda: n + 0.5, lambda: collections.OrderedDict([('z', n), ('a', 1)]),
        lambda: 'x' * 3000 + str(n), lambda: set([n]), lambda: {'__dependency': n},
    ]
    return kinds[n % len(kinds)]()


FALSY = {'v0': 0, 'vfalse': False, 'vempty': '', 'vlist': [], 'vdict': {}, 'vtuple': (), 'vbytes': b'', 'vzero': 0.0,
         'vset': set()}


class Values(object):
    def __init__(self):
        self.items = []

    def real(self, sym):
        if sym == 'None':
            return None
        if sym in FALSY:
            v = pickle.loads(pickle.dumps(FALSY[sym]))
        else:
            v = make_value(int(sym[1:]) + 10)
        self.items.append((sym, v))
        return v

    def sym(self, v):
        if v is None:
            return 'None'
        if isinstance(v, Default):
            return v.sym
        for s, x in FALSY.items():
            if type(x) is type(v) and x == v:
                return s
        for s, x in self.items:
            if s in FALSY:
                continue
            if type(x) is type(v):
                fresh = make_value(int(s[1:]) + 10)
                if fresh == v:
                    return s
        return '?' + repr(v)[:200]


class Default(object):
    def __init__(self, sym):
        self.sym = sym


class Channel(object):
    """One value at a time, one producer, one consumer."""
    def __init__(self):
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.value = None

    def put(self, value):
        self.value = value
        self.lock.release()

    def get(self):
        self.lock.acquire()
        return self.value


class Session(object):
    """A real thread that serves commands; a command may serve further commands while it is running (callbacks)."""

    def __init__(self, name):
        self.inbox = Channel()
        self.outbox = Channel()
        self.stopped = False
        # all of one name: nothing but the thread itself tells sessions apart
        self.thread = threading.Thread(target=self.serve, name='worker')
        self.thread.daemon = True
        venv_env.real_thread_start(self.thread)

    def serve(self):
        while True:
            if self.stopped:
                return None
            cmd = self.inbox.get()
            if cmd is None:
                return None
            if isinstance(cmd, Return):
                return cmd.value
            if isinstance(cmd, Raise):
                raise cmd.error
            try:
                res = cmd()
            except BaseException as e:
                res = exc(e)
            if not self.stopped:
                self.outbox.put(res)

    def post(self, cmd):
        self.inbox.put(cmd)

    def call(self, cmd):
        self.inbox.put(cmd)
        return self.outbox.get()

    def stop(self):
        self.stopped = True
        self.inbox.put(None)


class Return(object):
    def __init__(self, value):
        self.value = value


class Raise(object):
    def __init__(self, error):
        self.error = error


class Planned(Exception):
    """Raised by wrapped code and callbacks on purpose."""


class PlannedExit(SystemExit):
    pass


class PlannedInterrupt(KeyboardInterrupt):
    pass


PLANNED = (Planned, PlannedExit, PlannedInterrupt)


def planned(e):
    """What the caller's code raises. (Middleware sees only subclasses of Exception.)"""
    kind = PLANNED[(0, 0, 1, 2)[e.get('f', 0) % 4]] if not e.get('wrap', '').startswith('mw') else Planned
    return kind('planned')


class Response(object):
    def __init__(self, value):
        self.value = value


def strange(r):
    return r if isinstance(r, str) else 'EXC:strange:%r' % (r,)


def exc(e):
    return 'EXC:{0}:{1}'.format(type(e).__name__, str(e)[:200])


def legacy(name):
    """The deprecated names of the modules and functions."""
    import cache_tagging.django_cache_tagging as dct
    return dct.get_cache(name) if len(name) % 2 else dct.caches[name]


class World(object):
    """One trace: cfg is a list of aliases {iso, delay, be, name, backend}; names maps symbols to real names."""

    def __init__(self, cfg, nsess, names, wiring='django'):
        self.cfg = cfg
        self.names = names
        self.wiring = wiring
        self.values = Values()
        self.log = []
        clock.reset()
        vbackend.reset()
        _settings.CACHE_TAGGING = dict(
            (a['name'], dict((k, v) for k, v in (
                ('ISOLATION_LEVEL', a['iso'] if not a.get('isodflt') else None),
                ('DELAY', a['delay'] * TICK if a['delay'] else a.get('nodelay')),
                ('BACKEND', a['backend'])) if v is not None)) for a in cfg if not a.get('nosettings'))
        for a in cfg:
            if a['backend'].startswith('lm'):
                django.core.cache.caches[a['backend']].clear()
        self.local = threading.local()
        self.shared_deps = {}    # dependency objects that the caller uses again and again
        self.make_sessions(nsess)
        self.internal = {}
        self.levels = 0
        self.ready()

    def make_sessions(self, nsess):
        self.sessions = [Session('s%d' % (i + 1)) for i in range(nsess)]
        self.observer = Session('observer')

    def ready(self):
        pass

    def close(self):
        for s in self.sessions:
            s.stop()
        self.observer.stop()
        for s in self.sessions + [self.observer]:
            s.thread.join(5)

    # -- access to the cache object of the calling thread

    def cache(self, al):
        a = self.cfg[al - 1]
        if self.wiring == 'abstract':
            if not hasattr(self.local, 'caches'):
                self.local.caches = {}
            if al not in self.local.caches:
                lock = DependencyLock.make(a['iso'], lambda: self.cache(al).cache, a['delay'] * TICK)
                self.local.caches[al] = CacheTagging(
                    SimpleCache(a['backend']),
                    ThreadSafeRelationManagerDecorator(RelationManager()),
                    ThreadSafeTransactionManagerDecorator(TransactionManager(lock)))
            return self.local.caches[al]
        if a.get('proxy'):
            return ddc.cache
        if a.get('getcache'):
            return ddc.get_cache(a['name'])
        if a.get('legacy'):
            return legacy(a['name'])
        return ddc.caches[a['name']]

    def own_aliases(self):
        return range(1, len(self.cfg) + 1)

    def raw_store(self, al):
        a = self.cfg[al - 1]
        if a['backend'].startswith('lm'):
            return django.core.cache.caches[a['backend']]
        return vbackend.store('default' if a['backend'] == 'default' else
                              'shared' if a['backend'] == 'pv0' else a['backend'])

    def raw_keys(self, al):
        st = self.raw_store(al)
        return list((st._cache if hasattr(st, '_cache') else st.data).keys())

    def raw_drop(self, al, keys):
        st = self.raw_store(al)
        for k in keys:
            if hasattr(st, '_cache'):
                st._cache.pop(k, None)
                st._expire_info.pop(k, None)
            else:
                st.data.pop(k, None)

    def raw_record_key(self, al, ver, key):
        a = self.cfg[al - 1]
        if self.wiring == 'abstract':
            v = self.version(ver)
            return SimpleCache(a['backend']).make_key(self.key(key), v)
        return django.core.cache.caches[a['backend']].make_key(self.key(key), version=self.version(ver))

    # -- names

    def tag(self, t):
        return self.names['tags'][t]

    def key(self, k):
        return self.names['keys'][k]

    @staticmethod
    def version(ver):
        return None if ver == 'd' else int(ver)

    def vkw(self, e):
        if e['ver'] == 'd' and e.get('f', 0) % 2 == 0:
            return {}
        return {'version': self.version(e['ver'])}

    def to(self, e):
        return None if e['timeout'] == -1 else e['timeout'] * TICK

    # -- forms of tags

    def tags_form(self, tags, f, allow_dep=True):
        real = [self.tag(t) for t in tags]
        T, C = dependencies.TagsDependency, dependencies.CompositeDependency
        forms = [lambda: tuple(real), lambda: list(real), lambda: set(real), lambda: frozenset(real)]
        if allow_dep:
            forms += [lambda: T(*real) if len(real) != 1 or not isinstance(real[0], tuple) else T(real),
                      lambda: T(real), lambda: C(*[T(x) for x in real]), lambda: C(T(real[:1]), C(T(real[1:]))),
                      lambda: T(set(real)), lambda: C(dependencies.DummyDependency(), T(tuple(real)))]
            k = tuple(sorted(tags))
            forms += [lambda: self.shared_deps.setdefault((threading.get_ident(), k), T(list(real)))] * 2
            if not real:
                forms += [lambda: dependencies.DummyDependency(), lambda: C()]
        return forms[f % len(forms)]()

    # -- events

    def run(self, e):
        """Executes one event, returns what was observed."""
        entry = dict(e, obs='EXC:hang')
        self.log.append(entry)
        entry['obs'] = self.run1(e)
        return entry['obs']

    def run1(self, e):
        op = e['op']
        if op == 'tick':
            clock.advance(e['n'])
            if clock.errors:
                return clock.errors.pop()
            return 'ok'
        if op in ('loserec', 'losetag', 'loseint'):
            return self.lose(e)
        if op == 'peek':
            return self.observer.call(lambda: self.peek(e))
        s = self.sessions[e['s'] - 1]
        if op == 'gos1':
            s.post(lambda: self.gos(s, e))
            return s.outbox.get()
        if 'wrap' in e and op == 'begin':
            s.post(lambda: self.wrapped(s, e))
            return strange(s.outbox.get())
        if 'wrap' in e:
            if e['raises']:
                err = planned(e)
                s.post(Raise(err))
                r = s.outbox.get()
                return 'ok' if isinstance(r, tuple) and r[0] == 'raised' and r[1] is err else strange(r)
            val = object()
            s.post(Return(val))
            r = s.outbox.get()
            return 'ok' if isinstance(r, tuple) and r[0] == 'returned' and (r[1] is val or r[1] == 'nothing') else strange(r)
        if op == 'gosx':
            err = planned(e)
            s.post(Raise(err))
            r = s.outbox.get()
            return 'raised' if isinstance(r, tuple) and r[0] == 'raised' and r[1] is err else strange(r)
        if op == 'gos2':
            s.post(Return(self.values.real(e['val'])))
            r = s.outbox.get()
            return self.values.sym(r.value) if isinstance(r, Return) else strange(r)
        if op == 'foreign':
            return self.foreign(e)
        if op == 'renew':
            s.stop()
            s.thread.join(5)
            # the system gives the identifier of the ended thread to the new one
            self.sessions[e['s'] - 1] = Session('s%d' % e['s'])
            return 'ok'
        return s.call(lambda: getattr(self, 'do_' + op)(e))

    def peek(self, e):
        res = []
        for al in self.own_aliases():
            c = self.cache(al)
            for ver in self.names['vers']:
                keys = dict((self.key(k), k) for k in self.names['keys'])
                got = c.get_many(list(keys), version=self.version(ver), abort=True)
                for rk, v in got.items():
                    res.append([al, ver, keys[rk], self.values.sym(v)])
        return sorted(res)

    def do_get(self, e):
        c = self.cache(e['al'])
        kw = self.vkw(e)
        if e['abort']:
            kw['abort'] = True
        d = e['dflt']
        key = self.key(e['key'])
        for i in range(e.get('deep', 0)):
            c.get('%s-%d' % (key, i), **kw)
        if d == 'None':
            v = c.get(key, **kw) if e.get('f', 0) % 3 else c.get(key, None, **kw)
        else:
            dv = Default(d) if d.startswith('D') else self.values.real(d)
            if e.get('f', 0) % 3 == 1:
                v = c.get(key, default=dv, **kw)
            else:
                v = c.get(key, dv, **kw)
        return self.values.sym(v)

    def fill(self, e, records):
        c = self.cache(e['al'])
        for k, v in records.items():
            c.set(k, v, ['of-others-%d' % (v % 7)][:v % 3], version=self.version(e['ver']))

    def do_getm(self, e):
        c = self.cache(e['al'])
        kw = self.vkw(e)
        if e['abort']:
            kw['abort'] = True
        real = dict((self.key(k), k) for k in e['keys'])
        keys = [self.key(k) for k in e['keys']]
        f = e.get('f', 0) % 6
        big = dict(('big-%d' % i, i) for i in range(e.get('big', 0)))
        if big:
            self.observer.call(lambda: self.fill(e, big))
            keys = keys + list(big)
        arg = [lambda: keys, lambda: tuple(keys), lambda: set(keys), lambda: (k for k in keys),
               lambda: dict.fromkeys(keys).keys(), lambda: iter(keys)][f]()
        got = c.get_many(arg, **kw)
        if big:
            self.observer.call(lambda: self.cache(e['al']).delete_many(list(big), **self.vkw(e)))
            if dict((k, got.pop(k, None)) for k in big) != big:
                return 'others are missing'
        return sorted([real.get(k, '?' + str(k)), self.values.sym(v)] for k, v in got.items())

    def do_set(self, e):
        c = self.cache(e['al'])
        f = e.get('f', 0)
        kw = self.vkw(e)
        key, val = self.key(e['key']), self.values.real(e['val'])
        if not e['tags'] and f % 5 == 0:
            if e['timeout'] != -1 or f % 2:
                kw['timeout'] = self.to(e)
            r = c.set(key, val, **kw)
        elif not e['tags'] and f % 5 == 1 and e['timeout'] != -1:
            # native signature: key, value, timeout, version
            if e['ver'] != 'd':
                r = c.set(key, val, self.to(e), self.version(e['ver']))
            else:
                r = c.set(key, val, self.to(e))
        elif not e['tags'] and f % 5 == 2 and e['timeout'] == -1:
            r = c.set(key, val, None, **kw)
        elif f % 7 == 3:
            # the level below: dependency only
            r = c.cache.set(key, val, self.tags_form(e['tags'], 4 + f // 7 % 8), self.to(e), self.version(e['ver'])) \
                if not self.cfg[e['al'] - 1].get('proxy') else \
                c.set(key, val, self.tags_form(e['tags'], f), self.to(e), self.version(e['ver']))
        elif f % 7 == 4:
            r = c.set(key, val, self.tags_form(e['tags'], f // 7), self.to(e), self.version(e['ver']))
        else:
            if e['timeout'] != -1 or f % 2:
                kw['timeout'] = self.to(e)
            r = c.set(key, val, tags=self.tags_form(e['tags'], f // 7), **kw)
        return 'ok'

    def do_nset(self, e):
        c = self.cache(e['al'])
        c.set_many({self.key(e['key']): self.values.real(e['val'])}, timeout=self.to(e), version=self.version(e['ver']))
        return 'ok'

    def do_add(self, e):
        c = self.cache(e['al'])
        r = c.add(self.key(e['key']), self.values.real(e['val']), timeout=self.to(e), version=self.version(e['ver']))
        return 'True' if r else 'False'

    def do_del(self, e):
        c = self.cache(e['al'])
        if len(e['keys']) == 1 and e.get('f', 0) % 2:
            c.delete(self.key(e['keys'][0]), version=self.version(e['ver']))
        else:
            c.delete_many([self.key(k) for k in e['keys']], version=self.version(e['ver']))
        return 'ok'

    def do_clear(self, e):
        self.cache(e['al']).clear()
        return 'ok'

    def gos(self, s, e):
        c = self.cache(e['al'])
        f = e.get('f', 0)
        want = [((), {}), ((1, 'a'), {}), ((), {'k': [2]}), ((3,), {'x': None})][f % 4]
        calls = []

        def callback(*args, **kwargs):
            calls.append((args, kwargs))
            if (args, kwargs) != want:
                s.outbox.put('EXC:arguments:%r' % ((args, kwargs),))
            elif len(calls) > 1:
                s.outbox.put('EXC:called %d times' % len(calls))
            else:
                s.outbox.put('miss')
            return s.serve()

        kw = self.vkw(e)
        if want[0] or f % 3 == 1:
            kw['args'] = want[0] if f % 2 else list(want[0])
        if want[1] or f % 3 == 1:
            kw['kwargs'] = want[1]
        if e['timeout'] != -1:
            kw['timeout'] = self.to(e)
        tags = self.tags_form(e['tags'], f // 5)
        try:
            if f % 5 == 4 and not self.cfg[e['al'] - 1].get('proxy'):
                v = c.cache.get_or_set_callback(self.key(e['key']), callback, self.tags_form(e['tags'], 4 + f // 5 % 8), **kw)
            else:
                v = c.get_or_set_callback(self.key(e['key']), callback, tags, **kw)
        except PLANNED as x:
            return ('raised', x)
        if calls:
            return Return(v)
        return self.values.sym(v)

    # -- wrappers of transactions

    def wrapped(self, s, e):
        """Runs the session inside of a wrapper; the wrapped code serves commands until it returns or raises."""
        c = self.cache(e['al'])
        kind = e['wrap']
        al = self.cfg[e['al'] - 1]

        def body(*args, **kwargs):
            s.outbox.put('ok' if (args, kwargs) == ((1, 'a'), {'k': None}) else 'EXC:arguments:%r' % ((args, kwargs),))
            return s.serve()

        def call(make):
            """The decorated function is made once in a trace for every thread, and is called again and again."""
            if not hasattr(self.local, 'decorated'):
                self.local.decorated = {}
                self.local.bodies = []
            k = (kind, e['al'], e.get('f', 0) % 2)
            if k not in self.local.decorated:
                def function(*args, **kwargs):
                    """doc"""
                    return self.local.bodies[-1](*args, **kwargs)
                self.local.decorated[k] = make(function)
            self.local.bodies.append(body)
            try:
                return self.local.decorated[k](1, 'a', k=None)
            finally:
                self.local.bodies.pop()
        try:
            if kind == 'with':
                with c.transaction:
                    v = body(1, 'a', k=None)
            elif kind == 'with()':
                with c.transaction():
                    v = body(1, 'a', k=None)
            elif kind == 'deco':
                v = call(lambda fn: c.transaction(fn))
            elif kind == 'deco()':
                v = call(lambda fn: c.transaction()(fn))
            elif kind == 'shared':
                # decorated in another thread (at import time), only the proxy of the default cache can do that
                if 'shared' not in self.shared_deps:
                    self.shared_deps['shared'] = self.observer.call(
                        lambda: c.transaction(lambda fn, *a, **k: fn(*a, **k)))
                v = self.shared_deps['shared'](body, 1, 'a', k=None)
            elif kind in ('ct', 'ct2', 'ct3', 'cta', 'cta2', 'cta3'):
                from django_cache_dependencies import decorators
                d = decorators.cache_transaction if kind.startswith('ct') and not kind.startswith('cta') \
                    else decorators.cache_transaction_all
                if kind[-1] == '2':
                    v = call(lambda fn: d(c)(fn)) if not al.get('proxy') else call(lambda fn: d()(fn))
                elif kind[-1] == '3' and al['name'] == 'default':
                    v = call(lambda fn: d(fn))
                elif e.get('f', 0) % 2:
                    v = call(lambda fn: d(fn, cache=c))
                else:
                    v = call(lambda fn: d(cache=c)(fn))
            elif kind == 'mw':
                v = self.middleware(al, body)
            elif kind == 'mwdeco':
                from django.utils.decorators import decorator_from_middleware_with_args
                from django_cache_dependencies.middleware import TransactionMiddleware
                d = decorator_from_middleware_with_args(TransactionMiddleware)(cache_alias=al['name'])

                def view(request):
                    return Response(body(1, 'a', k=None))
                v = d(view)(object()).value
            return ('returned', v)
        except PLANNED as x:
            return ('raised', x)

    def middleware(self, al, body):
        from django_cache_dependencies.middleware import TransactionMiddleware
        kw = {'cache_alias': al['name']}
        if al['name'] == 'default' and len(al['iso']) % 2:
            kw = {'cache_alias': None} if al['delay'] else {}
        mw = TransactionMiddleware(**kw)
        request = object()
        if mw.process_request(request) is not None:
            return 'EXC:process_request'
        try:
            value = body(1, 'a', k=None)
        except Exception as x:
            if mw.process_exception(request, x) is not None:
                return 'EXC:process_exception'
            raise
        response = Response(value)
        if mw.process_response(request, response) is not response:
            return 'EXC:process_response'
        return value

    def do_inv(self, e):
        c = self.cache(e['al'])
        f = e.get('f', 0)
        kw = self.vkw(e)
        if f % 3 == 0 and e['tags'] and not (len(e['tags']) == 1 and isinstance(self.tag(e['tags'][0]), tuple)):
            c.invalidate_tags(*[self.tag(t) for t in e['tags']], **kw)
        elif f % 3 == 1 and not self.cfg[e['al'] - 1].get('proxy'):
            c.cache.invalidate_dependency(self.tags_form(e['tags'], 4 + f // 3 % 8), self.version(e['ver']))
        else:
            c.invalidate_tags(self.tags_form(e['tags'], f // 3), **kw)
        return 'ok'

    def do_begin(self, e):
        c = self.cache(e['al'])
        f = e.get('f', 0) % 4
        if f == 1:
            c.transaction_begin()
        elif f == 2:
            c.transaction.__enter__()
        else:
            c.transaction.begin()
        return 'ok'

    def do_finish(self, e):
        c = self.cache(e['al'])
        f = e.get('f', 0) % 4
        if f == 1:
            c.transaction_finish()
        elif f == 2:
            c.transaction.__exit__(None, None, None)
        elif f == 3:
            try:
                raise KeyError('rollback')
            except KeyError as x:
                c.transaction.__exit__(type(x), x, x.__traceback__)
        else:
            c.transaction.finish()
        return 'ok'

    def do_flush(self, e):
        c = self.cache(e['al'])
        if e.get('f', 0) % 2:
            c.transaction_finish_all()
        else:
            c.transaction.flush()
        return 'ok'

    def do_close(self, e):
        self.cache(e['al']).close()
        return 'ok'

    def do_reqend(self, e):
        if self.wiring == 'abstract':
            for al in self.own_aliases():
                self.cache(al).close()
        else:
            # the objects exist as soon as they are used; use them all, so that the aliases of the trace are covered
            core_signals.request_finished.send(sender=self.__class__)
        return 'ok'

    def do_level(self, e):
        self.levels += 1
        name = 'level%d' % self.levels
        a = self.cfg[e['al'] - 1]
        try:
            if self.wiring == 'abstract':
                DependencyLock.make(e['name'], lambda: SimpleCache('probe'), 0)
            else:
                _settings.CACHE_TAGGING[name] = {'ISOLATION_LEVEL': e['name'], 'BACKEND': a['backend']}
                ddc.caches[name].invalidate_tags('no such tag')
        except Exception:
            return 'rejected'
        finally:
            _settings.CACHE_TAGGING.pop(name, None)
        return 'ok'

    def do_abort(self, e):
        self.cache(e['al']).abort(self.key(e['key']))
        return 'ok'

    def do_ign(self, e):
        c = self.cache(e['al'])
        c.ignore_descendants = e['on']
        if bool(c.ignore_descendants) != e['on']:
            return 'EXC:ignore_descendants reads %r' % (c.ignore_descendants,)
        return 'ok'

    def foreign(self, e):
        """Session e.s2 gets hold of the cache object of session e.s and uses it."""
        if e['what'] == 'same':
            a = self.sessions[e['s'] - 1].call(lambda: self.cache(e['al']))
            b = self.sessions[e['s'] - 1].call(lambda: self.cache(e['al']))
            c = self.sessions[e['s2'] - 1].call(lambda: self.cache(e['al']))
            if self.cfg[e['al'] - 1].get('proxy'):
                return 'RuntimeError'
            return 'RuntimeError' if a is b and a is not c else 'EXC:not one object per thread'
        obj = self.sessions[e['s'] - 1].call(lambda: self.real(e['al']))
        what = e['what']

        def use():
            try:
                if what == 'begin':
                    obj.transaction.begin()
                elif what == 'finish':
                    obj.transaction.finish()
                elif what == 'current':
                    obj.transaction.current()
                elif what == 'get':
                    obj.get(self.key(e['key']), version=self.version(e['ver']))
                elif what == 'getm':
                    obj.get_many([self.key(e['key'])], version=self.version(e['ver']))
                elif what == 'set':
                    obj.set(self.key(e['key']), 'foreign', [self.tag(t) for t in e['tags']])
                elif what == 'inv':
                    obj.invalidate_tags(*[self.tag(t) for t in e['tags']])
                elif what == 'abort':
                    obj.abort(self.key(e['key']))
                elif what == 'flush':
                    obj.transaction.flush()
                elif what == 'close':
                    obj.close()
                elif what == 'with':
                    with obj.transaction:
                        pass
            except RuntimeError:
                return 'RuntimeError'
            return 'no error'
        return self.sessions[e['s2'] - 1].call(use)

    def real(self, al):
        a = self.cfg[al - 1]
        return ddc.caches[a['name']] if a.get('proxy') else self.cache(al)

    # -- losses

    def record_raw_keys(self, al):
        res = set()
        for ver in self.names['vers']:
            for k in self.names['keys']:
                res.add(self.raw_record_key(al, ver, k))
        return res

    def lose(self, e):
        al = e['al']
        if e['op'] == 'loserec':
            self.raw_drop(al, [self.raw_record_key(al, e['ver'], e['key'])])
        elif e['op'] == 'loseint':
            recs = self.record_raw_keys(al)
            self.raw_drop(al, [k for k in self.raw_keys(al) if k not in recs])
        else:
            self.raw_drop(al, self.tag_raw_keys(al, e['ver'], e['tag']))
        return 'ok'

    def tag_raw_keys(self, al, ver, tag):
        """Learned from behaviour: what, other than the record, saving a record with the tag creates."""
        k = (al, ver, tag)
        if k not in self.internal:
            a = self.cfg[al - 1]

            def probe():
                if self.wiring == 'abstract':
                    lock = DependencyLock.make('READ COMMITTED', lambda: c.cache, 0)
                    c = CacheTagging(SimpleCache('probe'), RelationManager(), TransactionManager(lock))
                    rec = SimpleCache('probe').make_key('probe', self.version(ver))
                    st = vbackend.store('probe')
                else:
                    b = type(django.core.cache.caches[a['backend']])
                    real = django.core.cache.caches[a['backend']]
                    pb = vbackend.VBackend('probe', {})
                    pb.key_prefix, pb.version, pb.key_func = real.key_prefix, real.version, real.key_func
                    lock = DependencyLock.make('READ COMMITTED', lambda: c.cache, 0)
                    c = CacheTagging(pb, RelationManager(), TransactionManager(lock))
                    rec = pb.make_key('probe', version=self.version(ver))
                    st = vbackend.store('probe')
                st.data.clear()
                c.set('probe', 1, (self.tag(tag),), None, self.version(ver))
                return [x for x in st.data if x != rec]
            keys = self.observer.call(probe)
            self.internal[k] = keys if isinstance(keys, list) else []
        return self.internal[k]
