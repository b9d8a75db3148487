"""Deferred queries: programs of spec/Deferred.tla on the real code."""
import collections

import venv_env
from venv_env import clock
import vbackend
import smallrun

venv_env.configure()
from django.core.cache import caches as dcaches
import django_cache_dependencies as ddc
from cache_dependencies import defer, dependencies, utils


class Failure(Exception):
    pass


def generate(r, prop, hdr_only=False):
    hdr = dict(kind=0)
    if hdr_only:
        return hdr
    ev = []
    if r.random() < 0.3:
        for _ in range(r.randint(1, 4)):
            ntags = r.choice([1, 3, 8])
            inv = set(r.sample(range(ntags), r.choice([0, 0, 1])))
            items = []
            for i in range(r.randint(0, 9)):
                tags = sorted(r.sample(range(ntags), r.randint(0, min(4, ntags))))
                items.append(dict(key='r%d' % i, tags=['t%d' % t for t in tags], stored=r.random() < 0.8,
                                  invalid=bool(inv & set(tags))))
            ev.append(dict(op='reads', items=items, inv=['t%d' % t for t in sorted(inv)], f=r.randint(0, 9999)))
        return hdr, ev
    objs, ids = {}, [0]
    crits = [dict(x=x, a=a) for x in (1, 2) for a in (0, 1)] + [dict(x=0, a=0)]
    crits = r.sample(crits, r.randint(1, len(crits)))
    keys = ['k%d' % i for i in range(r.randint(1, 5))]
    for x in (1, 2):
        for k in keys:
            if r.random() < 0.6:
                ev.append(dict(op='put', x=x, key=k, val='v%d' % r.randint(0, 99)))
    nests = r.choice([[0], [0, 0, 1], [0, 1, 2, 3]])

    def add(o):
        ids[0] += 1
        ev.append(dict(op='add', o=o, id=ids[0], keys=[r.choice(keys) for _ in range(r.randint(0, 3))], nest=r.choice(nests),
                       exc=r.random() < 0.1))
        objs[o][0] += 1
    for _ in range(r.randint(4, 22)):
        fresh = [o for o in objs if not objs[o][1]]
        q = r.random()
        if q < 0.25 and len(objs) < 6 or not fresh:
            if len(objs) >= 8:
                break
            o = 'd%d' % len(objs)
            objs[o] = [0, False]
            ev.append(dict(op='new', o=o, crit=r.choice(crits)))
            for _ in range(r.choice([0, 1, 1, 2])):
                add(o)
        elif q < 0.45:
            add(r.choice(fresh))
        elif q < 0.75:
            a, b = r.choice(fresh), r.choice(fresh)
            if objs[a][0] + objs[b][0] > 14:
                continue
            objs[a][0] += objs[b][0]
            ev.append(dict(op='iadd', a=a, b=b))
        elif q < 0.9:
            o = r.choice(list(objs))
            objs[o][1] = True
            for _ in range(r.choice([1, 1, 2])):
                ev.append(dict(op='get', o=o))
        else:
            k = r.choice(keys)
            ev.append(dict(op='put', x=r.choice([1, 2]), key=k, val='w%d' % r.randint(0, 99)) if r.random() < 0.7 else
                      dict(op='drop', x=r.choice([1, 2]), key=k))
    for o in objs:
        for _ in range(r.choice([0, objs[o][0] + 1, objs[o][0] + 2])):
            ev.append(dict(op='get', o=o))
    return hdr, [dict(e, f=r.randint(0, 9999)) for e in ev]


class Executor(object):
    """An executor given as a bound method, like cache.get_many."""

    def __init__(self, world, x):
        self.world, self.x, self.store = world, x, {}

    def query(self, keys, *args, **kwargs):
        a = self.world.number(args, kwargs)
        keys = list(keys)
        self.world.put(['query:x%sa%s' % (self.x, a)] + sorted(set(keys)) + (['twice'] if len(keys) != len(set(keys)) else []))
        got = {k: self.store[k] for k in keys if k in self.store}
        return got or (None if self.world.f % 2 else {})


class World(object):
    def __init__(self):
        self.ex = {1: Executor(self, 1), 2: Executor(self, 2)}
        self.objs, self.out, self.f = {}, None, 0

    def put(self, strings):
        self.out.append(strings)

    # equal but distinct arguments of every shape: a=0 and a=1 differ deep inside
    def args(self, a, f):
        shapes = [((a, [1, {'x': a}]), {}), ((), {'version': a, 'opt': [a, (1, 2)]}), ((a,), {'extra': {'p': [1], 'q': a}}),
                  ((), {'version': a})]
        self.shape = shapes.index(shapes[self.pick % len(shapes)])
        return shapes[self.pick % len(shapes)]

    pick = 0

    def number(self, args, kwargs):
        for a in (0, 1):
            if (tuple(args), dict(kwargs)) == self.args(a, 0):
                return a
        return '?%r%r' % (args, kwargs)

    def callback(self, node, found, *args, **kwargs):
        if kwargs:
            keys, op = args[0] if args else (), kwargs['op']
        else:
            keys, op = args[:2]
        wrong = []
        if list(keys) != op['keys'] and not isinstance(keys, (set, type({}.values()))) or set(keys) != set(op['keys']):
            wrong.append('wrong arguments')
        mine = ['none'] if found is None else ['%s=%s' % x for x in found.items()]
        self.put(['callback:%d' % op['id']] + mine + wrong)
        for _ in range(op['nest']):
            self.put(['got:' + self.take(node)])
        if op['exc']:
            raise Failure('exc%d' % op['id'])
        return 'res%d' % op['id']

    def take(self, target):
        try:
            return target.get()
        except StopIteration:
            return 'stop'
        except Failure as e:
            return str(e)
        except Exception as e:
            return smallrun.name_of(e)

    def new(self, e):
        c = e['crit']
        if c['x'] == 0:
            return defer.Deferred(None, defer.NoneDeferredIterator)
        args, kwargs = self.args(c['a'], e['f'])
        return defer.Deferred(self.ex[c['x']].query, defer.GetManyDeferredIterator, *args, **kwargs)

    def step(self, e):
        op, f = e['op'], e['f']
        self.f = f
        if op == 'put':
            self.ex[e['x']].store[e['key']] = e['val']
        elif op == 'drop':
            self.ex[e['x']].store.pop(e['key'], None)
        elif op == 'new':
            self.objs[e['o']] = self.new(e)
        elif op == 'add':
            keys = [list, tuple, set, lambda k: collections.OrderedDict((i, x) for i, x in enumerate(k)).values()][f % 4](e['keys'])
            target = self.objs[e['o']]
            if f % 5 == 0:
                target = target.node
            if f % 3:
                target.add_callback(self.callback, keys, e)
            else:
                target.add_callback(self.callback, keys, op=e)
        elif op == 'iadd':
            a, b = self.objs[e['a']], self.objs[e['b']]
            if e['a'] != e['b'] and f % 3 == 0:
                b = b.node
            before = a
            a += b
            self.objs[e['a']] = a
            if a is not before:
                return ['another object']
        elif op == 'get':
            self.out = []
            o = self.objs[e['o']]
            target = [o, o.node, o][f % 3]
            if f % 7 == 0:
                try:
                    ret = next(iter(o))
                except StopIteration:
                    ret = 'stop'
                except Failure as x:
                    ret = str(x)
            else:
                ret = self.take(target)
            self.put(['got:%s' % ret])
            return ['%d.%s' % (i + 1, s) for i, strings in enumerate(self.out) for s in strings]
        elif op == 'reads':
            return self.reads(e)
        return []

    def reads(self, e):
        vbackend.reset()
        clock.advance(40)
        c = ddc.caches['default']
        try:
            for i in e['items']:
                if i['stored']:
                    c.set(i['key'], 'val-' + i['key'], i['tags'])
            c.invalidate_tags(*e['inv'])
            vbackend.OPLOG[0] = log = []
            want = [i['key'] for i in e['items']]
            if e['f'] % 3 == 0 and len(want) == 1:
                v = c.get(want[0])
                got = {} if v is None else {want[0]: v}
            else:
                got = c.get_many(want)
        finally:
            vbackend.OPLOG[0] = None
            c.close()
        reads = [x for x in log if x[0] in ('get', 'get_many', 'has_key')]
        wrong = ['wrong:' + k for k, v in got.items() if v != 'val-' + k]
        return list(got) + wrong + ['cost:ok' if len(reads) <= 2 else 'cost:%d' % len(reads)]


def execute(hdr, ev):
    clock.reset()
    w = World()
    w.pick = ev[0]['f'] if ev else 0
    res = []
    for e in ev:
        try:
            res.append(w.step(e))
        except Exception as x:
            res.append([smallrun.name_of(x)])
    return res


smallrun.main('deferred', generate, execute)
