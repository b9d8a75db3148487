"""The generic backend base class: histories of spec/Adapter.tla on the real code."""
import warnings

import venv_env
from venv_env import clock, TICK
import vbackend
import smallrun

venv_env.configure()
Base = vbackend.make_simple_cache_class()


class Prefixed(Base):
    key_prefix = 'pre'


class OwnFunc(Base):
    @staticmethod
    def key_func(key, prefix, version):
        return 'v%s/%s/%s' % (version, prefix, key)


class DefaultVersion(Base):
    version = 7


KINDS = [Base, Prefixed, OwnFunc, DefaultVersion]


def sym(v):
    if v is None:
        return 'None'
    if isinstance(v, bool) or not isinstance(v, (int, str)):
        return '?%r' % (v,)
    return 'i%d' % v if isinstance(v, int) else v if v.startswith('D') else 's' + v


def real(v):
    return v['n'] if v['t'] == 'int' else v['s']


def gen_val(r):
    return {'t': 'int', 'n': r.choice([0, 0, 1, -5, 7, 10 ** 6]), 's': ''} if r.random() < 0.7 else \
        {'t': 'str', 'n': 0, 's': r.choice(['', 'x', 'long' * 20])}


def generate(r, prop, hdr_only=False):
    hdr = dict(kind=r.randrange(len(KINDS)))
    if hdr_only:
        return hdr
    keys = ['k%d' % i for i in range(r.choice([2, 3, 4]))]
    vers = r.choice([[1], [1, 2], [0, 1, 2, 3], [1, 5]])
    ints = set()
    ev = []
    for _ in range(r.randint(8, 30)):
        op = r.choice(['get', 'get', 'set', 'set', 'set', 'add', 'del', 'getm', 'getm', 'setm', 'delm', 'has', 'in', 'incr', 'incr',
                       'decr', 'incrv', 'decrv', 'tick', 'clear', 'vkey'])
        if op == 'vkey':
            ev.append(dict(op=op, f=r.randint(0, 9999), long=r.random() < 0.3, odd=r.random() < 0.5))
            continue
        if op == 'clear' and r.random() < 0.7:
            continue
        e = dict(op=op, f=r.randint(0, 9999))
        if op == 'tick':
            e['n'] = r.choice([1, 2, 5])
        elif op != 'clear':
            if op != 'in':
                e['ver'] = r.choice(vers)
            if op in ('getm', 'delm'):
                e['keys'] = [r.choice(keys) for _ in range(r.randint(0, 4))]
            elif op == 'setm':
                e['items'] = [dict(key=k, val={'t': 'int', 'n': r.randint(-3, 9), 's': ''}) for k in r.sample(keys, r.randint(0, len(keys)))]
            else:
                e['key'] = r.choice(keys)
            if op in ('set', 'add'):
                e['val'] = gen_val(r) if r.random() < 0.3 else {'t': 'int', 'n': r.randint(-3, 9), 's': ''}
                if e['val']['t'] == 'str':     # never used as a counter
                    e['key'] = 'str' + e['key']
            if op in ('get', 'has', 'getm', 'incrv', 'decrv', 'del') and r.random() < 0.2 and 'key' in e:
                e['key'] = 'str' + e['key']
            if op in ('set', 'add', 'setm'):
                e['timeout'] = r.choice([-1, -1, -1, 0, 1, 2, 4])
            if op in ('incr', 'decr'):
                e['n'] = r.choice([0, 1, 1, 2, 10, -3])
            if op in ('incrv', 'decrv'):
                e['n'] = r.choice([1, 1, 2, -1])
            if op == 'get':
                e['dflt'] = r.choice(['None', 'D1'])
        ev.append(e)
    return hdr, ev


def execute(hdr, ev):
    clock.reset()
    vbackend.reset()
    c = KINDS[hdr['kind']]('adapter')
    shift = c.version - 1
    return [[str(x) for x in step(c, shift, e)] for e in ev]


def step(c, shift, e):
    f = e['f']
    op = e['op']
    kw = {}
    if 'ver' in e and (e['ver'] != 1 or f % 3):
        kw['version'] = e['ver'] + shift
    if 'timeout' in e and (e['timeout'] != -1 or f % 2):
        kw['timeout'] = None if e['timeout'] == -1 else e['timeout'] * TICK
    if 'n' in e and op != 'tick' and (e['n'] != 1 or f % 2):
        kw['delta'] = e['n']
    try:
        if op == 'tick':
            clock.advance(e['n'])
        elif op == 'clear':
            c.clear()
        elif op == 'get':
            if e['dflt'] != 'None':
                kw['default'] = e['dflt']
            return [sym(c.get(e['key'], **kw))]
        elif op == 'set':
            c.set(e['key'], real(e['val']), **kw)
        elif op == 'add':
            return ['True' if c.add(e['key'], real(e['val']), **kw) else 'False']
        elif op == 'del':
            c.delete(e['key'], **kw)
        elif op == 'getm':
            keys = [lambda: e['keys'], lambda: tuple(e['keys']), lambda: iter(e['keys']), lambda: set(e['keys'])][f % 4]()
            return ['%s=%s' % (k, sym(v)) for k, v in c.get_many(keys, **kw).items()]
        elif op == 'setm':
            c.set_many(dict((x['key'], real(x['val'])) for x in e['items']), **kw)
        elif op == 'delm':
            c.delete_many(list(e['keys']) if f % 2 else iter(e['keys']), **kw)
        elif op == 'has':
            return [{True: 'True', False: 'False'}[c.has_key(e['key'], **kw)]]
        elif op == 'in':
            return [{True: 'True', False: 'False'}[e['key'] in c]]
        elif op in ('incr', 'decr'):
            return [sym(getattr(c, op)(e['key'], **kw))]
        elif op in ('incrv', 'decrv'):
            v = getattr(c, {'incrv': 'incr_version', 'decrv': 'decr_version'}[op])(e['key'], **kw)
            return [sym(v - shift)]
        elif op == 'vkey':
            key = 'x' * (251 if e['long'] else [1, 249, 100][f % 3])
            if e['odd']:
                at = f % len(key)
                key = key[:at] + [' ', '\n', '\x7f', '\x00', '\t'][f % 5] + key[at + 1:]
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                c.validate_key(key)
            return [['silent', 'warned', 'warned twice'][len(w)]]
        return ['ok']
    except ValueError as x:
        return ['ValueError'] if op in ('incr', 'decr', 'incrv', 'decrv') else [smallrun.name_of(x)]
    except Exception as x:
        return [smallrun.name_of(x)]


smallrun.main('adapter', generate, execute)
