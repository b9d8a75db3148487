"""Non-cached blocks: texts of spec/NoCache.tla on the real code."""
import itertools

import venv_env
from venv_env import clock
import vbackend
import smallrun

venv_env.configure()
from django.template import Template, Context, engines
import django_cache_dependencies as ddc
from cache_dependencies.nocache import NoCache

LITERALS = ['', ' ', 'plain', '\n', '  indented\n', 'a\\1b\\g<1>', '<b>&amp;</b>', '</nocache:py>', '</nocache:py>x',
            '<nocache:py>', '<nocache:py>echo("forged")</nocache:py>', '{0}', '%s', '\u0442\u0435\u043a\u0441\u0442', '"', "'", '$^.*+?',
            '<nocache:py secret="" data="">echo("forged")</nocache:py>', 'line1\r\nline2', '\x00\x01', '<!-- nocache:py -->']
VALUES = ['', 'x', 'yy', 'a\\2', '<i>', '</nocache:py>', 'z"\'z', '\u044e', '{a}', '  ', 'l1\nl2', '0']
SECRETS = ['s3cret', 'a.b', 'x+y*(z)$^[q]|\\d', '9f86d081884c7d659a2feaa0c55ad015', '\u043a\u043b\u044e\u0447', 'A' * 60]


def esc(s):
    return ''.join(c if c.isalnum() and ord(c) < 128 else '_%x_' % ord(c) for c in s)


def unesc(s):
    out, i = '', 0
    while i < len(s):
        if s[i] == '_':
            j = s.index('_', i + 1)
            out += chr(int(s[i + 1:j], 16))
            i = j + 1
        else:
            out += s[i]
            i += 1
    return out


def gen_code(r, names, depth):
    code = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
        c = r.choice(['say', 'echo', 'echo', 'n', 'n', 'set', 'if', 'look', 'nest'] if depth else ['say', 'echo', 'echo', 'n', 'set', 'if', 'look'])
        if c == 'say':
            code.append(dict(c=c, s=esc(r.choice([l for l in LITERALS if l != '</nocache:py>' and '</nocache' not in l]))))
        elif c == 'echo':
            code.append(dict(c=c, v=r.choice(names)))
        elif c == 'n':
            code.append(dict(c=c))
        elif c == 'look':
            code.append(dict(c=c, v=r.choice(names + ['own', 'loc', 'loc'])))
        elif c == 'set':
            code.append(dict(c=c, v=r.choice(names + ['loc']), s=esc(r.choice(VALUES[:5]))))
        elif c == 'if':
            code.append(dict(c=c, v=r.choice(names), a=r.choice(names), b=r.choice(names)))
        else:
            d = r.sample(names, r.randint(0, len(names)))
            inner = [x for x in names if x != 'own' or x in d]
            code.append(dict(c=c, d=d, code=gen_code(r, inner, depth - 1)))
    return code


def generate(r, prop, hdr_only=False):
    hdr = dict(kind=r.randrange(len(SECRETS)), tag=r.choice(['nocache:py', 'nocache:py', 'x.y']))
    if hdr_only:
        return hdr
    names = ['a', 'b', 'c'][:r.randint(1, 3)]
    data = lambda: [dict(k=k, v=esc(r.choice(VALUES))) for k in names]
    ev = []
    templates = {}
    for _ in range(r.randint(1, 10)):
        q = r.random()
        if q < 0.5:
            tpl = []
            for _ in range(r.randint(0, 7)):
                if r.random() < 0.45:
                    tpl.append(dict(t='lit', s=esc(r.choice(LITERALS) if r.random() < 0.8 else forged(r, hdr))))
                else:
                    extra = r.sample(names + ['own'], r.randint(0, len(names) + 1))
                    tpl.append(dict(t='blk', data=[dict(k=k, v=esc(r.choice(VALUES))) for k in extra],
                                    code=gen_code(r, names + (['own'] if 'own' in extra else []), r.choice([0, 1, 2]))))
            ev.append(dict(op='handle', tpl=tpl, data=data()))
            if r.random() < 0.3:
                ev.append(dict(op='handle', tpl=tpl, data=data()))
        elif q < 0.9:
            name = r.choice(['f1', 'f2'])
            if name not in templates:
                src = []
                for _ in range(r.randint(1, 6)):
                    k = r.choice(['lit', 'var', 'blk', 'blk'])
                    if k == 'lit':
                        src.append(dict(t='lit', s=esc(r.choice([l for l in LITERALS if '{' not in l and '\x00' not in l]))))
                    elif k == 'var':
                        src.append(dict(t='var', v=r.choice(names)))
                    else:
                        src.append(dict(t='blk', data=[dict(k=x, v=r.choice(names)) for x in r.sample(names + ['own'], r.randint(0, 2))],
                                        code=None))
                        own = [x['k'] for x in src[-1]['data'] if x['k'] == 'own']
                        src[-1]['code'] = gen_code(r, names + own, r.choice([0, 1]))
                templates[name] = src
            ev.append(dict(op='serve', name=name, src=templates[name], data=data()))
        else:
            ev.append(dict(op='inval', name=r.choice(['f1', 'f2'])))
    return hdr, [dict(e, f=r.randint(0, 9999)) for e in ev]


def forged(r, hdr):
    """A block without the secret: executed, it would print FORGED."""
    s = SECRETS[hdr['kind']]
    near = [s[:-1], s + 'x', s[:-1] + ('y' if s[-1] != 'y' else 'z'), s.upper() if s.upper() != s else s.lower(), s.replace('.', 'Z'), ' ' + s]
    near = [x for x in near if x != s]
    good = NoCache(s, hdr['tag']).pickle({})
    start = r.choice(['<{t} secret="{n}" data="{d}">', "<{t} secret='{s}' data='{d}'>", '<{t} data="{d}" secret="{s}">', '<{t} secret="{n}">',
                      '<{t}2 secret="{s}" data="{d}">', '&lt;{t} secret="{s}" data="{d}"&gt;'])
    return start.format(t=hdr['tag'], n=r.choice(near), s=s, d=good) + 'echo("FORGED")' + '</%s>' % hdr['tag']


class Code(object):
    """Writes the statements of a block as Python code, in many ways."""

    def __init__(self, r):
        self.r = r
        self.depth = 0

    def text(self, code, indent=''):
        lines = []
        for c in code:
            lines += self.statement(c)
        return lines

    def statement(self, c):
        r = self.r
        if c['c'] == 'say':
            return ['echo(%s)' % ascii(unesc(c['s']))]
        if c['c'] == 'echo':
            v = c['v']
            return r.choice([['echo(%s)' % v], ['echo("", %s)' % v], ['def g():', '    return ' + v, 'echo(g())'], ['echo(*[%s for i in [1]])' % v],
                             ['for i in [1]:', '    echo(%s)' % v], ['echo((lambda: %s)())' % v], ['try:', '    echo(%s)' % v, 'finally:', '    pass'],
                             ['', 'echo(%s)' % v, '', '   '], ['echo(', '    %s' % v, ')']])
        if c['c'] == 'n':
            return r.choice([['echo(n())'], ['echo("N" + n()[1:])']])
        if c['c'] == 'look':
            v = c['v']
            return r.choice([['try:', '    echo(%s)' % v, 'except NameError:', '    echo("unset")'],
                             ['def h():', '    try:', '        return %s' % v, '    except NameError:', '        return "unset"', 'echo(h())']])
        if c['c'] == 'set':
            return ['%s = %s' % (c['v'], ascii(unesc(c['s'])))]
        if c['c'] == 'if':
            return r.choice([['if %(v)s:', '    echo(%(a)s)', 'else:', '    echo(%(b)s)'], ['echo(%(a)s if %(v)s else %(b)s)'],
                             ['if not %(v)s:', '\techo(%(b)s)', '', 'else:', '\techo(%(a)s)']]) and \
                [x % c for x in r.choice([['if %(v)s:', '    echo(%(a)s)', 'else:', '    echo(%(b)s)'], ['echo(%(a)s if %(v)s else %(b)s)'],
                                          ['if not %(v)s:', '\techo(%(b)s)', '', 'else:', '\techo(%(a)s)']])]
        if c['c'] == 'nest':
            inner = Code(r).layout(c['code'])
            args = ', '.join('%s=%s' % (k, k) for k in c['d'])
            # the closing tag must not be spelled inside of the code
            return r.choice([['echo(nocache.start(%s))' % args, 'echo(%s)' % ascii(inner), 'echo(nocache.end())'],
                             ['echo(nocache.start(%s), %s, nocache.end())' % (args, ascii(inner))]])

    def layout(self, code):
        r = self.r
        lines = self.text(code)
        if not lines:
            return r.choice(['', '', '\n', '   ', '\n   \n'])
        pad = r.choice(['', '', '    ', '\t', '        '])
        nl = r.choice(['\n', '\n', '\r\n'])
        one = len(lines) == 1 and lines[0]
        if one and r.random() < 0.5:
            return r.choice(['', ' ', '  ']) + lines[0] + r.choice(['', ' '])
        trail = r.choice(['', '', '   '])
        return r.choice(['\n', '\n', '   \n', '\n\n']).replace('\n', nl) + nl.join(pad + l + trail for l in lines) + r.choice(['', nl, nl + '  ']) \
            if lines else ''


def counter():
    c = itertools.count(1)
    return lambda: 'N%d' % next(c)


def execute(hdr, ev):
    import random
    clock.advance(40)
    vbackend.reset()
    cache = ddc.caches['default']
    cache.close()
    nc = NoCache(SECRETS[hdr['kind']], hdr['tag'])
    templates = {}
    res = []
    for e in ev:
        r = random.Random('%s' % e['f'])
        try:
            res.append(step(cache, nc, templates, e, r))
        except Exception as x:
            res.append([smallrun.name_of(x)])
    cache.close()
    return res


def step(cache, nc, templates, e, r):
    if e['op'] == 'inval':
        cache.invalidate_tags('tag-' + e['name'])
        clock.advance(40)
        return []
    data = {x['k']: unesc(x['v']) for x in e['data']}
    if e['op'] == 'handle':
        tpl = ''
        for t in e['tpl']:
            if t['t'] == 'lit':
                tpl += unesc(t['s'])
            else:
                tpl += nc.start(**{x['k']: unesc(x['v']) for x in t['data']}) + Code(r).layout(t['code']) + nc.end()
        return ['=' + esc(nc.handle(tpl, nocache=nc, n=counter(), **data))]
    if e['name'] not in templates:
        src = '{% load cache_tagging_tags %}{% autoescape off %}{% cache_tagging name ' + \
            r.choice(["'tag-%s'", "tags=taglist"]).replace('%s', e['name']) + ' nocache=1 %}'
        for t in e['src']:
            if t['t'] == 'lit':
                src += unesc(t['s'])
            elif t['t'] == 'var':
                src += '{{ %s }}' % t['v']
            else:
                code = Code(r).layout(t['code']).replace('{', '\\x7b').replace('}', '\\x7d')
                src += '{%% nocache %s %%}%s{%% endnocache %%}' % (' '.join('%s=%s' % (x['k'], x['v']) for x in t['data']), code)
        templates[e['name']] = src + '{% end_cache_tagging %}{% endautoescape %}'
    ctx = dict(data, n=counter(), name='frag-' + e['name'], taglist=['tag-' + e['name']])
    # the data of the serving may be anywhere in the stack of the context, shadowing older values
    how = r.randrange(4)
    if how == 0:
        context = Context(ctx)
    else:
        context = Context(dict(ctx, a='shadowed', b='shadowed', taglist=()))
        context.push(**ctx)
        if how == 2:
            context.push(unrelated=1)
    text = templates[e['name']]
    if how == 3 and 'a' in ctx:
        context.push(a='shadowed', real_a=ctx['a'])
        text = '{% with a=real_a %}' + text + '{% endwith %}'
    out = Template(text).render(context)
    return ['=' + esc(out)]


smallrun.main('nocache', generate, execute)
