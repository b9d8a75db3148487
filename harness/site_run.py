"""Histories of spec/Site.tla on the real code: templates, pages, handlers of models."""
import re
import random
import sys
import threading

import world
import smallrun
from world import ddc, _settings, clock, TICK
import gen

from django.apps import apps
from django.db import models, connection
from django.db.models import signals as model_signals
from django.conf.urls import url
from django.core.handlers.base import BaseHandler
from django.http import HttpResponse, StreamingHttpResponse
from django.template import engines, Context
from django.template.response import TemplateResponse
from django.test import RequestFactory
from django.utils.safestring import mark_safe
from django_cache_dependencies import decorators, middleware
from django_cache_dependencies.utils import prevent_cache_page

import venv_urls

SITE = threading.local()


class Planned(Exception):
    pass


# -- models; every thread has a database of its own

def make_model(name, up=None):
    class Meta:
        app_label = 'contenttypes'
    return type(name, (models.Model,), {'a': models.CharField(max_length=999), 'b': models.CharField(max_length=999),
                                        'up': up or models.IntegerField(null=True, db_column='up_id'),
                                        'Meta': Meta, '__module__': __name__})


TAKES = {True: ['inst', 'db', 'sig', 'named', 'raw', 'opt'], False: ['sig', 'named', 'opt']}
MODELS = {n: make_model('Verif' + n.upper()) for n in ('m1', 'm3')}
MODELS['m2'] = make_model('VerifM2', models.ForeignKey(MODELS['m1'], null=True, on_delete=models.CASCADE, related_name='+', db_constraint=False))


def UP(m):
    return 'up_id' if m is MODELS['m2'] else 'up'


def change(o, values):
    for k, v in values.items():
        setattr(o, k, v)
    return o


# -- templates

class Source(object):
    """The text of a template and the data it needs."""

    def __init__(self, w, r):
        self.w, self.r = w, r
        self.vars = {}
        self.blocks = 0

    def var(self, value):
        name = 'v%d' % len(self.vars)
        self.vars[name] = value
        return name

    def string(self, s):
        if self.r.random() < 0.6 and re.match(r'^[\w.:-]+$', s) and not s.isdigit():
            return '"%s"' % s
        return self.var(s)

    def tags(self, tags, frag):
        real = [self.w.names['tags'][t] for t in tags]
        self.r.shuffle(real)
        form = self.r.choice([list, tuple, set, frozenset])
        if frag:
            k = self.r.randint(0, len(real))
            args = [self.string(t) for t in real[:k]]
            if real[k:] or self.r.random() < 0.2:
                args.append('tags=' + self.var(form(real[k:])))
            return args
        if len(real) != 1 and self.r.random() < 0.4 and form:
            return [self.var(form(real))]
        return [self.string(t) for t in real] or [self.var(())]

    def name(self, n):
        return self.w.names['keys'].get(n, n)

    def action(self, fn):
        return '{%% act "%s" %%}' % self.w.action(fn)

    def text(self, ns):
        return ''.join(self.node(n) for n in ns)

    def block(self, body, n):
        r = self.r
        b = self.text(body)
        if n == 0:
            return r.choice(['{%% if 0 %%}%s{%% endif %%}', '{%% for q in nothing %%}%s{%% endfor %%}',
                             '{%% if 1 %%}{%% else %%}%s{%% endif %%}']) % b
        if n > 1:
            return '{%% for q in %s %%}%s{%% endfor %%}' % (self.var(list(range(n))), b)
        # an exception inside of {% include %} is swallowed by Django
        k = r.choice(['if', 'with', 'for', 'if' if 'boom' in repr(body) else 'include', 'block', 'spaceless', 'empty', 'autoescape', 'deep'])
        if k == 'if':
            return '{%% if 1 %%}%s{%% else %%}{%% endif %%}' % b
        if k == 'with':
            return '{%% with x=1 y="z" %%}%s{%% endwith %%}' % b
        if k == 'for':
            return '{%% for q in %s %%}%s{%% endfor %%}' % (self.var([0]), b)
        if k == 'include':
            return '{%% include %s %%}' % self.var(compiled(LOAD + b).template)
        if k == 'block':
            self.blocks += 1
            return '{%% block b%d %%}%s{%% endblock %%}' % (self.blocks, b)
        if k == 'spaceless':
            return '{%% spaceless %%}%s{%% endspaceless %%}' % b
        if k == 'empty':
            return '{%% for q in nothing %%}{%% empty %%}%s{%% endfor %%}' % b
        if k == 'autoescape':
            return '{%% autoescape off %%}%s{%% endautoescape %%}' % b
        return '{%% if 1 %%}{%% with x=2 %%}{%% for q in %s %%}%s{%% endfor %%}{%% endwith %%}{%% endif %%}' % (self.var('z'), b)

    def node(self, n):
        k = n['k']
        w = self.w
        if k == 'leaf':
            return '{%% leaf "%s" %%}' % n['id']
        if k == 'nc':
            return '{%% nocache %%}echo(site.token("%s") if shadow == 7 else "?"){%% endnocache %%}' % n['id']
        if k == 'add':
            return '{%% cache_add_tags %s %%}' % ' '.join(self.tags(n['tags'], False))
        if k == 'prevent':
            return '{% cache_tagging_prevent %}'
        if k == 'blk':
            return self.block(n['body'], n['n'])
        if k == 'boom':
            return self.action(w.boom)
        if k == 'inv':
            return self.action(lambda: w.invalidate(n['tags']))
        if k == 'ext':
            return self.action(lambda: w.world.run(n['ev']) and '')
        if k == 'pprev':
            return self.action(lambda: SITE.request and prevent_cache_page(SITE.request))
        if k == 'look':
            return self.action(lambda: w.look(n['name']))
        if k == 'rec':
            return '{%% rec %s %%}%s{%% endrec %%}' % (w.action(n), self.text(n['body']))
        kw = self.tags(n['tags'], True)
        if n['timeout'] != -1:
            t = int(n['timeout'] * TICK)
            kw.append('timeout=' + self.r.choice([str(t), self.var(t), self.var(str(t))]))
        if n['nc']:
            kw.append('nocache=1')
        elif self.r.random() < 0.1:
            kw.append('nocache=0')
        if self.r.random() < 0.05:
            kw.append('phased=0')
        text = '{%% cache_tagging %s %%}%s{%% end_cache_tagging %%}' % (
            ' '.join([self.string(self.name(n['name']))] + kw), self.text(n['body']))
        if n['nc']:     # the code of nocache blocks sees the innermost variable
            text = '{%% with shadow=6 %%}{%% with shadow=7 %%}%s{%% endwith %%}{%% endwith %%}' % text
        return text


LOAD = '{% load cache_tagging_tags site_tags %}'
COMPILED = {}


def compiled(src):
    if src not in COMPILED:
        if len(COMPILED) > 3000:
            COMPILED.clear()
        COMPILED[src] = engines['django'].from_string(src)
    return COMPILED[src]


def read(text):
    """The tokens of an output."""
    toks = re.findall(r'\[L\d+\.\d+\]|token\("L\d+"\)', text)
    if 'token(' not in text and ''.join(toks) != text:
        return '=?' + text[:100]
    return '=' + ''.join(t if t[0] == '[' else '[' + t[7:-2] + ']' for t in toks)


class SiteWorld(object):
    def __init__(self, hdr):
        self.world = world.World(hdr['cfg'], hdr['nsess'], hdr['names'])
        self.names = hdr['names']
        self.cnt = 0
        self.actions = {}
        self.bodies = {}
        self.views = {}
        self.receivers = (list(model_signals.post_save.receivers), list(model_signals.pre_delete.receivers))
        self.kept = {}
        self.etags = sum(map(len, self.names['keys'].values())) % 5 == 0
        self.tables = set()
        self.shared_tags = {}
        self.register(hdr['regs'])

    def close(self):
        for sig, rec in zip((model_signals.post_save, model_signals.pre_delete), self.receivers):
            sig.receivers[:] = rec
            sig.sender_receivers_cache.clear()
        self.world.close()

    # -- what templates do

    def token(self, name):
        self.cnt += 1
        return mark_safe('[%s.%d]' % (name, self.cnt))

    def action(self, fn):
        self.actions[str(len(self.actions))] = fn
        return str(len(self.actions) - 1)

    def act(self, number):
        return mark_safe(self.actions[number]() or '')

    def boom(self):
        raise Planned('planned')

    def invalidate(self, tags):
        ddc.cache.invalidate_tags(*[self.names['tags'][t] for t in tags])

    def look(self, name):
        v = ddc.cache.get(self.names['keys'].get(name, name), abort=True)
        return v

    def rec(self, number, callback):
        n = self.actions[number]
        kw = {} if n['timeout'] == -1 else {'timeout': n['timeout'] * TICK}
        return ddc.cache.get_or_set_callback(self.names['keys'][n['name']], callback,
                                             tuple(self.names['tags'][t] for t in n['tags']), **kw)

    def source(self, body, salt):
        k = repr(body) + salt
        if k not in self.bodies:
            s = Source(self, random.Random(k))
            text = s.text(body)
            if s.r.random() < 0.1:
                base = compiled('{% block content %}{% endblock %}')
                text = '{%% extends %s %%}%s{%% block content %%}%s{%% endblock %%}' % (s.var(base), LOAD, text)
            else:
                text = LOAD + text
            self.bodies[k] = (compiled(text), s.vars)
        return self.bodies[k]

    def template(self, body, salt):
        return self.source(body, salt)[0]

    def context(self, body, salt, request):
        d = dict(self.source(body, salt)[1], site=self, shadow=5)
        if request is not None:
            d['request'] = request
        return d

    def render(self, e):
        salt = str(e['f'] % 3)
        request = RequestFactory().get('/') if e['req'] else None
        SITE.request = request
        t = self.template(e['body'], salt)
        try:
            ctx = self.context(e['body'], salt, request)
            return [read(t.render(ctx, request) if e['f'] % 2 else t.template.render(Context(ctx)))]
        except Planned:
            return ['raised']

    # -- pages

    def request(self, e):
        rf = RequestFactory()
        host, path = self.names['urls'][e['url']]
        kw = {'HTTP_HOST': host}
        for h in e['hdrs']:
            kw['HTTP_' + h['h'].upper().replace('-', '_')] = h['v']
        req = rf.generic(e['method'], path, **kw)
        _settings.USE_I18N, _settings.USE_L10N = bool(e['lang']) and e['f'] % 3 != 1, bool(e['lang']) and e['f'] % 3 != 0
        if e['lang']:
            req.LANGUAGE_CODE = e['lang']
        if e['auth']:
            class Any(object):
                accessed = True

                def is_authenticated(self):
                    return True
            req.session = req.user = Any()
        elif e['f'] % 3 == 0:
            class No(object):
                accessed = e['f'] % 2 == 0

                def is_authenticated(self):
                    return False
            req.session = req.user = No()
        return req

    def respond(self, request):
        """The view."""
        e = request.event
        f = e['f']
        salt = str(f % 3)
        if e['rtags'] or f % 2:
            request.cache_tagging = set(self.names['tags'][t] for t in e['rtags'])
        deferred = e['kind'] == 'tr' and not e['stream']
        t, ctx = self.template(e['body'], salt), self.context(e['body'], salt, request)
        if deferred:
            resp = TemplateResponse(request, t, ctx, status=e['status'])
        else:
            text = t.render(ctx)
            if e['stream']:
                resp = StreamingHttpResponse([text], status=e['status'])
            else:
                resp = HttpResponse(text, status=e['status'])
            resp['X-Text'] = read(text)
        if e['vary']:
            hs = [h if f % 2 else h.lower() for h in e['vary']]
            random.Random(f).shuffle(hs)
            resp['Vary'] = (', ' if f % 3 else ',').join(hs)
        if e['maxage'] >= 0:
            resp['X-CC'] = resp['Cache-Control'] = ('max-age=%d' if f % 2 else 'public, max-age=%d') % (e['maxage'] * TICK)
        return resp

    def ptags(self, request):
        tags = [self.names['tags'][t] for t in request.event['ptags']]
        if sum(map(len, tags)) % 3 == 0:       # one collection for all requests
            return self.shared_tags.setdefault(tuple(tags), set(tags))
        return [tags, tuple(tags), set(tags), iter(tags)][request.event['f'] % 4]

    def view(self, e):
        kind = e['kind']
        alias = self.world.cfg[e['al'] - 1]['name']
        timeout = e['timeout'] * TICK
        k = (kind, alias, timeout, e['pfx'], e['anon'], bool(e['ptags']), e['f'] // 2 % 2, e['f'] % 2, e['f'] % 3 == 0)
        if k in self.views:
            return self.views[k]
        _settings.CACHE_MIDDLEWARE_ANONYMOUS_ONLY = e['anon']
        _settings.CACHE_MIDDLEWARE_SECONDS = timeout
        _settings.CACHE_MIDDLEWARE_KEY_PREFIX = e['pfx']
        _settings.CACHE_MIDDLEWARE_ALIAS = alias
        site = self
        if kind in ('deco', 'tr', 'old', 'one'):
            # arguments win over settings, and their defaults are not those of the settings
            _settings.CACHE_MIDDLEWARE_KEY_PREFIX, _settings.CACHE_MIDDLEWARE_ALIAS = 'zz', 'vb1'
            if not k[-3]:
                _settings.CACHE_MIDDLEWARE_SECONDS = 1
        limit = [] if k[-3] else [timeout]
        if kind in ('deco', 'tr'):
            kw = {}
            if alias != 'default' or k[-2]:
                kw['cache'] = alias
            if e['pfx'] or k[-2]:
                kw['key_prefix'] = e['pfx']
            if e['ptags'] or k[-2]:
                kw['tags'] = self.ptags
            v = decorators.cache_page(*limit, **kw)(self.respond)
        elif kind == 'old':
            args = [self.respond] + limit
            v = decorators.cache_page(*(args[::-1] if k[-2] else args), cache=alias, key_prefix=e['pfx'], tags=self.ptags)
        elif kind == 'one':
            kw = {'cache_timeout': timeout, 'cache_alias': alias, 'key_prefix': e['pfx']}
            if e['ptags'] or k[-2]:
                kw['tags'] = self.ptags
            if not k[-3]:     # nothing but the settings
                kw = {n: x for n, x in kw.items() if n == 'tags'}
                _settings.CACHE_MIDDLEWARE_KEY_PREFIX, _settings.CACHE_MIDDLEWARE_ALIAS = e['pfx'], alias
                _settings.CACHE_MIDDLEWARE_SECONDS = timeout
            elif e['f'] % 3 == 0:
                kw.update({'cache_alias': None} if alias == 'default' else {}, **({} if e['pfx'] else {'key_prefix': None}))
            v = middleware.CacheMiddleware(self.respond, **kw)
        else:
            class Update(middleware.UpdateCacheMiddleware):
                def __init__(self, get_response=None):
                    super(Update, self).__init__(get_response)
                    if e['ptags'] or k[-2]:
                        self.tags = site.ptags
            v = Update(middleware.FetchFromCacheMiddleware(self.respond)) if kind == 'two' else Update
            if kind == 'handler':
                venv_urls.Update = Update
                h = {}
                for tx in (0, 1):
                    _settings.MIDDLEWARE = (['django_cache_dependencies.middleware.TransactionMiddleware'] if tx else []) + \
                        ['venv_urls.Update', 'django_cache_dependencies.middleware.FetchFromCacheMiddleware']
                    venv_urls.view[0] = None
                    b = BaseHandler()
                    b.load_middleware()
                    h[tx] = b
                v = h
        self.views[k] = v
        return v

    def page(self, e):
        request = self.request(e)
        request.event = e
        _settings.USE_ETAGS = self.etags
        SITE.request = request
        v = self.view(e)
        if e['kind'] == 'handler' and e['txal'] in (0, 1):
            venv_urls.view[0] = self.respond
            v = v[e['txal']]._middleware_chain if hasattr(v[e['txal']], '_middleware_chain') else v[e['txal']].get_response
            call = lambda: v(request)
        else:
            if e['kind'] == 'handler':
                u = v
                v = lambda rq: u[0]._middleware_chain(rq)
                venv_urls.view[0] = self.respond

            def call():
                if not e['txal']:
                    return self.finished(v(request))
                kw = {'cache_alias': self.world.cfg[e['txal'] - 1]['name']}
                if kw['cache_alias'] == 'default' and e['f'] % 2:
                    kw = {}
                mw = middleware.TransactionMiddleware(**kw)
                mw.process_request(request)
                try:
                    resp = self.finished(v(request))
                except Exception as x:
                    mw.process_exception(request, x)
                    raise
                return mw.process_response(request, resp)
        try:
            resp = call()
        except Planned:
            return ['raised']
        text = b''.join(resp.streaming_content).decode('utf-8') if resp.streaming else resp.content.decode('utf-8')
        obs = [read(text), str(resp.status_code)]
        for h in ('Expires', 'Last-Modified', 'ETag', 'Age', 'Pragma'):
            if resp.has_header(h) and not (h == 'ETag' and self.etags):
                obs.append('x:' + h)
        if resp.get('Cache-Control') != resp.get('X-CC'):
            obs.append('x:Cache-Control')
        if resp.has_header('X-Text') and resp['X-Text'] != obs[0]:
            obs.append('x:text')
        return obs

    def finished(self, resp):
        if hasattr(resp, 'render') and not resp.is_rendered:
            resp = resp.render()
        return resp

    # -- models

    def register(self, regs):
        names = self.names
        lists = {}
        for i, reg in enumerate(regs):
            def tags(inst, reg=reg):
                t = [inst.a if p == 'a' else inst.b if p == 'b' else names['tags'][p] for p in reg['pats']]
                if reg['ret'] == 'str' and len(t) == 1:
                    return t[0]
                return {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'str': list}[reg['ret']](t)

            def answer(kw, t, when=reg['when']):
                kind = {True: 'new', False: 'old', None: 'gone'}[kw.get('created')]
                return t if when in ('any', kind) else []

            def stored(inst):
                return type(inst).objects.get(pk=inst.pk)

            fn = {'inst': lambda t, a: lambda obj: t(obj),
                  'db': lambda t, a: lambda obj: t(stored(obj)),
                  'sig': lambda t, a: lambda *args, **kw: a(kw, t(kw['instance'])),
                  'named': lambda t, a: lambda sender, instance, **kw: a(kw, t(instance)),
                  'raw': lambda t, a: lambda instance, using, signal, **kw: a(kw, t(instance)),
                  'opt': lambda t, a: lambda instance, **kw: a(kw, t(instance))}[reg['take']](tags, answer)
            al = self.world.cfg[reg['al'] - 1]
            item = [MODELS[reg['model']], fn]
            if al['name'] != 'default' or reg['how'] == 'name':
                item.append(al['name'])
            elif reg['how'] == 'none':
                item.append(None)
            elif reg['how'] == 'object':
                item.append(ddc.cache)
            lists.setdefault(reg['list'], []).append(tuple(item) if reg['list'] % 2 else item)
        def register(ks):
            for k in ks:
                ddc.registry.register(tuple(lists[k]) if k % 2 else lists[k])
        found = [k for k in sorted(lists) if k == 2]     # in the module of an application
        register([k for k in sorted(lists) if k not in found])
        if found:
            sys.modules.pop('verifapp.caches', None)
            apps_before = _settings.INSTALLED_APPS
            venv_urls.pending = lambda: register(found)
            _settings.INSTALLED_APPS = ['verifapp2', 'verif.missing'] * (len(regs) % 2) + ['verifapp'] + list(apps_before)
            try:
                ddc.autodiscover()
            finally:
                _settings.INSTALLED_APPS = apps_before

    def model(self, e):
        key = (e['s'], e['model'], e['pk'])
        m = MODELS[e['model']]
        if e['s'] not in self.tables:
            self.tables.add(e['s'])
            with connection.schema_editor() as ed:
                for x in sorted(MODELS):
                    ed.create_model(MODELS[x])
        f = e['f']
        real = self.names['tags']
        pk = e['pk']
        if e['op'] == 'msave':
            values = dict(a=real[e['a']], b=real[e['b']])
            values[UP(m)] = e['up'] or None
            exists = m.objects.filter(pk=pk).exists()
            if exists and key in self.kept and f % 3:
                o = change(self.kept[key], values)
                if f % 5 == 0:
                    o.save(update_fields=['a', 'b', 'up'])
                elif f % 5 == 1:
                    o.save(force_update=True)
                else:
                    o.save()
            elif exists and f % 4 == 0:
                o, _ = m.objects.update_or_create(pk=pk, defaults=values)
            elif exists and f % 4 == 1:
                o = change([m.objects.defer('a'), m.objects.only('b')][f // 4 % 2].get(pk=pk), values)
                o.save()
            elif not exists and f % 4 == 0:
                o = m.objects.create(pk=pk, **values)
            elif not exists and f % 4 == 1:
                o, _ = m.objects.get_or_create(pk=pk, defaults=values)
            elif f % 4 == 2:
                o = m(pk=pk, **values)
                o.save_base(raw=True)         # loaddata
            else:
                o = m(pk=pk, **values)
                o.save(force_insert=not exists and f % 3 == 0)
            self.kept[key] = o
        elif e['op'] == 'mupd':
            m.objects.filter(pk=pk).update(a=real[e['a']], b=real[e['b']])
            self.kept.pop(key, None)
        else:
            found = m.objects.filter(pk=pk) if pk else m.objects.all()
            if key in self.kept and f % 3 == 0:
                self.kept[key].delete()
            elif f % 3 == 1 or not pk:
                found.delete()
            else:
                for o in found:
                    o.delete()
            for k in list(self.kept):
                if k[0] == e['s'] and not MODELS[k[1]].objects.filter(pk=k[2]).exists():
                    del self.kept[k]
        return ['ok']

    # -- events

    def run(self, e):
        op = e['op']
        fn = {'render': self.render, 'page': self.page, 'msave': self.model, 'mupd': self.model, 'mdel': self.model}.get(op)
        try:
            if fn is None:
                return [self.world.run(dict(e))]
            s = self.world.sessions[e['s'] - 1]
            r = s.call(lambda: fn(e))
            return r if isinstance(r, list) else [str(r)]
        except Exception as x:
            return [smallrun.name_of(x)]


def dress(hdr, events):
    """Names and forms for a history of the specification, which has symbols only."""
    r = random.Random(repr(events))
    real = r.sample([k for k in gen.KEY_POOL if k != 'None'], 12)
    keys = ['f%d' % i for i in range(8)] + ['k0', 'k1', 'r0', 'r1']
    names = dict(tags=dict(zip(['t%d' % i for i in range(4)], r.sample(gen.TAG_POOL, 4))), keys=dict(zip(keys, real)), vers=['d'],
                 urls={'u0': ('testserver', '/a/'), 'u1': ('testserver', '/a/?x=1')})
    cfg = [dict(hdr['cfg'][0], name='default', backend='default', proxy=r.random() < 0.7), dict(hdr['cfg'][1], name='vb1', backend='vb1')]
    regs = [dict(reg, take=r.choice(TAKES[reg['when'] == 'any']), ret=r.choice(['str', 'list', 'tuple', 'set', 'frozenset']),
                 how=r.choice(['omit', 'name', 'none', 'object']), list=r.randint(0, 2)) for reg in hdr['regs']]
    kinds = [r.choice(['deco', 'tr', 'old', 'one', 'two', 'handler'])] if r.random() < 0.6 else ['deco', 'tr', 'two']
    for e in events:
        if e['op'] == 'page':
            e['kind'] = kinds[e['f'] % len(kinds)]
    return dict(hdr, names=names, cfg=cfg, regs=regs), events


def execute(hdr, events):
    if 'names' not in hdr:
        hdr, events = dress(hdr, events)
    w = SiteWorld(hdr)
    try:
        out = []
        for e in events:
            out.append(w.run(e))
            if any(str(o).startswith('EXC:') for o in out[-1]):
                break
        return out
    finally:
        w.close()


# -- generator

PROFILES = dict(
    C21=dict(render=6, page=0, inv=4, tick=1, reqend=0.7, other=1, prevent=0, boom=0, nc=0.06, ext=0.04, own=0.01),
    C22=dict(render=6, page=2, inv=2, tick=0.5, reqend=1, other=0.5, prevent=0.14, boom=0, nc=0.03, ext=0.01, own=0, pprev=0.03),
    C24=dict(render=0, page=8, inv=4, tick=1.5, reqend=0, other=1, prevent=0, boom=0, nc=0, ext=0.05, own=0.02, frag=0.2, pprev=0.02),
    C25=dict(render=2, page=7, inv=4, tick=0.7, reqend=0, other=0.5, prevent=0, boom=0, nc=0.02, ext=0.05, own=0.02, rec=0.12),
    C17=dict(render=0.5, page=7, inv=2, tick=1, reqend=0, other=4, prevent=0.01, boom=0.07, nc=0, ext=0.05, own=0.1, tx=0.8, iso=4),
    C26=dict(render=1, page=0.5, inv=0.5, tick=1, reqend=0.5, other=8, prevent=0, boom=0, nc=0, ext=0, own=0.02, model=8),
)
HEADERS = {'X-A': ['a1', 'a2', 'a3'], 'X-B': ['b1', 'b2'], 'Cookie': ['c=1', 'c=2'], 'Accept-Language': ['en', 'ru'],
           'Accept': ['text/html', 'text/plain'], 'Accept-Encoding': ['gzip', 'br']}


class SiteGen(object):
    def __init__(self, r, prop):
        self.r, self.p = r, PROFILES[prop]
        self.prop = prop
        self.leaves = 0
        self.i18n = r.random() < 0.3
        isos = gen.ALL_ISO if r.random() < 0.25 * self.p.get('iso', 1) else ['READ COMMITTED']
        delays = [0, 0, 4] if len(isos) > 1 else [0]
        self.cfg = [dict(iso=r.choice(isos), delay=r.choice(delays), be=1, name='default', backend='default', proxy=True)]
        if r.random() < (0.6 if prop in ('C24', 'C26', 'C17') else 0.05):
            self.cfg.append(dict(iso=r.choice(isos), delay=r.choice(delays), be=2, name='vb1', backend='vb1'))
        self.nsess = r.choice([2, 2, 3])
        self.tags = ['t%d' % i for i in range(r.randint(2, 6))]
        pool = [t for t in gen.TAG_POOL if t.strip() == t or True]
        if prop == 'C26':
            pool = [t for t in pool if '\x00' not in t]
        self.frags = ['f%d' % i for i in range(r.randint(1, 6))]
        self.recs = ['r%d' % i for i in range(r.randint(1, 2))]
        self.keys = ['k%d' % i for i in range(r.randint(1, 3))]
        names = self.frags + self.recs + self.keys
        real = dict(zip(names, r.sample([k for k in gen.KEY_POOL if k != 'None'], len(names))))
        self.urls = ['u%d' % i for i in range(r.randint(1, 3))]
        paths = [('testserver', '/'), ('testserver', '/a/'), ('testserver', '/a/?x=1'), ('testserver', '/a/?x=2'), ('other.org', '/a/'),
                 ('testserver', '/a'), ('testserver', '/\u044e/'), ('testserver:81', '/')]
        self.names = dict(tags=dict(zip(self.tags, r.sample(pool, len(self.tags)))), keys=real, vers=['d'],
                          urls=dict(zip(self.urls, r.sample(paths, len(self.urls)))))
        self.regs = []
        if prop == 'C26':
            for i in range(r.randint(1, 4)):
                pats = [r.choice(['a', 'b'] + self.tags) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
                when = r.choice(['any', 'any', 'any', 'new', 'old', 'gone'])
                self.regs.append(dict(model=r.choice(['m1', 'm1', 'm2']), al=r.randint(1, len(self.cfg)), pats=sorted(set(pats)),
                                      when=when, take=r.choice(TAKES[when == 'any']), ret=r.choice(['str', 'list', 'tuple', 'set', 'frozenset']),
                                      how=r.choice(['omit', 'name', 'none', 'object']), list=r.randint(0, 2)))
        self.defs = {}
        self.units = self.frags + self.recs        # a unit nests later ones only
        r.shuffle(self.units)
        self.frags, self.recs = [[u for u in self.units if u in x] for x in (self.frags, self.recs)]
        for i in reversed(range(len(self.units))):
            make = self.fragment if self.units[i] in self.frags else self.record
            self.defs[self.units[i]] = [make(i) for _ in range(r.choice([1, 1, 2]))]
        self.bodies = [self.nodes(0, False, 2) for _ in range(r.randint(2, 4))]
        self.pages = [self.view() for _ in range(r.randint(1, 4))]

    def hdr(self):
        return dict(cfg=self.cfg, nsess=self.nsess, names=self.names, regs=self.regs)

    def leaf(self):
        self.leaves += 1
        return 'L%d' % self.leaves

    def some_tags(self, m=2):
        return sorted(self.r.sample(self.tags, self.r.randint(0, min(m, len(self.tags)))))

    def timeout(self):
        return self.r.choice([-1] * 16 + [4, 8, 20, 400] * 2 + [0])

    def fragment(self, i):
        r = self.r
        body = [dict(k='leaf', id=self.leaf())] if r.random() < 0.85 else []
        body += self.nodes(i + 1, True, 2)
        if r.random() < 0.06:
            body = []
        r.shuffle(body)
        return dict(k='frag', name=self.units[i], tags=self.some_tags(), timeout=self.timeout(), body=body,
                    nc=r.random() < (0.6 if 'nc' in repr(body).replace("'nc': ", '') else 0.05))

    def record(self, i):
        body = [dict(k='leaf', id=self.leaf())] + (self.nodes(i + 1, False, 1) if self.r.random() < 0.6 else [])
        self.r.shuffle(body)
        return dict(k='rec', name=self.units[i], tags=self.some_tags(), timeout=self.timeout(), body=body)

    def nodes(self, first, inside, depth):
        """Units >= first may be nested."""
        r, p = self.r, self.p
        res = []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            x = r.random()
            for k, w in (('nc', p['nc'] if inside or first == 0 else 0), ('prevent', p['prevent'] if inside else 0), ('boom', p['boom']), ('ext', p['ext']), ('own', p['own']),
                         ('pprev', 0 if inside else p.get('pprev', 0)), ('rec', p.get('rec', 0.04)), ('look', p.get('rec', 0.04) / 2),
                         ('add', 0.15 if inside else 0),
                         ('frag', 0.35 * p.get('frag', 1)), ('blk', 0.2 if depth else 0), ('leaf', 9)):
                if x < w:
                    break
                x -= w
            if k in ('leaf', 'nc'):
                res.append(dict(k=k, id=self.leaf()))
            elif k in ('prevent', 'boom', 'pprev'):
                res.append(dict(k=k))
            elif k == 'add':
                res.append(dict(k=k, tags=self.some_tags(3)))
            elif k == 'ext':
                res.append(dict(k=k, ev=self.writer(self.nsess)))
            elif k == 'own':
                res.append(dict(k='inv', tags=self.some_tags() or self.tags[:1]))
            elif k in ('rec', 'look', 'frag'):
                names = [u for u in self.units[first:] if (u in self.frags) == (k == 'frag')]
                if names:
                    n = r.choice(names)
                    res.append(dict(k=k, name=n) if k == 'look' else r.choice(self.defs[n]))
                else:
                    res.append(dict(k='leaf', id=self.leaf()))
            elif k == 'blk':
                res.append(dict(k=k, body=self.nodes(first, inside, depth - 1), n=r.choice([0, 1, 1, 1, 1, 2])))
        return res

    def view(self):
        r = self.r
        body = [dict(k='leaf', id=self.leaf())] + self.nodes(0, False, 1)
        al = r.choice([1, len(self.cfg)]) if self.prop != 'C25' else 1
        if al > 1:       # the tags of its fragments are all it knows of them
            body += [r.choice(self.defs[r.choice(self.frags)]) for _ in range(r.choice([0, 1, 2, 2]))]
        r.shuffle(body)
        return dict(body=body, vary=sorted(r.sample(sorted(HEADERS), r.choice([0, 0, 1, 1, 2, 3]))),
                    timeout=r.choice([2400, 2400, 2400, 40, 8, 0]), kind=r.choice(['deco', 'deco', 'tr', 'old', 'one', 'two', 'handler']),
                    url=r.choice(self.urls), pfx=r.choice(['', '', '', 'p']), al=al,
                    ptags=self.some_tags(), rtags=self.some_tags(1) if r.random() < 0.3 else [], anon=r.random() < 0.05)

    def writer(self, s):
        """What another session does."""
        r = self.r
        if r.random() < 0.75:
            return dict(op='inv', s=s, al=r.choice([1, 1, len(self.cfg)]), ver='d', tags=self.some_tags() or self.tags[:1], f=r.randint(0, 999))
        k = r.choice(['begin', 'begin', 'finish', 'flush'])
        return dict(op=k, s=s, al=1, f=r.randint(0, 999))

    def event(self):
        r, p = self.r, self.p
        ks = ['render', 'page', 'inv', 'tick', 'reqend', 'other', 'model']
        k = r.choices(ks, [p.get(x, 0) for x in ks])[0]
        s = r.randint(1, self.nsess - 1)
        f = r.randint(0, 9999)
        if k == 'render':
            return [dict(op=k, s=s, req=r.random() < 0.3, body=r.choice(self.bodies), f=f)]
        if k == 'page':
            v = dict(r.choice(self.pages))
            if r.random() < 0.1:
                v['vary'] = sorted(r.sample(sorted(HEADERS), r.choice([0, 1, 2])))
            hdrs = [dict(h=h, v=r.choice(HEADERS[h])) for h in sorted(HEADERS) if r.random() < (0.7 if h in v['vary'] else 0.2)]
            e = dict(v, op=k, s=s, f=f, hdrs=hdrs, lang=r.choice(['en', 'ru']) if self.i18n else '', method=r.choice(['GET'] * 8 + ['HEAD', 'HEAD', 'POST', 'PUT']),
                     status=r.choice([200] * 12 + [404, 500, 302, 203]), stream=r.random() < 0.05, maxage=r.choice([-1] * 10 + [0, 4, 400]),
                     auth=r.random() < 0.05 if not v['anon'] else r.random() < 0.5,
                     txal=r.choice([1, 1, len(self.cfg)]) if r.random() < p.get('tx', 0.1) else 0)
            if e['stream']:
                e['kind'] = 'deco' if e['kind'] == 'tr' else e['kind']
            return [e] + ([dict(op='reqend', s=s, al=1, f=f)] if r.random() < 0.8 else [])
        if k == 'inv':
            return [dict(op='inv', s=r.randint(1, self.nsess), al=1 if r.random() < (0.5 if self.prop == 'C24' else 0.8) else len(self.cfg), ver='d',
                         tags=[r.choice(self.tags)] if r.random() < 0.7 else self.some_tags(3), f=f)]
        if k == 'tick':
            return [dict(op='tick', n=r.choice([1, 1, 2, 4, 8, 21]))]
        if k == 'reqend':
            return [dict(op='reqend', s=s, al=1, f=f)]
        if k == 'model':
            e = dict(op=r.choice(['msave'] * 5 + ['mdel', 'mdel', 'mupd']), s=s, model=r.choice(['m1', 'm1', 'm2', 'm3']),
                     pk=r.randint(1, 2), f=f)
            if e['op'] != 'mdel':
                e.update(a=r.choice(self.tags), b=r.choice(self.tags))
            elif r.random() < 0.25:
                e['pk'] = 0
            if e['op'] == 'msave':
                e['up'] = r.choice([0, 1, 2]) if e['model'] == 'm2' else 0
            return [e]
        x = r.random()
        al = r.randint(1, len(self.cfg))
        if x < 0.2:
            w = self.writer(r.randint(1, self.nsess))
            return [w]
        key = r.choice(self.keys)
        if x < 0.6:
            return [dict(op='get', s=s, al=al, ver='d', key=key, abort=r.random() < 0.5, dflt='None', f=f)]
        self.nval = getattr(self, 'nval', 0) + 1
        return [dict(op='set', s=s, al=al, ver='d', key=key, val='v%d' % self.nval, tags=self.some_tags(), timeout=self.timeout(), f=f)]

    def events(self):
        res = []
        n = self.r.choice([6, 10, 16, 24])
        if self.prop == 'C26':
            n *= 2
        while len(res) < n:
            res += self.event()
        return res


def generate(r, prop, hdr_only=False):
    g = SiteGen(r, prop)
    return g.hdr() if hdr_only else (g.hdr(), g.events())


if __name__ == '__main__':
    smallrun.main('site', generate, execute)
