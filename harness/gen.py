"""Seeded generator of histories for spec/CacheDeps.tla. Histories are structured (nested builds, transactions,
writers) and several sessions interleave; names, values and call forms are drawn from wide pools."""

ISO_RU, ISO_RC, ISO_RR, ISO_SER = 'READ UNCOMMITTED', 'READ COMMITTED', 'REPEATABLE READ', 'SERIALIZABLE'
ALL_ISO = [ISO_RU, ISO_RC, ISO_RR, ISO_SER]

TAG_POOL = [
    'a', 'b', 'tag', 'tag1', 'blog.post', 'blog.post.pk:1', 'blog.post.pk:11', 'categories.category.pk:15',
    '\u0442\u0435\u0433', '\u6a19\u7c64', 'with space', 'new\nline', 'x' * 300, 'x' * 301, '', '0', 'None', 'a:b', 'A',
    'tag_a', 'acquired_a', 'released_a', '\x00bin', '%s{0}', 'e\u0301', '\u00e9', '1', 'd', ' a', 'a ', 'tag2',
] + ['t%d' % i for i in range(300)]
KEY_POOL = ['k', 'key1', 'key2', 'name', 'blog:post:1', 'a', 'tag', 'K', 'x' * 150, 'default', 'clear', 'k.1', 'k.2', 'current',
            '\u043a\u043b\u044e\u0447', 'None', '0', 'DummyCache'] + ['rec%d' % i for i in range(40)]

DEFAULTS = dict(
    nsess=(1, 3), naliases=(1, 2), iso=ALL_ISO, delays=[0, 0, 1, 4, 8, 21], backends=['vb', 'vb', 'lm'],
    wirings=['django', 'django', 'django', 'abstract'], ntags=(2, 5), bigtags=0.04, nkeys=(3, 7), vers=[['d'], ['d', '2'], ['d', '0'], ['0', '2', '7']],
    length=(15, 60), falsy=0.12, timeouts=0.1, lifes=[0, 1, 2, 4, 10, 20, 41], ticks=[1, 2, 3, 4, 8, 19, 20, 21, 40, 120], peek=0.12,
    depth=3, mix=0.35, gosx=0.1,
    w=dict(build=6, read=4, getm=2, set=3, inv=4, tx=2, writer=2, tick=1, nset=0.3, add=0.3, delete=0.6,
           clear=0.05, ign=0.2, abort=0.3, close=0.2, reqend=0.2, flush=0.1, finish=0.1, begin=0.1,
           loserec=0, losetag=0, loseint=0, foreign=0, wrap=0.3, renew=0.12, level=0.02))


class Gen(object):
    def __init__(self, rng, profile):
        self.r = rng
        p = dict(DEFAULTS)
        p.update(profile)
        w = dict(DEFAULTS['w'])
        w.update(profile.get('w', {}))
        p['w'] = w
        self.p = p
        r = rng
        self.nsess = r.randint(*p['nsess'])
        self.wiring = 'fork' if r.random() < p.get('fork', 0) else r.choice(p['wirings'])
        self.cfg = []
        na = r.randint(*p['naliases'])
        shared = p.get('shared', 0) and r.random() < p['shared']
        used = set()
        for i in range(na):
            kind = r.choice(p['backends'])
            iso = r.choice(p['iso'])
            backend = '%s%d' % (kind, i)
            be = i + 1
            if shared:
                backend, be = 'vb0', 1
            a = dict(iso=iso, delay=r.choice(p['delays']), be=be, name=backend if not shared else 'al%d' % i,
                     backend=backend)
            if self.wiring == 'fork':
                backend = a['backend'] = a['name'] = 'fk%d' % i
            if self.wiring == 'abstract':
                a['backend'] = 'vb%d' % (0 if shared else i)
            elif i == 0 and not shared and kind == 'vb' and r.random() < 0.3 and self.wiring != 'fork':
                a['name'] = a['backend'] = 'default'
                if r.random() < 0.6:
                    a['proxy'] = True
            elif r.random() < 0.1:
                a['getcache'] = True
            elif r.random() < 0.1:
                a['legacy'] = True
            elif not shared and i == 0 and kind == 'vb' and r.random() < 0.1 and self.wiring != 'fork':
                a['backend'] = 'pv0'
            elif r.random() < 0.15:
                a['name'] = 'named%d' % i
            if self.wiring in ('django', 'fork'):
                if iso == ISO_RC and r.random() < 0.3:
                    a['isodflt'] = True
                    if a['delay'] == 0 and a['name'] == a['backend'] and r.random() < 0.5:
                        a['nosettings'] = True
                if a['delay'] == 0:
                    a['nodelay'] = r.choice([None, 0, 0.0])
            if a['name'] in used:
                a['name'] = a['backend'] + 'x'
            used.add(a['name'])
            self.cfg.append(a)
        if any(a['iso'] in (ISO_RR, ISO_SER) for a in self.cfg):
            # a blocked save may or may not bring versions of tags into being: their lives must not end
            p['ticks'] = [n for n in p['ticks'] if n < 100000]
        nt = r.randint(*p['ntags'])
        if r.random() < p['bigtags']:
            nt = r.randint(20, 60) if r.random() < 0.85 else r.randint(100, 260)
        self.tags = ['t%d' % i for i in range(nt)]
        self.keys = ['k%d' % i for i in range(r.randint(*p['nkeys']))]
        self.vers = list(r.choice(p['vers']))
        self.names = dict(tags=dict(zip(self.tags, r.sample(TAG_POOL, nt))),
                          keys=dict(zip(self.keys, r.sample(KEY_POOL, len(self.keys)))), vers=self.vers)
        self.nval = 0
        self.length = r.randint(*p['length']) if nt < 100 else 15
        self.stacks = [[] for _ in range(self.nsess)]
        if self.wiring == 'fork':
            w.update(wrap=0, foreign=0, level=0, loserec=0, losetag=0, loseint=0)
            if any(a['iso'] in (ISO_RU, ISO_RC) and a['delay'] for a in self.cfg):
                w.update(renew=0)       # the timers end with the process
            self.length = min(self.length, 40)
        if r.random() < p.get('deep', 0):      # builds opened one inside another by misses which no save follows
            w['deep'] = 1
            self.deep = r.choice([4, 30, 6000])
            if self.deep > 1000:
                self.length = min(self.length, 15)
            self.names['keys']['kdeep'] = 'never-saved'
        if r.random() < p.get('big', 0) and self.wiring != 'fork':     # thousands of other records in one bulk read
            w['big'] = 0.5
            self.big = r.choice([300, 10000])
            if self.big > 1000:
                self.length = min(self.length, 12)
        self.kinds = [k for k in sorted(w) if w[k] > 0]
        self.weights = [w[k] for k in self.kinds]
        self.single_ver = r.random() < 0.3
        self.ignoring = {}
        self.captive = [0] * (self.nsess + 1)    # frames of the library (callbacks) that the session is in

    # -- random pieces

    def val(self):
        if self.r.random() < self.p['falsy']:
            return self.r.choice(['None', 'v0', 'vfalse', 'vempty', 'vlist', 'vdict', 'vtuple', 'vbytes', 'vzero', 'vset'])
        self.nval += 1
        return 'v%d' % self.nval

    def al(self):
        return self.r.randint(1, len(self.cfg))

    def ver(self):
        return self.vers[0] if self.single_ver else self.r.choice(self.vers)

    def some_tags(self, lo=0, hi=3):
        if len(self.tags) >= 100:
            n = self.r.choice([1, 1, 2, len(self.tags), self.r.randint(0, len(self.tags))])
        elif len(self.tags) > 15 and self.r.random() < 0.5:
            n = self.r.randint(0, len(self.tags))
        else:
            n = self.r.randint(lo, min(hi if self.r.random() < 0.85 else 6, len(self.tags)))
        return self.r.sample(self.tags, n)

    def timeout(self):
        if self.r.random() < self.p['timeouts']:
            return self.r.choice(self.p['lifes'])
        return -1

    def f(self):
        return self.r.randint(0, 9999)

    def key(self):
        return self.r.choice(self.keys)

    def dflt(self):
        x = self.r.random()
        return 'None' if x < 0.4 else 'D1' if x < 0.9 else self.r.choice(['v0', 'vempty', 'vfalse', 'vlist'])

    # -- events

    def e_get(self, s, al, ver, key=None, abort=None):
        return dict(op='get', s=s, al=al, ver=ver, key=key or self.key(),
                    abort=(self.r.random() < self.p.get('abortread', 0.12)) if abort is None else abort,
                    dflt=self.dflt(), f=self.f())

    def e_getm(self, s, al, ver, keys=None, abort=None):
        if keys is None:
            keys = self.r.sample(self.keys, self.r.randint(0, len(self.keys)))
        return dict(op='getm', s=s, al=al, ver=ver, keys=keys,
                    abort=(self.r.random() < self.p.get('abortread', 0.12)) if abort is None else abort, f=self.f())

    def e_set(self, s, al, ver, key=None, tags=None):
        return dict(op='set', s=s, al=al, ver=ver, key=key or self.key(), val=self.val(),
                    tags=self.some_tags() if tags is None else tags, timeout=self.timeout(), f=self.f())

    def e_inv(self, s, al, ver, tags=None):
        return dict(op='inv', s=s, al=al, ver=ver, tags=self.some_tags(0 if self.r.random() < .1 else 1, 2)
                    if tags is None else tags, f=self.f())

    def ev(self, op, s, al, **kw):
        return dict(op=op, s=s, al=al, f=self.f(), **kw)

    # -- macros: python generators yielding events and receiving observations

    def item(self, s, al, ver, depth):
        if self.r.random() < self.p['mix']:
            al, ver = self.al(), self.ver()
        kinds, weights = self.kinds, self.weights
        if depth > self.p['depth']:
            pairs = [(k, w) for k, w in zip(kinds, weights) if k not in ('build', 'tx', 'writer', 'wrap')]
            kinds, weights = [k for k, _ in pairs], [w for _, w in pairs]
        kind = self.r.choices(kinds, weights)[0]
        return getattr(self, 'm_' + kind)(s, al, ver, depth)

    def m_build(self, s, al, ver, depth):
        key = self.key()
        x = self.r.random()
        gos = None
        if x < 0.62:
            obs = yield self.e_get(s, al, ver, key, abort=None)
            hit = not (obs in ('None', 'D1'))
        elif x < 0.8:
            keys = list(set([key] + self.r.sample(self.keys, self.r.randint(0, 2))))
            self.r.shuffle(keys)
            obs = yield self.e_getm(s, al, ver, keys)
            hit = isinstance(obs, list) and any(o[0] == key for o in obs)
        else:
            gos = dict(op='gos1', s=s, al=al, ver=ver, key=key, tags=self.some_tags(), timeout=self.timeout(),
                       f=self.f(), abort=False, dflt='None')
            obs = yield gos
            hit = obs != 'miss'
        if hit and (gos is not None or self.r.random() < 0.8):
            return
        if gos is not None:
            self.captive[s] += 1
        for _ in range(self.r.choice([0, 0, 1, 1, 2, 3])):
            for obj in self.sub(self.item(s, al, ver, depth + 1)):
                r = yield obj
                self.back = r
        if gos is not None:
            self.captive[s] -= 1
            if self.r.random() < self.p['gosx']:
                yield dict(gos, op='gosx')
            else:
                yield dict(gos, op='gos2', val=self.val())
            return
        x = self.r.random()
        if x < 0.86:
            yield self.e_set(s, al, ver, key)
        elif x < 0.93:
            yield self.ev('abort', s, al, key=key)

    def sub(self, g):
        """Runs a nested macro, passing observations through self.back."""
        obs = None
        while True:
            try:
                ev = g.send(obs)
            except StopIteration:
                return
            yield ev
            obs = self.back

    def m_read(self, s, al, ver, depth):
        yield self.e_get(s, al, ver)

    def m_deep(self, s, al, ver, depth):
        yield dict(op='get', s=s, al=al, ver=ver, key='kdeep', abort=False, dflt='None', f=self.f(), deep=self.deep)

    def m_big(self, s, al, ver, depth):
        yield dict(self.e_getm(s, al, ver), abort=True, big=self.big)

    def m_getm(self, s, al, ver, depth):
        yield self.e_getm(s, al, ver)

    def m_set(self, s, al, ver, depth):
        yield self.e_set(s, al, ver)

    def m_inv(self, s, al, ver, depth):
        yield self.e_inv(s, al, ver)

    def m_tx(self, s, al, ver, depth):
        yield self.ev('begin', s, al)
        for _ in range(self.r.choice([0, 1, 1, 2, 3])):
            for obj in self.sub(self.item(s, al, ver, depth + 1)):
                r = yield obj
                self.back = r
        x = self.r.random()
        if x < 0.85:
            yield self.ev('finish', s, al)
        elif x < 0.9:
            yield self.ev('flush', s, al)

    def m_writer(self, s, al, ver, depth):
        yield self.ev('begin', s, al)
        for _ in range(self.r.choice([1, 1, 2])):
            yield self.e_inv(s, al, ver if self.r.random() < 0.8 else self.ver())
        for _ in range(self.r.choice([0, 0, 1, 2])):
            for obj in self.sub(self.item(s, al, ver, depth + 1)):
                r = yield obj
                self.back = r
        if self.r.random() < 0.93:
            yield self.ev('finish', s, al)

    def m_wrap(self, s, al, ver, depth):
        a = self.cfg[al - 1]
        kinds = ['with', 'with()', 'deco', 'deco()']
        if self.wiring == 'django':
            kinds += ['ct', 'ct2', 'ct3', 'cta', 'cta2', 'cta3', 'mw', 'mwdeco']
            if a.get('proxy'):
                kinds += ['shared', 'shared']
        kind = self.r.choice(kinds)
        yield self.ev('begin', s, al, wrap=kind)
        self.captive[s] += 1
        for _ in range(self.r.choice([0, 1, 1, 2, 3])):
            for obj in self.sub(self.item(s, al, ver, depth + 1)):
                r = yield obj
                self.back = r
        self.captive[s] -= 1
        end = 'flush' if kind[:2] == 'mw' or kind[:3] == 'cta' else 'finish'
        yield self.ev(end, s, al, wrap=kind, raises=self.r.random() < 0.35)

    def m_tick(self, s, al, ver, depth):
        yield dict(op='tick', n=self.r.choice(self.p['ticks']))

    def m_nset(self, s, al, ver, depth):
        yield self.ev('nset', s, al, ver=ver, key=self.key(), val=self.notnone(), timeout=self.timeout())

    def m_add(self, s, al, ver, depth):
        yield self.ev('add', s, al, ver=ver, key=self.key(), val=self.notnone(), timeout=self.timeout())

    def notnone(self):
        # a bare None of a native write is no record for any reader
        v = self.val()
        return 'v0' if v == 'None' else v

    def m_delete(self, s, al, ver, depth):
        yield self.ev('del', s, al, ver=ver, keys=self.r.sample(self.keys, self.r.choice([1, 1, 2])))

    def m_clear(self, s, al, ver, depth):
        yield self.ev('clear', s, al)

    def m_ign(self, s, al, ver, depth):
        on = not self.ignoring.get((s, al), False)
        self.ignoring[(s, al)] = on
        yield self.ev('ign', s, al, on=on)

    def m_abort(self, s, al, ver, depth):
        yield self.ev('abort', s, al, key=self.key())

    def m_close(self, s, al, ver, depth):
        yield self.ev('close', s, al)

    def m_reqend(self, s, al, ver, depth):
        yield self.ev('reqend', s, al)

    def m_begin(self, s, al, ver, depth):
        yield self.ev('begin', s, al)

    def m_finish(self, s, al, ver, depth):
        yield self.ev('finish', s, al)

    def m_flush(self, s, al, ver, depth):
        yield self.ev('flush', s, al)

    def m_loserec(self, s, al, ver, depth):
        yield dict(op='loserec', al=al, ver=ver, key=self.key())

    def m_losetag(self, s, al, ver, depth):
        yield dict(op='losetag', al=al, ver=ver, tag=self.r.choice(self.tags))

    def m_loseint(self, s, al, ver, depth):
        yield dict(op='loseint', al=al)

    def m_renew(self, s, al, ver, depth):
        if not self.captive[s] and not self.p.get('norenew'):
            for k in list(self.ignoring):
                if k[0] == s:
                    del self.ignoring[k]
            yield self.ev('renew', s, al)

    def m_level(self, s, al, ver, depth):
        yield self.ev('level', s, al, name=self.r.choice(ALL_ISO + ['SNAPSHOT', 'CHAOS', 'AUTOCOMMIT', 'NONE']))

    def m_foreign(self, s, al, ver, depth):
        others = [x for x in range(1, self.nsess + 1) if x != s]
        if not others:
            return
        whats = ['same', 'begin', 'finish', 'current', 'set', 'inv', 'abort', 'with', 'flush', 'close']
        if not any(self.ignoring.values()):
            whats += ['get', 'getm']
        yield dict(op='foreign', s=s, s2=self.r.choice(others), al=al, what=self.r.choice(whats), key=self.key(),
                   tags=self.some_tags(1, 2), ver=ver)

    # -- the whole history

    def history(self, run):
        """run(event) -> observation. Returns the list of events with observations."""
        self.back = None
        out = []

        def do(e):
            obs = run(e)
            e = dict(e)
            e['obs'] = obs
            out.append(e)
            return obs
        last = [None] * self.nsess
        s = 1
        started = 0
        while True:
            if self.r.random() < 0.45 or started == 0:
                s = self.r.randint(1, self.nsess)
            if not self.stacks[s - 1]:
                if len(out) >= self.length:
                    live = [i + 1 for i in range(self.nsess) if self.stacks[i]]
                    if not live:
                        break
                    s = self.r.choice(live)
                else:
                    started += 1
                    self.stacks[s - 1] = [self.item(s, self.al(), self.ver(), 0)]
                    last[s - 1] = None
            g = self.stacks[s - 1][0]
            try:
                self.back = last[s - 1]
                e = g.send(last[s - 1])
            except StopIteration:
                self.stacks[s - 1] = []
                continue
            last[s - 1] = do(e)
            if isinstance(last[s - 1], str) and last[s - 1].startswith('EXC:'):
                return out
            if self.r.random() < self.p['peek']:
                do(dict(op='peek'))
        do(dict(op='peek'))
        if self.r.random() < 0.7:
            for s in range(1, self.nsess + 1):
                do(self.ev('reqend', s, 1))
            do(dict(op='peek'))
        if self.r.random() < 0.6:
            do(dict(op='tick', n=self.r.choice([3, 8, 30])))
            do(dict(op='peek'))
        return out
