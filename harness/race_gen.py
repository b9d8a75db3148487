"""Small concurrent programs; runs under system python and under the interpreter of the library."""

ISOS = ['READ UNCOMMITTED', 'READ COMMITTED', 'REPEATABLE READ', 'SERIALIZABLE']
RR = ISOS[2:]


def call(op, **kw):
    return dict(kw, op=op)


def parse(program):
    """The programs of spec/CacheRace.tla: 'B I C F' ..."""
    res = []
    for w in program.split():
        res.append({'B': call('begin'), 'F': call('finish'), 'N': call('snap'), 'I': call('inv', tags=['t']),
                    'C': call('commit', tags=['t']), 'R': call('read', key='k'), 'S': call('save', key='k', tags=['t']),
                    'E': call('evict', key='tags', tags=['t']), 'X': call('evict', key='int', tags=['t'])}[w])
    return res


W, W2, RD = 'B I C F', 'B C I F', 'B N R S F'
MODEL = {
    'w+r': [W, RD], 'w2+r': [W2, RD], 'ww+r': [W + ' ' + W, RD], 'w+rr': [W, RD + ' ' + RD], 'w+r+r': [W, RD, RD],
    'w+w+r': [W, W, RD], 'i+s': ['I R', 'S R'], 'i+s+s': ['I R', 'S', 'S R'], 'i+i+s': ['I R', 'I', 'S R'],
    'tx+s': ['B I F R', 'S R'], 'tx+ss': ['B I S F R', 'S R S'], 'tx+s+s': ['B I F R', 'S R', 'B S F'],
    'ii+s': ['I I R', 'S R'], 'i+s+e': ['I R', 'S R', 'E E'], 'i+s+s+e': ['I R', 'S', 'S R', 'E'],
    'tx+s+e': ['B I F R', 'S R', 'X'], 'w+r+e': [W, RD, 'E'], 'w2+rr+e': [W2, RD + ' ' + RD, 'E E'],
    'tx+btx': ['B I F', 'B S F R B S F R'],
}


def model_program(name):
    return [parse(p) for p in MODEL[name]]


TAGS = {'k': ['t'], 'l': ['u'], 'm': ['t', 'u'], 'p': ['w'], 'q': []}
ALL_TAGS = ['t', 'u', 'w']
CHILDREN = {'p': ['k'], 'q': ['p', 'l']}


def item(r, key):
    return call('build', key=key, tags=TAGS[key], f=r.randint(0, 9), children=[item(r, c) for c in CHILDREN.get(key, ())])


def deep(key):
    res = set(TAGS[key])
    for c in CHILDREN.get(key, ()):
        res |= deep(c)
    return sorted(res)


def some_tags(r):
    return r.choice([['t'], ['t'], ['u'], ['t', 'u'], ['w']])


def f(r):
    return r.randint(0, 29)


def make(r, profile):
    spec = dict(delay=0, ticks=r.choice([0, 0, 1, 2]), loop=r.random() < 0.4, lines=0,
                wiring='abstract' if r.random() < 0.25 else 'django')
    n = r.choice([2, 2, 2, 3, 3])
    keys = ['k'] if r.random() < 0.5 else ['k', 'k', 'l', 'm', 'p', 'q']

    def inv(tags=None):
        return call('inv', tags=tags or some_tags(r), f=f(r))

    def save(k):
        return call('save', key=k, tags=TAGS[k], f=f(r))

    def use(k):
        x = r.random()
        if k in CHILDREN or x < 0.35:
            return [item(r, k)]
        return [call('read', key=k, f=f(r)), save(k)] if x < 0.7 else [save(k)]

    def reads():
        return [call('readm', keys=sorted(set(keys)))] if r.random() < 0.4 else [call('read', key=r.choice(keys), f=1)]

    def tx(body):
        return [call('begin', f=f(r))] + body + [call('finish', f=f(r))]

    def writer():
        tags = some_tags(r)
        k = r.random()
        body = [inv([t]) for t in tags] if k < 0.3 else [inv(tags)]
        body = body + [call('commit', tags=tags)] if r.random() < 0.6 else [call('commit', tags=tags)] + body
        if r.random() < 0.2:
            body.append(inv(tags))
        return tx(body)

    def reader():
        body = [call('snap')]
        for _ in range(r.choice([1, 1, 2])):
            body += use(r.choice(keys))
        return tx(body)

    progs = []
    if profile == 'C12':
        spec.update(iso=r.choice(RR), delay=r.choice([0, 0, 1]), data=True)
        nw = 1 if n == 2 or r.random() < 0.7 else 2
        for i in range(n):
            progs.append(sum([writer() if i < nw else reader() for _ in range(r.choice([1, 1, 2]))], []))
        if r.random() < 0.3:      # sessions that read and write
            progs[r.randrange(n)] += r.choice([writer, reader])()
        end = [call('readm', keys=['k', 'l', 'm', 'p', 'q'])]
        progs[0] += end
        progs[-1] += end
    elif profile in ('C10', 'C11'):
        spec.update(iso=r.choice(RR), delay=r.choice([0, 0, 1, 2]) if profile == 'C11' else 0, ticks=r.choice([0, 1, 2, 3]))
        progs.append(tx([inv(['t'])] + ([inv()] if r.random() < 0.3 else [])
                        + (use('k') if r.random() < 0.2 else [])) + reads())
        for i in range(1, n):
            p = []
            for _ in range(r.choice([1, 2])):
                b = use(r.choice(keys))
                p += tx(b) if r.random() < 0.6 else b
            progs.append(p + reads())
        if r.random() < 0.2:
            progs[0] += tx([inv(['t'])])
    elif profile in ('C08', 'C14'):
        spec.update(iso=r.choice(ISOS[1:] if profile == 'C08' else ISOS[:2]),
                    delay=r.choice([0, 1]) if profile == 'C08' else r.choice([0, 1, 1, 2]),
                    ticks=r.choice([0, 1]) if profile == 'C08' else r.choice([1, 2, 3, 4]))
        progs.append(tx([inv(['t'])] + (use('k') if r.random() < 0.5 else []) + ([inv()] if r.random() < 0.3 else []))
                     + reads())
        for i in range(1, n):
            p = []
            for _ in range(r.choice([1, 2])):
                b = use(r.choice(keys))
                p += tx(b) if r.random() < 0.3 else b
            progs.append(p + reads())
    else:      # C01, C02, C05, C07, C15: everything
        spec.update(iso=r.choice(ISOS), delay=0)
        for i in range(n):
            p = []
            for _ in range(r.choice([1, 2, 3])):
                x = r.random()
                b = [inv()] if x < 0.3 else use(r.choice(keys)) if x < 0.8 else reads()
                p += tx(b) if r.random() < 0.2 else b
            progs.append(p + reads())
        if profile == 'C19':
            spec['iso'] = r.choice(ISOS)
            progs = progs[:2] + [[call('evict', key=r.choice(['tags'] * 6 + ['int', 'int', 'all']), tags=some_tags(r))
                                  for _ in range(r.choice([1, 2, 3]))]]
        if profile in ('C15', 'C05', 'C02'):
            spec['lines'] = r.choice([0.01, 0.03, 0.1])
            if r.random() < 0.5:     # nothing is invalidated: nothing may be lost
                progs = [[x for x in p if x['op'] not in ('inv',)] for p in progs]
    if profile in ('C01', 'C12', 'C10', 'C11', 'C08') and r.random() < 0.15:
        spec['lines'] = r.choice([0.01, 0.05])
    spec['programs'] = progs
    return spec
