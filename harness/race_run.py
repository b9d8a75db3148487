"""race_run.py JOB.json: runs small concurrent programs against the real library under a controlled scheduler and
writes the history of the calls (the vocabulary of spec/RaceRules.tla), one JSON object per run.

Exactly one session (a real thread) runs at a time.  A session stops before every call, before every operation of the
backend and, when asked for, at random lines of the library; the scheduler decides who goes on.  The clock and the
database are part of the harness, the clock moves only when the scheduler says so."""
import json
import os
import random
import sys
import threading
import _thread

import venv_env
from venv_env import clock, real_time, real_thread_start
import world
import vbackend
import race_gen

LIB = os.path.join(os.path.realpath(venv_env.REPO), 'cache_dependencies')
LIB2 = os.path.join(os.path.realpath(venv_env.REPO), 'django_cache_dependencies')
BLOCKED = 2.0     # seconds; a session that does not stop again within them waits for another session


class Runner(object):
    """One session: a thread that executes its program and stops at the gates."""

    def __init__(self, race, n, program):
        self.race, self.n, self.program = race, n, program
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.state = 'new'       # parked / running / done
        self.snap = {}
        self.dead = False
        self.rng = random.Random('%s-%d' % (race.seed, n))
        self.thread = threading.Thread(target=self.main, name='worker')
        self.thread.daemon = True
        real_thread_start(self.thread)

    def park(self):
        self.state = 'parked'
        self.race.wake.release()
        self.go.acquire()
        if self.dead:
            raise SystemExit

    def tracer(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(LIB) and not f.startswith(LIB2):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == 'line' and self.rng.random() < self.race.lines:
            self.park()
        return self.line

    def main(self):
        self.race.by_thread[_thread.get_ident()] = self
        try:
            self.park()
            if self.race.lines:
                sys.settrace(self.tracer)
            self.run()
        except SystemExit:
            pass
        finally:
            sys.settrace(None)
            self.state = 'done'
            self.race.by_thread.pop(_thread.get_ident(), None)
            self.race.wake.release()

    def run(self):
        i = 0
        while i < len(self.program):
            if i:
                self.park()
            i = self.race.call(self, self.program, i)


class Race(object):
    def __init__(self, spec):
        self.spec = spec
        self.seed = spec.get('seed', 0)
        self.lines = spec.get('lines', 0)
        self.w = world.World([dict(iso=spec['iso'], delay=spec['delay'], be=1, name='vb0', backend='vb0')], 0,
                             dict(tags=dict((t, t) for t in race_gen.ALL_TAGS), keys=dict((k, k) for k in race_gen.TAGS), vers=['d']), spec.get('wiring', 'django'))
        world.vbackend.VBackend.ATOMIC_BULK = not spec.get('loop')
        self.db = {}
        self.data_of = {}       # value -> what it was computed from
        self.h = []
        self.pos = 0
        self.ops = 0
        self.wake = _thread.allocate_lock()
        self.wake.acquire()
        self.by_thread = {}
        self.trail = []
        self.choices = []
        self.tag_keys = {}
        if any(it['op'] == 'evict' for p in spec['programs'] for it in p):
            self.tag_keys = dict((t, self.w.tag_raw_keys(1, 'd', t)) for t in race_gen.ALL_TAGS)
            self.rec_keys = set(self.w.raw_record_key(1, 'd', k) for k in race_gen.TAGS)
        vbackend.GATE[0] = self.gate
        self.runners = []
        for n, p in enumerate(spec['programs']):
            r = Runner(self, n + 1, p)
            self.runners.append(r)
            self.wait()

    def wait(self):
        return self.wake.acquire(True, BLOCKED)

    def gate(self, kind, name, keys):
        r = self.by_thread.get(_thread.get_ident())
        if r is not None:
            self.ops += 1
            r.park()

    def close(self):
        for r in self.runners:
            if r.state != 'done':
                r.dead = True
                try:
                    r.go.release()
                except RuntimeError:
                    pass
        for r in self.runners:
            r.thread.join(2)
        vbackend.GATE[0] = None
        self.w.close()

    # -- scheduling

    def ready(self):
        return [r.n for r in self.runners if r.state == 'parked']

    def step(self, n):
        self.trail.append(n)
        if n == 0:
            clock.advance(1)
            if clock.errors:
                self.h.append(self.entry(0, 'tick', out=clock.errors.pop()))
            return True
        r = self.runners[n - 1]
        r.state = 'running'
        r.go.release()
        return self.wait()

    def drive(self, policy):
        """policy(ready) -> session or 0"""
        idle = 0
        while True:
            ready = self.ready()
            if not ready:
                if all(r.state == 'done' for r in self.runners):
                    break
                if not self.wait():       # everybody waits for somebody
                    idle += 1
                    if idle > 3:
                        self.h.append(self.entry(0, 'deadlock', out='EXC:deadlock'))
                        break
                continue
            self.step(policy(ready))

    def look(self):
        """What everybody sees when everything is over."""
        keys = sorted(set(e['key'] for e in self.h if e['op'] == 'save'))
        if not keys or any(r.state != 'done' for r in self.runners):
            return
        es = [self.entry(len(self.runners) + 1, 'read', key=k) for k in keys]
        self.h += es
        got = self.w.observer.call(lambda: dict((k, self.w.cache(1).get(k, abort=True)) for k in keys))
        self.pos += 1
        for e in es:
            if isinstance(got, dict):
                e.update(ret=self.pos, t1=clock.ticks, out=self.see(e, got[e['key']]))
            else:
                e.update(ret=self.pos, t1=clock.ticks, out='?', exc=str(got))

    # -- calls

    def entry(self, s, op, key='', tags=(), val='', out=''):
        self.pos += 1
        return dict(s=s, op=op, key=key, tags=list(tags), val=val, data=[], call=self.pos, ret=0, t0=clock.ticks, t1=0,
                    out=out)

    def open(self, r, op, **kw):
        e = self.entry(r.n, op, **kw)
        self.h.append(e)
        return e

    def shut(self, e, out='ok'):
        self.pos += 1
        e.update(ret=self.pos, t1=clock.ticks, out=out)

    def failed(self, e, x):
        self.shut(e, '?')
        e['exc'] = world.exc(x)

    def val(self, r, i, data):
        v = 'v%d.%d' % (r.n, i + 1)
        self.data_of[v] = dict(data)
        return v

    def see(self, e, v):
        if v is None:
            return 'none'
        return v if isinstance(v, str) else '?' + repr(v)[:100]

    def call(self, r, program, i):
        """Performs item i of the program, returns the index of the next one."""
        it = program[i]
        op, f = it['op'], it.get('f', 0)
        if op == 'snap':
            e = self.open(r, 'snap')
            r.snap = dict(self.db)
            self.shut(e)
            return i + 1
        if op == 'commit':
            e = self.open(r, 'commit', tags=it['tags'])
            for t in it['tags']:
                self.db[t] = self.db.get(t, 0) + 1
            self.shut(e)
            return i + 1
        if op == 'evict':
            e = self.open(r, 'evict', key=it['key'], tags=it['tags'])
            data = vbackend.store('vb0').data
            for k in list(data):
                if it['key'] == 'all' or (it['key'] == 'int' and k not in self.rec_keys) \
                        or any(k in self.tag_keys[t] for t in it['tags']):
                    del data[k]
            self.shut(e)
            return i + 1
        c = self.w.cache(1)
        if op == 'build':
            self.build(r, c, it, i)
            return i + 1
        if op == 'readm':
            es = [self.open(r, 'read', key=k) for k in it['keys']]
            try:
                got = c.get_many(list(it['keys']), abort=i + 1 < len(program))
            except SystemExit:
                raise
            except BaseException as x:
                for e in es:
                    self.failed(e, x)
                return i + 1
            self.pos += 1
            for e in es:
                e.update(ret=self.pos, t1=clock.ticks, out=self.see(e, got.get(e['key'])))
            return i + 1
        e = self.open(r, op, key=it.get('key', ''), tags=it.get('tags', ()))
        try:
            if op == 'begin':
                [c.transaction.begin, c.transaction_begin, c.transaction.__enter__][f % 3]()
            elif op == 'finish':
                [c.transaction.finish, c.transaction_finish, lambda: c.transaction.__exit__(None, None, None),
                 c.transaction.flush, c.close][f % 5]()
            elif op == 'inv':
                if f % 2:
                    c.invalidate_tags(*it['tags'])
                else:
                    c.invalidate_tags(list(it['tags']))
            elif op == 'save':
                self.save(r, c, e, it['key'], it['tags'], [], r.snap, i, f)
                return i + 1
            elif op == 'read':
                v = self.see(e, c.get(it['key'], abort=True) if f % 2 else c.get(it['key']))
                self.shut(e, v)
                if v != 'none' and i + 1 < len(program) and program[i + 1]['op'] == 'save' \
                        and program[i + 1]['key'] == it['key']:
                    return i + 2      # found, need not be computed
                return i + 1
            else:
                raise ValueError(op)
            self.shut(e)
        except SystemExit:
            raise
        except BaseException as x:
            self.failed(e, x)
        return i + 1

    def save(self, r, c, e, key, tags, inherited, data, i, f):
        e['val'] = self.val(r, i, data) + ('' if key == r.program[i].get('key') else '.' + key)
        self.data_of[e['val']] = dict(data)
        e['tags'] = sorted(set(tags) | set(inherited))
        e['data'] = self.row(e, data)
        if f % 2:
            c.set(key, e['val'], tags=list(tags))
        else:
            c.set(key, e['val'], tuple(tags))
        self.shut(e)

    def row(self, e, data):
        return dict((t, data.get(t, 0)) for t in e['tags']) if self.spec.get('data') else []

    def build(self, r, c, it, i):
        """A record and the records which it is made of; every key has always the same tags and children.
        Reads the key; if it is missing, builds the children, then saves. Returns (tags, data)."""
        key = it['key']
        e = self.open(r, 'read', key=key)
        box = []

        def compute():
            self.shut(e, 'none')
            data = dict((t, r.snap.get(t, 0)) for t in it['tags'])
            inherited = set()
            for child in it.get('children', ()):
                tags, d = self.build(r, c, child, i)
                inherited |= tags
                data.update(d)
            s = self.open(r, 'save', key=key)
            s['val'] = self.val(r, i, data) + '.' + key
            self.data_of[s['val']] = data
            s['tags'] = sorted(set(it['tags']) | inherited)
            s['data'] = self.row(s, data)
            box.append((s, data))
            return s['val']
        now = e
        try:
            if it.get('f', 0) % 2:
                v = c.get_or_set_callback(key, compute, list(it['tags']))
                if not box:
                    self.shut(e, self.see(e, v))
                    return self.of(it, v)
                now = box[0][0]
                self.shut(now, 'ok' if v == now['val'] else '?' + repr(v))
            else:
                v = c.get(key)
                if v is not None:
                    self.shut(e, self.see(e, v))
                    return self.of(it, v)
                v = compute()
                now = box[0][0]
                c.set(key, v, it['tags'])
                self.shut(now)
        except SystemExit:
            raise
        except BaseException as x:
            self.failed(box[0][0] if box else now, x)
            return self.of(it, None)
        return set(now['tags']), box[0][1]

    def of(self, it, v):
        """Tags of the item as a whole and what the value found in the cache was computed from."""
        tags = set(it['tags'])
        for child in it.get('children', ()):
            tags |= self.of(child, None)[0]
        return tags, self.data_of.get(v, {})


class RandomPolicy(object):
    def __init__(self, seed, ticks):
        self.r = random.Random(seed)
        self.ticks = ticks
        self.kind = self.r.choice(['uniform', 'bursts', 'bursts', 'priority'])
        self.prio = {}
        self.last = None
        self.p = self.r.choice([0.1, 0.3, 0.5])

    def __call__(self, ready):
        if self.ticks and self.r.random() < 0.04:
            self.ticks -= 1
            return 0
        if self.kind == 'uniform':
            return self.r.choice(ready)
        if self.kind == 'bursts':
            if self.last not in ready or self.r.random() < self.p:
                self.last = self.r.choice(ready)
            return self.last
        for n in ready:
            self.prio.setdefault(n, self.r.random())
        best = max(ready, key=lambda n: self.prio[n])
        if self.r.random() < self.p / 3:
            self.prio[best] = self.r.random() - 1
        return best


class GivenPolicy(object):
    """A schedule of the specification; steps of finished sessions are skipped, what is left runs in order."""
    def __init__(self, sched):
        self.sched = list(sched)
        self.skipped = 0

    def __call__(self, ready):
        while self.sched:
            n = self.sched.pop(0)
            if n == 0 or n in ready:
                return n
            self.skipped += 1
        return ready[0]


class TreePolicy(object):
    """Depth-first search over all schedules with a bounded number of preemptions."""
    def __init__(self, prefix, bound):
        self.prefix, self.bound = prefix, bound
        self.options = []     # per step: alternatives not tried yet
        self.last = None
        self.used = 0
        self.i = 0

    def __call__(self, ready):
        order = ([self.last] if self.last in ready else []) + [n for n in ready if n != self.last]
        if self.i < len(self.prefix):
            n = self.prefix[self.i]
            if n not in ready:
                n = order[0]
        else:
            n = order[0]
        alts = [x for x in order if x != n and order.index(x) > order.index(n)]
        if self.last in ready:
            if n != self.last:
                self.used += 1
            if self.used + (1 if n == self.last else 0) > self.bound:
                alts = []
        self.options.append(alts)
        self.i += 1
        self.last = n
        return n


def run_one(spec, policy):
    race = Race(spec)
    try:
        race.drive(policy)
        race.look()
    finally:
        race.close()
    h = [e for e in race.h]
    return dict(iso=spec['iso'], delay=spec['delay'], h=h, sched=race.trail, programs=spec['programs'],
                loop=bool(spec.get('loop')), data=bool(spec.get('data')), lines=race.lines, seed=race.seed,
                wiring=spec.get('wiring', 'django'), ops=race.ops)


def main():
    job = json.load(open(sys.argv[1]))
    t0 = real_time()
    n = 0
    skipped = 0
    complete = True
    with open(job['out'], 'w') as f:
        def put(t):
            f.write(json.dumps(t) + '\n')
        for x in job.get('given', ()):
            p = GivenPolicy(x['sched'])
            t = run_one(x, p)
            t['want'] = x.get('want')
            t['skipped'] = p.skipped + len(p.sched)
            put(t)
            n += 1
        i = 0
        while i < job.get('count', 0) and real_time() - t0 < job['budget_s']:
            seed = job['seed'] * 1000003 + job['start'] + i * job['stride']
            spec = race_gen.make(random.Random(seed), job['profile'])
            spec['seed'] = seed
            put(run_one(spec, RandomPolicy(seed, spec['ticks'])))
            i += 1
            n += 1
        for x in job.get('trees', ()):
            stack = [list(x.get('prefix', []))]
            seen = set()
            while stack:
                if real_time() - t0 > job['budget_s']:
                    complete = False
                    break
                prefix = stack.pop()
                p = TreePolicy(prefix, x['bound'])
                t = run_one(x['spec'], p)
                n += 1
                sig = json.dumps([[e['op'], e['s'], e['call'], e['ret'], e['out']] for e in t['h']])
                if sig not in seen:       # equal histories are judged once
                    seen.add(sig)
                    put(t)
                for j in range(len(p.prefix), len(p.options)):
                    for a in p.options[j]:
                        stack.append(t['sched'][:j] + [a])
    print(json.dumps({'n': n, 'wall': real_time() - t0, 'complete': complete}))
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
