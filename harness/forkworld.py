"""Sessions which are processes, forked from one that has already used the library (as the workers of a pre-forking
server), over backends shared by files. Executes the same events as world.World."""
import os
import pickle
import signal
import struct

import world
import vbackend
from venv_env import clock
from world import World, Return, planned


def send(fd, obj):
    p = pickle.dumps(obj, 2)
    p = struct.pack('>I', len(p)) + p
    while p:
        p = p[os.write(fd, p):]


def recv(fd):
    def read(n):
        buf = b''
        while len(buf) < n:
            x = os.read(fd, n - len(buf))
            if not x:
                return None
            buf += x
        return buf
    head = read(4)
    return None if head is None else pickle.loads(read(struct.unpack('>I', head)[0]))


class Out(object):
    def __init__(self, child):
        self.child = child

    def put(self, value):
        self.child.reply(value)


class Child(object):
    """In the forked process: what a Session is in a thread."""

    def __init__(self, w, rfd, wfd):
        self.w, self.rfd, self.wfd = w, rfd, wfd
        self.outbox = Out(self)

    def reply(self, value):
        v = self.w.values
        if isinstance(value, Return):
            value = v.sym(value.value)
        elif isinstance(value, tuple) and value and value[0] == 'raised':
            value = 'raised'
        send(self.wfd, value)

    def serve(self):
        while True:
            m = recv(self.rfd)
            if m is None or m[0] == 'stop':
                os._exit(0)
            for s in m[2]:
                if s not in self.w.seen:
                    self.w.seen.add(s)
                    self.w.values.real(s)
            if m[0] == 'return':
                return self.w.values.real(m[1])
            if m[0] == 'raise':
                raise planned(m[1])
            try:
                res = self.event(m[1])
            except BaseException as x:
                res = world.exc(x)
            self.reply(res)

    def event(self, e):
        if e['op'] == 'tick':
            clock.advance(e['n'])
            return clock.errors.pop() if clock.errors else 'ok'
        if e['op'] == 'peek':
            return self.w.peek(e)
        if e['op'] == 'gos1':
            return self.w.gos(self, e)
        return getattr(self.w, 'do_' + e['op'])(e)


class Process(object):
    def __init__(self, w):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.alarm(300)
                os.close(w1)
                os.close(r2)
                for p in w.processes():
                    os.close(p.wfd)
                    os.close(p.rfd)
                c = Child(w, r1, w2)
                c.serve()
            finally:
                os._exit(1)
        os.close(r1)
        os.close(w2)
        self.rfd, self.wfd = r2, w1

    def ask(self, kind, arg, known):
        try:
            send(self.wfd, (kind, arg, known))
            r = recv(self.rfd)
        except OSError as x:
            return world.exc(x)
        return 'EXC:process died' if r is None else r

    def stop(self):
        try:
            send(self.wfd, ('stop', None, ()))
        except OSError:
            pass
        os.close(self.wfd)
        os.close(self.rfd)
        os.waitpid(self.pid, 0)


class ForkWorld(World):
    def __init__(self, cfg, nsess, names, wiring, path):
        self.path = path
        vbackend.share(path)
        for name in os.listdir(path):
            os.unlink(os.path.join(path, name))
        self.members = []
        self.observer = None
        self.seen = set()
        self.known = []
        World.__init__(self, cfg, nsess, names, wiring)

    def make_sessions(self, nsess):
        self.nsess = nsess
        self.parent = world.Session('parent')     # everything is forked from this thread

    def ready(self):
        self.parent.call(self.use)
        for _ in range(self.nsess):
            self.members.append(self.fork())
        self.observer = self.fork()
        self.sessions = self.members

    def fork(self):
        return self.parent.call(lambda: Process(self))

    def use(self):
        # the parent uses the library before it forks
        c = self.cache(1)
        c.set('before_the_fork', 1, tags=('before_the_fork',))
        c.invalidate_tags('before_the_fork')
        c.get('before_the_fork', abort=True)
        for a in self.cfg:
            vbackend.store(a['backend']).data.clear()

    def processes(self):
        return self.members + ([self.observer] if self.observer else [])

    def close(self):
        for p in self.processes():
            p.stop()
        self.parent.stop()
        self.parent.thread.join(5)
        vbackend.share(None)

    def run1(self, e):
        op = e['op']
        if op in ('set', 'nset', 'add', 'gos2'):
            self.known.append(e['val'])
        if op == 'tick':
            clock.ticks += e['n']
            r = [p.ask('event', e, self.known) for p in self.processes()]
            return [x for x in r if x != 'ok'][0] if r != ['ok'] * len(r) else 'ok'
        if op == 'peek':
            return self.observer.ask('event', e, self.known)
        p = self.members[e['s'] - 1]
        if op == 'gos2':
            return p.ask('return', e['val'], self.known)
        if op == 'gosx':
            return p.ask('raise', e, self.known)
        if op == 'renew':
            p.stop()
            i = e['s'] - 1
            del self.members[i]
            self.members.insert(i, self.fork())
            return 'ok'
        return p.ask('event', e, self.known)
