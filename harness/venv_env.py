"""Environment of the code under test: virtual time, virtual timers, Django settings, cache backends.

Must be imported before anything of Django or of the library. Everything is kept out of /repo: the library is
imported from /repo (or $VERIF_REPO) and is driven only through its public interface.
"""
import os
import sys
import threading
import time

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)

import warnings
warnings.simplefilter('ignore')

real_time = time.time
TICK = 0.25           # seconds per tick of the specification
EPOCH = 1600000000.0


class VirtualClock(object):
    def __init__(self):
        self.ticks = 0
        self.timers = []
        self.errors = []

    def time(self):
        return EPOCH + self.ticks * TICK

    def reset(self):
        self.ticks = 0
        self.timers = []
        self.errors = []

    def advance(self, n):
        """Moves the clock, firing timers in order, each at its own moment and in its own thread."""
        target = self.ticks + n
        while True:
            due = [x for x in self.timers if x[0] <= target]
            if not due:
                break
            due.sort(key=lambda x: x[0])
            item = due[0]
            self.timers.remove(item)
            if item[0] > self.ticks:
                self.ticks = item[0]
            timer = item[1]
            if timer.vcancelled:
                continue
            real_thread_start(timer)
            timer.join()
        self.ticks = target


clock = VirtualClock()
time.time = clock.time
_sleep = time.sleep

real_thread_start = threading.Thread.start


class VirtualTimer(threading.Thread):
    """Stands in for threading.Timer: started means registered with the virtual clock."""

    def __init__(self, interval, function, args=None, kwargs=None):
        threading.Thread.__init__(self)
        self.interval = interval
        self.function = function
        self.args = args if args is not None else []
        self.kwargs = kwargs if kwargs is not None else {}
        self.vcancelled = False
        self.vpending = False
        self.finished = threading.Event()
        self.daemon = True

    def is_alive(self):
        return self.vpending or threading.Thread.is_alive(self)

    isAlive = is_alive

    def start(self):
        self.vpending = True
        at = clock.ticks + max(0, self.interval) / TICK
        clock.timers.append([at, self])

    def cancel(self):
        self.vcancelled = True
        self.vpending = False
        self.finished.set()

    def run(self):
        self.vpending = False
        try:
            self.function(*self.args, **self.kwargs)
        except BaseException as e:  # reported as the observation of the tick
            clock.errors.append('EXC:timer:{0}:{1}'.format(type(e).__name__, e))
        self.finished.set()


threading.Timer = VirtualTimer
if hasattr(threading, '_Timer'):
    threading._Timer = VirtualTimer


def configure(**extra):
    from django.conf import settings
    caches = {'default': {'BACKEND': 'vbackend.VBackend', 'LOCATION': 'default'}}
    for i in range(4):
        caches['fk%d' % i] = {'BACKEND': 'vbackend.VBackend', 'LOCATION': 'fk%d' % i}
        caches['vb%d' % i] = {'BACKEND': 'vbackend.VBackend', 'LOCATION': 'vb%d' % i}
        caches['lm%d' % i] = {'BACKEND': 'django.core.cache.backends.locmem.LocMemCache',
                              'LOCATION': 'lm%d' % i, 'OPTIONS': {'MAX_ENTRIES': 100000}}
    caches['pv0'] = {'BACKEND': 'vbackend.VBackend', 'LOCATION': 'shared', 'KEY_PREFIX': 'p', 'VERSION': 3}
    conf = dict(
        SECRET_KEY='verif-secret',
        CACHES=caches,
        CACHE_TAGGING={},
        DATABASES={'default': {'ENGINE': 'django.db.backends.sqlite3', 'NAME': ':memory:'}},
        INSTALLED_APPS=['django.contrib.contenttypes', 'django_cache_dependencies'],
        MIDDLEWARE_CLASSES=[],
        TEMPLATES=[{'BACKEND': 'django.template.backends.django.DjangoTemplates', 'DIRS': [], 'APP_DIRS': False,
                    'OPTIONS': {'libraries': {'site_tags': 'site_tags'}}}],
        ROOT_URLCONF='venv_urls',
        ALLOWED_HOSTS=['*'],
        CACHE_MIDDLEWARE_SECONDS=600,
        CACHE_MIDDLEWARE_KEY_PREFIX='',
        CACHE_MIDDLEWARE_ALIAS='default',
        USE_I18N=False,
        USE_L10N=False,
        USE_ETAGS=False,
        USE_TZ=False,
        DEBUG_PROPAGATE_EXCEPTIONS=True,
    )
    conf.update(extra)
    settings.configure(**conf)
    import django
    django.setup()
    return settings
