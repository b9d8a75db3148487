"""Cache backends of the harness.

VBackend: a Django cache backend shared between threads, strict like memcached (every key is checked), which keeps
pickles, obeys the virtual clock, can lose entries, counts operations and can stop a thread before every operation.
SimpleCache: an adapter built on the library's own AbstractCache.
"""
import os
import pickle
import time
import threading

from django.core.cache.backends.base import BaseCache, DEFAULT_TIMEOUT

STORES = {}
GATE = [None]      # callable(kind, store name, keys) or None; called before every backend operation
OPLOG = [None]     # list or None


def check_key(key):
    if not isinstance(key, str):
        raise TypeError('key is not a string: %r' % (key,))
    if len(key.encode('utf-8')) > 250:
        raise ValueError('memcached: key too long: %r' % key)
    for ch in key:
        if ord(ch) < 33 or ord(ch) == 127:
            raise ValueError('memcached: control character in key: %r' % key)


class Store(object):
    def __init__(self):
        self.data = {}    # raw key -> [pickle, expiry or None]

    def live(self, key):
        item = self.data.get(key)
        if item is None:
            return None
        if item[1] is not None and item[1] <= time.time():
            del self.data[key]
            return None
        return item


SHARED = [None]    # directory


def share(path):
    SHARED[0] = path


class SharedDict(object):
    """A dictionary in a file, for processes that work in lock step."""

    def __init__(self, name):
        self.name = name

    def load(self):
        try:
            with open(os.path.join(SHARED[0], self.name), 'rb') as f:
                return pickle.load(f)
        except IOError:
            return {}

    def save(self, d):
        with open(os.path.join(SHARED[0], self.name), 'wb') as f:
            pickle.dump(d, f, 2)

    def get(self, k):
        return self.load().get(k)

    def __setitem__(self, k, v):
        d = self.load()
        d[k] = v
        self.save(d)

    def __delitem__(self, k):
        self.pop(k)

    def pop(self, k, default=None):
        d = self.load()
        v = d.pop(k, default)
        self.save(d)
        return v

    def clear(self):
        if SHARED[0]:
            self.save({})


def store(name):
    if name not in STORES:
        STORES[name] = Store()
        if name.startswith('fk'):
            STORES[name].data = SharedDict(name)
    return STORES[name]


def reset():
    for s in STORES.values():
        s.data.clear()


def _gate(kind, name, keys):
    if OPLOG[0] is not None:
        OPLOG[0].append((kind, name, tuple(keys)))
    if GATE[0] is not None:
        GATE[0](kind, name, keys)


class VBackend(BaseCache):
    """Bulk operations are one step when ATOMIC_BULK is set, else one step per key (as locmem, file, database)."""
    ATOMIC_BULK = True

    def __init__(self, name, params):
        params = dict(params)
        params.setdefault('TIMEOUT', None)
        BaseCache.__init__(self, params)
        self._name = name
        self._store = store(name)

    def _k(self, key, version):
        k = self.make_key(key, version=version)
        check_key(k)
        return k

    def _exp(self, timeout):
        if timeout is DEFAULT_TIMEOUT:
            timeout = self.default_timeout
        return None if timeout is None else time.time() + timeout

    def get(self, key, default=None, version=None):
        k = self._k(key, version)
        _gate('get', self._name, [k])
        item = self._store.live(k)
        return default if item is None else pickle.loads(item[0])

    def set(self, key, value, timeout=DEFAULT_TIMEOUT, version=None):
        k = self._k(key, version)
        p = pickle.dumps(value, pickle.HIGHEST_PROTOCOL)
        _gate('set', self._name, [k])
        self._store.data[k] = [p, self._exp(timeout)]

    def add(self, key, value, timeout=DEFAULT_TIMEOUT, version=None):
        k = self._k(key, version)
        p = pickle.dumps(value, pickle.HIGHEST_PROTOCOL)
        _gate('add', self._name, [k])
        if self._store.live(k) is not None:
            return False
        self._store.data[k] = [p, self._exp(timeout)]
        return True

    def delete(self, key, version=None):
        k = self._k(key, version)
        _gate('delete', self._name, [k])
        self._store.data.pop(k, None)

    def has_key(self, key, version=None):
        k = self._k(key, version)
        _gate('has_key', self._name, [k])
        return self._store.live(k) is not None

    def get_many(self, keys, version=None):
        if not self.ATOMIC_BULK:
            return BaseCache.get_many(self, keys, version)
        pairs = [(self._k(key, version), key) for key in keys]
        _gate('get_many', self._name, [k for k, _ in pairs])
        res = {}
        for k, key in pairs:
            item = self._store.live(k)
            if item is not None:
                res[key] = pickle.loads(item[0])
        return res

    def set_many(self, data, timeout=DEFAULT_TIMEOUT, version=None):
        if not self.ATOMIC_BULK:
            return BaseCache.set_many(self, data, timeout, version)
        items = [(self._k(key, version), pickle.dumps(v, pickle.HIGHEST_PROTOCOL)) for key, v in data.items()]
        _gate('set_many', self._name, [k for k, _ in items])
        for k, p in items:
            self._store.data[k] = [p, self._exp(timeout)]

    def delete_many(self, keys, version=None):
        if not self.ATOMIC_BULK:
            return BaseCache.delete_many(self, keys, version)
        ks = [self._k(key, version) for key in keys]
        _gate('delete_many', self._name, ks)
        for k in ks:
            self._store.data.pop(k, None)

    def clear(self):
        _gate('clear', self._name, [])
        self._store.data.clear()


class VBackendLoop(VBackend):
    ATOMIC_BULK = False


def make_simple_cache_class():
    from cache_dependencies.cache import AbstractCache

    class SimpleCache(AbstractCache):
        """get/set/delete/add/clear over a Store; everything else is inherited from AbstractCache."""

        def __init__(self, name):
            self._name = name
            self._store = store(name)

        def _k(self, key, version):
            k = self.make_key(key, version=version)
            self.validate_key(k)
            check_key(k)
            return k

        def _exp(self, timeout):
            return None if timeout is None else time.time() + timeout

        def get(self, key, default=None, version=None):
            k = self._k(key, version)
            _gate('get', self._name, [k])
            item = self._store.live(k)
            return default if item is None else pickle.loads(item[0])

        def set(self, key, value, timeout=None, version=None):
            k = self._k(key, version)
            p = pickle.dumps(value, pickle.HIGHEST_PROTOCOL)
            _gate('set', self._name, [k])
            self._store.data[k] = [p, self._exp(timeout)]

        def add(self, key, value, timeout=None, version=None):
            k = self._k(key, version)
            p = pickle.dumps(value, pickle.HIGHEST_PROTOCOL)
            _gate('add', self._name, [k])
            if self._store.live(k) is not None:
                return False
            self._store.data[k] = [p, self._exp(timeout)]
            return True

        def delete(self, key, version=None):
            k = self._k(key, version)
            _gate('delete', self._name, [k])
            self._store.data.pop(k, None)

        def clear(self):
            _gate('clear', self._name, [])
            self._store.data.clear()

    return SimpleCache
