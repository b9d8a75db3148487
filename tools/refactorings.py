"""behaviour-preserving rewrites, applied together to a scratch copy"""
import sys, os
ROOT = sys.argv[1]
only = sys.argv[2].split(',') if len(sys.argv) > 2 else None
E = []
def r(name, file, old, new, count=1): E.append((name, file, old, new, count))
C='cache_dependencies/cache.py'; T='cache_dependencies/transaction.py'; D='cache_dependencies/dependencies.py'
L='cache_dependencies/locks.py'; R='cache_dependencies/relations.py'; F='cache_dependencies/defer.py'
G='cache_dependencies/tagging.py'; N='cache_dependencies/nocache.py'; U='cache_dependencies/utils.py'
M='cache_dependencies/mixins.py'; X='cache_dependencies/exceptions.py'
J='django_cache_dependencies/__init__.py'; JU='django_cache_dependencies/utils.py'; B='django_cache_dependencies/backends.py'
W='django_cache_dependencies/middleware.py'; DE='django_cache_dependencies/decorators.py'; TT='django_cache_dependencies/templatetags/cache_tagging_tags.py'

# --- cache.py
r('getmany', C, '''        dependencies_reversed = {v: k for k, v in cache_dependencies.items()}
        composite_dependency = dependencies.CompositeDependency(*cache_dependencies.values())
        deferred = composite_dependency.validate(self.cache, version)
        try:
            deferred.get()
        except exceptions.DependencyInvalid as composite_error:
            for dependency_error in composite_error:
                cache_values.pop(dependencies_reversed[dependency_error.dependency], None)

        for key in cache_values:  # Looping through filtered result
            self.finish(key, cache_dependencies[key], version=version)
        return cache_values
''', '''        invalid = self._find_invalid(list(cache_dependencies.values()), version)
        result = {}
        for key, value in cache_values.items():
            dependency = cache_dependencies[key]
            if id(dependency) in invalid:
                continue
            self.finish(key, dependency, version=version)
            result[key] = value
        return result

    def _find_invalid(self, items, version):
        deferred = dependencies.CompositeDependency(*items).validate(self.cache, version)
        try:
            deferred.get()
        except exceptions.DependencyInvalid as error:
            return frozenset(id(child.dependency) for child in error)
        return frozenset()
''')
r('set', C, '''        combined_dependency_with_descendants = dependencies.CompositeDependency()
        combined_dependency_with_descendants.extend(dependency)
        combined_dependency_with_descendants.extend(self.relation_manager.get(key).get_dependency(version))

        try:
            self.transaction.current().evaluate(combined_dependency_with_descendants, version)
            # if tags will be invalidated again during this time by concurrent transaction - no problem, we just
            # save cache with invalid tags, and no one can read this cache.
        except exceptions.DependencyLocked:
            pass
        else:
            return self.cache.set(key, self._pack_data(value, combined_dependency_with_descendants), timeout, version)
        finally:
            self.finish(key, dependency, version=version)
''', '''        total = dependencies.CompositeDependency()
        for part in (dependency, self.relation_manager.get(key).get_dependency(version)):
            total.extend(part)
        try:
            if self._is_free(total, version):
                return self.cache.set(key, self._pack_data(value, total), timeout, version)
            return None
        finally:
            self.finish(key, dependency, version=version)

    def _is_free(self, dependency, version):
        try:
            self.transaction.current().evaluate(dependency, version)
        except exceptions.DependencyLocked:
            return False
        return True
''')
r('cget', C, '''        value, dependency = self._unpack_data(data)

        deferred = dependency.validate(self.cache, version)
        try:
            deferred.get()
        except exceptions.DependencyInvalid:
            return default

        self.finish(key, dependency, version=version)
        return value
''', '''        value, dependency = self._unpack_data(data)
        valid = True
        try:
            dependency.validate(self.cache, version).get()
        except exceptions.DependencyInvalid:
            valid = False
        if valid:
            self.finish(key, dependency, version=version)
        return value if valid else default
''')
r('pack', C, '''        return {
            '__value': value,
            '__dependency': dependency,
        }
''', '''        packed = dict(__value=value)
        packed['__dependency'] = dependency
        return packed
''')
r('unpack', C, '''        if cls._is_packed_data(data):
            return data['__value'], data['__dependency']
        else:
            return data, dependencies.DummyDependency()
''', '''        if not cls._is_packed_data(data):
            return data, dependencies.DummyDependency()
        return data['__value'], data['__dependency']
''')
r('getorset', C, '''        value = self.get(key, version=version)
        if value is None:
            args = args or []
            kwargs = kwargs or {}
            value = callback(*args, **kwargs)
            self.set(key, value, dependency, timeout, version)
        return value
''', '''        value = self.get(key, version=version)
        if value is not None:
            return value
        value = callback(*(args or ()), **(kwargs or {}))
        self.set(key, value, dependency=dependency, timeout=timeout, version=version)
        return value
''')
r('invdep', C, '''        self.transaction.current().add_dependency(dependency, version=version)
        dependency.invalidate(self.cache, version)
''', '''        transaction = self.transaction.current()
        transaction.add_dependency(dependency, version=version)
        backend = self.cache
        dependency.invalidate(backend, version)
''')
r('abs_getmany', C, '''        d = {}
        for k in keys:
            val = self.get(k, version=version)
            if val is not None:
                d[k] = val
        return d
''', '''        found = ((k, self.get(k, version=version)) for k in keys)
        return {k: v for k, v in found if v is not None}
''')
r('abs_incr', C, '''        new_value = value + delta
        self.set(key, new_value, version=version)
        return new_value
''', '''        value += delta
        self.set(key, value, version=version)
        return value
''')
r('abs_incrv', C, '''        if version is None:
            version = self.version

        value = self.get(key, version=version)
        if value is None:
            raise ValueError("Key '%s' not found" % key)

        self.set(key, value, version=version + delta)
        self.delete(key, version=version)
        return version + delta
''', '''        old = self.version if version is None else version
        new = old + delta
        value = self.get(key, version=old)
        if value is None:
            raise ValueError("Key '%s' not found" % key)
        self.set(key, value, version=new)
        self.delete(key, version=old)
        return new
''')
r('abs_vk', C, '''        for char in key:
            if ord(char) < 33 or ord(char) == 127:
                warnings.warn(''', '''        for code in map(ord, key):
            if code == 127 or code <= 32:
                warnings.warn(''')
# --- transaction.py
r('txstack', T, '''        self._lock = lock
        self._current = None

    def current(self, node=Undef):
        if node is Undef:
            return self._current or DummyTransaction(self._lock)
        self._current = node

    def begin(self):
        if self._current is None:
            self.current(Transaction(self._lock))
        else:
            self.current(SavePoint(self._lock, self.current()))
        return self.current()

    def finish(self):
        self.current().finish()
        self.current(self.current().parent())

    def flush(self):
        while self._current:
            self.finish()
''', '''        self._lock = lock
        self._active = None

    def current(self, node=Undef):
        if node is not Undef:
            self._active = node
        elif self._active:
            return self._active
        else:
            return DummyTransaction(self._lock)

    def begin(self):
        parent = self._active
        self._active = Transaction(self._lock) if parent is None else SavePoint(self._lock, parent)
        return self._active

    def finish(self):
        ending = self.current()
        ending.finish()
        self._active = ending.parent()

    def flush(self):
        while self._active is not None:
            ending = self._active
            ending.finish()
            self._active = ending.parent()
''')
r('sp', T, '''        super(SavePoint, self).add_dependency(dependency, version)
        self._parent.add_dependency(dependency, version)
''', '''        # the root keeps everything, and its lock is the lock of all
        super(SavePoint, self).add_dependency(dependency, version)
        parent = self.parent()
        parent.add_dependency(dependency, version)
''')
r('txadd', T, '''        if version not in self._dependencies:
            self._dependencies[version] = dependencies.CompositeDependency()
        self._dependencies[version].extend(dependency)
        self._lock.acquire(dependency, self, version)
''', '''        collected = self._dependencies.setdefault(version, dependencies.CompositeDependency())
        collected.extend(dependency)
        self._lock.acquire(dependency, self, version)
''')
r('txcall', T, '''            with self:
                rv = func(*args, **kw)
            return rv
''', '''            self.__enter__()
            try:
                return func(*args, **kw)
            finally:
                self.__exit__(None, None, None)
''')
# --- dependencies.py
r('cval', D, '''        try:
            deferred = functools.reduce(
                operator.iadd,
                [delegate.validate(cache, version) for delegate in self.delegates]
            )
        except TypeError:  # self.delegates is empty
            deferred = defer.Deferred(None, defer.NoneDeferredIterator)

        deferred += defer.Deferred(None, defer.NoneDeferredIterator)

        def callback(node, caches):
            errors = []
            for _ in range(0, len(self.delegates)):
                try:
                    node.get()
                except exceptions.DependencyInvalid as e:
                    errors.append(e)
            if errors:
''', '''        deferred = None
        for delegate in self.delegates:
            part = delegate.validate(cache, version)
            if deferred is None:
                deferred = part
            else:
                deferred += part
        if deferred is None:
            deferred = defer.Deferred(None, defer.NoneDeferredIterator)
        deferred += defer.Deferred(None, defer.NoneDeferredIterator)
        count = len(self.delegates)

        def callback(node, caches):
            errors = []
            remaining = count
            while remaining:
                remaining -= 1
                try:
                    node.get()
                except exceptions.DependencyInvalid as e:
                    errors.append(e)
            if len(errors):
''')
r('ceval', D, '''        items = []
        for delegate in self.delegates:
            try:
                delegate.evaluate(cache, transaction, version)
            except exceptions.DependencyLocked as e:
                items.append(e)
        if items:
            raise exceptions.CompositeDependencyLocked(self, items)
''', '''        locked = [e for e in (
            self._evaluate_one(delegate, cache, transaction, version) for delegate in self.delegates
        ) if e is not None]
        if locked:
            raise exceptions.CompositeDependencyLocked(self, locked)

    @staticmethod
    def _evaluate_one(delegate, cache, transaction, version):
        try:
            delegate.evaluate(cache, transaction, version)
        except exceptions.DependencyLocked as e:
            return e
''')
r('cext', D, '''        if isinstance(other, CompositeDependency):
            for other_delegate in other.delegates:
                self.extend(other_delegate)
            return True
        else:
            for delegate in self.delegates:
                if delegate.extend(other):  # Chain of responsibility
                    break
            else:
                self.delegates.append(copy.copy(other))
        return True
''', '''        if isinstance(other, CompositeDependency):
            for other_delegate in tuple(other.delegates):
                self.extend(other_delegate)
        elif not any(delegate.extend(other) for delegate in self.delegates):
            self.delegates.append(copy.copy(other))
        return True
''')
r('locked', D, '''        if transaction.get_session_id() == self.session_id:
            # Released by current thread, ignore it
            return False
        elif transaction.get_start_time() <= (self.time + self.delay):
            # We don't create cache in all transactions started earlier
            # than finished the transaction which has invalidated tag.
            return True
        return False
''', '''        foreign = transaction.get_session_id() != self.session_id
        return foreign and not transaction.get_start_time() > (self.time + self.delay)
''')
r('rel', D, '''        return self.session_id == acquired_tag_state.session_id and self.time > acquired_tag_state.time
''', '''        if self.session_id != acquired_tag_state.session_id:
            return False
        return acquired_tag_state.time < self.time
''')
r('teval', D, '''        tag_versions = self._get_tag_versions(cache, version).get()
        nonexistent_tags = self.tags - set(tag_versions.keys())
        created_tag_versions = self._make_tag_versions(cache, nonexistent_tags, version)
        tag_versions.update(created_tag_versions)
        locked_tags = self._get_locked_tags(cache, transaction, version).get()
        if locked_tags:
            raise exceptions.TagsLocked(self, locked_tags)
        self.tag_versions = tag_versions
''', '''        versions = dict(self._get_tag_versions(cache, version).get())
        absent = set(tag for tag in self.tags if tag not in versions)
        versions.update(self._make_tag_versions(cache, absent, version))
        locked_tags = self._get_locked_tags(cache, transaction, version).get()
        if not locked_tags:
            self.tag_versions = versions
            return
        raise exceptions.TagsLocked(self, locked_tags)
''')
r('tval', D, '''            actual_tag_versions = node.get()
            invalid_tags = set(
                tag for tag, tag_version in self.tag_versions.items()
                if actual_tag_versions.get(tag) != tag_version
            )
            if invalid_tags:
''', '''            actual = node.get()
            invalid_tags = set()
            for tag in self.tag_versions:
                if tag not in actual or actual[tag] != self.tag_versions[tag]:
                    invalid_tags.add(tag)
            if invalid_tags:
''')
r('tinv', D, '''        tag_keys = list(map(utils.make_tag_key, self.tags))
        cache.delete_many(tag_keys, version=version)
''', '''        for tag in self.tags:
            cache.delete(utils.make_tag_key(tag), version=version)
''')
r('tacq', D, '''        cache.set_many(
            {AcquiredTagState.make_key(tag): state for tag in self.tags}, self.TAG_STATE_TIMEOUT, version
        )
''', '''        for tag in sorted(self.tags, key=str):
            cache.set_many({AcquiredTagState.make_key(tag): state}, self.TAG_STATE_TIMEOUT, version)
''')
r('ttl', D, '''        state = ReleasedTagState(transaction, delay)
        cache.set_many(
            {ReleasedTagState.make_key(tag): state for tag in self.tags},
            self.TAG_STATE_TIMEOUT + max(delay, 1),  # Must have ttl greater than ttl of AcquiredTagState
            version
        )
''', '''        timeout = max(self.TAG_STATE_TIMEOUT + delay, self.TAG_STATE_TIMEOUT + 1)
        states = {}
        for tag in self.tags:
            states[ReleasedTagState.make_key(tag)] = ReleasedTagState(transaction, delay)
        cache.set_many(states, timeout=timeout, version=version)
''')
r('tlock', D, '''        acquired_tag_states = {acquired_tag_keys[tag_key]: state for tag_key, state in caches.items()
                               if tag_key in acquired_tag_keys}
        released_tag_states = {released_tag_keys[tag_key]: state for tag_key, state in caches.items()
                               if tag_key in released_tag_keys}
        locked_tags = set()
        for tag in self.tags:
            state = acquired_tag_states.get(tag)
            released_state = released_tag_states.get(tag)
            if released_state is not None:
                if state is None or released_state.is_released(state):
                    state = released_state
            if state is not None and state.is_locked(transaction):
                locked_tags.add(tag)
        return locked_tags
''', '''        def effective(tag):
            acquired = caches.get(AcquiredTagState.make_key(tag))
            released = caches.get(ReleasedTagState.make_key(tag))
            if released is None:
                return acquired
            if acquired is None:
                return released
            return released if released.is_released(acquired) else acquired

        def is_locked(tag):
            state = effective(tag)
            return state is not None and state.is_locked(transaction)

        return set(filter(is_locked, self.tags))
''')
# --- locks
r('mk', L, '''        if isolation_level == 'READ UNCOMMITTED':
            return ReadUncommittedDependencyLock(thread_safe_cache_accessor, delay)
        elif isolation_level == 'READ COMMITTED':
            return ReadCommittedDependencyLock(thread_safe_cache_accessor, delay)
        elif isolation_level == 'REPEATABLE READ':
            return RepeatableReadDependencyLock(thread_safe_cache_accessor, delay)
        elif isolation_level == 'SERIALIZABLE':
            return SerializableDependencyLock(thread_safe_cache_accessor, delay)
        else:
            raise ValueError(isolation_level)
''', '''        factories = {
            'READ UNCOMMITTED': ReadUncommittedDependencyLock,
            'READ COMMITTED': ReadCommittedDependencyLock,
            'REPEATABLE READ': RepeatableReadDependencyLock,
            'SERIALIZABLE': SerializableDependencyLock,
        }
        try:
            factory = factories[isolation_level]
        except KeyError:
            raise ValueError(isolation_level)
        return factory(thread_safe_cache_accessor, delay)
''')
r('timer', L, '''        return threading.Timer(self._delay, self._release_dependency_target, [dependency, version]).start()
''', '''        timer = threading.Timer(self._delay, lambda: self._release_dependency_target(dependency, version))
        timer.start()
''')
# --- relations
r('nodeadd', R, '''        assert isinstance(dependency, interfaces.IDependency)
        if version not in self._dependencies:
            self._dependencies[version] = dependencies.CompositeDependency()
        self._dependencies[version].extend(dependency)
        self.parent().add_dependency(dependency, version)
''', '''        assert isinstance(dependency, interfaces.IDependency)
        self._extend(dependency, version)
        parent = self._parent
        if parent is not None:
            parent.add_dependency(dependency, version)

    def _extend(self, dependency, version):
        own = self._dependencies.get(version)
        if own is None:
            own = self._dependencies[version] = dependencies.CompositeDependency()
        own.extend(dependency)
''')
r('relpop', R, '''        try:
            node = self._data.pop(key)
        except KeyError:
            node = DummyCacheNode()

        if self.current() is node:
            self.current(node.parent())
        return node
''', '''        node = self._data.pop(key, None)
        if node is None:
            return DummyCacheNode()
        if self._current is node:
            self._current = node.parent()
        return node
''')
r('relget', R, '''        if key not in self._data:
            self._data[key] = CacheNode(key, self._current)
        return self._data[key]
''', '''        node = self._data.get(key)
        if node is None:
            node = CacheNode(key, self._current)
            self._data[key] = node
        return node
''')
# --- defer
r('dget', F, '''        self._index += 1
        aggregated_caches = self._get_aggregated_caches(node)
        callback, args, kwargs = node.queue[queue_len - self._index]
        item_caches = {key: aggregated_caches[key] for key in args[0] if key in aggregated_caches}
        return callback(node, item_caches, *args, **kwargs)
''', '''        callback, args, kwargs = node.queue[queue_len - self._index - 1]
        aggregated_caches = self._get_aggregated_caches(node)
        self._index += 1
        wanted = set(args[0])
        item_caches = dict((key, value) for key, value in aggregated_caches.items() if key in wanted)
        return callback(node, item_caches, *args, **kwargs)
''')
r('dadd', F, '''        if self.node.aggregation_criterion == other.aggregation_criterion:
            self.node.queue.extend(other.queue)
        else:
            other.parent, self.node = self.node, other

        return self
''', '''        mine = self.node
        if mine.aggregation_criterion != other.aggregation_criterion:
            other.parent = mine
            self.node = other
            return self
        for item in other.queue:
            mine.queue.append(item)
        return self
''')
r('dkeys', F, '''        keys = set()
        for callback, args, kwargs in node.queue:
            keys |= set(args[0])
        return keys
''', '''        return set(key for item in node.queue for key in item[1][0])
''')
# --- tagging
r('tset', G, '''        if not isinstance(tags, (list, tuple, set, frozenset, interfaces.IDependency)):  # Called as native API
            if version is None and timeout is not None:
                version = timeout
            tags, timeout = dependencies.DummyDependency(), tags

        if isinstance(tags, interfaces.IDependency):
            dependency = tags
        elif tags:
            dependency = dependencies.TagsDependency(tags)
        else:
            dependency = dependencies.DummyDependency()
        self.cache.set(key, value, dependency, timeout, version)
''', '''        if isinstance(tags, interfaces.IDependency):
            dependency = tags
        elif isinstance(tags, (list, tuple, set, frozenset)):
            dependency = dependencies.TagsDependency(*tags) if tags else dependencies.DummyDependency()
        else:  # Called as native API
            if timeout is not None and version is None:
                version = timeout
            timeout = tags
            dependency = dependencies.DummyDependency()
        self.cache.set(key, value, dependency, timeout, version)
''')
r('tinvtags', G, '''        if len(tags) == 1 and isinstance(tags[0], interfaces.IDependency):
            dependency = tags[0]
        elif len(tags) == 1 and isinstance(tags[0], (list, tuple, set, frozenset)):
            dependency = dependencies.TagsDependency(tags[0])
        elif tags:
            dependency = dependencies.TagsDependency(tags)
        else:
            dependency = dependencies.DummyDependency()
        version = kwargs.get('version', None)
        self.cache.invalidate_dependency(dependency, version)
''', '''        version = kwargs.get('version')
        if not tags:
            dependency = dependencies.DummyDependency()
        else:
            first = tags[0] if len(tags) == 1 else None
            if isinstance(first, interfaces.IDependency):
                dependency = first
            else:
                dependency = dependencies.TagsDependency(*tags)
        self.cache.invalidate_dependency(dependency, version=version)
''')
# --- nocache
r('nch', N, '''            lines = match.group(2).split('\\n')
            lines = [l.rstrip() for l in lines]
            lines_stripped = []
            start = None
            result = ''
            for l in lines:
                if not l:
                    continue
                if start is None:
                    start = len(l) - len(l.lstrip())
                lines_stripped.append(l[start:])
            lines_stripped.append('')
            stdout = StringIO()

            def echo(*args):
                for arg in args:
                    stdout.write(str(arg))

            _globals = {}
            _globals.update(globals())
            _globals['echo'] = echo

            # One namespace, because of functions and comprehensions don't see locals of eval().
            _globals.update(data)
            _globals.update(self.unpickle(match.group(1)))

            code = compile("\\n".join(lines_stripped), '<string>', 'exec')
            eval(code, _globals)
            result = stdout.getvalue()
            stdout.close()
''', '''            output = []

            def echo(*args):
                output.extend(str(arg) for arg in args)

            namespace = dict(globals(), echo=echo)
            namespace.update(data)
            namespace.update(self.unpickle(match.group(1)))
            exec(compile(self._dedent(match.group(2)), '<string>', 'exec'), namespace)
            result = ''.join(output)
''')
r('nch2', N, '''    def handle(self, tpl, **data):
''', '''    @staticmethod
    def _dedent(text):
        lines = [line.rstrip() for line in text.split('\\n')]
        lines = [line for line in lines if line]
        indent = len(lines[0]) - len(lines[0].lstrip()) if lines else 0
        return "\\n".join([line[indent:] for line in lines] + [''])

    def handle(self, tpl, **data):
''')
# --- utils
r('tid', U, '''    if getattr(_thread_local, 'pid', None) != os.getpid():
        # The system reuses the identifier of a finished thread.
        _thread_local.thread_id = '{0}.{1}.{2}.{3}'.format(
            socket.gethostname(), os.getpid(), _thread.get_ident(), uuid.uuid4().hex
        )
        _thread_local.pid = os.getpid()
    return _thread_local.thread_id
''', '''    pid = os.getpid()
    identity = _thread_local.__dict__.get('identity')
    if identity is None or identity[0] != pid:
        identity = (pid, '.'.join([socket.gethostname(), str(pid), uuid.uuid4().hex]))
        _thread_local.identity = identity
    return identity[1]
''')
r('tk', U, '''    version = str(__version__).replace('.', '')
    name = hashlib.md5(str(name).encode('utf-8')).hexdigest()
    return 'tag_{0}_{1}'.format(version, name)
''', '''    digest = hashlib.sha1(str(name).encode('utf-8')).hexdigest()
    return 'tag_{0}_{1}'.format(str(__version__).replace('.', ''), digest)
''')
r('gv', U, '''    hash_value = hashlib.md5("{0}{1}{2}".format(
        randrange(0, MAX_TAG_KEY), get_thread_id(), time.time()
    ).encode('utf8')).hexdigest()
    return hash_value
''', '''    return uuid.uuid4().hex
''')
# --- mixins
r('mx', M, '''        if self._thread_id != self._get_thread_id():
            raise RuntimeError(''', '''        same = self._get_thread_id() == self._thread_id
        if not same:
            raise RuntimeError(''')
# --- exceptions
r('exi', X, '''        return itertools.chain(*map(operator.attrgetter('errors'), self.children))
''', '''        return [error for child in self.children for error in child.errors]
''')
# --- django __init__
r('clr', J, '''    obj = kwargs['instance']
    try:
        tags = tags_func(*args, **kwargs)
    except TypeError:
        tags = tags_func(obj)
    if not isinstance(tags, (list, tuple, set, frozenset)):
        tags = (tags, )
    if isinstance(cache_alias, string_types):
        cache = caches[cache_alias]
    else:
        cache = cache_alias
    cache.invalidate_tags(*tags)
''', '''    target = caches[cache_alias] if isinstance(cache_alias, string_types) else cache_alias
    try:
        tags = tags_func(*args, **kwargs)
    except TypeError:
        tags = tags_func(kwargs['instance'])
    if isinstance(tags, (list, tuple, set, frozenset)):
        target.invalidate_tags(*tags)
    else:
        target.invalidate_tags(tags)
''')
r('reg', J, '''        for data in model_tags:
            Model = data[0]
            tags_func = data[1]
            apply_cache = len(data) > 2 and data[2] or 'default'
            model_signals.post_save.connect(
                curry(_clear_cached, tags_func, apply_cache),
                sender=Model, weak=False
            )
            model_signals.pre_delete.connect(
                curry(_clear_cached, tags_func, apply_cache),
                sender=Model, weak=False
            )
''', '''        for data in model_tags:
            self._connect(*data)

    @staticmethod
    def _connect(model, tags_func, target=None, *ignored):
        handler = curry(_clear_cached, tags_func, target or 'default')
        for signal in (model_signals.pre_delete, model_signals.post_save):
            signal.connect(handler, sender=model, weak=False)
''')
r('coll', J, '''        if key not in self._caches:
            options''', '''        try:
            return self._caches[key]
        except KeyError:
            options''')
r('close', J, '''    for cache in caches.all():
        cache.close()
''', '''    for cache in list(caches.all()):
        cache.cache.close()
''')
# --- django utils
r('lck', JU, '''        headerlist = []
        for header in cc_delim_re.split(response['Vary']):
            header = header.upper().replace('-', '_')
            if header == 'ACCEPT_LANGUAGE' and is_accept_language_redundant:
                continue
            headerlist.append('HTTP_' + header)
        headerlist.sort()
        cache.set(cache_key, headerlist, tags, cache_timeout)  # patched
        return _generate_cache_key(request, request.method, headerlist, key_prefix)
    else:
        # if there is no Vary header, we still need a cache key
        # for the request.build_absolute_uri()
        cache.set(cache_key, [], tags, cache_timeout)  # patched
        return _generate_cache_key(request, request.method, [], key_prefix)
''', '''        names = [name.upper().replace('-', '_') for name in cc_delim_re.split(response['Vary'])]
        if is_accept_language_redundant:
            names = [name for name in names if name != 'ACCEPT_LANGUAGE']
        headerlist = sorted('HTTP_' + name for name in names)
    else:
        headerlist = []
    cache.set(cache_key, headerlist, tags=tags, timeout=cache_timeout)
    return _generate_cache_key(request, request.method, headerlist, key_prefix)
''')
# --- backends
r('fb', B, '''        try:
            if not os.path.exists(dirname):
                os.makedirs(dirname)

            fd, tmp = tempfile.mkstemp(suffix=self._fs_transaction_suffix,
                                       dir=dirname)

            with os.fdopen(fd, 'wb') as f:
                # The format of the file and its name are those of get()
                f.write(pickle.dumps(self.get_backend_timeout(timeout), pickle.HIGHEST_PROTOCOL))
                f.write(zlib.compress(pickle.dumps(value, pickle.HIGHEST_PROTOCOL)))
            os.rename(tmp, fname)
        except (IOError, OSError):
            pass''', '''        try:
            self._replace(fname, dirname, self._contents(value, timeout))
        except (IOError, OSError):
            pass

    def _contents(self, value, timeout):
        expiry = pickle.dumps(self.get_backend_timeout(timeout), pickle.HIGHEST_PROTOCOL)
        return expiry + zlib.compress(pickle.dumps(value, pickle.HIGHEST_PROTOCOL))

    def _replace(self, fname, dirname, contents):
        if not os.path.isdir(dirname):
            os.makedirs(dirname)
        handle = tempfile.NamedTemporaryFile(
            mode='wb', prefix='pending', suffix=self._fs_transaction_suffix, dir=dirname, delete=False
        )
        with handle:
            handle.write(contents)
        os.rename(handle.name, fname)
''')
# --- middleware
r('upd', W, '''        timeout = get_max_age(response)
        if timeout is None:
            timeout = self.cache_timeout
        elif timeout == 0:
            # max-age was set to 0, don't bother caching.
            return response
        # patch start
        patch_response_headers(response, timeout)
        tags = set()
        if self.tags:
            # Usefull to bind view, args and kwargs to request.
            # See https://bitbucket.org/emacsway/django-ext/src/d8b55d86680e/django_ext/middleware/view_args_to_request.py
            tags = self.tags(request)
        tags = set(tags)
        # Adds tags from request, see templatetag {% cache_add_tags ... %}
        if hasattr(request, 'cache_tagging'):
            tags.update(request.cache_tagging)
        if timeout:
            cache_key = learn_cache_key(request, response, tags, timeout, self.key_prefix, cache=self.cache)  # patched
            if hasattr(response, 'render') and isinstance(response.render, collections.Callable):
                response.add_post_render_callback(
                    lambda r: self.cache.set(cache_key, r, self._get_dependency(request, tags), timeout)  # patched
                )
            else:
                self.cache.set(cache_key, response, self._get_dependency(request, tags), timeout)  # patched
        # patch end
        return response
''', '''        timeout = get_max_age(response)
        if timeout == 0:
            return response
        if timeout is None:
            timeout = self.cache_timeout
        patch_response_headers(response, timeout)
        tags = self._page_tags(request)
        if not timeout:
            return response
        cache_key = learn_cache_key(request, response, tags, timeout, self.key_prefix, cache=self.cache)

        def save(finished):
            self.cache.set(cache_key, finished, self._get_dependency(request, tags), timeout)

        if hasattr(response, 'render') and isinstance(response.render, collections.Callable):
            response.add_post_render_callback(save)
        else:
            save(response)
        return response

    def _page_tags(self, request):
        tags = set(self.tags(request)) if self.tags else set()
        return tags | set(getattr(request, 'cache_tagging', ()))
''')
r('fetch', W, '''        cache_key = get_cache_key(request, self.key_prefix, 'GET', cache=self.cache)
        if cache_key is None:
            request._cache_update_cache = True
            request._cache_tagging_node = self.cache.relation_manager.current()  # patched
            return None  # No cache information available, need to rebuild.
        response = self.cache.get(cache_key)
        # if it wasn't found and we are looking for a HEAD, try looking just for that
        if response is None and request.method == 'HEAD':
            cache_key = get_cache_key(request, self.key_prefix, 'HEAD', cache=self.cache)
            response = self.cache.get(cache_key)

        if response is None:
            request._cache_update_cache = True
            request._cache_tagging_node = self.cache.relation_manager.current()  # patched
            return None  # No cache information available, need to rebuild.

        # hit, return cached response
        request._cache_update_cache = False
        return response
''', '''        response = None
        methods = ['GET'] if request.method == 'GET' else ['GET', 'HEAD']
        for method in methods:
            cache_key = get_cache_key(request, self.key_prefix, method, cache=self.cache)
            if cache_key is None:
                break
            response = self.cache.get(cache_key)
            if response is not None:
                break
        request._cache_update_cache = response is None
        if response is None:
            request._cache_tagging_node = self.cache.relation_manager.current()
        return response
''')
r('dep', W, '''        dependency = CompositeDependency(TagsDependency(tags))
        node = getattr(request, '_cache_tagging_node', None)
        if node is not None:
            dependency.extend(node.get_dependency())
        return dependency
''', '''        node = getattr(request, '_cache_tagging_node', None)
        parts = [TagsDependency(tags)]
        if node is not None:
            parts.append(node.get_dependency())
        result = CompositeDependency()
        for part in parts:
            result.extend(part)
        return result
''')
# --- decorators
r('cp', DE, '''    if len(args) > 1:
        assert len(args) == 2''', '''    options = dict(cache_alias=cache_alias, key_prefix=key_prefix, tags=tags)
    make = decorator_from_middleware_with_args(CacheMiddleware)
    if len(args) == 2 and any(isinstance(arg, collections.Callable) for arg in args):
        warn()
        view, timeout = args if isinstance(args[0], collections.Callable) else args[::-1]
        return make(cache_timeout=timeout, **options)(view)
    if len(args) == 1 and not isinstance(args[0], collections.Callable):
        return make(cache_timeout=args[0], **options)
    if len(args) > 1:
        assert len(args) == 2''')
r('cta', DE, '''            cache.transaction.begin()
            try:
                return f(*args, **kwargs)
            finally:
                cache.transaction.flush()
''', '''            manager = cache.transaction
            manager.begin()
            try:
                result = f(*args, **kwargs)
            except BaseException:
                manager.flush()
                raise
            manager.flush()
            return result
''')
# --- template tags
r('cn', TT, '''            result = self.nodelist.render(sub_context)
            tags = sub_context['cache_tagging']

            # Prevent caching of ancestor
            if sub_context['cache_tagging_prevent']:
                set_prevented(context)
            prevent = sub_context['cache_tagging_prevent']

            if 'request' in context:
                request = context['request']
                if not hasattr(request, 'cache_tagging'):
                    request.cache_tagging = set()
                if isinstance(request.cache_tagging, set):
                    request.cache_tagging.update(tags)
                if context['cache_tagging_prevent']:
                    prevent_cache_page(request)

            if not prevent:
                cache.set(cache_name, result, tags, timeout)
            else:
                cache.abort(cache_name)
''', '''            result = self.nodelist.render(sub_context)
            tags, prevent = sub_context['cache_tagging'], sub_context['cache_tagging_prevent']
            if prevent:
                cache.abort(cache_name)
                set_prevented(context)
            else:
                cache.set(cache_name, result, tags, timeout)
            self._tell_request(context, tags)
''')
r('cn2', TT, '''    def render(self, context):
        cache_name = self.fragment_name.resolve(context)
''', '''    @staticmethod
    def _tell_request(context, tags):
        if 'request' not in context:
            return
        request = context['request']
        collected = getattr(request, 'cache_tagging', None)
        if collected is None:
            request.cache_tagging = set(tags)
        elif isinstance(collected, set):
            collected |= set(tags)
        if context['cache_tagging_prevent']:
            prevent_cache_page(request)

    def render(self, context):
        cache_name = self.fragment_name.resolve(context)
''')
for name, file, old, new, count in E:
    if only and name not in only: continue
    p = os.path.join(ROOT, file); s = open(p).read()
    assert s.count(old) == count, (name, s.count(old))
    open(p, 'w').write(s.replace(old, new))
print(len(E))
