From 883ed707b47cd67ce3ded308c56aafbf9c9d369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 01/22] fix: nested {% cache_tagging %} overwrote the tags and
 the prevention of the enclosing one

copy.copy(context) shares the dicts of the context, so that the variables
set for the nested fragment replaced the ones of the enclosing fragment:
the latter was saved without its own tags, and was saved although its
caching had been prevented before the nested fragment.
---
 .../templatetags/cache_tagging_tags.py                 | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 2c1569c..419a4cd 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -96,9 +96,13 @@ class CacheNode(Node):
                 context['cache_tagging_prevent'] = False
 
             sub_context = copy.copy(context)
-            sub_context['cache_tagging'] = set(tags)
-            # Allows nested caching
-            sub_context['cache_tagging_prevent'] = False
+            # The copy shares its dicts with the original context, so that
+            # the variables of this fragment need a dict of their own.
+            sub_context.update({
+                'cache_tagging': set(tags),
+                # Allows nested caching
+                'cache_tagging_prevent': False,
+            })
             result = self.nodelist.render(sub_context)
             tags = sub_context['cache_tagging']
 
-- 
2.43.0


From f83bcf68b70acdba107ca0a52b9e6c61c37cf86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 02/22] fix: {% cache_tagging_prevent %} was lost inside of {%
 with %}, {% for %}, {% block %}, {% include %}

The flag was set in the innermost dict of the context, which is dropped
at the end of such block, and the fragment was cached.
---
 .../templatetags/cache_tagging_tags.py              | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 419a4cd..3a9eca3 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -53,6 +53,15 @@ def do_cache_add_tags(parser, token):
 register.tag('cache_add_tags', do_cache_add_tags)
 
 
+def set_prevented(context):
+    """Sets the flag of the current fragment, not of the innermost block."""
+    for context_dict in reversed(context.dicts):
+        if 'cache_tagging_prevent' in context_dict:
+            context_dict['cache_tagging_prevent'] = True
+            return
+    context['cache_tagging_prevent'] = True
+
+
 class CacheNode(Node):
     def __init__(self, nodelist, fragment_name, timeout_var, vary_on, kwargs, filters):
         self.nodelist = nodelist
@@ -108,7 +117,7 @@ class CacheNode(Node):
 
             # Prevent caching of ancestor
             if sub_context['cache_tagging_prevent']:
-                context['cache_tagging_prevent'] = True
+                set_prevented(context)
             prevent = sub_context['cache_tagging_prevent']
 
             if 'request' in context:
@@ -208,7 +217,7 @@ def do_cache(parser, token):
 @register.simple_tag(takes_context=True)
 def cache_tagging_prevent(context):
     """Prevents caching from body of cachetags."""
-    context['cache_tagging_prevent'] = True
+    set_prevented(context)
     return ''
 
 register.tag('cache_tagging', do_cache)
-- 
2.43.0


From ef9338569d293a1220f7ecdd7473b6d994978c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 03/22] fix: cache.ignore_descendants = True had no effect

The documented switch was set on CacheTagging, but is read by CacheWrapper.
---
 cache_dependencies/tagging.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 511bb21..0a1ee2f 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -10,6 +10,14 @@ class CacheTagging(object):  # Backward compatibility
         """Constructor of cache instance."""
         self.cache = CacheWrapper(cache, relation_manager, transaction)
 
+    @property
+    def ignore_descendants(self):
+        return self.cache.ignore_descendants
+
+    @ignore_descendants.setter
+    def ignore_descendants(self, value):
+        self.cache.ignore_descendants = value
+
     def get_or_set_callback(self, key, callback, tags=(), timeout=None,
                             version=None, args=None, kwargs=None):
         """Returns cache value if exists
-- 
2.43.0


From 1b89fa028417e9cf5dd6c1466ca58947f9819326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 04/22] fix: "key in cache" raised TypeError

Special methods are not looked up by __getattr__(), so that membership test
(including DefaultCacheProxy.__contains__()) was not delegated to the backend.
---
 cache_dependencies/cache.py   | 3 +++
 cache_dependencies/tagging.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 545c34a..1aadf4d 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -189,6 +189,9 @@ class CacheWrapper(object):  # Adapter
     def _is_packed_data(data):
         return isinstance(data, dict) and '__dependency' in data and '__value' in data
 
+    def __contains__(self, key):
+        return key in self.cache
+
     def __getattr__(self, name):
         """Delegate for all native methods."""
         return getattr(self.cache, name)
diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 0a1ee2f..4c14741 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -75,6 +75,9 @@ class CacheTagging(object):  # Backward compatibility
         self.transaction.flush()
         return self
 
+    def __contains__(self, key):
+        return key in self.cache
+
     def __getattr__(self, name):
         """Proxy for all native methods."""
         return getattr(self.cache, name)
-- 
2.43.0


From 92278769c050df75f9ff25a0d9d14f69f9bd7432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 05/22] fix: cache.get_many() found nothing if keys is an
 iterator

The iterator was exhausted before the backend was queried.
---
 cache_dependencies/cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 1aadf4d..8a6f479 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -82,6 +82,7 @@ class CacheWrapper(object):  # Adapter
         :type version: int or None
         :type abort: bool
         """
+        keys = list(keys)  # It is iterated twice, and can be an iterator
         if not abort and not self.ignore_descendants:
             current_cache_node = self.relation_manager.current()
             for key in keys:
-- 
2.43.0


From 1ce42985c0044bb4845f4ba51bf79d2af6644e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 06/22] fix: @cache_transaction_all() replaced the function by
 None and leaked the transaction on exception

---
 django_cache_dependencies/decorators.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/django_cache_dependencies/decorators.py b/django_cache_dependencies/decorators.py
index e047ebc..4ccc258 100644
--- a/django_cache_dependencies/decorators.py
+++ b/django_cache_dependencies/decorators.py
@@ -46,21 +46,18 @@ def cache_transaction_all(f=None, cache=None):
     elif not cache:
         cache = globals()['cache']
 
-    def wrapper(*args, **kwargs):
-        cache.transaction.begin()
-        result = f(*args, **kwargs)
-        cache.transaction.flush()
-        return result
-
-    if f:
-        return wrapper
-
     def wrapper_outer(f):
         def wrapper(*args, **kwargs):
             cache.transaction.begin()
-            result = f(*args, **kwargs)
-            cache.transaction.flush()
-            return result
+            try:
+                return f(*args, **kwargs)
+            finally:
+                cache.transaction.flush()
+
+        return wrapper
+
+    if f:
+        return wrapper_outer(f)
 
     return wrapper_outer
 
-- 
2.43.0


From da171f26aed7700b13fd09464c9fda7f1c065a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 07/22] fix: UpdateCacheMiddleware used alone raised
 AttributeError (no attribute 'tags')

---
 django_cache_dependencies/middleware.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index 958a316..e2ce34a 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -116,6 +116,7 @@ class UpdateCacheMiddleware(MiddlewareMixin):
         self.key_prefix = settings.CACHE_MIDDLEWARE_KEY_PREFIX
         self.cache_anonymous_only = getattr(settings, 'CACHE_MIDDLEWARE_ANONYMOUS_ONLY', False)
         self.cache_alias = settings.CACHE_MIDDLEWARE_ALIAS
+        self.tags = None
         self.get_response = get_response
 
     # patch start
-- 
2.43.0


From 784e52f47cc99f48ba0821e9e798772292d92a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:18 +0000
Subject: [PATCH 08/22] fix: an empty nocache block swallowed the text up to
 the end of the next block

---
 cache_dependencies/nocache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_dependencies/nocache.py b/cache_dependencies/nocache.py
index c7d6ac4..9d2f9d4 100644
--- a/cache_dependencies/nocache.py
+++ b/cache_dependencies/nocache.py
@@ -36,7 +36,7 @@ class NoCache(object):
         )
         self._end = '</{0}>'.format(self.tag_name)
         # Usind lookahead assertion in case nested nocaches.
-        self.nocache_pattern = r'{0}(.+?)(?!<{1}){2}'.format(
+        self.nocache_pattern = r'{0}(.*?)(?!<{1}){2}'.format(
             self._start.format('([^"]+)'),
             self.tag_name,
             self._end
-- 
2.43.0


From 1da33ce080807371b4550194b36ecb8d9d845c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:03 +0000
Subject: [PATCH 09/22] fix: FileBasedCache.set() stored values where (and how)
 get() could not find them

---
 django_cache_dependencies/backends.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/django_cache_dependencies/backends.py b/django_cache_dependencies/backends.py
index 07c0563..a4ca42e 100644
--- a/django_cache_dependencies/backends.py
+++ b/django_cache_dependencies/backends.py
@@ -1,8 +1,8 @@
 import os
 import random
-import time
 import tempfile
 import threading
+import zlib
 from django.core.cache.backends.filebased import pickle, FileBasedCache as DjangoFileBasedCache
 
 
@@ -12,10 +12,7 @@ class FileBasedCache(DjangoFileBasedCache):
     _fs_transaction_suffix = '.__dj_cache'
 
     def set(self, key, value, timeout=None, version=None):
-        key = self.make_key(key, version=version)
-        self.validate_key(key)
-
-        fname = self._key_to_file(key)
+        fname = self._key_to_file(key, version)
         dirname = os.path.dirname(fname)
 
         if timeout is None:
@@ -32,9 +29,9 @@ class FileBasedCache(DjangoFileBasedCache):
                                        dir=dirname)
 
             with os.fdopen(fd, 'wb') as f:
-                now = time.time()
-                pickle.dump(now + timeout, f, pickle.HIGHEST_PROTOCOL)
-                pickle.dump(value, f, pickle.HIGHEST_PROTOCOL)
+                # The format of the file and its name are those of get()
+                f.write(pickle.dumps(self.get_backend_timeout(timeout), pickle.HIGHEST_PROTOCOL))
+                f.write(zlib.compress(pickle.dumps(value, pickle.HIGHEST_PROTOCOL)))
             os.rename(tmp, fname)
         except (IOError, OSError):
             pass
-- 
2.43.0


From 8fb043d46c3b606de8aba8fb4c2e02bd8a66bd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:34 +0000
Subject: [PATCH 10/22] fix: a save could pass the lock check before the
 acquisition, and create versions of tags after the invalidation

---
 cache_dependencies/dependencies.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/cache_dependencies/dependencies.py b/cache_dependencies/dependencies.py
index dd5e3bf..e6dde5a 100644
--- a/cache_dependencies/dependencies.py
+++ b/cache_dependencies/dependencies.py
@@ -209,17 +209,16 @@ class TagsDependency(interfaces.IDependency):
         :type transaction: cache_dependencies.interfaces.ITransaction
         :type version: int or None
         """
-        deferred = self._get_tag_versions(cache, version)
-        deferred += self._get_locked_tags(cache, transaction, version)
-        locked_tags = deferred.get()
-        tag_versions = deferred.get()
-        # All deferred operations in this method should be completed
-        # before exception will be raised.
-        if locked_tags:
-            raise exceptions.TagsLocked(self, locked_tags)
+        # Locks should be checked after the versions of tags are obtained (or created).
+        # Otherwise a concurrent transaction is able to acquire and to invalidate tags between
+        # these steps, and the stale cache would be saved with the valid versions of tags.
+        tag_versions = self._get_tag_versions(cache, version).get()
         nonexistent_tags = self.tags - set(tag_versions.keys())
         created_tag_versions = self._make_tag_versions(cache, nonexistent_tags, version)
         tag_versions.update(created_tag_versions)
+        locked_tags = self._get_locked_tags(cache, transaction, version).get()
+        if locked_tags:
+            raise exceptions.TagsLocked(self, locked_tags)
         self.tag_versions = tag_versions
 
     def validate(self, cache, version):
-- 
2.43.0


From 2499e8b2706c33f4aed0849817bb8cf329ceed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:08 +0000
Subject: [PATCH 11/22] fix: tags were not invalidated again by finish of
 REPEATABLE READ and SERIALIZABLE transaction

---
 cache_dependencies/locks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache_dependencies/locks.py b/cache_dependencies/locks.py
index af16d76..c13fe6c 100644
--- a/cache_dependencies/locks.py
+++ b/cache_dependencies/locks.py
@@ -94,6 +94,9 @@ class RepeatableReadDependencyLock(DependencyLock):
         :type version: int or None
         """
         dependency.release(self._cache(), transaction, self._delay, version)
+        # The current session ignores its own lock, and the lock could be lost (by timeout, by eviction
+        # or by concurrent transaction with the same tags). So, tags should be invalidated again.
+        dependency.invalidate(self._cache(), version)
 
 
 class SerializableDependencyLock(RepeatableReadDependencyLock):
-- 
2.43.0


From 960ae53a7f35e8055008139ff256d83bf8f3d8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 12/22] fix: a page did not depend on the fragments read from
 the cache when its key was not the last missed one

---
 django_cache_dependencies/middleware.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index e2ce34a..708a293 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -52,6 +52,7 @@ import collections
 from django.conf import settings
 from django.utils.cache import get_cache_key, get_max_age
 
+from cache_dependencies.dependencies import CompositeDependency, TagsDependency
 from . import caches, DEFAULT_CACHE_ALIAS
 from .utils import patch_response_headers, learn_cache_key
 
@@ -176,13 +177,28 @@ class UpdateCacheMiddleware(MiddlewareMixin):
             cache_key = learn_cache_key(request, response, tags, timeout, self.key_prefix, cache=self.cache)  # patched
             if hasattr(response, 'render') and isinstance(response.render, collections.Callable):
                 response.add_post_render_callback(
-                    lambda r: self.cache.set(cache_key, r, tags, timeout)  # patched
+                    lambda r: self.cache.set(cache_key, r, self._get_dependency(request, tags), timeout)  # patched
                 )
             else:
-                self.cache.set(cache_key, response, tags, timeout)  # patched
+                self.cache.set(cache_key, response, self._get_dependency(request, tags), timeout)  # patched
         # patch end
         return response
 
+    # patch start
+    @staticmethod
+    def _get_dependency(request, tags):
+        """
+        The page depends on all caches which were read when it was being produced.
+        They are related with the last key that was missed by FetchFromCacheMiddleware,
+        and this is not always the key of the page.
+        """
+        dependency = CompositeDependency(TagsDependency(tags))
+        node = getattr(request, '_cache_tagging_node', None)
+        if node is not None:
+            dependency.extend(node.get_dependency())
+        return dependency
+    # patch end
+
 
 class FetchFromCacheMiddleware(MiddlewareMixin):
     """
@@ -218,6 +234,7 @@ class FetchFromCacheMiddleware(MiddlewareMixin):
         cache_key = get_cache_key(request, self.key_prefix, 'GET', cache=self.cache)
         if cache_key is None:
             request._cache_update_cache = True
+            request._cache_tagging_node = self.cache.relation_manager.current()  # patched
             return None  # No cache information available, need to rebuild.
         response = self.cache.get(cache_key)
         # if it wasn't found and we are looking for a HEAD, try looking just for that
@@ -227,6 +244,7 @@ class FetchFromCacheMiddleware(MiddlewareMixin):
 
         if response is None:
             request._cache_update_cache = True
+            request._cache_tagging_node = self.cache.relation_manager.current()  # patched
             return None  # No cache information available, need to rebuild.
 
         # hit, return cached response
-- 
2.43.0


From 1a952114c0ade03210a0133709650f8d830f4b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:55 +0000
Subject: [PATCH 13/22] fix: a function decorated by @cache.transaction could
 be called only in the thread which had decorated it

---
 django_cache_dependencies/__init__.py | 30 ++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/django_cache_dependencies/__init__.py b/django_cache_dependencies/__init__.py
index f2eb864..589e821 100644
--- a/django_cache_dependencies/__init__.py
+++ b/django_cache_dependencies/__init__.py
@@ -13,7 +13,10 @@ from django.utils.functional import curry
 from cache_dependencies.tagging import CacheTagging
 from cache_dependencies.relations import RelationManager, ThreadSafeRelationManagerDecorator
 from cache_dependencies.locks import DependencyLock
-from cache_dependencies.transaction import TransactionManager, ThreadSafeTransactionManagerDecorator
+from cache_dependencies.transaction import (
+    AbstractTransactionManager, TransactionManager, ThreadSafeTransactionManagerDecorator
+)
+from cache_dependencies.utils import Undef
 from cache_dependencies.nocache import NoCache
 
 try:
@@ -82,6 +85,29 @@ class CacheCollection(object):
 caches = get_cache = CacheCollection()
 
 
+class DefaultTransactionProxy(AbstractTransactionManager):
+    """
+    Proxy access to the transaction manager of the default Cache object.
+
+    The function can be decorated by @cache.transaction in one thread
+    (which has imported the module) and be called in another thread.
+    """
+    def current(self, node=Undef):
+        return caches[DEFAULT_CACHE_ALIAS].transaction.current(node)
+
+    def begin(self):
+        return caches[DEFAULT_CACHE_ALIAS].transaction.begin()
+
+    def finish(self):
+        return caches[DEFAULT_CACHE_ALIAS].transaction.finish()
+
+    def flush(self):
+        return caches[DEFAULT_CACHE_ALIAS].transaction.flush()
+
+    def __getattr__(self, name):
+        return getattr(caches[DEFAULT_CACHE_ALIAS].transaction, name)
+
+
 class DefaultCacheProxy(object):
     """
     Proxy access to the default Cache object's attributes.
@@ -89,6 +115,8 @@ class DefaultCacheProxy(object):
     This allows the legacy `cache` object to be thread-safe using the new
     ``caches`` API.
     """
+    transaction = DefaultTransactionProxy()
+
     def __getattr__(self, name):
         return getattr(caches[DEFAULT_CACHE_ALIAS], name)
 
-- 
2.43.0


From 7881a3f587fe2fe5c569f1e0e1611e19b5ebb6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 14/22] fix: transaction.flush() could be called from another
 thread

---
 cache_dependencies/transaction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cache_dependencies/transaction.py b/cache_dependencies/transaction.py
index 1f326dd..00bd054 100644
--- a/cache_dependencies/transaction.py
+++ b/cache_dependencies/transaction.py
@@ -192,4 +192,5 @@ class ThreadSafeTransactionManagerDecorator(mixins.ThreadSafeDecoratorMixIn, Abs
         return self._delegate.finish()
 
     def flush(self):
+        self._validate_thread_sharing()
         return self._delegate.flush()
-- 
2.43.0


From b4ba36f6964b924f2b47668dbe5841cb3be7401e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:28 +0000
Subject: [PATCH 15/22] fix: an empty fragment was rendered again and lost the
 tags of nested fragments

---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 3a9eca3..b888032 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -75,7 +75,7 @@ class CacheNode(Node):
         cache_name = self.fragment_name.resolve(context)
         result = cache.get(cache_name)
 
-        if not result:
+        if result is None:
             timeout = None
             if self.timeout_var:
                 try:
-- 
2.43.0


From 7f7980cc38a8127a3c5cd693d5531da42c9bc123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:04 +0000
Subject: [PATCH 16/22] fix: validate_key() raised ValueError instead of the
 warning about a not portable character

---
 cache_dependencies/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 8a6f479..8e52fae 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -322,7 +322,7 @@ class AbstractCache(interfaces.ICache):
             if ord(char) < 33 or ord(char) == 127:
                 warnings.warn(
                     'Cache key contains characters that will cause ' +
-                    'errors if used with memcached: {0:!r}'.format(key)
+                    'errors if used with memcached: {0!r}'.format(key)
                 )
 
     def incr_version(self, key, delta=1, version=None):
-- 
2.43.0


From 379a9ea277945beeb91938393415a4fa8a4959aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:41 +0000
Subject: [PATCH 17/22] fix: the secret of nocache was interpreted as a regular
 expression, so that forged blocks could be executed

---
 cache_dependencies/nocache.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cache_dependencies/nocache.py b/cache_dependencies/nocache.py
index 9d2f9d4..b3d51eb 100644
--- a/cache_dependencies/nocache.py
+++ b/cache_dependencies/nocache.py
@@ -36,10 +36,9 @@ class NoCache(object):
         )
         self._end = '</{0}>'.format(self.tag_name)
         # Usind lookahead assertion in case nested nocaches.
-        self.nocache_pattern = r'{0}(.*?)(?!<{1}){2}'.format(
-            self._start.format('([^"]+)'),
-            self.tag_name,
-            self._end
+        self.nocache_pattern = r'<{0} secret="{1}" data="([^"]+)">(.*?)(?!<{0})</{0}>'.format(
+            re.escape(self.tag_name),
+            re.escape(self.secret)
         )
         self.nocache_re = re.compile(self.nocache_pattern, re.U|re.S)
 
-- 
2.43.0


From a9fcfc8563f277b9df8632ec69ea5973e84555b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:57 +0000
Subject: [PATCH 18/22] fix: functions and comprehensions of nocache block did
 not see its data

---
 cache_dependencies/nocache.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cache_dependencies/nocache.py b/cache_dependencies/nocache.py
index b3d51eb..a51314f 100644
--- a/cache_dependencies/nocache.py
+++ b/cache_dependencies/nocache.py
@@ -82,12 +82,12 @@ class NoCache(object):
             _globals.update(globals())
             _globals['echo'] = echo
 
-            _locals = {}
-            _locals.update(data)
-            _locals.update(self.unpickle(match.group(1)))
+            # One namespace, because of functions and comprehensions don't see locals of eval().
+            _globals.update(data)
+            _globals.update(self.unpickle(match.group(1)))
 
             code = compile("\n".join(lines_stripped), '<string>', 'exec')
-            eval(code, _globals, _locals)
+            eval(code, _globals)
             result = stdout.getvalue()
             stdout.close()
             # After eval() nocache.start() will be converted to "<nocache:py ..."
-- 
2.43.0


From 9f8df7bfefe0436ea9bea994892a79f35408fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:57 +0000
Subject: [PATCH 19/22] fix: a new thread is not taken for the finished one
 whose identifier it has got

The session id consisted of the host, the process and the identifier of the thread, which the
system reuses as soon as a thread has finished. A thread per request ignored the locks which
had been acquired or released by the previous one.
---
 cache_dependencies/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cache_dependencies/utils.py b/cache_dependencies/utils.py
index d48e1c7..779e417 100644
--- a/cache_dependencies/utils.py
+++ b/cache_dependencies/utils.py
@@ -1,5 +1,6 @@
 import os
 import time
+import uuid
 import random
 import socket
 import hashlib
@@ -39,8 +40,9 @@ def get_thread_id():
     try:
         return _thread_local.thread_id
     except AttributeError:
-        _thread_local.thread_id = '{0}.{1}.{2}'.format(
-            socket.gethostname(), os.getpid(), _thread.get_ident()
+        # The system reuses the identifier of a finished thread.
+        _thread_local.thread_id = '{0}.{1}.{2}.{3}'.format(
+            socket.gethostname(), os.getpid(), _thread.get_ident(), uuid.uuid4().hex
         )
         return get_thread_id()
 
-- 
2.43.0


From 233284e98560b5ddf59566eb288a2a153ed9da73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 20/22] fix: a forked process does not share the session
 identifier with its parent and siblings

---
 cache_dependencies/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cache_dependencies/utils.py b/cache_dependencies/utils.py
index 779e417..b1fee2b 100644
--- a/cache_dependencies/utils.py
+++ b/cache_dependencies/utils.py
@@ -37,14 +37,14 @@ Undef = UndefType()
 
 def get_thread_id():
     """Returns id for current thread."""
-    try:
-        return _thread_local.thread_id
-    except AttributeError:
+    # The forked process inherits the variables of the thread.
+    if getattr(_thread_local, 'pid', None) != os.getpid():
         # The system reuses the identifier of a finished thread.
         _thread_local.thread_id = '{0}.{1}.{2}.{3}'.format(
             socket.gethostname(), os.getpid(), _thread.get_ident(), uuid.uuid4().hex
         )
-        return get_thread_id()
+        _thread_local.pid = os.getpid()
+    return _thread_local.thread_id
 
 
 def warn(old, new, stacklevel=3):
-- 
2.43.0


From 0d3af519cd09ee11dfe6c268c720c0e32a05f824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:00 +0000
Subject: [PATCH 21/22] fix: too many unfinished builds exceeded the recursion
 limit

---
 cache_dependencies/relations.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cache_dependencies/relations.py b/cache_dependencies/relations.py
index e552a22..56b5744 100644
--- a/cache_dependencies/relations.py
+++ b/cache_dependencies/relations.py
@@ -28,10 +28,13 @@ class CacheNode(interfaces.ICacheNode):
 
     def add_dependency(self, dependency, version=None):
         assert isinstance(dependency, interfaces.IDependency)
-        if version not in self._dependencies:
-            self._dependencies[version] = dependencies.CompositeDependency()
-        self._dependencies[version].extend(dependency)
-        self.parent().add_dependency(dependency, version)
+        node = self
+        while isinstance(node, CacheNode):  # There can be too many not finished ancestors for recursion.
+            if version not in node._dependencies:
+                node._dependencies[version] = dependencies.CompositeDependency()
+            node._dependencies[version].extend(dependency)
+            node = node.parent()
+        node.add_dependency(dependency, version)
 
     def get_dependency(self, version=None):
         try:
-- 
2.43.0


From a10ee32311117dc0995b65742e36b395cd203036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:12 +0000
Subject: [PATCH 22/22] fix: a bulk read of thousands of records exceeded the
 recursion limit

---
 cache_dependencies/defer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cache_dependencies/defer.py b/cache_dependencies/defer.py
index b33375d..48316bd 100644
--- a/cache_dependencies/defer.py
+++ b/cache_dependencies/defer.py
@@ -189,12 +189,14 @@ class AbstractDeferredIterator(collections.Iterator):
         return self
 
     def _delegate(self):
-        if self._node.parent:
-            delegate = iter(self._node.parent)
+        node = self._node.parent
+        while node:  # There can be too many parents for recursion.
+            delegate = iter(node)
             delegate.state = self.state
-            return next(delegate)
-        else:
-            raise StopIteration
+            if delegate._index < len(node.queue):
+                return next(delegate)
+            node = node.parent
+        raise StopIteration
 
     @property
     def state(self):
-- 
2.43.0

