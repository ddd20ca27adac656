From 6290c4856a0fee7d228f1f966af899ce744bc74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 01/32] fix: re-check tag locks after creating missing tag
 versions

TagsDependency.evaluate() read the locks and the tag versions together, and
created the missing versions afterwards. A concurrent transaction which
acquired and invalidated the tags in between had nothing to delete, so the
cache was saved with outdated data and stayed valid.
---
 cache_dependencies/dependencies.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cache_dependencies/dependencies.py b/cache_dependencies/dependencies.py
index dd5e3bf..899f91e 100644
--- a/cache_dependencies/dependencies.py
+++ b/cache_dependencies/dependencies.py
@@ -219,6 +219,13 @@ class TagsDependency(interfaces.IDependency):
             raise exceptions.TagsLocked(self, locked_tags)
         nonexistent_tags = self.tags - set(tag_versions.keys())
         created_tag_versions = self._make_tag_versions(cache, nonexistent_tags, version)
+        if created_tag_versions:
+            # Concurrent transaction could acquire and invalidate the tags
+            # before their new versions have been created, so these versions
+            # would be not invalidated. Check the locks again.
+            locked_tags = self._get_locked_tags(cache, transaction, version).get()
+            if locked_tags:
+                raise exceptions.TagsLocked(self, locked_tags)
         tag_versions.update(created_tag_versions)
         self.tag_versions = tag_versions
 
-- 
2.43.0


From 0ef026d5a2ec5549b2c8b1c3e2e5f38b6444c1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 02/32] fix: invalidate tags on finish of transaction for
 REPEATABLE READ too

See the contract of ITransactionManager.finish(). Only the last of the
transactions which concurrently acquired the same tag held the lock, so caches
with outdated data could be created during the other ones. Caches created by
the session itself survived the rollback of its transaction as well.
---
 cache_dependencies/locks.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cache_dependencies/locks.py b/cache_dependencies/locks.py
index af16d76..6c03305 100644
--- a/cache_dependencies/locks.py
+++ b/cache_dependencies/locks.py
@@ -93,7 +93,12 @@ class RepeatableReadDependencyLock(DependencyLock):
         :type transaction: cache_dependencies.interfaces.ITransaction
         :type version: int or None
         """
-        dependency.release(self._cache(), transaction, self._delay, version)
+        cache = self._cache()
+        dependency.release(cache, transaction, self._delay, version)
+        # The tag can be acquired by several transactions at once, but only the
+        # last one is visible. Also, caches could be created by the current
+        # session itself, with data which have been rolled back.
+        dependency.invalidate(cache, version)
 
 
 class SerializableDependencyLock(RepeatableReadDependencyLock):
-- 
2.43.0


From dcd8f14f31360ef9b894abf2f7f9b77423d90f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 03/32] fix: format specifier in the warning of
 AbstractCache.validate_key()

---
 cache_dependencies/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 545c34a..ffba1b2 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -318,7 +318,7 @@ class AbstractCache(interfaces.ICache):
             if ord(char) < 33 or ord(char) == 127:
                 warnings.warn(
                     'Cache key contains characters that will cause ' +
-                    'errors if used with memcached: {0:!r}'.format(key)
+                    'errors if used with memcached: {0!r}'.format(key)
                 )
 
     def incr_version(self, key, delta=1, version=None):
-- 
2.43.0


From c46b61669d328b09ad09e274fd344492c7ba937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 04/32] fix: CacheWrapper.get_many() with one-shot iterable of
 keys

---
 cache_dependencies/cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index ffba1b2..ddf9112 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -82,6 +82,7 @@ class CacheWrapper(object):  # Adapter
         :type version: int or None
         :type abort: bool
         """
+        keys = list(keys)  # It's iterated twice
         if not abort and not self.ignore_descendants:
             current_cache_node = self.relation_manager.current()
             for key in keys:
-- 
2.43.0


From a78fec9ca2429698a8df115fd197dc3a3c0692b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 05/32] fix: abort cache creating if callback of
 get_or_set_callback() fails

Otherwise the key stayed the current node, and the following caches were
created as its descendants.
---
 cache_dependencies/cache.py   | 6 +++++-
 cache_dependencies/tagging.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index ddf9112..a445ef1 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -45,7 +45,11 @@ class CacheWrapper(object):  # Adapter
         if value is None:
             args = args or []
             kwargs = kwargs or {}
-            value = callback(*args, **kwargs)
+            try:
+                value = callback(*args, **kwargs)
+            except BaseException:
+                self.abort(key)
+                raise
             self.set(key, value, dependency, timeout, version)
         return value
 
diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 511bb21..352df2f 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -20,7 +20,11 @@ class CacheTagging(object):  # Backward compatibility
         if value is None:
             args = args or ()
             kwargs = kwargs or {}
-            value = callback(*args, **kwargs)
+            try:
+                value = callback(*args, **kwargs)
+            except BaseException:
+                self.abort(key)
+                raise
             self.set(key, value, tags, timeout, version)
         return value
 
-- 
2.43.0


From ccb3b55ecca1ad7e2ab51084149d68f7205a8031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 06/32] fix: setting of CacheTagging.ignore_descendants had no
 effect

---
 cache_dependencies/tagging.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 352df2f..2d3261a 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -10,6 +10,14 @@ class CacheTagging(object):  # Backward compatibility
         """Constructor of cache instance."""
         self.cache = CacheWrapper(cache, relation_manager, transaction)
 
+    @property
+    def ignore_descendants(self):
+        return self.cache.ignore_descendants
+
+    @ignore_descendants.setter
+    def ignore_descendants(self, value):
+        self.cache.ignore_descendants = value
+
     def get_or_set_callback(self, key, callback, tags=(), timeout=None,
                             version=None, args=None, kwargs=None):
         """Returns cache value if exists
-- 
2.43.0


From f650cb5482f1b4354fc6a1e437c530add59f9a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 07/32] fix: membership test for CacheWrapper, CacheTagging and
 default cache proxy

---
 cache_dependencies/cache.py   | 3 +++
 cache_dependencies/tagging.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index a445ef1..7988b87 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -194,6 +194,9 @@ class CacheWrapper(object):  # Adapter
     def _is_packed_data(data):
         return isinstance(data, dict) and '__dependency' in data and '__value' in data
 
+    def __contains__(self, key):
+        return key in self.cache  # Special methods are not delegated by __getattr__()
+
     def __getattr__(self, name):
         """Delegate for all native methods."""
         return getattr(self.cache, name)
diff --git a/cache_dependencies/tagging.py b/cache_dependencies/tagging.py
index 2d3261a..62e5f72 100644
--- a/cache_dependencies/tagging.py
+++ b/cache_dependencies/tagging.py
@@ -79,6 +79,9 @@ class CacheTagging(object):  # Backward compatibility
         self.transaction.flush()
         return self
 
+    def __contains__(self, key):
+        return key in self.cache  # Special methods are not delegated by __getattr__()
+
     def __getattr__(self, name):
         """Proxy for all native methods."""
         return getattr(self.cache, name)
-- 
2.43.0


From 4504e965fe4e4be418bc85e473c5b6f0494798a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 08/32] fix: AttributeError of UpdateCacheMiddleware used
 without CacheMiddleware

---
 django_cache_dependencies/middleware.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/django_cache_dependencies/middleware.py b/django_cache_dependencies/middleware.py
index 958a316..785cbc3 100644
--- a/django_cache_dependencies/middleware.py
+++ b/django_cache_dependencies/middleware.py
@@ -111,6 +111,8 @@ class UpdateCacheMiddleware(MiddlewareMixin):
     UpdateCacheMiddleware must be the first piece of middleware in MIDDLEWARE
     so that it'll get called last during the response phase.
     """
+    tags = None
+
     def __init__(self, get_response=None):
         self.cache_timeout = settings.CACHE_MIDDLEWARE_SECONDS
         self.key_prefix = settings.CACHE_MIDDLEWARE_KEY_PREFIX
-- 
2.43.0


From 29ad68f088852ac229423442da9134a10558f704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 09/32] fix: cache_transaction_all() called with arguments
 returned None instead of decorated function

---
 django_cache_dependencies/decorators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/django_cache_dependencies/decorators.py b/django_cache_dependencies/decorators.py
index e047ebc..02f1508 100644
--- a/django_cache_dependencies/decorators.py
+++ b/django_cache_dependencies/decorators.py
@@ -61,6 +61,7 @@ def cache_transaction_all(f=None, cache=None):
             result = f(*args, **kwargs)
             cache.transaction.flush()
             return result
+        return wrapper
 
     return wrapper_outer
 
-- 
2.43.0


From e7f1428fb82394b92979f96c7bdb1fccdebecabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 10/32] fix: finish transactions of cache_transaction_all() if
 decorated function fails

---
 django_cache_dependencies/decorators.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/django_cache_dependencies/decorators.py b/django_cache_dependencies/decorators.py
index 02f1508..cb9fb13 100644
--- a/django_cache_dependencies/decorators.py
+++ b/django_cache_dependencies/decorators.py
@@ -48,9 +48,10 @@ def cache_transaction_all(f=None, cache=None):
 
     def wrapper(*args, **kwargs):
         cache.transaction.begin()
-        result = f(*args, **kwargs)
-        cache.transaction.flush()
-        return result
+        try:
+            return f(*args, **kwargs)
+        finally:
+            cache.transaction.flush()
 
     if f:
         return wrapper
@@ -58,9 +59,10 @@ def cache_transaction_all(f=None, cache=None):
     def wrapper_outer(f):
         def wrapper(*args, **kwargs):
             cache.transaction.begin()
-            result = f(*args, **kwargs)
-            cache.transaction.flush()
-            return result
+            try:
+                return f(*args, **kwargs)
+            finally:
+                cache.transaction.flush()
         return wrapper
 
     return wrapper_outer
-- 
2.43.0


From 4a9364a940b1b8cc98c43000961e8d4f7ab8718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 11/32] fix: ThreadSafeTransactionManagerDecorator.flush() did
 not validate thread sharing

---
 cache_dependencies/transaction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cache_dependencies/transaction.py b/cache_dependencies/transaction.py
index 1f326dd..00bd054 100644
--- a/cache_dependencies/transaction.py
+++ b/cache_dependencies/transaction.py
@@ -192,4 +192,5 @@ class ThreadSafeTransactionManagerDecorator(mixins.ThreadSafeDecoratorMixIn, Abs
         return self._delegate.finish()
 
     def flush(self):
+        self._validate_thread_sharing()
         return self._delegate.flush()
-- 
2.43.0


From bff0990f6c51b34009e2657a547ab5b185a640c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 12/32] fix: nested {% cache_tagging %} replaced tags of its
 ancestor

Copies of Context share their scopes, so the inner fragment overwrote
"cache_tagging" and "cache_tagging_prevent" of the outer one: the outer
fragment was cached with the tags of the inner one instead of its own, and
{% cache_tagging_prevent %} before the inner fragment was lost.
---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 2c1569c..3131b4d 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -96,6 +96,7 @@ class CacheNode(Node):
                 context['cache_tagging_prevent'] = False
 
             sub_context = copy.copy(context)
+            sub_context.push()  # copy of context shares scopes with the original
             sub_context['cache_tagging'] = set(tags)
             # Allows nested caching
             sub_context['cache_tagging_prevent'] = False
-- 
2.43.0


From b5e67f7fded7323afc01d082c838421cac049ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 13/32] fix: {% cache_tagging_prevent %} had no effect inside
 of {% for %}, {% with %} etc.

---
 .../templatetags/cache_tagging_tags.py             | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index 3131b4d..a9ea4d1 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -53,6 +53,16 @@ def do_cache_add_tags(parser, token):
 register.tag('cache_add_tags', do_cache_add_tags)
 
 
+def set_prevent(context):
+    """Sets the flag in the scope of enclosing {% cache_tagging %}, which is not always the current one."""
+    for scope in reversed(context.dicts):
+        if 'cache_tagging_prevent' in scope:
+            scope['cache_tagging_prevent'] = True
+            break
+    else:
+        context['cache_tagging_prevent'] = True
+
+
 class CacheNode(Node):
     def __init__(self, nodelist, fragment_name, timeout_var, vary_on, kwargs, filters):
         self.nodelist = nodelist
@@ -105,7 +115,7 @@ class CacheNode(Node):
 
             # Prevent caching of ancestor
             if sub_context['cache_tagging_prevent']:
-                context['cache_tagging_prevent'] = True
+                set_prevent(context)
             prevent = sub_context['cache_tagging_prevent']
 
             if 'request' in context:
@@ -205,7 +215,7 @@ def do_cache(parser, token):
 @register.simple_tag(takes_context=True)
 def cache_tagging_prevent(context):
     """Prevents caching from body of cachetags."""
-    context['cache_tagging_prevent'] = True
+    set_prevent(context)
     return ''
 
 register.tag('cache_tagging', do_cache)
-- 
2.43.0


From 710d6bef8ab9d7984c3001240f4c79ef6ca5dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 14/32] fix: AttributeError instead of TemplateSyntaxError for
 non-integer timeout of {% cache_tagging %}

---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index a9ea4d1..f6669d3 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -91,7 +91,7 @@ class CacheNode(Node):
                     timeout = int(timeout)
                 except (ValueError, TypeError):
                     raise TemplateSyntaxError(
-                        '"cache" tag got a non-integer timeout value: {0}'.fomat(
+                        '"cache" tag got a non-integer timeout value: {0}'.format(
                             timeout
                         )
                     )
-- 
2.43.0


From 2f7f8d57f2786bd862dbd0fd2e3e16df48dc3649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:00 +0000
Subject: [PATCH 15/32] fix: empty fragments of {% cache_tagging %} were never
 served from cache

The fragment was rendered again after its cache had been hit, i.e. after its
node had been finished, so it was saved without tags of its descendants.
---
 django_cache_dependencies/templatetags/cache_tagging_tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index f6669d3..c76aa8d 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -76,7 +76,7 @@ class CacheNode(Node):
         cache_name = self.fragment_name.resolve(context)
         result = cache.get(cache_name)
 
-        if not result:
+        if result is None:
             timeout = None
             if self.timeout_var:
                 try:
-- 
2.43.0


From 6edae9fe07d1be3a5fb2b46e5e14478b66eb48ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:00 +0000
Subject: [PATCH 16/32] fix: abort cache creating if rendering of {%
 cache_tagging %} fails

Exceptions can be suppressed by {% include %}, and the node left behind kept
its old ancestor, so later ancestors of the fragment did not receive its tags.
---
 .../templatetags/cache_tagging_tags.py                     | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/django_cache_dependencies/templatetags/cache_tagging_tags.py b/django_cache_dependencies/templatetags/cache_tagging_tags.py
index c76aa8d..0fb6c9e 100644
--- a/django_cache_dependencies/templatetags/cache_tagging_tags.py
+++ b/django_cache_dependencies/templatetags/cache_tagging_tags.py
@@ -74,6 +74,13 @@ class CacheNode(Node):
 
     def render(self, context):
         cache_name = self.fragment_name.resolve(context)
+        try:
+            return self.render_fragment(cache_name, context)
+        except BaseException:
+            cache.abort(cache_name)
+            raise
+
+    def render_fragment(self, cache_name, context):
         result = cache.get(cache_name)
 
         if result is None:
-- 
2.43.0


From 363b7461dc1736659228811975ce44125d97ec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 17/32] fix: cached page ignored tags of fragments which were
 served from cache

The descendants were collected for the key of the header list, so another
variant of the page (see Vary) could keep serving the stale page.
---
 django_cache_dependencies/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/django_cache_dependencies/utils.py b/django_cache_dependencies/utils.py
index 7123470..d232611 100644
--- a/django_cache_dependencies/utils.py
+++ b/django_cache_dependencies/utils.py
@@ -82,10 +82,16 @@ def learn_cache_key(request, response, tags=(), cache_timeout=None, key_prefix=N
                 continue
             headerlist.append('HTTP_' + header)
         headerlist.sort()
+        descendants = cache.relation_manager.get(cache_key).get_dependency()
         cache.set(cache_key, headerlist, tags, cache_timeout)  # patched
-        return _generate_cache_key(request, request.method, headerlist, key_prefix)
+        page_key = _generate_cache_key(request, request.method, headerlist, key_prefix)
     else:
         # if there is no Vary header, we still need a cache key
         # for the request.build_absolute_uri()
+        descendants = cache.relation_manager.get(cache_key).get_dependency()
         cache.set(cache_key, [], tags, cache_timeout)  # patched
-        return _generate_cache_key(request, request.method, [], key_prefix)
+        page_key = _generate_cache_key(request, request.method, [], key_prefix)
+    # The page key could be still unknown while the page was created, so its
+    # descendants have been collected for the header key only.
+    cache.relation_manager.get(page_key).add_dependency(descendants)
+    return page_key
-- 
2.43.0


From d6ccbb6177f36fa87f61cf1c262bf449591efb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:26 +0000
Subject: [PATCH 18/32] fix: copy of CompositeDependency shared its delegates
 with the original

---
 cache_dependencies/dependencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_dependencies/dependencies.py b/cache_dependencies/dependencies.py
index 899f91e..6092ce2 100644
--- a/cache_dependencies/dependencies.py
+++ b/cache_dependencies/dependencies.py
@@ -102,7 +102,7 @@ class CompositeDependency(interfaces.IDependency):
 
     def __copy__(self):
         c = copy.copy(super(CompositeDependency, self))
-        c.delegates = c.delegates[:]
+        c.delegates = [copy.copy(delegate) for delegate in c.delegates]  # extend() changes them in place
         return c
 
 
-- 
2.43.0


From b9c38abdf0ab5e50ba0152134c657014d8b4f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:47 +0000
Subject: [PATCH 19/32] fix: forked processes shared session id of their parent

---
 cache_dependencies/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cache_dependencies/utils.py b/cache_dependencies/utils.py
index d48e1c7..1f901a4 100644
--- a/cache_dependencies/utils.py
+++ b/cache_dependencies/utils.py
@@ -36,13 +36,13 @@ Undef = UndefType()
 
 def get_thread_id():
     """Returns id for current thread."""
-    try:
-        return _thread_local.thread_id
-    except AttributeError:
+    pid = os.getpid()
+    if getattr(_thread_local, 'pid', None) != pid:  # Forked process inherits id of its parent
         _thread_local.thread_id = '{0}.{1}.{2}'.format(
-            socket.gethostname(), os.getpid(), _thread.get_ident()
+            socket.gethostname(), pid, _thread.get_ident()
         )
-        return get_thread_id()
+        _thread_local.pid = pid
+    return _thread_local.thread_id
 
 
 def warn(old, new, stacklevel=3):
-- 
2.43.0


From 81fa026698f4d247f9d7d36fbdde3ff35f9d12bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 20/32] fix: nocache took special characters of the secret for
 a pattern

---
 cache_dependencies/nocache.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cache_dependencies/nocache.py b/cache_dependencies/nocache.py
index c7d6ac4..b469531 100644
--- a/cache_dependencies/nocache.py
+++ b/cache_dependencies/nocache.py
@@ -31,20 +31,20 @@ class NoCache(object):
         self.tag_name = tag_name
         # nocache.nocache can be used for nested cache handling.
         # Similar like Django {% openblock %} for "{%".
-        self._start = '<{0} secret="{1}" data="{{0}}">'.format(
+        self._start = '<{0} secret="{1}" data="'.format(
             self.tag_name, self.secret
         )
         self._end = '</{0}>'.format(self.tag_name)
         # Usind lookahead assertion in case nested nocaches.
-        self.nocache_pattern = r'{0}(.+?)(?!<{1}){2}'.format(
-            self._start.format('([^"]+)'),
-            self.tag_name,
-            self._end
+        self.nocache_pattern = r'{0}([^"]+)">(.+?)(?!<{1}){2}'.format(
+            re.escape(self._start),
+            re.escape(self.tag_name),
+            re.escape(self._end)
         )
         self.nocache_re = re.compile(self.nocache_pattern, re.U|re.S)
 
     def start(self, **data):
-        return self._start.format(self.pickle(data))
+        return '{0}{1}">'.format(self._start, self.pickle(data))
 
     def end(self):
         return self._end
-- 
2.43.0


From 887a9adb747e1698ae9ff5371a7bfb75b6927907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 21/32] fix: an empty nocache block was left in the text, or
 joined to the next one

---
 cache_dependencies/nocache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_dependencies/nocache.py b/cache_dependencies/nocache.py
index b469531..e5bcae6 100644
--- a/cache_dependencies/nocache.py
+++ b/cache_dependencies/nocache.py
@@ -36,7 +36,7 @@ class NoCache(object):
         )
         self._end = '</{0}>'.format(self.tag_name)
         # Usind lookahead assertion in case nested nocaches.
-        self.nocache_pattern = r'{0}([^"]+)">(.+?)(?!<{1}){2}'.format(
+        self.nocache_pattern = r'{0}([^"]+)">(.*?)(?!<{1}){2}'.format(
             re.escape(self._start),
             re.escape(self.tag_name),
             re.escape(self._end)
-- 
2.43.0


From 5c55f40f377b055d62dfec01f9e81bf7d0054303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 22/32] fix: nested scopes of nocache code did not see the data

---
 cache_dependencies/nocache.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cache_dependencies/nocache.py b/cache_dependencies/nocache.py
index e5bcae6..274f9db 100644
--- a/cache_dependencies/nocache.py
+++ b/cache_dependencies/nocache.py
@@ -83,12 +83,12 @@ class NoCache(object):
             _globals.update(globals())
             _globals['echo'] = echo
 
-            _locals = {}
-            _locals.update(data)
-            _locals.update(self.unpickle(match.group(1)))
+            # One namespace, so that nested scopes (functions, generators) see the data.
+            _globals.update(data)
+            _globals.update(self.unpickle(match.group(1)))
 
             code = compile("\n".join(lines_stripped), '<string>', 'exec')
-            eval(code, _globals, _locals)
+            eval(code, _globals)
             result = stdout.getvalue()
             stdout.close()
             # After eval() nocache.start() will be converted to "<nocache:py ..."
-- 
2.43.0


From 2c576bf05f95ee0804f81fa408d17b668602df11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 23/32] fix: nocache damaged string literals of several lines

---
 cache_dependencies/nocache.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/cache_dependencies/nocache.py b/cache_dependencies/nocache.py
index 274f9db..8d48233 100644
--- a/cache_dependencies/nocache.py
+++ b/cache_dependencies/nocache.py
@@ -62,16 +62,15 @@ class NoCache(object):
 
         def repl(match):
             lines = match.group(2).split('\n')
-            lines = [l.rstrip() for l in lines]
             lines_stripped = []
-            start = None
+            indent = None
             result = ''
             for l in lines:
-                if not l:
-                    continue
-                if start is None:
-                    start = len(l) - len(l.lstrip())
-                lines_stripped.append(l[start:])
+                if indent is None and l.strip():
+                    indent = l[:len(l) - len(l.lstrip())]
+                if indent and l.startswith(indent):
+                    l = l[len(indent):]
+                lines_stripped.append(l)
             lines_stripped.append('')
             stdout = StringIO()
 
-- 
2.43.0


From 9bb5b8438422c521dae5ad19ba7f77b7ce4af703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 24/32] fix: a failing read left its creation pending

---
 cache_dependencies/cache.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 7988b87..eac145d 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -65,6 +65,11 @@ class CacheWrapper(object):  # Adapter
         """
         if not abort and not self.ignore_descendants:
             self.begin(key)
+            try:
+                return self.get(key, default, version, abort=True)
+            except BaseException:  # The cache won't be created
+                self.abort(key)
+                raise
         data = self.cache.get(key, None, version)
         if data is None:
             return default
@@ -92,6 +97,12 @@ class CacheWrapper(object):  # Adapter
             for key in keys:
                 self.begin(key)
                 self.relation_manager.current(current_cache_node)
+            try:
+                return self.get_many(keys, version, abort=True)
+            except BaseException:  # The caches won't be created
+                for key in keys:
+                    self.abort(key)
+                raise
 
         caches = self.cache.get_many(keys, version)
 
-- 
2.43.0


From 957626f73438c8871a04d8b3c7e06cab9d3685e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 25/32] fix: savepoint forgot the invalidation whose lock could
 not be acquired

---
 cache_dependencies/transaction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cache_dependencies/transaction.py b/cache_dependencies/transaction.py
index 00bd054..53c3b3a 100644
--- a/cache_dependencies/transaction.py
+++ b/cache_dependencies/transaction.py
@@ -93,8 +93,10 @@ class SavePoint(Transaction):
         :type version: int or None
         """
         assert isinstance(dependency, interfaces.IDependency)
-        super(SavePoint, self).add_dependency(dependency, version)
+        # The parent is the first to know, because it will invalidate the
+        # dependency, even if the dependency cannot be acquired now.
         self._parent.add_dependency(dependency, version)
+        super(SavePoint, self).add_dependency(dependency, version)
 
     def finish(self):
         pass
-- 
2.43.0


From 60b1a266ae328c74105f7f831d95ffa9882bcbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 26/32] fix: failing transaction kept caches of the thread from
 closing

---
 cache_dependencies/cache.py           | 6 ++++--
 django_cache_dependencies/__init__.py | 9 +++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index eac145d..949cb65 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -183,8 +183,10 @@ class CacheWrapper(object):  # Adapter
         self.relation_manager.pop(key).add_dependency(dependency, version)
 
     def close(self):
-        self.transaction.flush()
-        self.relation_manager.clear()
+        try:
+            self.transaction.flush()
+        finally:
+            self.relation_manager.clear()
         # self.cache.close()  # should be closed directly or by signal, for example, request_finished in Django.
 
     @staticmethod
diff --git a/django_cache_dependencies/__init__.py b/django_cache_dependencies/__init__.py
index f2eb864..4059acd 100644
--- a/django_cache_dependencies/__init__.py
+++ b/django_cache_dependencies/__init__.py
@@ -173,7 +173,12 @@ def autodiscover():
 
 
 def close_caches(**kwargs):
-    for cache in caches.all():
-        cache.close()
+    def close(items):
+        if items:
+            try:
+                items[0].close()
+            finally:  # One failing cache does not keep the others open
+                close(items[1:])
+    close(list(caches.all()))
 
 core_signals.request_finished.connect(close_caches)
-- 
2.43.0


From 6a09e8a3db8ebb133978307b26a84b0569f99ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:11 +0000
Subject: [PATCH 27/32] fix: FileBasedCache stored what Django since 1.7 does
 not find

---
 django_cache_dependencies/backends.py | 37 +++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/django_cache_dependencies/backends.py b/django_cache_dependencies/backends.py
index 07c0563..57314a8 100644
--- a/django_cache_dependencies/backends.py
+++ b/django_cache_dependencies/backends.py
@@ -3,8 +3,13 @@ import random
 import time
 import tempfile
 import threading
+import zlib
+from django.core.cache.backends import base
 from django.core.cache.backends.filebased import pickle, FileBasedCache as DjangoFileBasedCache
 
+# Django < 1.7 has no own value for "use the default timeout"
+DEFAULT_TIMEOUT = getattr(base, 'DEFAULT_TIMEOUT', None)
+
 
 class FileBasedCache(DjangoFileBasedCache):
     """Faile based backend with some improvements."""
@@ -12,13 +17,18 @@ class FileBasedCache(DjangoFileBasedCache):
     _fs_transaction_suffix = '.__dj_cache'
 
     def set(self, key, value, timeout=None, version=None):
-        key = self.make_key(key, version=version)
-        self.validate_key(key)
+        # Since Django 1.7 _key_to_file() makes the key by itself, and values are compressed.
+        modern = hasattr(self, 'cache_suffix')
+        if modern:
+            fname = self._key_to_file(key, version)
+        else:
+            key = self.make_key(key, version=version)
+            self.validate_key(key)
+            fname = self._key_to_file(key)
 
-        fname = self._key_to_file(key)
         dirname = os.path.dirname(fname)
 
-        if timeout is None:
+        if timeout is None or timeout is DEFAULT_TIMEOUT:
             timeout = self.default_timeout
 
         if random.random() > 0.8:
@@ -30,11 +40,18 @@ class FileBasedCache(DjangoFileBasedCache):
 
             fd, tmp = tempfile.mkstemp(suffix=self._fs_transaction_suffix,
                                        dir=dirname)
-
-            with os.fdopen(fd, 'wb') as f:
-                now = time.time()
-                pickle.dump(now + timeout, f, pickle.HIGHEST_PROTOCOL)
-                pickle.dump(value, f, pickle.HIGHEST_PROTOCOL)
-            os.rename(tmp, fname)
+            try:
+                with os.fdopen(fd, 'wb') as f:
+                    if modern:
+                        expiry = self.get_backend_timeout(timeout)
+                        pickle.dump(expiry, f, pickle.HIGHEST_PROTOCOL)
+                        f.write(zlib.compress(pickle.dumps(value, pickle.HIGHEST_PROTOCOL)))
+                    else:
+                        pickle.dump(time.time() + timeout, f, pickle.HIGHEST_PROTOCOL)
+                        pickle.dump(value, f, pickle.HIGHEST_PROTOCOL)
+                os.rename(tmp, fname)
+            except BaseException:
+                os.remove(tmp)
+                raise
         except (IOError, OSError):
             pass
-- 
2.43.0


From 78a3748abf8001981490904ff1e1c16c882065cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 28/32] fix: entries did not inherit from descendants whose
 version was omitted, if their own was given

---
 cache_dependencies/cache.py        | 10 ++++++++--
 django_cache_dependencies/utils.py |  6 +++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/cache_dependencies/cache.py b/cache_dependencies/cache.py
index 949cb65..6f95dbd 100644
--- a/cache_dependencies/cache.py
+++ b/cache_dependencies/cache.py
@@ -136,7 +136,9 @@ class CacheWrapper(object):  # Adapter
             dependency = dependencies.DummyDependency()
         combined_dependency_with_descendants = dependencies.CompositeDependency()
         combined_dependency_with_descendants.extend(dependency)
-        combined_dependency_with_descendants.extend(self.relation_manager.get(key).get_dependency(version))
+        combined_dependency_with_descendants.extend(
+            self.relation_manager.get(key).get_dependency(self._effective_version(version))
+        )
 
         try:
             self.transaction.current().evaluate(combined_dependency_with_descendants, version)
@@ -180,7 +182,11 @@ class CacheWrapper(object):  # Adapter
         :type dependency: cache_dependencies.interfaces.IDependency
         :type version: int or None
         """
-        self.relation_manager.pop(key).add_dependency(dependency, version)
+        self.relation_manager.pop(key).add_dependency(dependency, self._effective_version(version))
+
+    def _effective_version(self, version):
+        # Descendants of the omitted version and of the default one given explicitly are the same.
+        return getattr(self.cache, 'version', None) if version is None else version
 
     def close(self):
         try:
diff --git a/django_cache_dependencies/utils.py b/django_cache_dependencies/utils.py
index d232611..2eb2494 100644
--- a/django_cache_dependencies/utils.py
+++ b/django_cache_dependencies/utils.py
@@ -82,16 +82,16 @@ def learn_cache_key(request, response, tags=(), cache_timeout=None, key_prefix=N
                 continue
             headerlist.append('HTTP_' + header)
         headerlist.sort()
-        descendants = cache.relation_manager.get(cache_key).get_dependency()
+        descendants = cache.relation_manager.get(cache_key).get_dependency(cache.version)
         cache.set(cache_key, headerlist, tags, cache_timeout)  # patched
         page_key = _generate_cache_key(request, request.method, headerlist, key_prefix)
     else:
         # if there is no Vary header, we still need a cache key
         # for the request.build_absolute_uri()
-        descendants = cache.relation_manager.get(cache_key).get_dependency()
+        descendants = cache.relation_manager.get(cache_key).get_dependency(cache.version)
         cache.set(cache_key, [], tags, cache_timeout)  # patched
         page_key = _generate_cache_key(request, request.method, [], key_prefix)
     # The page key could be still unknown while the page was created, so its
     # descendants have been collected for the header key only.
-    cache.relation_manager.get(page_key).add_dependency(descendants)
+    cache.relation_manager.get(page_key).add_dependency(descendants, cache.version)
     return page_key
-- 
2.43.0


From fce410901cbdc5dba2fd6b718be16c367b585580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 29/32] fix: a lock released by another session is not hidden
 by an acquisition of the session's own

---
 cache_dependencies/dependencies.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cache_dependencies/dependencies.py b/cache_dependencies/dependencies.py
index 6092ce2..5fda473 100644
--- a/cache_dependencies/dependencies.py
+++ b/cache_dependencies/dependencies.py
@@ -327,7 +327,10 @@ class TagsDependency(interfaces.IDependency):
             state = acquired_tag_states.get(tag)
             released_state = released_tag_states.get(tag)
             if released_state is not None:
-                if state is None or released_state.is_released(state):
+                # The tag acquired by the current session itself could be also
+                # acquired and released by a concurrent one.
+                if (state is None or released_state.is_released(state)
+                        or not state.is_locked(transaction)):
                     state = released_state
             if state is not None and state.is_locked(transaction):
                 locked_tags.add(tag)
-- 
2.43.0


From 0fce8a1a7dcd7e1b7451c53cf4ecfb5c323308e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 30/32] fix: template tags could not be loaded through the
 deprecated package name

---
 cache_tagging/django_cache_tagging/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache_tagging/django_cache_tagging/__init__.py b/cache_tagging/django_cache_tagging/__init__.py
index 43087f9..2b9dd64 100644
--- a/cache_tagging/django_cache_tagging/__init__.py
+++ b/cache_tagging/django_cache_tagging/__init__.py
@@ -3,7 +3,7 @@ import sys
 import warnings
 from django_cache_dependencies import (
     CacheCollection, DefaultCacheProxy, caches, get_cache, cache, _clear_cached, CacheRegistry,
-    registry, autodiscover, close_caches, DEFAULT_CACHE_ALIAS
+    registry, autodiscover, close_caches, nocache, DEFAULT_CACHE_ALIAS
 )
 
 warnings.warn("cache_tagging.django_cache_tagging is deprecated. Use django_cache_dependencies instead", PendingDeprecationWarning, stacklevel=2)
-- 
2.43.0


From 1406b87bb31e2ac6456bd2076471d4e555c6f5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:00 +0000
Subject: [PATCH 31/32] fix: autodiscover() finds the apps installed by the
 path of an AppConfig

---
 django_cache_dependencies/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/django_cache_dependencies/__init__.py b/django_cache_dependencies/__init__.py
index 4059acd..42c0205 100644
--- a/django_cache_dependencies/__init__.py
+++ b/django_cache_dependencies/__init__.py
@@ -162,8 +162,15 @@ def autodiscover():
     and fail silently when not present.
     """
     import imp
-    from django.conf import settings
-    for app in settings.INSTALLED_APPS:
+    names = settings.INSTALLED_APPS
+    try:
+        from django.apps import apps
+    except ImportError:  # Django < 1.7
+        pass
+    else:
+        if apps.apps_ready:  # An entry of INSTALLED_APPS can be the path of an AppConfig
+            names = [config.name for config in apps.get_app_configs()]
+    for app in names:
         try:
             __import__(app)
             imp.find_module("caches", sys.modules[app].__path__)
-- 
2.43.0


From 164b5ece3e408a37c5050a3f531fa74d6168b1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:23 +0000
Subject: [PATCH 32/32] fix: FileBasedCache.set() stores although another
 process creates the directory at the same time

---
 django_cache_dependencies/backends.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/django_cache_dependencies/backends.py b/django_cache_dependencies/backends.py
index 57314a8..51cbb51 100644
--- a/django_cache_dependencies/backends.py
+++ b/django_cache_dependencies/backends.py
@@ -36,7 +36,11 @@ class FileBasedCache(DjangoFileBasedCache):
 
         try:
             if not os.path.exists(dirname):
-                os.makedirs(dirname)
+                try:
+                    os.makedirs(dirname)
+                except OSError:  # It could have been created by another process
+                    if not os.path.exists(dirname):
+                        raise
 
             fd, tmp = tempfile.mkstemp(suffix=self._fs_transaction_suffix,
                                        dir=dirname)
-- 
2.43.0

