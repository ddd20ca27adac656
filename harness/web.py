"""A small Django site around the middleware and decorators under test: views, requests, and what got stored."""
WAYS = ('decorator', 'CacheMiddleware', 'Update/Fetch pair')


class Page(object):
    """A view that answers "page <n>" on its n-th call."""

    def __init__(self, site, body=None, status=200, streaming=False, max_age=None, cache_control=None, headers=(), session=False,
                 accessed=False, authenticated=False, extra=None, vary=None, template=None):
        self.site, self.body = site, body
        self.status, self.streaming, self.max_age, self.cache_control = status, streaming, max_age, cache_control
        self.headers, self.extra, self.vary, self.template = dict(headers), extra, vary, template
        self.session, self.accessed, self.authenticated = session, accessed, authenticated
        self.calls = 0

    def view(self, request, *args, **kwargs):
        from django.http import HttpResponse, StreamingHttpResponse
        self.calls += 1
        n = self.calls
        if self.session:
            request.session.accessed = self.accessed
        if self.extra is not None:
            self.extra(request, n)
        if self.body is not None:
            text = self.body(request, n)
        else:
            text = 'page %d' % n
        if self.streaming:
            r = StreamingHttpResponse(iter([text]), status=self.status)
        elif self.template:
            from django.template.response import TemplateResponse
            r = self.template(request, text)
        else:
            r = HttpResponse(text, status=self.status)
        r.method_made = request.method
        if self.max_age is not None:
            r['Cache-Control'] = 'max-age=%d' % self.max_age
        if self.cache_control is not None:
            r['Cache-Control'] = self.cache_control
        if self.vary:
            r['Vary'] = self.vary
        for k, v in self.headers.items():
            r[k] = v
        return r


class User(object):
    def __init__(self, authenticated):
        self.authenticated = authenticated

    def is_authenticated(self):
        return self.authenticated


class Session(object):
    accessed = False


class Site(object):
    def __init__(self, ctx, way=0, world=None):
        self.ctx = ctx
        self.world = world or ctx.make_world(frozen=True)
        self.session = self.world.session('web')
        self.way = way
        self.settings = {}
        self.views = {}
        self.close = True

    def configure(self, timeout=None, alias=None, prefix=None, anonymous_only=None, etags=None):
        for name, v in (('CACHE_MIDDLEWARE_SECONDS', timeout), ('CACHE_MIDDLEWARE_ALIAS', alias), ('CACHE_MIDDLEWARE_KEY_PREFIX', prefix),
                        ('CACHE_MIDDLEWARE_ANONYMOUS_ONLY', anonymous_only), ('USE_ETAGS', etags)):
            if v is not None:
                self.settings[name] = v
        self.views = {}

    def page(self, **kw):
        p = Page(self, **kw)
        return p

    def wrapped(self, view, **kw):
        """The view behind the cache, installed in one of the ways."""
        from django_cache_dependencies import middleware
        from django_cache_dependencies.decorators import cache_page
        if self.way == 0:
            s = self.settings
            if 'tags' in kw or 'CACHE_MIDDLEWARE_ALIAS' in s or 'CACHE_MIDDLEWARE_KEY_PREFIX' in s:
                return cache_page(s.get('CACHE_MIDDLEWARE_SECONDS', 600), **dict(
                    kw, cache=s.get('CACHE_MIDDLEWARE_ALIAS'), key_prefix=s.get('CACHE_MIDDLEWARE_KEY_PREFIX')))(view)
            if 'CACHE_MIDDLEWARE_SECONDS' in s:
                return cache_page(s['CACHE_MIDDLEWARE_SECONDS'])(view)
            return cache_page(600)(view)
        def handler(request):      # Django renders late responses before the middleware sees them
            r = view(request)
            if hasattr(r, 'render') and callable(r.render):
                r.render()
            return r
        if self.way == 1:
            return middleware.CacheMiddleware(handler, **kw)
        fetch = middleware.FetchFromCacheMiddleware(handler)
        update = middleware.UpdateCacheMiddleware(fetch)
        if 'tags' in kw:
            update.tags = kw['tags']
        return update

    def _installed(self, view, **kw):
        key = view
        if key not in self.views:
            self.views[key] = self.wrapped(view, **kw)
        return self.views[key]

    def request(self, f, method='GET', path='/page/', host='testserver', page=None, headers=()):
        """Run one request through f in the web thread, as a server would; the caches are closed at the end."""
        from django.test import RequestFactory
        from django.test.utils import override_settings
        rf = RequestFactory()
        req = rf.generic(method, path, HTTP_HOST=host, **dict(headers))
        if page is not None and page.session:
            req.session = Session()
            req.user = User(page.authenticated)

        def run():
            with override_settings(**self.settings):
                r = (f() if f.__name__ == '<lambda>' else f)(req)
                if hasattr(r, 'render') and callable(r.render):
                    r.render()
                if self.close:
                    from django_cache_dependencies import close_caches
                    close_caches()
                return r
        return self.session.call(run)

    def get(self, page, method='GET', path='/page/', host='testserver', headers=(), **kw):
        f = lambda: self._installed(page.view, **kw)
        return self.request(f, method, path, host, page, headers)

    def call(self, f, *a):
        return self.session.call(f, *a)

    def caches(self, alias):
        from django_cache_dependencies import caches
        return caches[alias]

    # what is in the stores
    def _entries(self, alias):
        store = self.world.stores.get(alias)
        return [] if store is None else [e for e in store.all if 'views.decorators.cache' in str(e.key)]

    def stored(self, alias='default'):
        return [e.key for e in self._entries(alias)]

    def timeouts(self, alias='default'):
        return [e.timeout for e in self._entries(alias)]
