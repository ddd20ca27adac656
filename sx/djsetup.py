"""Django settings and stubs for the checks of django_cache_dependencies: its caches are adapters over the path's stores."""
import _thread
import sys
import types
from . import world as _w
from .backend import Backend, DEFAULT


class Cache(object):
    """A Django cache backend over the store of the same name in the current path's world."""
    default_timeout = 300
    version = 1
    key_prefix = ''

    def __init__(self, location, params):
        self.__dict__['_name'] = location
        self.__dict__['_bound'] = (None, None)
        self.__dict__['_thread'] = _thread.get_ident()

    @property
    def real(self):
        if _thread.get_ident() != self._thread:
            raise AssertionError('a cache connection of one thread is used in another')
        w, b = self._bound
        if w is not _w.CURRENT or b is None:
            w = _w.CURRENT
            b = Backend(w, self._name)
            self.__dict__['_bound'] = (w, b)
        return b

    def __getattr__(self, name):
        return getattr(self.real, name)

    def __contains__(self, key):
        return key in self.real

    def close(self, **kw):
        # Django closes every backend at the end of a request, also between paths
        if _w.CURRENT is not None:
            self.real.close(**kw)


def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    return m


def setup():
    from django.conf import settings
    import django
    module('sx_urls', urlpatterns=[])
    names = ['default', 'other', 'third', 'ru', 'rc', 'rr', 'ser', 'delayed', 'fourth']
    settings.configure(
        SECRET_KEY='secret',
        DEBUG=False,
        ALLOWED_HOSTS=['*'],
        DATABASES={'default': {'ENGINE': 'django.db.backends.sqlite3', 'NAME': ':memory:'}},
        CACHES={n: {'BACKEND': 'sx.djsetup.Cache', 'LOCATION': n} for n in names},
        CACHE_TAGGING={
            'ru': {'ISOLATION_LEVEL': 'READ UNCOMMITTED'},
            'rc': {'ISOLATION_LEVEL': 'READ COMMITTED'},
            'rr': {'ISOLATION_LEVEL': 'REPEATABLE READ', 'DELAY': None},
            'ser': {'ISOLATION_LEVEL': 'SERIALIZABLE', 'DELAY': 7},
            'delayed': {'DELAY': 9},
            'alias': {'BACKEND': 'third', 'ISOLATION_LEVEL': 'REPEATABLE READ'},
            'alias2': {'BACKEND': 'third'},
            'wrong': {'BACKEND': 'third', 'ISOLATION_LEVEL': 'SNAPSHOT'},
        },
        INSTALLED_APPS=['django_cache_dependencies'],
        MIDDLEWARE=[],
        MIDDLEWARE_CLASSES=[],
        TEMPLATES=[{'BACKEND': 'django.template.backends.django.DjangoTemplates', 'DIRS': [], 'APP_DIRS': True,
                    'OPTIONS': {'context_processors': []}}],
        ROOT_URLCONF='sx_urls',
        USE_I18N=False, USE_L10N=False, USE_TZ=False,
    )
    django.setup()
