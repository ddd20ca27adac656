"""Registered models: saving or deleting an object invalidates exactly the tags its function names, in the cache named."""
from harness.common import shards, MISS, overlap
PROPERTY = 'C25'


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers, django=True))
    job([6, 5], 'saved', ['dead', 'alive'])
    job([2, 4], 'models', ['dead', 'alive'], steps=4 if thorough else 3)
    job([4], 'transactions', ['settled'])
    job([3], 'failing', ['failed'])
    job([2, 2], 'discovery', ['found', 'not installed', 'broken'], event=1)
    return out


class Signals(object):
    """Handlers registered on a path are removed with it."""

    def __enter__(self):
        from django.db.models import signals
        self.signals = [signals.pre_save, signals.post_save, signals.pre_delete, signals.post_delete]
        self.before = [list(s.receivers) for s in self.signals]
        for s in self.signals:
            s.sender_receivers_cache.clear()
        return self

    def __exit__(self, *a):
        for s, r in zip(self.signals, self.before):
            s.receivers = r
            s.sender_receivers_cache.clear()


class Thing(object):
    def __init__(self, *tags):
        self.tags = tags


class Other(Thing):
    pass


def send(event, obj, between=None):
    """What Django sends when an object is saved (anew, again, from a fixture) or deleted; `between` is called before it is written."""
    from django.db.models import signals
    model = type(obj)
    if event == EVENTS - 1:
        signals.pre_delete.send(sender=model, instance=obj, using='default')
        obj.result = lambda: []         # what it was related to is gone
        signals.post_delete.send(sender=model, instance=obj, using='default')
        return
    raw = event == 2
    signals.pre_save.send(sender=model, instance=obj, raw=raw, using='default', update_fields=None)
    if between:
        between()
    signals.post_save.send(sender=model, instance=obj, created=event == 0, raw=raw, using='default', update_fields=None)


EVENTS = 4


def saved(ctx):
    """Each form of tag function, each form of its result, each way to name the cache, each event."""
    from django_cache_dependencies import CacheRegistry, cache, caches
    w = ctx.make_world(frozen=True)
    s = w.session('A')
    b = w.session('B')
    form = ctx.choose('result', 6)
    n = [1, 2, 2, 2, 2, 0][form]
    tags = [ctx.str('tag', 1) for _ in range(n)]
    result = [lambda: tags[0], lambda: list(tags), lambda: tuple(tags), lambda: set(tags), lambda: frozenset(tags), lambda: []][form]

    def simple(obj):
        return obj.result()

    def with_extras(instance, **kwargs):
        return instance.result()

    def all_named(sender, instance, **kwargs):
        return instance.result()

    def optional(obj, deep=True):
        return obj.result()
    func = ctx.choose_of('function', [simple, with_extras, all_named, optional, lambda o: o.result()])
    named = ctx.choose('cache', 4)
    where = 'other' if named == 1 else 'default'
    obj = Thing(*tags)
    obj.result = result
    with Signals():
        entry = [(Thing, func), (Thing, func, 'other'), (Thing, func, cache), (Thing, func, None)][named]
        CacheRegistry().register([entry] if form % 2 else (entry,))
        tag = ctx.str('of entry', 1)
        def fill():
            for a in ('default', 'other'):
                b.call(lambda: caches[a].set('k', a, [tag]))
        fill()
        event = ctx.choose('event', EVENTS)
        s.call(send, event, obj, fill if event == 1 else None)
        for a in ('default', 'other'):
            r = s.call(lambda: caches[a].get('k', MISS, abort=True))
            dead = overlap(ctx, [tag], tags) if a == where else False
            ctx.check(ctx.eq(r == MISS, dead), 'exactly the tags of the object, in the cache named', lambda: repr((a, r, tag, tags)))
            ctx.cover('dead' if r == MISS else 'alive')


def models(ctx):
    """Several models, some registered twice; every sequence of events."""
    from django_cache_dependencies import CacheRegistry, caches
    w = ctx.make_world(frozen=True)
    s = w.session('A')
    with Signals():
        r1, r2 = CacheRegistry(), CacheRegistry()
        r1.register(((Thing, lambda o: 'thing'), (Other, lambda o: ['other', 'both'], 'default')))
        twice = ctx.flag('twice')
        if twice:
            r2.register([(Thing, lambda o: ('both',))])
        entries = {'a': ['thing'], 'b': ['other'], 'c': ['both']}
        for i in range(ctx.p('steps')):
            for k, tags in entries.items():
                s.call(lambda: caches['default'].set(k, i, tags))
            kind = ctx.choose('event', EVENTS)
            cls = [Thing, Other, Unregistered][ctx.choose('model', 3)]
            s.call(send, kind, cls())
            want = {Thing: ['b'] if twice else ['b', 'c'], Other: ['a'], Unregistered: ['a', 'b', 'c']}[cls]
            got = sorted(s.call(lambda: caches['default'].get_many(['a', 'b', 'c'], abort=True)))
            ctx.check(got == want, 'each model invalidates its own tags', lambda: repr((cls, got, want)))
            ctx.cover('dead' if len(got) < 3 else 'alive')


class Unregistered(Thing):
    pass


def transactions(ctx):
    """Inside of a transaction the invalidation is repeated at its end, for objects of all threads."""
    from django_cache_dependencies import CacheRegistry, caches
    w = ctx.make_world(frozen=True)
    A, B = w.session('A'), w.session('B')
    event = ctx.choose('event', EVENTS)
    nested = ctx.flag('nested')
    with Signals():
        CacheRegistry().register([(Thing, lambda o: o.tags)])
        tag = ctx.str('tag', 1)
        A.call(lambda: caches['default'].transaction.begin())
        if nested:
            A.call(lambda: caches['default'].transaction.begin())
        A.call(send, event, Thing('T'))
        B.call(lambda: caches['default'].set('k', 1, [tag]))
        if nested:
            A.call(lambda: caches['default'].transaction.finish())
        ctx.check(B.call(lambda: caches['default'].get('k', abort=True)) == 1, 'saved meanwhile')
        A.call(lambda: caches['default'].transaction.finish())
        r = B.call(lambda: caches['default'].get('k', abort=True))
        ctx.check(ctx.eq(r is None, ctx.eq(tag, 'T')), 'settled at the end of the transaction')
        ctx.cover('settled')


class Boom(Exception):
    pass


def failing(ctx):
    """A failure of the tag function comes out, and nothing is invalidated."""
    from django_cache_dependencies import CacheRegistry, caches
    w = ctx.make_world(frozen=True)
    s = w.session('A')
    error = ctx.choose_of('error', [Boom, TypeError, KeyError])

    def tags(obj):
        raise error('x')

    def whole(obj=None, instance=None, **kwargs):
        if instance is not None:
            raise error('x')
        return ['T']
    if error is not TypeError and ctx.flag('takes all'):
        tags = whole
    with Signals():
        CacheRegistry().register([(Thing, tags)])
        s.call(lambda: caches['default'].set('k', 1, ['T']))
        try:
            s.call(send, ctx.choose('event', EVENTS), Thing('T'))
            ctx.check(False, 'the failure comes out')
        except error:
            pass
        ctx.check(s.call(lambda: caches['default'].get('k', abort=True)) == 1, 'nothing is invalidated')
    ctx.cover('failed')


class App(object):
    """The apps under harness/apps, each of which registers its model in its caches module."""
    models = dict((n, type(str(n), (Thing,), {})) for n in ['plain', 'configured', 'inner'])
    entries = {'plain': 'sxapp_plain', 'configured': 'sxapp_configured.settings.Config', 'inner': 'sxapp_outer.inner'}

    def __init__(self, installed):
        import os
        self.path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'apps')
        self.installed = installed

    def __enter__(self):
        import sys
        from django.test.utils import override_settings
        from django_cache_dependencies import registry
        self.registered = list(registry._registry)
        sys.path.insert(0, self.path)
        self.settings = override_settings(INSTALLED_APPS=['django_cache_dependencies'] + self.installed)
        self.settings.enable()

    def __exit__(self, *a):
        import sys
        from django_cache_dependencies import registry
        self.settings.disable()
        sys.path.remove(self.path)
        registry._registry[:] = self.registered
        for n in [n for n in sys.modules if n.startswith('sxapp_')]:
            del sys.modules[n]


def discovery(ctx):
    """autodiscover() loads the registrations of every installed app that has any, however it is installed, and of no other."""
    from django_cache_dependencies import autodiscover, caches
    w = ctx.make_world(frozen=True)
    s = w.session('A')
    broken, bare = ctx.flag('broken'), ctx.flag('bare')
    names = sorted(App.entries)
    used = [n for n in names if ctx.flag('installs ' + n)]
    entries = [App.entries[n] for n in used]
    if ctx.flag('from the end'):
        entries.reverse()
    if bare:
        entries.insert(0, 'sxapp_outer.bare')
    if broken:
        entries.append('sxapp_broken')
    tag = ctx.str('tag', 1)
    with Signals(), App(entries):
        try:
            s.call(autodiscover)
            if ctx.flag('again'):
                s.call(autodiscover)
            ctx.check(not broken, 'a module which cannot be loaded is reported', lambda: repr(entries))
        except ImportError:
            ctx.check(broken, 'apps without registrations are left out silently', lambda: repr(entries))
            ctx.cover('broken')
        for n in names:
            s.call(lambda: caches['default'].set('k', 1, [tag]))
            s.call(send, ctx.p('event') % EVENTS, App.models[n]('T'))
            dead = ctx.land(n in used, ctx.eq(tag, 'T'))
            r = s.call(lambda: caches['default'].get('k', MISS, abort=True))
            ctx.check(ctx.eq(r == MISS, dead), 'the models of the installed apps are registered', lambda: repr((n, entries, r, tag)))
            ctx.cover('found' if n in used else 'not installed')


BOUNDS = ('5 forms of tag functions, 6 of results with up to 2 symbolic tags, 4 ways to name the cache, 4 events; sequences of 3 (thorough 4) '
          'events of 3 models; every subset of 5 installed apps of different kinds, in 2 orders')
ASSUMPTIONS = ("Django's signals are trusted", 'no other handlers of the models')
