"""Template fragments: rendered exactly when they must be, under all of their tags, unless prevented."""
from harness.common import shards
from harness.web import Site
PROPERTY = 'C21'
TEMPLATES = {}


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers, django=True))
    both = ['rendered', 'served']
    job([3], 'fragments', both, steps=4, events=1, ops=['frag', 'leaf', 'close'])
    job([4], 'fragments', both, steps=4, events=1, ops=['frag', 'leaf', 'prevent', 'close'], forms=False)
    job([4], 'fragments', both, steps=4, events=1, ops=['frag', 'leaf', 'for', 'close'], forms=False)
    job([3], 'fragments', both, steps=3, events=2, ops=['frag', 'leaf', 'close'], forms=False)
    job([3], 'scopes', ['prevented', 'cached'])
    job([3], 'shared', ['rendered', 'served'])
    job([7], 'timeouts', ['kept', 'refused'])
    job([4], 'failing', ['failed'])
    job([3], 'values', ['served'])
    job([], 'syntax', ['refused'])
    if thorough:
        job([3, 3], 'fragments', both, steps=5, events=2, ops=['frag', 'leaf', 'close'])
        job([4, 4], 'fragments', both, steps=5, events=2, ops=['frag', 'leaf', 'prevent', 'close'], forms=False)
        job([6, 6], 'fragments', both, steps=5, events=1, ops=['frag', 'leaf', 'for', 'with', 'prevent', 'close'], forms=False)
    return out


class Data(object):
    """The data behind the leaves; counts how often each is asked for."""

    def __init__(self):
        self.now, self.asked = {}, {}

    def __getitem__(self, name):
        self.asked[name] = self.asked.get(name, 0) + 1
        return '%s=%d;' % (name, self.now.setdefault(name, 0))


class Node(object):
    def __init__(self, kind, name=None, tagging=0):
        self.kind, self.name, self.tagging, self.children = kind, name, tagging, []
        self.cached = None

    def source(self):
        inner = ''.join(c.source() for c in self.children)
        if self.kind == 'leaf':
            return ('{% cache_add_tags "' + self.name + '" %}' if self.tagging == 1 else
                    '{% cache_add_tags more.' + self.name + ' %}' if self.tagging == 3 else '') + '{{ data.' + self.name + ' }}'
        if self.kind == 'prevent':
            return '{% cache_tagging_prevent %}'
        if self.kind == 'for':
            return '{% for i in pair %}' + inner + '{% endfor %}'
        if self.kind == 'with':
            return '{% with a=1 %}' + inner + '{% endwith %}'
        if self.kind == 'if':
            return '{% if pair %}' + inner + '{% endif %}'
        if self.kind == 'frag':
            args = ''.join(' "%s"' % c.name for c in self.leaves() if c.tagging == 0)
            lists = [c.name for c in self.leaves() if c.tagging == 2]
            return '{% cache_tagging "' + self.name + '"' + args + (
                ' tags=lists.%s' % '_'.join(lists) if lists else '') + ' timeout=60 %}' + inner + '{% end_cache_tagging %}'
        return inner

    def leaves(self):
        """The leaves of this fragment, not of fragments inside."""
        for c in self.children:
            if c.kind == 'leaf':
                yield c
            elif c.kind != 'frag':
                for x in c.leaves():
                    yield x

    def prevented(self):
        return self.kind == 'prevent' or any(c.prevented() for c in self.children)

    def all(self):
        yield self
        for c in self.children:
            for x in c.all():
                yield x

    def render(self, asked):
        """Reference: -> names of the leaves it is made of, counting what has to be asked for."""
        if self.kind == 'leaf':
            asked[self.name] = asked.get(self.name, 0) + 1
            return set([self.name])
        if self.kind == 'frag' and self.cached is not None:
            return self.cached
        tags = set()
        for _ in range(2 if self.kind == 'for' else 1):
            for c in self.children:
                tags |= c.render(asked)
        if self.kind == 'frag' and not self.prevented():
            self.cached = tags
        return tags

    def text(self, now):
        if self.kind == 'leaf':
            return '%s=%d;' % (self.name, now.setdefault(self.name, 0))
        return ''.join(c.text(now) for c in self.children) * (2 if self.kind == 'for' else 1)


def build(ctx):
    root = Node('root')
    stack, n = [root], 0
    for i in range(ctx.p('steps')):
        op = ctx.choose_of('op', ctx.p('ops'))
        inside = any(s.kind == 'frag' for s in stack)
        if op == 'close':
            if len(stack) == 1:
                ctx.done()
            stack.pop()
        elif op == 'leaf':
            stack[-1].children.append(Node('leaf', 't%d' % n, ctx.choose('tagging', 4) if inside and ctx.p('forms', True) else inside))
            n += 1
        elif op == 'prevent':
            stack[-1].children.append(Node('prevent'))
        else:
            stack[-1].children.append(Node(op, 'f%d' % n))
            stack.append(stack[-1].children[-1])
            n += 1
    return root


def template(src):
    from django.template import engines
    t = TEMPLATES.get(src)
    if t is None:
        t = TEMPLATES[src] = engines['django'].from_string('{% load cache_tagging_tags %}' + src)
    return t


class Lists(object):
    def __getitem__(self, name):
        return name.split('_')


class More(object):
    def __getitem__(self, name):
        return (name, 'more-' + name)


def fragments(ctx):
    """Any nesting of fragments, loops, tags and prevention: what is shown is always current, and made only when it must be."""
    root = build(ctx)
    site = Site(ctx)
    data = Data()
    t = template(root.source())
    leaves = [x.name for x in root.all() if x.kind == 'leaf']
    frags = [x for x in root.all() if x.kind == 'frag']

    def show():
        asked, data.asked = {}, {}
        root.render(asked)
        r = site.call(t.render, {'data': data, 'pair': [1, 2], 'lists': Lists(), 'more': More()})
        ctx.check(r == root.text(data.now), 'what is shown is current', lambda: repr((root.source(), r, data.now)))
        ctx.check(data.asked == asked, 'each fragment is made exactly when it must be', lambda: repr((root.source(), data.asked, asked)))
        ctx.cover('rendered' if asked else 'served')
    show()
    if not frags:
        ctx.done()
    show()
    for i in range(ctx.p('events')):
        e = ctx.choose('event', len(leaves) + len(frags))
        if e < len(leaves):
            name = leaves[e]
            data.now[name] = data.now.get(name, 0) + 1
            site.call(lambda: site.caches('default').invalidate_tags(name))
            for f in frags:
                if f.cached and name in f.cached:
                    f.cached = None
        else:
            f = frags[e - len(leaves)]
            site.call(lambda: site.caches('default').cache.delete(f.name))
            f.cached = None
        show()
    show()
    site.call(lambda: site.caches('default').relation_manager.current())
    ctx.check(not site.call(lambda: site.caches('default').relation_manager.current()), 'nothing stays pending')


def scopes(ctx):
    """Prevention reaches the fragments around it and the page, from inside of any block, and nothing else."""
    site = Site(ctx)
    data = Data()
    kind = ctx.choose_of('kind', ['for', 'with', 'if'])
    inner = '{% cache_tagging "inner" "b" timeout=60 %}{{ data.b }}{% cache_tagging_prevent %}{% end_cache_tagging %}'
    where = ctx.choose('where', 4)
    if where == 0:
        body = '{% cache_tagging_prevent %}'
    elif where == 1:
        body = inner
    elif where == 2:
        body = '{% with z=1 %}' + inner + '{% endwith %}'
    else:
        body = ''
    block = {'for': '{% for i in pair %}' + body + '{% endfor %}', 'with': '{% with a=1 %}' + body + '{% endwith %}',
             'if': '{% if pair %}' + body + '{% endif %}'}[kind]
    twin = '{% cache_tagging "before" "a" timeout=60 %}{{ data.a }}{% end_cache_tagging %}'
    src = twin + '{% cache_tagging "outer" "o" timeout=60 %}{{ data.o }}' + block + '{% end_cache_tagging %}' + twin.replace('before', 'after').replace('data.a', 'data.c')
    t = template(src)
    requests = []

    def show(with_request):
        c = {'data': data, 'pair': [1]}
        if with_request:
            requests.append(type('Request', (), dict(META={}))())
            c['request'] = requests[-1]
        site.call(t.render, c)
    with_request = ctx.flag('request')
    show(with_request)
    if with_request:
        ctx.check((getattr(requests[0], '_cache_update_cache', True) is False) == (where != 3), 'the page is prevented exactly if something in it is')
        if where == 3:
            ctx.check(requests[0].cache_tagging == set(['a', 'o']), 'the page has the tags of its fragments')
    data.asked = {}
    show(with_request)
    ctx.check(('o' in data.asked) == (where != 3), 'the fragment around prevention is not kept')
    ctx.check('a' not in data.asked and 'c' not in data.asked, 'its neighbours are')
    ctx.cover('cached' if where == 3 else 'prevented')


def shared(ctx):
    """Fragments which take their tags from the same collections of the context: it stays as it is, and each has exactly its own tags."""
    site = Site(ctx)
    data = Data()
    kind = [list, tuple, set][ctx.choose('kind', 3)]
    own, nested, add = ctx.flag('own'), ctx.flag('nested'), ctx.choose('add', 3)
    common, added = kind(['s', 'u']), kind(['d'])
    adds = ['', '{% cache_add_tags added %}', '{% cache_add_tags "z" %}'][add]
    second = '{% cache_tagging "b" tags=common timeout=60 %}{{ data.b }}{% end_cache_tagging %}'
    first = '{% cache_tagging "a"' + (' "o"' if own else '') + ' tags=common timeout=60 %}{{ data.a }}' + adds
    first += (second if nested else '') + '{% end_cache_tagging %}' + ('' if nested else second)
    third = '{% cache_tagging "c" added.0 tags=added timeout=60 %}{{ data.c }}{% end_cache_tagging %}' if kind is not set and add == 1 else ''
    t = template(first + third)
    made = dict(a=['s', 'u'] + (['o'] if own else []) + [[], ['d'], ['z']][add], b=['s', 'u'], c=['d'])

    def show():
        data.asked = {}
        request = type('Request', (), dict(META={}))()
        c = {'data': data, 'common': common, 'added': added, 'request': request}
        site.call(t.render, c)
        ctx.check(common == kind(['s', 'u']) and added == kind(['d']), 'what the context gives is not changed')
        return data.asked
    show()
    again = show()
    ctx.check(not again, 'served')
    tag = ctx.str('tag', 1)
    site.call(lambda: site.caches('default').invalidate_tags(tag))
    asked = show()
    for name in ('a', 'b') + (('c',) if third else ()):
        ctx.check(ctx.eq(name in asked, ctx.lor(*[ctx.eq(tag, x) for x in made[name]])), 'rendered anew exactly after its own tags', lambda: repr((name, asked, tag)))
    ctx.cover('rendered' if asked else 'served')


def timeouts(ctx):
    """The timeout of a fragment is the given one, whatever kind of expression; what is no number is refused."""
    site = Site(ctx)
    expr = ctx.choose_of('expr', ['timeout=7', 'timeout=n', 'timeout="9"', 'timeout=n|add:1', 'timeout=text', 'timeout=missing', ''])
    t = template('{% cache_tagging "f" ' + ctx.choose_of('tags', ['', '"T" ', '"T" "U" ']) + expr + ' %}x{% end_cache_tagging %}')
    n = ctx.choose_of('n', [0, 5, 600])
    from django.template import TemplateSyntaxError
    try:
        r = site.call(t.render, {'n': n, 'text': 'soon'})
    except TemplateSyntaxError:
        r = None
    bad = expr in ('timeout=text', 'timeout=missing')
    ctx.check((r is None) == bad, 'exactly what is no number is refused', lambda: repr((expr, r)))
    entries = [e for e in site.world.stores['default'].all if e.key == 'f'] if 'default' in site.world.stores else []
    if bad:
        ctx.check(not entries, 'nothing is kept')
        ctx.check(not site.call(lambda: site.caches('default').relation_manager.current()), 'nothing stays pending')
        ctx.cover('refused')
    else:
        want = {'timeout=7': 7, 'timeout=n': n, 'timeout="9"': 9, 'timeout=n|add:1': n + 1, '': None}[expr]
        ctx.check([e.timeout for e in entries] == [want], 'kept for the given time', lambda: repr((expr, n, [e.timeout for e in entries])))
        ctx.cover('kept')


class Boom(Exception):
    silent_variable_failure = False


def failing(ctx):
    """A failure inside of a fragment comes out, nothing is kept, nothing stays pending, and the next rendering is whole."""
    site = Site(ctx)
    data = Data()
    fail = [True]
    kind = ctx.choose_of('kind', [Boom, GeneratorExit, SystemExit, KeyboardInterrupt])

    def boom():
        if fail[0]:
            raise kind()
        return 'fine'
    depth = ctx.choose('depth', 3)
    before = ctx.flag('before')
    src = '{{ boom }}'
    if before:
        src = '{% cache_tagging "part" "p" timeout=60 %}{{ data.p }}{% end_cache_tagging %}' + src
    for i in range(depth + 1):
        src = '{% cache_tagging "f' + str(i) + '" "t' + str(i) + '" timeout=60 %}' + src + '{% end_cache_tagging %}'
    t = template(src)
    if ctx.flag('ready'):
        site.call(lambda: site.caches('default').set('part', 'p=0;', ['p']))
    try:
        site.call(t.render, {'data': data, 'boom': boom})
        ctx.check(False, 'the failure comes out')
    except (Boom, GeneratorExit, SystemExit, KeyboardInterrupt) as e:
        ctx.check(type(e) is kind, 'as it is')
    ctx.check(not site.call(lambda: site.caches('default').relation_manager.current()), 'nothing stays pending')
    site.call(lambda: site.caches('default').set('later', 'x', ['l']))
    fail[0] = False
    want = ('p=0;' if before else '') + 'fine'
    for i in range(2):
        ctx.check(site.call(t.render, {'data': data, 'boom': boom}) == want, 'the next rendering is whole')
    site.call(lambda: site.caches('default').invalidate_tags('p'))
    ctx.check(site.call(lambda: site.caches('default').get('later')) == 'x', 'what is saved after the failure does not depend on it')
    r = site.call(lambda: site.caches('default').get('f%d' % depth))
    ctx.check((r is None) == before, 'a fragment depends on what it was made of')
    ctx.cover('failed')


def values(ctx):
    """Whatever a fragment renders to, empty text included, is kept and served."""
    site = Site(ctx)
    data = Data()
    text = ctx.str('text', ctx.choose('length', 3), any_char=True)
    t = template('{% autoescape off %}{% cache_tagging name tag timeout=60 %}{% if data.a %}{% endif %}{{ text }}{% end_cache_tagging %}{% endautoescape %}')
    name = ctx.choose_of('name', ['f', 'f:1', 'g'])
    r = site.call(t.render, {'data': data, 'text': text, 'name': name, 'tag': 'T'})
    ctx.check(r == text, 'shown')
    r = site.call(t.render, {'data': data, 'text': 'other', 'name': name, 'tag': 'T'})
    ctx.check(r == text and data.asked == {'a': 1}, 'served from cache', lambda: repr((r, text, data.asked)))
    r = site.call(t.render, {'data': data, 'text': 'other', 'name': 'another', 'tag': 'T'})
    ctx.check(r == 'other', 'names are told apart')
    ctx.cover('served')


def syntax(ctx):
    """Templates that are no good are refused when they are compiled."""
    from django.template import TemplateSyntaxError
    ctx.make_world(frozen=True)
    src = ctx.choose_of('src', ['{% cache_tagging %}{% end_cache_tagging %}', '{% cache_tagging "f" %}', '{% cache_add_tags %}',
                                '{% cache_tagging "f" a= %}{% end_cache_tagging %}', '{% end_cache_tagging %}'])
    try:
        template(src)
        ctx.check(False, 'refused')
    except TemplateSyntaxError:
        ctx.cover('refused')


BOUNDS = ('templates of 4 (thorough 5) operations (open, close, leaf tagged in 4 ways, loop, block, prevention) with every 1-2 events of '
          'invalidating any tag or losing any fragment; fragments sharing collections of tags, against one symbolic tag; 7 timeout expressions; failures at depth up to 3; texts of up to 2 symbolic characters')
ASSUMPTIONS = ("Django's template engine is trusted", 'fragments with the same name have the same content')
