"""Code in cached text is executed exactly where a start tag carries the secret, everything else being passed unchanged."""
from harness.common import shards
PROPERTY = 'C18'


def jobs(tier):
    thorough = tier == 'thorough'
    out = []

    def job(sizes, fn, covers, **p):
        dj = p.pop('django', False)
        for f in shards(sizes):
            out.append(dict(fn=fn, params=dict(p, force=f), covers=covers, django=dj))
    n = 3 if thorough else 2
    for lengths in shards([n, n]):
        out.append(dict(fn='secrets', params=dict(n=n, force=lengths), covers=['executed', 'left'] if lengths[0] == lengths[1] else ['left']))
    job([2], 'names', ['executed', 'left'])
    job([3], 'around', ['executed'], n=n)
    job([2], 'forged', ['executed', 'left'], n=n)
    job([3 if thorough else 2], 'nested', ['executed'], depth=3 if thorough else 2)
    job([], 'programs', ['executed'], lines=4 if thorough else 3)
    job([], 'data', ['executed'])
    job([3], 'many', ['executed'])
    job([], 'failing', ['failed'])
    job([2], 'fragments', ['rendered', 'served'], events=3 if thorough else 2, django=True)
    return out


class Boom(Exception):
    pass


def concat(parts):
    out = ''
    for x in parts:
        out = out + x
    return out


def secrets(ctx):
    """Two handlers with any secrets: each executes what it has marked, and what the other has exactly if the secrets are equal."""
    from cache_dependencies.nocache import NoCache
    ctx.make_world(frozen=True)
    n = ctx.p('n')
    a = ctx.str('secret', 1 + ctx.choose('length', n), any_char=True)
    b = ctx.str('other secret', 1 + ctx.choose('other length', n), any_char=True)
    for s in (a, b):
        for c in s:
            ctx.assume(ctx.lnot(ctx.eq(c, '"')))
    A, B = NoCache(a), NoCache(b)
    ran = []
    text = B.start(x=1) + "ran.append(x); echo('done')" + B.end()
    r = A.handle('before' + text + 'after', ran=ran)
    same = ctx.eq(a, b) if len(a) == len(b) else False
    ctx.check(ctx.eq(ran == [1], same), 'executed exactly if the secrets are equal', lambda: repr((a, b, ran)))
    if same:
        ctx.check(r == 'beforedoneafter', 'the output takes its place')
        ctx.cover('executed')
    else:
        ctx.check(ctx.eq(r, 'before' + text + 'after'), 'passed unchanged')
        ctx.cover('left')
    del ran[:]
    ctx.check(B.handle(text, ran=ran) == 'done' and ran == [1], 'a handler executes what it has marked itself')


def names(ctx):
    """And with any names of the tag."""
    from cache_dependencies.nocache import NoCache
    ctx.make_world(frozen=True)
    a, b = ctx.str('name', 1, any_char=True), ctx.str('other name', 1, any_char=True)
    a, b = [(a, b), ('x' + a, 'x' + b)][ctx.choose('form', 2)]
    for s in (a, b):
        for c in s:
            ctx.assume(ctx.land(*[ctx.lnot(ctx.eq(c, x)) for x in '"<>/ ']))
    A, B = NoCache('secret', a), NoCache('secret', tag_name=b)
    ran = []
    text = B.start() + "ran.append(1)" + B.end()
    r = A.handle(text, ran=ran)
    same = ctx.eq(a, b)
    ctx.check(ctx.eq(ran == [1], same), 'executed exactly if the names are equal', lambda: repr((a, b, ran)))
    ctx.check(ctx.eq(r, '' if same else text), 'else passed unchanged')
    ctx.cover('executed' if same else 'left')
    ctx.check(B.handle(text, ran=ran) == '', 'a handler executes what it has marked itself')


def around(ctx):
    """Text around the blocks, whatever it is, is passed unchanged; blocks are executed in order, each once."""
    from cache_dependencies.nocache import NoCache
    ctx.make_world(frozen=True)
    h = NoCache('secret')
    n = ctx.p('n')
    count = ctx.choose('blocks', 3)
    parts, want, ran = [], [], []
    for i in range(count + 1):
        t = ctx.str('text', ctx.choose('length', n + 1), any_char=True)
        parts.append(t)
        want.append(t)
        if i < count:
            # markup of the same look in the output is the output
            code = ctx.choose_of('code', ['ran.append(i); echo("<", i, ">")', 'ran.append(i); echo("</nocache:", i)'])
            parts.append(h.start(i=i) + code + h.end())
            want.append(('<%d>' if code.endswith('">")') else '</nocache:%d') % i)
    r = h.handle(concat(parts), ran=ran)
    ctx.check(ctx.eq(r, concat(want)), 'the text, with the output of the code in its place', lambda: repr((r, want)))
    ctx.check(ran == list(range(count)), 'each once, in order')
    ctx.cover('executed')


def forged(ctx):
    """Whatever a visitor writes next to a block, without knowing the secret nothing of it is executed, and the block is."""
    from cache_dependencies.nocache import NoCache
    ctx.make_world(frozen=True)
    secret = 'the-secret'
    h = NoCache(secret)
    n = ctx.p('n')
    k = ctx.choose('hole', 2)
    w = ctx.choose('width', n + 1)
    hole = ctx.str('hole', w, any_char=True)
    data = h.pickle({})
    evil = 'ran.append("evil")'
    # the visitor guesses all of the tag but a part of it
    guess = [lambda: '<nocache:py secret="' + hole + '" data="' + data + '">' + evil + h.end(),
             lambda: '<nocache:py secret="' + secret[:len(secret) - w] + hole + '" data="' + data + '">' + evil + h.end()][k]()
    knows = ctx.eq(guess, h.start() + evil + h.end())
    block = h.start() + 'ran.append("good")' + h.end()
    after = ctx.flag('after')
    ran = []
    r = h.handle(block + guess if after else guess + block, ran=ran)
    if knows:
        ctx.check(sorted(ran) == ['evil', 'good'] and r == '', 'the secret is what counts')
        ctx.cover('executed')
    else:
        ctx.check(ran == ['good'], 'nothing is executed without the secret', lambda: repr((guess, ran)))
        ctx.check(ctx.eq(r, guess), 'and it is passed unchanged')
        ctx.cover('left')


def nested(ctx):
    """Blocks written by the code of blocks are executed in turn, with their own data and that of the call."""
    from cache_dependencies.nocache import NoCache
    ctx.make_world(frozen=True)
    h = NoCache('secret')
    depth = 1 + ctx.choose('depth', ctx.p('depth'))
    twice = ctx.flag('twice')
    before, after = ctx.str('before', 1, any_char=True), ctx.str('after', 1, any_char=True)

    def code(d):
        if d == 0:
            return 'ran.append(level); echo("leaf", level, given)'
        inner = code(d - 1)
        once = 'echo(h.start(level=%d), %r, h.end())' % (d - 1, inner)
        return 'ran.append(level); echo("["); %s; echo("]")' % ('; '.join([once] * (2 if twice else 1)))

    def want(d, order):
        order.append(d)
        if d == 0:
            return 'leaf0G'
        return '[' + ''.join(want(d - 1, order) for _ in range(2 if twice else 1)) + ']'
    ran, order = [], []
    r = h.handle(before + h.start(level=depth) + code(depth) + h.end() + after, ran=ran, h=h, given='G')
    ctx.check(ctx.eq(r, before + want(depth, order) + after), 'the output of all levels', lambda: repr(r))
    ctx.check(ran == order, 'each executed once, in order', lambda: repr((ran, order)))
    ctx.cover('executed')


LINES = [
    ('echo("a")', 'a'), ('', ''), ('   ', ''), ('x = 7', ''), ('echo(y, data)', None), ('# comment', ''),
    ('if data:\n{i}    echo("t")\n{i}else:\n{i}    echo("f")', 't'),
    ('for z in (1, 2):\n{i}    echo(z)\n\n{i}    echo(",")', '1,2,'),
    ('echo("""u\n\nv """)', 'u\n\nv '),
    ('echo("""u\nv\n  w""")', 'u\nv\n  w'),
    ('echo("".join(str(q + data) for q in (1, 2)))', '56'),
    ('def f():\n{i}    return data\n{i}echo(f())', '4'),
    ('echo([q + x for q in (1,)])', '[8]'),
    (u'echo(u"u\x0bv\x1c\x85\u2028w")', u'u\x0bv\x1c\x85\u2028w'),       # no ends of lines
]


def programs(ctx):
    """Any code, however indented: its own output, in its own namespace."""
    from cache_dependencies.nocache import NoCache
    ctx.make_world(frozen=True)
    h = NoCache('secret')
    indent = ctx.choose_of('indent', ['', '    ', '\t'])
    newline = ctx.choose_of('newline', ['\n', '\r\n'])
    first = ctx.flag('starts on the next line') if indent == '' else True
    lines, want = [], ''
    x_known = False
    for i in range(ctx.choose('lines', ctx.p('lines'))):
        if i >= 2:
            k = ctx.choose('short', 3)          # after two lines of any kind
        else:
            k = ctx.choose('line', len(LINES))
        line, out = LINES[k]
        if k == 3:
            x_known = True
        if k == 12 and not x_known:
            ctx.done()
        if k == 4:
            out = '34'
        if newline != '\n' and k in (8, 9):
            ctx.done()
        lines.append((indent if line.strip() else '') + line.replace('{i}', indent))
        want += out
    text = ('\n' if first else '') + '\n'.join(lines) + ctx.choose_of('end', ['', '\n', '\n' + indent])
    r = h.handle('<' + h.start(y=3) + text.replace('\n', newline) + h.end() + '>' + h.start() + 'echo("x" in globals(), "y" in globals())' + h.end(), data=4)
    ctx.check(r == '<' + want + '>FalseFalse', 'what the code writes', lambda: repr((text, r, want)))
    ctx.cover('executed')


def many(ctx):
    """However many blocks there are, side by side or in turn written by a block, each is executed once."""
    from cache_dependencies.nocache import NoCache
    ctx.make_world(frozen=True)
    h = NoCache('secret')
    n = [50, 128, 300][ctx.choose('blocks', 3)]
    sep = ctx.str('between', 1, any_char=True)
    ran = []
    code = 'ran.append(i); echo(".")'
    if ctx.flag('inside'):
        text = h.start(n=n, code=code) + 'echo(*[h.start(i=i) + code + h.end() for i in range(n)])' + h.end()
        want = '.' * n
    else:
        text, want = sep, sep
        for i in range(n):
            text = text + (h.start(i=i) + code + h.end())
            want = want + '.'
    r = h.handle(text, ran=ran, h=h)
    ctx.check(ran == list(range(n)), 'each once, in order', lambda: repr((n, len(ran))))
    ctx.check(ctx.eq(r, want), 'the output takes the place of each')
    ctx.cover('executed')


def data(ctx):
    """What is given at the start tag reaches the code whole, before what is given to the call; the caller's data stay as they are."""
    from cache_dependencies.nocache import NoCache
    ctx.make_world(frozen=True)
    h = NoCache('secret')
    v = ctx.choose_of('value', [None, 0, '', 'text', u'\u0444\u044b', b'\x00\xff', ['a', {'b': (1, 2)}], '"<>"', '</nocache:py>', 1.5, True])
    w = ctx.choose_of('other', ['w', None])
    given = {'v': 'context', 'got': [], 'keep': 1}
    both = ctx.flag('both')
    start = h.start(v=v, w=w) if both else h.start(w=w)
    h.handle(start + 'got.append((v, w)); keep = 2; v = 3' + h.end() + h.start() + 'got.append((v, keep))' + h.end(), **given)
    ctx.check(given['got'] == [(v if both else 'context', w), ('context', 1)], 'the data of the tag, then those of the call')
    ctx.check(given['keep'] == 1 and given['v'] == 'context', 'the data of the caller stay as they are')
    ctx.cover('executed')


def failing(ctx):
    """A failure of the code comes out; the handler goes on working."""
    from cache_dependencies.nocache import NoCache
    ctx.make_world(frozen=True)
    h = NoCache('secret')
    kind = ctx.choose('kind', 3)
    bad = ['raise Boom()', 'if:', 'echo(h.start(), "raise Boom()", h.end())'][kind]
    where = ctx.choose('where', 3)
    blocks = ['echo(%d)' % i for i in range(3)]
    blocks[where] = bad
    text = ''.join(h.start() + b + h.end() for b in blocks)
    for i in range(2):
        try:
            h.handle(text, Boom=Boom, h=h)
            ctx.check(False, 'the failure comes out')
        except (Boom, SyntaxError) as e:
            ctx.check(isinstance(e, SyntaxError) == (kind == 1), 'as it is')
        ctx.check(h.handle(h.start() + 'echo("fine")' + h.end()) == 'fine', 'the handler goes on')
    ctx.cover('failed')


def fragments(ctx):
    """In a cached fragment such code is executed at each rendering, with the context of the time; only its source is kept."""
    from harness.web import Site
    from harness.c21 import Data, template
    site = Site(ctx)
    handled = ctx.flag('nocache')
    data = Data()
    option = ctx.choose_of('option', [' nocache=1', ' nocache=on']) if handled else ctx.choose_of('without', ['', ' nocache=off'])
    twice = ctx.flag('twice')
    block = '{% nocache made=data.a %}\n  echo(made, now)\n{% endnocache %}'
    t = template('({% cache_tagging "f" "a" timeout=60' + option + ' %}{{ data.b }}' + block + ('|' + block if twice else '') + '{% end_cache_tagging %})')
    made = None
    ran = 0
    for i in range(ctx.p('events') + 1):
        now = ctx.choose_of('now', ['n1', 'n2'])
        data.asked = {}
        r = site.call(t.render, {'data': data, 'now': now, 'on': True, 'off': False})
        ctx.check(bool(data.asked) == (made is None), 'rendered exactly when it must be')
        ctx.cover('served' if made else 'rendered')
        if made is None:
            made = data.now['a'], data.now['b']
        part = 'a=%d;%s' % (made[0], now)
        if handled:
            ctx.check(r == '(b=%d;' % made[1] + part + ('|' + part if twice else '') + ')', 'with the code executed', lambda: repr(r))
        from sx.backend import thaw
        entry = [e for e in site.world.stores['default'].all if e.key == 'f'][-1]
        ctx.check('echo(made, now)' in thaw(entry.blob)['__value'], 'the source is kept')
        if i < ctx.p('events') and ctx.flag('change'):
            data.now['a'] += 1
            data.now['b'] += 1
            site.call(lambda: site.caches('default').invalidate_tags('a'))
            made = None


BOUNDS = ('two secrets of 1-2 (thorough 3) arbitrary characters other than quotes, tag names with 1 arbitrary character, up to 3 texts of up to '
          '2 (3) arbitrary characters around up to 2 blocks, forged tags with 0-2 (3) arbitrary characters; nesting up to 2 (3); programs of up to 2 (3) '
          'lines of 14 forms in 3 indentations; up to 300 blocks; 11 kinds of data')
ASSUMPTIONS = ('the secret has no quotation marks and is not known to those who write the rest of the text', 'code of a block does not contain the end tag',
               'no datum is named self or tpl', 'fragments with nocache do not contain one another (the output of the inner one would be kept by the outer one)')
