"""Operations of the instrumented code that Python cannot overload. On ordinary values they are the ordinary ones."""
import builtins
import collections
import functools
import hashlib
import itertools
import operator
import re
import types
from . import engine as _e
from .values import (KNOWN, PROXY_HASHES, Sym, SymBool, SymInt, SymFix, SymStr, Block, Num, mkstr, mkint, deep_sym, text, rep, join,
                     str_format, mod_format, apply_spec, is_sym, SCALE)
from . import smt
from . import regex


class SymHash(object):
    """hashlib object over symbolic bytes: the digest is an opaque block, equal iff the digested bytes are equal."""

    def __init__(self, name, data=b''):
        self.name = name
        self.segs = ()
        self.update(data)

    digest_size = property(lambda self: hashlib.new(self.name).digest_size)

    def update(self, data):
        if isinstance(data, SymStr):
            if data.kind != 'bytes':
                raise TypeError('Unicode-objects must be encoded before hashing')
            self.segs += data.segs
        elif isinstance(data, str):
            raise TypeError('Unicode-objects must be encoded before hashing')
        else:
            self.segs += _utf8_chars(bytes(data))

    def hexdigest(self):
        if all(type(c) is int and c < 0x110000 for c in self.segs):
            d = hashlib.new(self.name, ''.join(map(chr, self.segs)).encode('utf-8', 'surrogatepass')).hexdigest()
            KNOWN[self.name, d] = self.segs
            return d
        return SymStr([Block(self.name, self.segs, 2 * self.digest_size)])

    def digest(self):
        return SymStr([Block(self.name + '.raw', self.segs, self.digest_size)], 'bytes')

    def copy(self):
        h = SymHash(self.name)
        h.segs = self.segs
        return h


def _utf8_chars(b):
    """Symbolic text keeps one segment per character through .encode(); concrete bytes follow suit."""
    try:
        return tuple(map(ord, b.decode('utf-8')))
    except UnicodeDecodeError:
        return tuple(0x110000 + c for c in b)


def _hash_hook(name):
    def make(data=b'', **kw):
        if _e.ACTIVE is None:
            return getattr(hashlib, name)(data, **kw)
        return SymHash(name, data)
    return make


def _isinstance(x, cls):
    if isinstance(x, Sym):
        return any(_sym_is(x, c) for c in _flat(cls))
    return isinstance(x, cls)


def _flat(cls):
    if isinstance(cls, tuple):
        for c in cls:
            for d in _flat(c):
                yield d
    else:
        yield cls


def _ptype(x):
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymFix):
        return float
    if isinstance(x, SymInt):
        return int
    return bytes if x.kind == 'bytes' else str


def _sym_is(x, c):
    try:
        return issubclass(_ptype(x), c) or isinstance(x, c)
    except TypeError:
        return isinstance(x, c)


def _type(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        return _ptype(a[0])
    return type(*a)


def _int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymFix):
            return mkint(smt.floordiv(x.t, SCALE))       # clock readings are non-negative
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymStr) and len(x.segs) == 1 and isinstance(x.segs[0], Num):
            return mkint(x.segs[0].t)
    return int(*a, **k)


def _float(*a):
    if len(a) == 1 and isinstance(a[0], (SymFix, SymInt)):
        return a[0]
    return float(*a)


def _str(*a, **k):
    if a and deep_sym(a[0]):
        if isinstance(a[0], SymStr) and a[0].kind == 'bytes' and (len(a) > 1 or k):
            return a[0].decode()
        return text(a[0])
    return str(*a, **k)


def _repr(x):
    return rep(x) if deep_sym(x) else repr(x)


def _ord(c):
    if isinstance(c, SymStr):
        ch = c._chars()
        if len(ch) != 1:
            raise TypeError('ord() expected a character')
        return mkint(ch[0] if not isinstance(ch[0], int) else smt.const(ch[0]))
    return ord(c)


def _chr(n):
    if isinstance(n, SymInt):
        return SymStr([n.t])
    return chr(n)


def _format(v, spec=''):
    return apply_spec(v, None, spec) if deep_sym(v) else format(v, spec)


def _bytes(*a, **k):
    if a and isinstance(a[0], SymStr):
        return a[0].encode() if a[0].kind == 'str' else a[0]
    return bytes(*a, **k)


def _hash_new(name, data=b'', **kw):
    return _hash_hook(name)(data, **kw)


def _builtin(f):
    t = type(f)
    return t is types.BuiltinFunctionType or t is type and id(f) in HOOKS or (
        t is types.FunctionType and f.__module__ is None) or (
        t is types.MethodType and type(f.__self__) in (str, bytes, dict, set, frozenset))


def _deferred(f):
    """A function handed to a builtin that calls it: its calls are those of instrumented code."""
    return (lambda *a, **k: call(f, *a, **k)) if _builtin(f) else f


def _higher(f):
    def h(*a, **k):
        return f(*[_deferred(x) for x in a], **{n: _deferred(x) for n, x in k.items()})
    return h


def _itemgetter(*names):
    def get(c):
        return item(c, names[0]) if len(names) == 1 else tuple(item(c, n) for n in names)
    return get


HOOKS = {id(f): (f, h) for f, h in [
    (builtins.isinstance, _isinstance), (builtins.type, _type), (builtins.int, _int), (builtins.float, _float),
    (builtins.str, _str), (builtins.repr, _repr), (builtins.ord, _ord), (builtins.chr, _chr),
    (builtins.format, _format), (builtins.bytes, _bytes), (hashlib.new, _hash_new),
] + [(getattr(hashlib, n), _hash_hook(n)) for n in
     ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'blake2b', 'blake2s')] + [
    (builtins.set, lambda *a: make_set(*a)), (builtins.frozenset, lambda *a: make_set(*a, kind=frozenset)),
    (builtins.dict, lambda *a, **k: make_dict(*a, **k)),
    (collections.OrderedDict, lambda *a, **k: _fill(collections.OrderedDict(), a, k)),
    (operator.itemgetter, lambda *a: _itemgetter(*a)), (operator.getitem, lambda c, i: item(c, i)),
    (operator.mod, lambda a, b: mod(a, b)), (operator.contains, lambda c, x: contains(x, c)),
    (operator.or_, lambda a, b: setop('BitOr', a, b)), (operator.and_, lambda a, b: setop('BitAnd', a, b)),
    (operator.sub, lambda a, b: setop('Sub', a, b)), (operator.xor, lambda a, b: setop('BitXor', a, b)),
    (operator.ior, lambda a, b: iop('BitOr', a, b)), (operator.iand, lambda a, b: iop('BitAnd', a, b)),
    (operator.isub, lambda a, b: iop('Sub', a, b)), (operator.ixor, lambda a, b: iop('BitXor', a, b)),
    (operator.eq, lambda a, b: compare('Eq', a, b)), (operator.ne, lambda a, b: compare('NotEq', a, b)),
] + [(f, _higher(f)) for f in (builtins.map, builtins.filter, builtins.sorted, builtins.min, builtins.max,
                               functools.reduce, functools.partial, itertools.takewhile, itertools.dropwhile,
                               itertools.groupby, itertools.starmap, itertools.filterfalse)] + [
    (re.compile, regex.compile), (re.escape, regex.escape)] + [(getattr(re, n), regex.function(n)) for n in regex.METHODS]}

_STR_METHODS = {'format', 'join', 'replace', 'startswith', 'endswith', 'find', 'index', 'count', 'split', 'strip',
                'lstrip', 'rstrip', 'partition', '__add__', '__mod__', '__contains__', '__eq__', 'format_map'}
_KEYED = {'get', 'pop', 'setdefault', '__contains__', '__getitem__', 'has_key', 'discard', 'remove', 'add'}


HOT_NAMES = _STR_METHODS | _KEYED | set(n for n in dir(str) + dir(bytes) if not n.startswith('__')) | set(
    dir(hashlib)) | {'sub', 'match', 'search', 'fullmatch', 'findall', 'finditer', 'dumps', 'loads', 'update', 'fromkeys'} | set(
    n for n in dir(set) if not n.startswith('__'))

# collections whose members or keys may be proxies: Python's own compare hashes first, which proxies do not have


class All(object):
    """**mapping in a dict display."""

    def __init__(self, mapping):
        self.mapping = mapping


def _odd(items):
    for x in items:
        if isinstance(x, Sym) or (isinstance(x, (tuple, frozenset)) and deep_sym(x)):
            return True
    return False


def _member(x, items):
    for y in items:
        if y is x or (_kin(x, y) and x == y):
            return True
    return False


def _distinct(items):
    out = []
    for x in items:
        if not _member(x, out):
            out.append(x)
    return out


def make_set(items=(), kind=set):
    if _e.ACTIVE is None or type(items) in (set, frozenset, dict):
        return kind(items)
    items = list(items)
    return kind(_distinct(items) if _odd(items) else items)


def _pairs(d, pairs):
    pairs = list(pairs)
    for p in pairs:
        if type(p) is All:
            _pairs(d, _items(p.mapping))
        else:
            k, v = p
            d[canon(d, k) if _mixed(d, k) else k] = v
    return d


def _items(m):
    return [(k, m[k]) for k in m.keys()] if hasattr(m, 'keys') else m


def _fill(d, a, k):
    if a:
        _pairs(d, _items(a[0]))
    return _pairs(d, k.items())


def make_dict(*a, **k):
    return _fill({}, a, k)


def _set_method(s, name, args):
    """The methods of sets, member by member; NotImplemented if the ordinary one will do."""
    if name in ('copy', 'clear', 'pop', 'add', 'discard', 'remove'):
        return NotImplemented
    others = [x if isinstance(x, (set, frozenset, dict, list, tuple)) else list(x) for x in args]
    if not (_odd(s) or any(_odd(x) for x in others)):
        return getattr(s, name)(*others)
    kind = frozenset if isinstance(s, frozenset) else set
    if name == 'issubset':
        return all(_member(x, others[0]) for x in s)
    if name == 'issuperset':
        return all(_member(x, s) for x in others[0])
    if name == 'isdisjoint':
        return not any(_member(x, s) for x in others[0])
    base = 'union' if name == 'update' else name[:-len('_update')] if name.endswith('_update') else name
    if base == 'union':
        r = _distinct(list(s) + [x for o in others for x in o])
    elif base == 'intersection':
        r = [x for x in s if all(_member(x, o) for o in others)]
    elif base == 'difference':
        r = [x for x in s if not any(_member(x, o) for o in others)]
    elif base == 'symmetric_difference':
        r = [x for x in s if not _member(x, others[0])] + [x for x in _distinct(others[0]) if not _member(x, s)]
    else:
        return NotImplemented
    if base == name:
        return kind(r)
    s.clear()
    s.update(r)


_SET_METHODS = set(n for n in dir(set) if not n.startswith('_'))
_SETS = (set, frozenset, type({}.keys()), type({}.items()))
_OPS = {'BitOr': (operator.or_, operator.ior, 'union'), 'BitAnd': (operator.and_, operator.iand, 'intersection'),
        'Sub': (operator.sub, operator.isub, 'difference'),
        'BitXor': (operator.xor, operator.ixor, 'symmetric_difference'), 'Mod': (None, operator.imod, None)}


def setop(op, a, b):
    if _e.ACTIVE is not None:
        if isinstance(a, _SETS) and isinstance(b, _SETS) and (_odd(a) or _odd(b)):
            return _set_method(a if isinstance(a, (set, frozenset)) else set(a), _OPS[op][2], [b])
        if op == 'BitOr' and type(a) is dict and type(b) is dict:
            return make_dict([All(a), All(b)])
    return _OPS[op][0](a, b)


def iop(op, a, b):
    if _e.ACTIVE is not None:
        if op == 'Mod' and isinstance(a, (str, bytes)):
            return mod(a, b)
        if isinstance(a, (set, frozenset)) and isinstance(b, _SETS) and (_odd(a) or _odd(b)):
            if isinstance(a, frozenset):
                return setop(op, a, b)
            _set_method(a, 'update' if op == 'BitOr' else _OPS[op][2] + '_update', [b])
            return a
        if op == 'BitOr' and type(a) is dict and type(b) is dict:
            _pairs(a, b.items())
            return a
    return _OPS[op][1](a, b)


_CMP = {'Eq': operator.eq, 'NotEq': operator.ne, 'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt,
        'GtE': operator.ge}


def compare(op, a, b):
    if _e.ACTIVE is not None:
        if isinstance(a, _SETS) and isinstance(b, _SETS) and (_odd(a) or _odd(b)):
            below = op in ('Gt', 'GtE') or all(_member(x, b) for x in a)
            if op in ('Lt', 'LtE'):
                return below and (op == 'LtE' or len(a) < len(b))
            above = all(_member(x, a) for x in b)
            if op in ('Gt', 'GtE'):
                return above and (op == 'GtE' or len(b) < len(a))
            return (below and above) is (op == 'Eq')
        if op in ('Eq', 'NotEq') and type(a) is dict and type(b) is dict and (_odd(a) or _odd(b)):
            same = len(a) == len(b) and all(_member(k, b) and compare('Eq', v, item(b, k)) for k, v in a.items())
            return same is (op == 'Eq')
    return _CMP[op](a, b)


def canon(container, k):
    """The equal key already in the container, if there is one (proxies and plain keys hash differently)."""
    sym = deep_sym(k)
    for x in list(container):
        if x is k:
            return x
        if (sym or deep_sym(x)) and _kin(x, k) and x == k:
            return x
    return k


def _kin(a, b):
    ta = _ptype(a) if isinstance(a, Sym) else type(a)
    tb = _ptype(b) if isinstance(b, Sym) else type(b)
    num = (int, bool, float)
    return ta is tb or (ta in num and tb in num)


class _Probe(object):
    """Equal to every proxy of its hash: finds out whether a container holds one, without scanning it."""

    def __init__(self, h):
        self.h = h

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Sym)


_PROBES = tuple(_Probe(h) for h in PROXY_HASHES)
_PLAIN_KEYS = (str, int, bytes, float, bool)


def _mixed(container, k):
    """Plain lookup is right when key and contents are all plain."""
    if type(k) in _PLAIN_KEYS:
        return any(p in container for p in _PROBES)
    if deep_sym(k):
        return True
    return isinstance(k, (str, int, tuple)) and any(isinstance(x, Sym) or (isinstance(x, tuple) and deep_sym(x))
                                                    for x in container)


def _concrete(x):
    if isinstance(x, SymStr):
        s = x._concrete('argument of uninstrumented code')
        return s if x.kind == 'str' else s.encode('latin-1', 'replace')
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymFix):
        return float(x)
    if isinstance(x, SymInt):
        return int(x)
    if isinstance(x, (list, tuple)) and deep_sym(x):
        return type(x)(_concrete(i) for i in x)
    return x


def name_is_sort(f):
    return f.__name__ == 'sort'


def call(f, *a, **k):
    if _e.ACTIVE is None:
        return f(*a, **k)
    t = type(f)
    if t is types.MethodType:
        s = f.__self__
        ts = type(s)
        if ts is str or ts is bytes:
            name = f.__name__
            if name in _STR_METHODS and (any(deep_sym(x) for x in a) or (k and any(deep_sym(x) for x in k.values()))):
                return _str_method(s, name, a, k)
        elif isinstance(s, (dict, set, frozenset)):
            name = f.__name__
            if a and name in _KEYED and _mixed(s, a[0]):
                return f(canon(s, a[0]), *a[1:], **k)
            if ts is set or ts is frozenset:
                if a and name in _SET_METHODS:
                    r = _set_method(s, name, a)
                    if r is not NotImplemented:
                        return r
            elif name == 'update' and f.__func__ is dict.update:
                _pairs(s, ([All(a[0])] if hasattr(a[0], 'keys') else a[0]) if a else [])
                _pairs(s, k.items())
                return None
            return f(*a, **k)
        elif ts is list and name_is_sort(f):
            return f(*a, **{n: _deferred(x) for n, x in k.items()})
        elif ts is type and s is dict and f.__name__ == 'fromkeys':
            return make_dict([(x, a[1] if len(a) > 1 else None) for x in a[0]])
        elif ts is re.Pattern:
            name = 'finditer' if f.__name__ == 'scanner' else f.__name__     # the same method in PyPy
            if name in regex.METHODS and any(isinstance(x, SymStr) for x in a):
                return getattr(regex.lift(s), name)(*a, **k)
            return f(*a, **k)
        fn = f.__func__
    elif t is type:
        h = HOOKS.get(id(f))
        if h is not None:
            return h[1](*a, **k)
        return f(*a, **k)
    else:
        fn = f
    c = _CLASS.get(id(fn))
    if c is None:
        c = _classify(fn)
    if c[1] == 0:
        return f(*a, **k)
    if c[1] == 1:
        return c[2](*a, **k)
    if c[1] == 3:       # str.join(s, x): a method of a builtin type, unbound
        if a and isinstance(a[0], Sym):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if a and type(a[0]) in (str, bytes, dict, set, frozenset, list):
            return call(types.MethodType(f, a[0]), *a[1:], **k)
        return f(*a, **k)
    if any(isinstance(x, Sym) for x in a) or (k and any(isinstance(x, Sym) for x in k.values())):
        try:
            return f(*a, **k)
        except (TypeError, AttributeError):
            return f(*[_concrete(x) for x in a], **{n: _concrete(x) for n, x in k.items()})
    return f(*a, **k)


_CLASS = {}


def _classify(fn):
    h = HOOKS.get(id(fn))
    if h is not None:
        r = (fn, 1, h[1])
    elif type(fn) is types.FunctionType and fn.__module__ is None:
        r = (fn, 3)
    else:
        mod = getattr(fn, '__module__', None)
        stdlib = isinstance(mod, str) and mod.split('.')[0] in _STDLIB
        r = (fn, 2 if not isinstance(fn, type) and (isinstance(fn, types.BuiltinFunctionType) or stdlib) else 0)
    if isinstance(fn, (types.BuiltinFunctionType, type)) or (
            isinstance(fn, types.FunctionType) and '<locals>' not in getattr(fn, '__qualname__', '<locals>')):
        _CLASS[id(fn)] = r          # kept alive by the entry itself, so its id stays its own
    return r


_STDLIB = {'base64', 're', 'json', 'zlib', 'binascii', 'urllib', 'posixpath', 'textwrap', 'string', 'struct', 'hmac',
           'fnmatch', 'unicodedata', 'html', 'uuid'}


def _str_method(s, name, a, k):
    if name == 'format':
        return str_format(s, a, k)
    if name == 'format_map':
        return str_format(s, (), a[0])
    if name == 'join':
        return join(s, a[0])
    if name == '__mod__':
        return mod_format(s, a[0])
    kind = 'str' if isinstance(s, str) else 'bytes'
    segs = tuple(map(ord, s)) if kind == 'str' else _utf8_chars(s)
    return getattr(SymStr(segs, kind), name)(*a, **k)


def mod(a, b):
    if _e.ACTIVE is not None and isinstance(a, (str, bytes)):
        if deep_sym(b):
            return mod_format(a, b)
    return a % b


def fstr(parts):
    out = ''
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if _e.ACTIVE is not None and (deep_sym(v) or deep_sym(spec)):
                out = out + apply_spec(v, conv, spec)
            else:
                if conv == 'r':
                    v = repr(v)
                elif conv == 's':
                    v = str(v)
                elif conv == 'a':
                    v = ascii(v)
                out = out + format(v, spec)
        else:
            out = out + p
    return out


def contains(x, c):
    if _e.ACTIVE is not None:
        t = type(c)
        if (t is str or t is bytes) and isinstance(x, SymStr):
            return SymStr(tuple(map(ord, c)) if t is str else _utf8_chars(c), x.kind).__contains__(x)
        if t in (dict, set, frozenset) or isinstance(c, (dict, set, frozenset)):
            if _mixed(c, x):
                return canon(c, x) in c
        elif isinstance(c, (type({}.keys()),)):
            if _mixed(c, x):
                return canon(c, x) in c
    return x in c


def item(c, i):
    if _e.ACTIVE is not None:
        if isinstance(c, dict) and _mixed(c, i):
            return c[canon(c, i)]
        if isinstance(c, str) and isinstance(i, SymInt):
            return c[int(i)]
    return c[i]


def key(c, i):
    if _e.ACTIVE is not None and isinstance(c, dict) and _mixed(c, i):
        return canon(c, i)
    return i
