"""The raw cache the library wraps, as a stub with the documented cache-backend API.

Keys and versions are compared symbolically, values go through pickle (symbolic leaves by reference), expiry follows
the path's clock, and operations are interleaving points. One World holds one store per name; every thread gets its own
backend object over it, as real backends give every thread its own connection.
"""
import io
import pickle
from . import values
from . import runtime
from . import world as _w

DEFAULT = object()


class BackendFault(Exception):
    """An injected backend failure."""


class _Pickler(pickle.Pickler):
    table = None

    def persistent_id(self, o):
        if isinstance(o, values.Sym):
            self.table.append(o)
            return len(self.table) - 1
        return None


class _Unpickler(pickle.Unpickler):
    table = None

    def persistent_load(self, pid):
        return self.table[int(pid)]


def freeze(v):
    if v is None or isinstance(v, (values.Sym, int, str, float, bytes)):
        return ('v', v)
    b = io.BytesIO()
    p = _Pickler(b, 4)
    p.table = []
    p.dump(v)
    return ('p', b.getvalue(), p.table)


def thaw(f):
    if f[0] == 'v':
        return f[1]
    u = _Unpickler(io.BytesIO(f[1]))
    u.table = f[2]
    return u.load()


class Entry(object):
    __slots__ = ('key', 'version', 'blob', 'expiry', 'timeout')


class Store(object):
    """The entries of one cache server, in insertion order."""

    def __init__(self):
        self.clear()

    def clear(self):
        self.all, self.plain, self.symbolic = {}, {}, {}

    def insert(self, e):
        self.all[e] = None
        if type(e.key) is str and type(e.version) is int:
            self.plain[e.key, e.version] = e
        else:
            self.symbolic[e] = None

    def remove(self, e):
        del self.all[e]
        if e in self.symbolic:
            del self.symbolic[e]
        else:
            del self.plain[e.key, e.version]


class Backend(object):
    default_timeout = 300
    version = 1

    def __init__(self, world, name='default', none_when_empty=False, faults=None):
        self.world = world
        self.store = world.stores.setdefault(name, Store())
        self.none_when_empty = none_when_empty
        self.faults = faults
        self.closed = 0

    def _v(self, version):
        return self.version if version is None else version

    def _log(self, op, keys, version, timeout=DEFAULT):
        self.world.ops.append((op, list(keys), self._v(version), timeout))
        if self.faults is not None:
            self.faults(op)

    def _time(self, kind, keys, version):
        t = self.world.op(kind, [(k, self._v(version)) for k in keys])
        if self.world.ttl == 'live':
            return None
        return t if t is not None else self.world.now()

    def _find(self, key, version):
        v = self._v(version)
        if type(key) is str and type(v) is int:
            # plain keys are looked up directly; only symbolic ones need comparing
            e = self.store.plain.get((key, v))
            if e is not None:
                return e
            scan = self.store.symbolic
        else:
            scan = self.entries
        for e in scan:
            if e.version == v and e.key == key:
                return e
        return None

    def _live(self, key, version, t):
        e = self._find(key, version)
        if e is None:
            return None
        if e.expiry is not None:
            if e.expiry is True or (t is not None and t >= e.expiry):
                return None
        return e

    def _put(self, key, value, timeout, version, t):
        e = self._find(key, version)
        if e is None:
            e = Entry()
            e.key, e.version = key, self._v(version)
            self.store.insert(e)
        e.blob = freeze(value)
        if timeout is DEFAULT:
            timeout = self.default_timeout
        e.timeout = timeout
        if timeout is None:
            e.expiry = None
        elif self.world.ttl == 'live':
            e.expiry = True if timeout <= 0 else None
        else:
            e.expiry = t + timeout
        return e

    def _drop(self, key, version):
        e = self._find(key, version)
        if e is not None:
            self.store.remove(e)

    # --- API ------------------------------------------------------------------------------------------------

    def add(self, key, value, timeout=DEFAULT, version=None):
        self._log('add', [key], version, timeout)
        t = self._time('w', [key], version)
        if self._live(key, version, t) is not None:
            return False
        self._put(key, value, timeout, version, t)
        return True

    def get(self, key, default=None, version=None):
        self._log('get', [key], version)
        t = self._time('r', [key], version)
        e = self._live(key, version, t)
        return default if e is None else thaw(e.blob)

    def set(self, key, value, timeout=DEFAULT, version=None):
        self._log('set', [key], version, timeout)
        t = self._time('w', [key], version)
        self._put(key, value, timeout, version, t)

    def delete(self, key, version=None):
        self._log('delete', [key], version)
        self._time('w', [key], version)
        self._drop(key, version)

    def get_many(self, keys, version=None):
        keys = list(keys)
        self._log('get_many', keys, version)
        out = {}
        if self.world.split:
            for k in keys:
                t = self._time('r', [k], version)
                e = self._live(k, version, t)
                if e is not None:
                    out[runtime.canon(out, k)] = thaw(e.blob)
        elif keys:
            t = self._time('r', keys, version)
            for k in keys:
                e = self._live(k, version, t)
                if e is not None:
                    out[runtime.canon(out, k)] = thaw(e.blob)
        if not out and self.none_when_empty:
            return None
        return out

    def set_many(self, data, timeout=DEFAULT, version=None):
        keys = list(data.keys())
        self._log('set_many', keys, version, timeout)
        if self.world.split:
            for k in keys:
                t = self._time('w', [k], version)
                self._put(k, data[k], timeout, version, t)
        elif keys:
            t = self._time('w', keys, version)
            for k in keys:
                self._put(k, data[k], timeout, version, t)
        return []

    def delete_many(self, keys, version=None):
        keys = list(keys)
        self._log('delete_many', keys, version)
        if self.world.split:
            for k in keys:
                self._time('w', [k], version)
                self._drop(k, version)
        elif keys:
            self._time('w', keys, version)
            for k in keys:
                self._drop(k, version)

    def has_key(self, key, version=None):
        return self.get(key, version=version) is not None

    def __contains__(self, key):
        return self.has_key(key)

    def incr(self, key, delta=1, version=None):
        v = self.get(key, version=version)
        if v is None:
            raise ValueError('no such key')
        self.set(key, v + delta, version=version)
        return v + delta

    def decr(self, key, delta=1, version=None):
        return self.incr(key, -delta, version=version)

    def clear(self):
        self._log('clear', [], None)
        self.store.clear()

    def close(self, **kw):
        self.closed += 1

    @property
    def entries(self):
        return list(self.store.all)

    def evict_entry(self, e):
        """The backend drops an entry on its own (memory pressure)."""
        self.store.remove(e)

    def evict(self, key, version=None):
        self._drop(key, version)
