"""Virtual files: everything below /sx-virtual lives in the path's world, never on the disk.

The functions of os, io and tempfile that touch files are wrapped for the whole process; paths and descriptors of virtual
files go here, all others to the real functions. Every call on a virtual file is an interleaving point and a possible
failure or crash: `FS.before(op, path)` is told of each. Contents are real bytes (symbolic leaves of pickles by reference).
A file's inode outlives its name while it is open, as POSIX has it; rename() replaces at once.
"""
import builtins
import errno
import io
import os
import posixpath
import stat as _stat
import tempfile
from . import values
from . import world as _w

ROOT = '/sx-virtual'
FD0 = 10 ** 6
_real = {}


class _Any(object):
    """A resource that conflicts with every file."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = object.__hash__


ANY = _Any()


class Inode(object):
    def __init__(self):
        self.data = bytearray()
        self.temp = None        # its path while it is a temporary file nobody else can know the name of


class VirtualFile(object):
    """An open virtual file in binary mode."""

    def __init__(self, fs, fd, mode, name):
        self.fs, self.fd, self.mode, self.name, self.closed, self.at = fs, fd, mode, name, False, 0
        fs.handles.append(self)
        if 'a' in mode:
            self.at = len(fs.fds[fd][0].data)

    def _node(self, op, kind):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self.fs.node_op(op, kind, self.fd)

    def read(self, n=-1):
        node = self._node('read', 'r')
        end = len(node.data) if n is None or n < 0 else min(len(node.data), self.at + n)
        b, self.at = bytes(node.data[self.at:end]), end
        return b

    def readline(self, n=-1):
        node = self._node('read', 'r')
        i = node.data.find(b'\n', self.at)
        end = len(node.data) if i < 0 else i + 1
        b, self.at = bytes(node.data[self.at:end]), end
        return b

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def peek(self, n=0):
        return bytes(self.fs.fds[self.fd][0].data[self.at:])

    def write(self, b):
        node = self._node('write', 'w')
        b = bytes(b)
        node.data[self.at:self.at + len(b)] = b
        self.at += len(b)
        return len(b)

    def seek(self, n, whence=0):
        self.at = n if whence == 0 else (self.at + n if whence == 1 else len(self.fs.fds[self.fd][0].data) + n)
        return self.at

    def tell(self):
        return self.at

    def flush(self):
        self._node('flush', 'w')

    def truncate(self, n=None):
        node = self._node('write', 'w')
        del node.data[self.at if n is None else n:]

    def fileno(self):
        return self.fd

    def readable(self):
        return 'r' in self.mode or '+' in self.mode

    def writable(self):
        return 'r' not in self.mode or '+' in self.mode

    def seekable(self):
        return True

    def isatty(self):
        return False

    def close(self):
        if not self.closed:
            self.closed = True
            try:
                self.fs.node_op('close', 'r', self.fd)
            finally:                                    # close() releases the descriptor even if it fails
                self.fs.fds.pop(self.fd, None)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FS(object):
    def __init__(self, world, before=None):
        self.world, self.before = world, before or (lambda op, path: None)
        self.files, self.dirs, self.fds, self.handles = {}, {ROOT}, {}, []
        self.next, self.temps, self.log = FD0, 0, []
        world.fs = self
        values.HANDLES = []

    def op(self, op, kind, *paths):
        self.world.op(kind, list(paths))
        self.log.append((op,) + paths)
        self.before(op, paths[0])

    def node_op(self, op, kind, fd):
        node, path = self.fds[fd]
        if self.files.get(node.temp) is not node:
            self.world.op(kind, [node])
        self.log.append((op, path))
        self.before(op, path)
        return node

    def _missing(self, path):
        return FileNotFoundError(errno.ENOENT, 'No such file or directory', path)

    def open_fd(self, path, create, excl=False, trunc=False):
        if path in self.dirs:
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', path)
        if path in self.files:
            if excl:
                raise FileExistsError(errno.EEXIST, 'File exists', path)
            if trunc:
                del self.files[path].data[:]
        elif not create or posixpath.dirname(path) not in self.dirs:
            raise self._missing(path)
        else:
            self.files[path] = Inode()
        self.next += 1
        self.fds[self.next] = (self.files[path], path)
        return self.next

    # --- what the wrapped functions do on virtual files

    def open(self, path, mode='r', *a, **k):
        if 'b' not in mode:
            raise NotImplementedError('text files')
        writes = any(c in mode for c in 'wax')
        self.op('open', 'w' if writes else 'r', path)
        fd = self.open_fd(path, writes, 'x' in mode, 'w' in mode)
        return VirtualFile(self, fd, mode, path)

    def fdopen(self, fd, mode='r', *a, **k):
        if 'b' not in mode:
            raise NotImplementedError('text files')
        if fd not in self.fds:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        return VirtualFile(self, fd, mode, fd)

    def os_open(self, path, flags, mode=0o777, **k):
        self.op('open', 'w' if flags & (os.O_WRONLY | os.O_RDWR) else 'r', path)
        fd = self.open_fd(path, flags & os.O_CREAT, flags & os.O_EXCL, flags & os.O_TRUNC)
        if flags & os.O_CREAT and flags & os.O_EXCL:
            self.fds[fd][0].temp = path         # nobody else has it open, and its name is as good as unknown
        return fd

    def os_close(self, fd):
        if fd not in self.fds:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        try:
            self.node_op('close', 'r', fd)
        finally:
            self.fds.pop(fd, None)

    def os_write(self, fd, b):
        node = self.node_op('write', 'w', fd)
        node.data.extend(b)
        return len(b)

    def os_fsync(self, fd):
        self.node_op('fsync', 'r', fd)

    def mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        self.temps += 1
        s = self.world.running
        path = posixpath.join(dir, '%s%s%d%s' % (prefix or 'tmp', s.name if s is not None else '', self.temps, suffix or ''))
        self.op('create', 'w', path)
        fd = self.open_fd(path, True, True)
        self.fds[fd][0].temp = path
        return fd, path

    def exists(self, path):
        self.op('exists', 'r', path)
        return path in self.files or path in self.dirs

    def isfile(self, path):
        self.op('exists', 'r', path)
        return path in self.files

    def isdir(self, path):
        self.op('exists', 'r', path)
        return path in self.dirs

    def stat(self, path, *a, **k):
        self.op('stat', 'r', path)
        if path in self.dirs:
            return os.stat_result((_stat.S_IFDIR | 0o700, hash(path) & 0xffff, 1, 1, 0, 0, 0, 0, 0, 0))
        if path not in self.files:
            raise self._missing(path)
        n = self.files[path]
        return os.stat_result((_stat.S_IFREG | 0o600, id(n) & 0xffffff, 1, 1, 0, 0, len(n.data), 0, 0, 0))

    def access(self, path, mode, *a, **k):
        self.op('exists', 'r', path)
        return path in self.files or path in self.dirs

    def mkdir(self, path, *a, **k):
        self.op('mkdir', 'w', path)
        if path in self.dirs or path in self.files:
            raise FileExistsError(errno.EEXIST, 'File exists', path)
        if posixpath.dirname(path) not in self.dirs:
            raise self._missing(path)
        self.dirs.add(path)

    def rename(self, a, b, *x, **k):
        self.op('rename', 'w', a, b)
        if a not in self.files:
            raise self._missing(a)
        if posixpath.dirname(b) not in self.dirs:
            raise self._missing(b)
        self.files[b] = self.files.pop(a)

    def link(self, a, b, *x, **k):
        self.op('link', 'w', a, b)
        if a not in self.files:
            raise self._missing(a)
        if b in self.files:
            raise FileExistsError(errno.EEXIST, 'File exists', b)
        self.files[b] = self.files[a]

    def remove(self, path, *a, **k):
        self.op('remove', 'w', path)
        if path not in self.files:
            raise self._missing(path)
        del self.files[path]

    def rmdir(self, path, *a, **k):
        self.op('rmdir', 'w', path)
        if path not in self.dirs:
            raise self._missing(path)
        if any(posixpath.dirname(p) == path for p in self.files):
            raise OSError(errno.ENOTEMPTY, 'Directory not empty', path)
        self.dirs.discard(path)

    def listdir(self, path='.'):
        self.op('list', 'r', ANY)
        if path not in self.dirs:
            raise self._missing(path)
        return [posixpath.basename(p) for p in list(self.files) + sorted(self.dirs) if posixpath.dirname(p) == path and p != path]


    def scandir(self, path='.'):
        return _Scan([_Entry(self, path, n) for n in self.listdir(path)])


class _Entry(object):
    def __init__(self, fs, dir, name):
        self.fs, self.name, self.path = fs, name, posixpath.join(dir, name)

    def is_dir(self, **k):
        return self.path in self.fs.dirs

    def is_file(self, **k):
        return self.path in self.fs.files

    def is_symlink(self):
        return False

    def stat(self, **k):
        return self.fs.stat(self.path)


class _Scan(list):
    def __enter__(self):
        return iter(self)

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _virtual(x):
    if type(x) is int:
        return x > FD0
    try:
        x = os.fspath(x)
    except TypeError:
        return False
    return isinstance(x, str) and (x == ROOT or x.startswith(ROOT + '/'))


def _fs():
    fs = getattr(_w.CURRENT, 'fs', None) if _w.CURRENT is not None else None
    if fs is None:
        raise RuntimeError('virtual files without a world')
    return fs


def _wrap(mod, name, method, arg=0, kw=None):
    real = getattr(mod, name)
    _real[mod.__name__, name] = real

    def f(*a, **k):
        x = a[arg] if len(a) > arg else k.get(kw)
        if x is not None and _virtual(x):
            return getattr(_fs(), method)(*a, **k)
        return real(*a, **k)
    f.__name__ = name
    setattr(mod, name, f)


def _opener(real):
    def f(file, *a, **k):
        if _virtual(file):
            fs = _fs()
            return (fs.fdopen if type(file) is int else fs.open)(file, *a, **k)
        return real(file, *a, **k)
    f.__name__ = 'open'
    return f


def install():
    f = _opener(builtins.open)
    builtins.open = io.open = f
    for name, method in (('open', 'os_open'), ('close', 'os_close'), ('write', 'os_write'), ('fsync', 'os_fsync'), ('fdopen', 'fdopen'),
                         ('mkdir', 'mkdir'), ('rename', 'rename'), ('replace', 'rename'), ('link', 'link'), ('remove', 'remove'),
                         ('unlink', 'remove'), ('rmdir', 'rmdir'), ('listdir', 'listdir'), ('scandir', 'scandir'), ('stat', 'stat'), ('lstat', 'stat'),
                         ('access', 'access')):
        _wrap(os, name, method, kw='path')
    for name in ('exists', 'isfile', 'isdir', 'lexists'):
        _wrap(os.path, name, 'exists' if name == 'lexists' else name, kw='path')
    _wrap(tempfile, 'mkstemp', 'mkstemp', 2, 'dir')
