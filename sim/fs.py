"""File-system seam.

The code under test works on a real scratch directory, but every file
operation on a path below that directory passes through here: it is a
scheduling point, it can be made to fail, be cut short or kill the process,
and modification times are stamped from the simulated clock.

Faults are placed by operation number: FS.faults maps the n-th operation
(counted from FS.begin()) to a kind:
  crash       the process dies before the operation
  crash_after the process dies right after the operation
  torn        a write delivers only a prefix and the process dies
  enospc      a write delivers only a prefix, then ENOSPC (and keeps failing)
  eio         the operation fails with EIO
  eacces      the operation fails with EACCES
  emfile      the operation fails with EMFILE
  short       a write or read delivers only a prefix (legal short transfer)
"""
import _io
import builtins
import errno
import io
import os
import posix
import stat as statmod

from .clock import CLOCK

CRASH_EXIT = 77

_real = {}
for _n in ('stat', 'lstat', 'open', 'rename', 'replace', 'unlink', 'remove',
           'mkdir', 'rmdir', 'listdir', 'scandir', 'utime', 'close', 'write',
           'read', 'fstat', 'access', 'truncate', 'ftruncate', 'link',
           'symlink', 'sendfile', 'copy_file_range', 'chmod'):
    if hasattr(posix, _n):
        _real[_n] = getattr(posix, _n)
real_open = io.open
RealFileIO = _io.FileIO

ERR = {'eio': errno.EIO, 'eacces': errno.EACCES, 'emfile': errno.EMFILE,
       'enospc': errno.ENOSPC, 'enoent': errno.ENOENT, 'eintr': errno.EINTR}


class FS(object):
    root = None
    active = False
    count_lookups = True     # may faults hit stat() and the like
    count = 0
    faults = {}
    full = False
    fired = {}
    hits = []              # (operation, path, kind) of each fault applied
    last = None
    log = None
    on_point = None
    fds = {}
    iofds = {}             # descriptors of open file objects
    stat_faults = False    # os.path.exists() and friends swallow these
    stat_safe = ()         # paths whose stat never fails
    crash = None           # hook used instead of os._exit when set

    @classmethod
    def begin(cls, root, faults=None, on_point=None, log=None):
        cls.root = os.path.realpath(root) + os.sep
        cls.active = True
        cls.count = 0
        # keys: n, the n-th operation, 'wn', the n-th write, or 'cn', the
        # n-th file or directory made
        cls.faults = dict((k if str(k)[0] in 'wc' else int(k), v)
                          for k, v in (faults or {}).items())
        cls.writes = 0
        cls.makes = 0
        cls.full = False
        cls.fired = {}
        cls.hits = []
        cls.last = None
        cls.on_point = on_point
        cls.log = log
        cls.fds = {}

    @classmethod
    def end(cls):
        cls.active = False

    @classmethod
    def inside(cls, path):
        if not cls.active:
            return False
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith('/'):
            p = os.path.join(posix.getcwd(), p)
        return (os.path.normpath(p) + os.sep).startswith(cls.root)

    @classmethod
    def rel(cls, path):
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith('/'):
            p = os.path.join(posix.getcwd(), p)
        return os.path.normpath(p)[len(cls.root):]

    @classmethod
    def point(cls, op, path):
        """Count the operation; return the fault kind to apply, if any."""
        if cls.on_point is not None:
            cls.on_point(op, path)
        if op in LOOKUPS and not cls.count_lookups:
            if cls.log is not None:
                cls.log('fs - %s %s' % (op, path))
            return None
        cls.count += 1
        cls.last = (op, path)
        if cls.log is not None:
            cls.log('fs %d %s %s' % (cls.count, op, path))
        kind = cls.faults.get(cls.count)
        if op == 'write':
            cls.writes += 1
            kind = kind or cls.faults.get('w%d' % cls.writes)
        elif op in ('create', 'mkdir'):
            cls.makes += 1
            kind = kind or cls.faults.get('c%d' % cls.makes)
        if kind == 'crash':
            cls.note('crash')
            cls.die()
        return kind

    @classmethod
    def note(cls, kind):
        cls.fired[kind] = cls.fired.get(kind, 0) + 1
        if cls.last is not None:
            cls.hits.append(cls.last + (kind,))

    @classmethod
    def die(cls):
        if cls.crash is not None:
            cls.crash()
        os._exit(CRASH_EXIT)

    @classmethod
    def fail(cls, kind, path):
        cls.note(kind)
        raise OSError(ERR[kind], os.strerror(ERR[kind]), path)


def stamp(target):
    try:
        ns = int(CLOCK.now * 1e9)
        _real['utime'](target, ns=(ns, ns))
    except OSError:
        pass


LOOKUPS = ('stat', 'lstat', 'access', 'listdir', 'scandir', 'readlink')
HARD = ('eio', 'eacces', 'emfile', 'enoent')


def _wrap_path(name, mutating=False, two=False, stamp_dir=False):
    real = _real[name]

    def wrapper(*a, **kw):
        if not FS.active or not a:
            return real(*a, **kw)
        path = a[0]
        hit = path if FS.inside(path) else (
            a[1] if two and len(a) > 1 and FS.inside(a[1]) else None)
        if hit is None:
            return real(*a, **kw)
        rel = FS.rel(hit)
        kind = FS.point(name, rel)
        if kind in HARD and (mutating or FS.stat_faults
                             and rel not in FS.stat_safe):
            FS.fail(kind, os.fspath(hit))
        if kind == 'enospc' and mutating and name in ('mkdir', 'rename',
                                                      'replace', 'link'):
            FS.fail(kind, os.fspath(hit))
        r = real(*a, **kw)
        if name == 'mkdir':
            stamp(path)
        if kind == 'crash_after' or (kind == 'torn' and mutating):
            FS.note('crash')
            FS.die()
        return r
    wrapper.__name__ = name
    return wrapper


def _os_open(path, flags, mode=0o777, *a, **kw):
    if not FS.active or not FS.inside(path):
        return _real['open'](path, flags, mode, *a, **kw)
    rel = FS.rel(path)
    kind = FS.point('create' if flags & (os.O_CREAT | os.O_WRONLY | os.O_RDWR)
                    else 'open', rel)
    if kind in HARD:
        FS.fail(kind, os.fspath(path))
    if kind == 'enospc' and flags & os.O_CREAT \
            and not os.path.lexists(path):
        FS.full = True
        FS.fail(kind, os.fspath(path))
    fd = _real['open'](path, flags, mode, *a, **kw)
    FS.fds[fd] = rel
    if flags & (os.O_TRUNC | os.O_CREAT):
        stamp(fd)
    if kind in ('crash_after', 'torn'):
        FS.note('crash')
        FS.die()
    return fd


def _do_write(fd, data, rel):
    data = bytes(data)
    kind = FS.point('write', rel)
    if kind in HARD:
        FS.fail(kind, rel)
    if FS.full:
        FS.note('enospc')
        raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), rel)
    if kind in ('torn', 'enospc', 'short') and len(data) > 0:
        part = data[:max(len(data) * 2 // 3, 1)]
        if kind != 'enospc' or len(part) < len(data):
            _real['write'](fd, part)
        stamp(fd)
        if kind == 'torn':
            FS.note('torn')
            FS.die()
        FS.note(kind)
        if kind == 'enospc':
            FS.full = True
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), rel)
        return len(part)
    n = _real['write'](fd, data)
    stamp(fd)
    if kind == 'crash_after':
        FS.note('crash')
        FS.die()
    return n


def _os_write(fd, data):
    if FS.active:
        rel = FS.fds.get(fd) or FS.iofds.get(fd)
        if rel:
            return _do_write(fd, data, rel)
    return _real['write'](fd, data)


def _os_close(fd):
    if FS.active and fd in FS.fds:
        rel = FS.fds.pop(fd)
        kind = FS.point('close', rel)
        _real['close'](fd)
        if kind in ('eio',):
            FS.fail(kind, rel)
        if kind == 'crash_after':
            FS.note('crash')
            FS.die()
        return None
    return _real['close'](fd)


class SimFileIO(RealFileIO):
    """FileIO whose operations are fault points when it lies in the scratch
    directory."""

    def __init__(self, file, mode='r', closefd=True, opener=None):
        self._rel = None
        if FS.active:
            if isinstance(file, int):
                self._rel = FS.fds.pop(file, None)
                if self._rel:
                    FS.iofds[file] = self._rel
            elif opener is None and FS.inside(file):
                rel = FS.rel(file)
                creating = ('w' in mode or 'a' in mode or 'x' in mode)
                kind = FS.point('create' if creating else 'open', rel)
                if kind in HARD:
                    FS.fail(kind, os.fspath(file))
                if kind == 'enospc' and creating and \
                        not os.path.lexists(file):
                    FS.full = True
                    FS.fail(kind, os.fspath(file))
                RealFileIO.__init__(self, file, mode, closefd)
                self._rel = rel
                FS.iofds[self.fileno()] = rel
                if creating:
                    stamp(self.fileno())
                if kind in ('crash_after', 'torn') and creating:
                    FS.note('crash')
                    FS.die()
                return
        RealFileIO.__init__(self, file, mode, closefd, opener)

    def write(self, b):
        if self._rel is None or not FS.active:
            return RealFileIO.write(self, b)
        return _do_write(self.fileno(), b, self._rel)

    def _readfault(self):
        kind = FS.point('read', self._rel)
        if kind in HARD:
            FS.fail(kind, self._rel)
        return kind

    def read(self, n=-1):
        if self._rel is not None and FS.active:
            self._readfault()
        return RealFileIO.read(self, n)

    def readall(self):
        if self._rel is not None and FS.active:
            self._readfault()
        return RealFileIO.readall(self)

    def readinto(self, b):
        if self._rel is not None and FS.active:
            kind = self._readfault()
            if kind == 'short' and len(b) > 1:
                FS.note('short')
                return RealFileIO.readinto(self, memoryview(b)[:1])
        return RealFileIO.readinto(self, b)

    def close(self):
        if self._rel is not None and not self.closed:
            FS.iofds.pop(self.fileno(), None)
        if self._rel is not None and FS.active and not self.closed:
            rel, self._rel = self._rel, None
            kind = FS.point('close' if self.readable() else 'flush-close',
                            rel)
            RealFileIO.close(self)
            if kind == 'eio':
                FS.fail(kind, rel)
            if kind == 'crash_after':
                FS.note('crash')
                FS.die()
            return
        RealFileIO.close(self)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    if not FS.active or opener is not None or not (
            (isinstance(file, int) and file in FS.fds)
            or (not isinstance(file, int) and FS.inside(file))):
        return real_open(file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    binary = 'b' in mode
    rawmode = mode.replace('b', '').replace('t', '')
    if binary and (encoding or errors or newline):
        raise ValueError('binary mode takes no text arguments')
    raw = SimFileIO(file, rawmode, closefd)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if '+' in rawmode:
        buf = io.BufferedRandom(raw, size)
    elif 'r' in rawmode:
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline,
                            line_buffering=(buffering == 1))
    text.mode = mode
    return text


def _io_open_code(path):
    if FS.active and FS.inside(path):
        return sim_open(path, 'rb')
    return _io_real_open_code(path)


_io_real_open_code = _io.open_code


def install():
    import shutil
    for name in ('stat', 'lstat', 'listdir', 'scandir', 'access'):
        w = _wrap_path(name)
        setattr(posix, name, w)
        setattr(os, name, w)
    for name in ('unlink', 'remove', 'mkdir', 'rmdir', 'truncate', 'chmod'):
        w = _wrap_path(name, mutating=True)
        setattr(posix, name, w)
        setattr(os, name, w)
    for name in ('rename', 'replace', 'link', 'symlink'):
        w = _wrap_path(name, mutating=True, two=True)
        setattr(posix, name, w)
        setattr(os, name, w)
    for mod in (posix, os):
        mod.open = _os_open
        mod.write = _os_write
        mod.close = _os_close
    builtins.open = sim_open
    io.open = sim_open
    _io.open = sim_open
    _io.FileIO = SimFileIO
    io.FileIO = SimFileIO
    _io.open_code = _io_open_code
    io.open_code = _io_open_code
    # copyfile must go through the wrapped file objects
    shutil._USE_CP_SENDFILE = False
    for n in ('_HAS_FCOPYFILE',):
        if hasattr(shutil, n):
            setattr(shutil, n, False)
