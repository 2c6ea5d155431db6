"""The seam: every operating system service the translator touches.

`install()` must run before anything else is imported (tempfile, shutil and
others bind functions of `os` when they are imported).  While no simulation is
active in the process, all wrappers pass straight through to the real thing.

In a simulated process (`activate()`), every file operation below the scratch
root becomes a message to the kernel (dst/disk.py), which decides whether, when
and how it happens: proceed, fail with an errno, do a part only, be killed.
The real operation is carried out on the real scratch directory afterwards.
Clock, process id, random bytes, locale encoding and locks are simulated too.
"""

import sys
import os
import io
import errno
import time as _time
import _thread
import threading

_real = {}
SIM = None            # the active simulation of this process, see class Sim


class SimKilled(BaseException):
    pass


class EscapedWrite(PermissionError):
    pass


class Sim:
    """State of a simulated process."""

    def __init__(self, root, chan, now=1.7e9, pid=100, encoding='utf-8', seed=0, tzshift=0):
        self.root = os.path.realpath(root)
        self.chan = chan                  # object with request(msg) -> reply
        self.now = now
        self.pid = pid
        self.encoding = encoding
        self.fds = {}                     # fd -> path
        self.rnd = seed * 2654435761 % (1 << 61) + 1
        self.escaped = []                 # write attempts outside the root
        self.strict = True
        self.local = threading.local()    # per-thread channel, if any
        self.tzshift = tzshift
        self.listseed = 0
        self.step = 0.001                 # time between two looks at the clock

    def channel(self):
        return getattr(self.local, 'chan', None) or self.chan

    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(p if p[:1] == '/' else _real['getcwd']() + '/' + p)
        if p == self.root or p.startswith(self.root + '/'):
            return p
        # the scratch root may be spelled through a link
        return None

    def request(self, kind, path, **info):
        reply = self.channel().request((kind, path, info))
        act = reply[0]
        if act == 'ok':
            return None
        if act == 'err':
            raise OSError(reply[1], os.strerror(reply[1]), path)
        if act == 'exc':
            raise EXC[reply[1]]('injected')
        if act == 'kill':
            os._exit(137)
        return reply                       # ('short', n) / ('killpart', n) / ('errafter', e) / ...

    def done(self, reply):
        """handles replies that take effect after the operation"""
        if reply is None:
            return
        if reply[0] == 'killafter':
            os._exit(137)
        if reply[0] == 'errafter':
            raise OSError(reply[1], os.strerror(reply[1]))
        if reply[0] == 'excafter':
            raise EXC[reply[1]]('injected')

    def random_bytes(self, n):
        out = bytearray()
        while len(out) < n:
            self.rnd = (self.rnd * 6364136223846793005 + 1442695040888963407) & ((1 << 64) - 1)
            out += (self.rnd >> 16).to_bytes(6, 'little')
        return bytes(out[:n])

    def tick(self):
        self.now += self.step
        return self.now


EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}


def active():
    return SIM is not None


# --------------------------------------------------------------------- files

class SimRaw(io.FileIO):
    """A FileIO whose operations are decided by the kernel."""

    def __init__(self, file, mode, closefd, opener, path):
        self._simpath = None
        if isinstance(file, int):
            super().__init__(file, mode, closefd)
        else:
            if opener is not None:      # the opener uses os.open, which asks the kernel
                super().__init__(file, mode, closefd, opener)
                path = SIM.fds.get(self.fileno())
            else:
                r = SIM.request('open', path, mode=mode, existed=_real['lexists'](path))
                super().__init__(file, mode, closefd)
                SIM.fds[self.fileno()] = path
                self._simpath = path
                SIM.done(r)
        self._simpath = path

    def write(self, b):
        if SIM is None or self._simpath is None:
            return super().write(b)
        data = bytes(b)
        if not data:
            return super().write(b)
        r = SIM.request('write', self._simpath, data=data, pos=self._pos())
        if r and r[0] in ('short', 'killpart'):
            n = super().write(data[:r[1]])
            if r[0] == 'killpart':
                os._exit(137)
            return n
        if r and r[0] == 'errpart':
            super().write(data[:r[1]])
            raise OSError(r[2], os.strerror(r[2]), self._simpath)
        n = super().write(b)
        SIM.done(r)
        return n

    def _pos(self):
        if 'a' in self.mode:
            return _real['fstat'](self.fileno()).st_size
        try:
            return self.tell()
        except OSError:
            return 0

    def _rd(self, n):
        r = SIM.request('read', self._simpath, n=n)
        if r and r[0] == 'short':
            return (max(1, min(n, r[1])) if n > 0 else n), None
        return n, r

    def readinto(self, buf):
        if SIM is None or self._simpath is None:
            return super().readinto(buf)
        n, r = self._rd(len(buf))
        data = super().read(n)
        SIM.done(r)
        buf[:len(data)] = data
        return len(data)

    def read(self, size=-1):
        if SIM is None or self._simpath is None:
            return super().read(size)
        if size is None or size < 0:
            return self.readall()
        n, r = self._rd(size)
        data = super().read(n)
        SIM.done(r)
        return data

    def readall(self):
        # as io.FileIO.readall(): reads until the end of the file
        if SIM is None or self._simpath is None:
            return super().readall()
        chunks = []
        while True:
            n, r = self._rd(65536)
            data = super().read(n)
            SIM.done(r)
            if not data:
                return b''.join(chunks)
            chunks.append(data)

    def truncate(self, size=None):
        if SIM is None or self._simpath is None:
            return super().truncate(size)
        n = self.tell() if size is None else size
        r = SIM.request('truncate', self._simpath, size=n)
        x = super().truncate(size)
        SIM.done(r)
        return x

    def close(self):
        if self.closed or SIM is None or self._simpath is None:
            return super().close()
        try:
            fd = self.fileno()
        except (OSError, ValueError):
            return super().close()
        writable = self.writable()
        try:
            r = SIM.request('close', self._simpath, w=writable)
        except BaseException:
            SIM.fds.pop(fd, None)
            super().close()
            raise
        SIM.fds.pop(fd, None)
        super().close()
        SIM.done(r)

    def __del__(self):
        # a file abandoned by an exception is closed by the garbage collector:
        # no further fault decisions there
        if not self.closed:
            try:
                io.FileIO.close(self)
            except Exception:
                pass


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    if SIM is None:
        return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        path = SIM.fds.get(file)
    else:
        path = SIM.inside(file)
    if path is None:
        if isinstance(mode, str) and set(mode) & set('wax+') and not isinstance(file, int) \
                and str(file) != os.devnull:
            SIM.escaped.append(str(file))
            raise EscapedWrite(errno.EACCES, 'write outside of the scratch directory', str(file))
        return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(mode, str):
        raise TypeError("open() argument 'mode' must be str")
    modes = set(mode)
    if modes - set('axrwb+tU') or len(mode) > len(modes):
        raise ValueError("invalid mode: %r" % mode)
    text, binary = 't' in modes or 'b' not in modes, 'b' in modes
    if 't' in modes and binary:
        raise ValueError("can't have text and binary mode at once")
    creating, reading, writing, appending = ('x' in modes), ('r' in modes), ('w' in modes), ('a' in modes)
    if creating + reading + writing + appending != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    updating = '+' in modes
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
    rawmode = (creating and 'x' or '') + (reading and 'r' or '') + (writing and 'w' or '') \
        + (appending and 'a' or '') + (updating and '+' or '')
    raw = SimRaw(file, rawmode, closefd, opener, path)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        line_buffering = buffering == 1 and not binary
        size = 8192 if buffering in (-1, 1) else buffering
        if updating:
            buf = io.BufferedRandom(raw, size)
        elif reading:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        if encoding is None or encoding == 'locale':
            encoding = SIM.encoding
        t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
        t.mode = mode
        return t
    except BaseException:
        io.FileIO.close(raw)
        raise


# ------------------------------------------------------------------ os calls

def random_order(x, seed):
    for i in range(len(x) - 1, 0, -1):
        seed = (seed * 6364136223846793005 + 1442695040888963407) & ((1 << 64) - 1)
        j = (seed >> 33) % (i + 1)
        x[i], x[j] = x[j], x[i]


class Entries:
    """what os.scandir() returns, in the order of the simulated file system"""

    def __init__(self, it):
        with it:
            self.entries = sorted(it, key=lambda e: e.name)
        random_order(self.entries, SIM.listseed)

    def __iter__(self):
        return self

    def __next__(self):
        if not self.entries:
            raise StopIteration
        return self.entries.pop(0)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.entries = []

    close = __exit__


def _wrap_path(name, kind, mutates=False, dirfd_ok=True):
    real = getattr(os, name)
    _real[name] = real

    def f(path='.', *a, **k):
        if SIM is None:
            return real(path, *a, **k)
        p = SIM.fds.get(path) if isinstance(path, int) else SIM.inside(path)
        if p is None or k.get('dir_fd') is not None:
            if mutates and not isinstance(path, int) and k.get('dir_fd') is None:
                SIM.escaped.append('%s %s' % (name, path))
                raise EscapedWrite(errno.EACCES, name + ' outside of the scratch directory', str(path))
            return real(path, *a, **k)
        r = SIM.request(kind, p, **({'size': a[0]} if name == 'truncate' and a else {}))
        x = real(path, *a, **k)
        if name == 'listdir':       # the order is the file system's business
            x.sort()
            random_order(x, SIM.listseed)
        elif name == 'scandir':
            x = Entries(x)
        SIM.done(r)
        return x
    f.__name__ = name
    f.__wrapped__ = real
    setattr(os, name, f)
    for s in (os.supports_fd, os.supports_dir_fd, os.supports_follow_symlinks, os.supports_effective_ids):
        if real in s:
            s.add(f)


def _wrap_two(name, kind):
    real = getattr(os, name)
    _real[name] = real

    def f(src, dst, *a, **k):
        if SIM is None:
            return real(src, dst, *a, **k)
        d = SIM.inside(dst)
        s = SIM.inside(src)
        if d is None or (s is None and name != 'symlink'):
            SIM.escaped.append('%s %s %s' % (name, src, dst))
            raise EscapedWrite(errno.EACCES, name + ' outside of the scratch directory', str(dst))
        r = SIM.request(kind, d, src=s if name != 'symlink' else os.fspath(src))
        x = real(src, dst, *a, **k)
        SIM.done(r)
        return x
    f.__name__ = name
    f.__wrapped__ = real
    setattr(os, name, f)
    for s in (os.supports_dir_fd, os.supports_follow_symlinks):
        if real in s:
            s.add(f)


def _wrap_fd(name, kind):
    if not hasattr(os, name):
        return
    real = getattr(os, name)
    _real[name] = real

    def f(fd, *a, **k):
        if SIM is None:
            return real(fd, *a, **k)
        if hasattr(fd, 'fileno'):
            fd = fd.fileno()
        p = SIM.fds.get(fd)
        if p is None:
            return real(fd, *a, **k)
        if kind == 'write':
            data = bytes(a[0])
            if name == 'pwrite':
                pos = a[1]
            else:
                try:
                    pos = os.lseek(fd, 0, os.SEEK_CUR)
                except OSError:
                    pos = 0
            r = SIM.request('write', p, data=data, pos=pos)
            if r and r[0] in ('short', 'killpart'):
                n = real(fd, data[:r[1]], *a[1:])
                if r[0] == 'killpart':
                    os._exit(137)
                return n
            if r and r[0] == 'errpart':
                real(fd, data[:r[1]], *a[1:])
                raise OSError(r[2], os.strerror(r[2]), p)
        elif kind == 'read':
            r = SIM.request('read', p, n=a[0])
            if r and r[0] == 'short':
                return real(fd, max(1, min(a[0], r[1])), *a[1:])
        elif kind == 'close':
            try:
                r = SIM.request('close', p, w=True)
            finally:
                SIM.fds.pop(fd, None)
                real(fd)
            SIM.done(r)
            return None
        elif kind == 'truncate':
            r = SIM.request('truncate', p, size=a[0])
        else:
            r = SIM.request(kind, p)
            if kind == 'fsync':     # durability is modelled by the kernel
                SIM.done(r)
                return None
        x = real(fd, *a, **k)
        SIM.done(r)
        return x
    f.__name__ = name
    f.__wrapped__ = real
    setattr(os, name, f)


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    real = _real['os_open']
    if SIM is None or dir_fd is not None:
        return real(path, flags, mode, dir_fd=dir_fd)
    p = SIM.inside(path)
    wr = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    if p is None:
        if wr and str(path) != os.devnull:
            SIM.escaped.append('open %s' % path)
            raise EscapedWrite(errno.EACCES, 'write outside of the scratch directory', str(path))
        return real(path, flags, mode)
    m = 'r'
    if flags & os.O_TRUNC:
        m = 'w'
    elif flags & os.O_EXCL and flags & os.O_CREAT:
        m = 'x'
    elif flags & os.O_CREAT or flags & os.O_APPEND:
        m = 'a'
    elif flags & (os.O_WRONLY | os.O_RDWR):
        m = 'r+'
    r = SIM.request('open', p, mode=m, existed=_real['lexists'](p))
    fd = real(path, flags, mode)
    SIM.fds[fd] = p
    SIM.done(r)
    return fd


def _copy_fd(name):
    """sendfile / copy_file_range: done as a read and a write"""
    if not hasattr(os, name):
        return
    real = getattr(os, name)
    _real[name] = real

    def f(a, b, *args, **k):
        if SIM is None:
            return real(a, b, *args, **k)
        out = a if name == 'sendfile' else b
        if SIM.fds.get(out) or SIM.fds.get(b if name == 'sendfile' else a):
            raise OSError(errno.ENOTSOCK if name == 'sendfile' else errno.EXDEV, 'not supported here')
        return real(a, b, *args, **k)
    setattr(os, name, f)


# --------------------------------------------------------------------- clock

class _Clock:
    @staticmethod
    def time():
        return SIM.tick() if SIM is not None else _real['time']()

    @staticmethod
    def time_ns():
        return int(SIM.tick() * 1e9) if SIM is not None else _real['time_ns']()

    @staticmethod
    def monotonic():
        return SIM.tick() if SIM is not None else _real['monotonic']()

    @staticmethod
    def perf_counter():
        return SIM.tick() if SIM is not None else _real['perf_counter']()

    @staticmethod
    def sleep(s):
        if SIM is not None:
            SIM.now += max(0, s)
            SIM.channel().request(('sleep', '', {'s': s}))
        else:
            _real['sleep'](s)

    @staticmethod
    def localtime(secs=None):
        return _real['localtime'](SIM.tick() if secs is None and SIM is not None else secs)

    @staticmethod
    def gmtime(secs=None):
        return _real['gmtime'](SIM.tick() if secs is None and SIM is not None else secs)


    @staticmethod
    def monotonic_ns():
        return int(SIM.tick() * 1e9) if SIM is not None else _real['monotonic_ns']()

    @staticmethod
    def perf_counter_ns():
        return int(SIM.tick() * 1e9) if SIM is not None else _real['perf_counter_ns']()

    @staticmethod
    def process_time():
        return SIM.tick() if SIM is not None else _real['process_time']()

    @staticmethod
    def thread_time():
        return SIM.tick() if SIM is not None else _real['thread_time']()

    @staticmethod
    def clock_gettime(clk):
        return SIM.tick() if SIM is not None else _real['clock_gettime'](clk)

    @staticmethod
    def strftime(fmt, t=None):
        if t is None and SIM is not None:
            t = _real['localtime'](SIM.tick())
        return _real['strftime'](fmt) if t is None else _real['strftime'](fmt, t)

    @staticmethod
    def ctime(secs=None):
        return _real['ctime'](SIM.tick() if secs is None and SIM is not None else secs)

    @staticmethod
    def asctime(t=None):
        if t is None and SIM is not None:
            t = _real['localtime'](SIM.tick())
        return _real['asctime']() if t is None else _real['asctime'](t)


def _install_clock():
    import datetime
    for n in [n for n in vars(_Clock) if not n.startswith('_')]:
        _real[n] = getattr(_time, n)
        setattr(_time, n, getattr(_Clock, n))
    real_dt = datetime.datetime
    real_date = datetime.date
    _real['datetime'] = real_dt

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real_dt)

        def __subclasscheck__(cls, c):
            return issubclass(c, real_dt) if isinstance(c, type) else False

    class SimDateTime(real_dt, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            if SIM is None:
                return real_dt.now(tz)
            t = SIM.tick()
            if tz is None:
                return real_dt.fromtimestamp(t, datetime.timezone.utc).replace(tzinfo=None) \
                    + datetime.timedelta(hours=SIM.tzshift)
            return real_dt.fromtimestamp(t, tz)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def utcnow(cls):
            if SIM is None:
                return real_dt.utcnow()
            return real_dt.fromtimestamp(SIM.tick(), datetime.timezone.utc).replace(tzinfo=None)
    SimDateTime.__name__ = SimDateTime.__qualname__ = 'datetime'
    SimDateTime.__module__ = 'datetime'

    class MetaD(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real_date)

    class SimDate(real_date, metaclass=MetaD):
        @classmethod
        def today(cls):
            return real_date.today() if SIM is None else SimDateTime.now().date()
    SimDate.__name__ = SimDate.__qualname__ = 'date'
    SimDate.__module__ = 'datetime'
    datetime.datetime = SimDateTime
    datetime.date = SimDate


# --------------------------------------------------------------------- locks
# Locks created by the code under test.  Outside of a simulated thread schedule
# they behave like ordinary locks; inside, a blocked acquire hands control back
# to the scheduler instead of blocking the thread (SCHED is set by threads.py
# and by the disk kernel for threads inside simulated processes).

SCHED = None


class SimLock:
    reentrant = False

    def __init__(self):
        self._l = _thread.allocate_lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        if self._l.acquire(False):
            self._owner, self._count = me, 1
            return True
        if not blocking:
            return False
        s = SCHED
        if s is None or not s.mine():
            ok = self._l.acquire(True, timeout)
            if ok:
                self._owner, self._count = me, 1
            return ok
        limit = 200 if timeout is not None and timeout >= 0 else None
        n = 0
        while not self._l.acquire(False):
            n += 1
            if limit and n > limit:
                return False
            s.block(self)
        self._owner, self._count = me, 1
        return True

    def release(self):
        if self.reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError('cannot release un-acquired lock')
            self._count -= 1
            if self._count:
                return
        self._owner = None
        self._l.release()

    acquire_lock, release_lock = acquire, release

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _thread.allocate_lock()
        self._owner, self._count = None, 0

    # used by threading.Condition
    def _release_save(self):
        state = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._l.release()
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count, self._owner = state

    def _is_owned(self):
        return self._l.locked() and (self._owner == _thread.get_ident() or not self.reentrant)


class SimRLock(SimLock):
    reentrant = True

    def acquire(self, blocking=True, timeout=-1):
        return SimLock.acquire(self, blocking, timeout)

    __enter__ = acquire


def _flock(fd, op):
    import fcntl
    real = _real['flock']
    if SIM is None:
        return real(fd, op)
    if op & fcntl.LOCK_NB or op & fcntl.LOCK_UN:
        return real(fd, op)
    while True:
        try:
            return real(fd, op | fcntl.LOCK_NB)
        except OSError as e:
            if e.errno not in (errno.EAGAIN, errno.EACCES):
                raise
        SIM.request('blocked', 'flock')


def _lockf(fd, cmd, *a):
    import fcntl
    real = _real['lockf']
    if SIM is None or cmd & fcntl.LOCK_NB or cmd & fcntl.LOCK_UN:
        return real(fd, cmd, *a)
    while True:
        try:
            return real(fd, cmd | fcntl.LOCK_NB, *a)
        except OSError as e:
            if e.errno not in (errno.EAGAIN, errno.EACCES):
                raise
        SIM.request('blocked', 'lockf')


class DiskSched:
    """lets threads of a simulated process block through the kernel"""

    def mine(self):
        return SIM is not None

    def block(self, lock):
        SIM.request('blocked', 'lock')


# ------------------------------------------------------------------- install

_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import builtins
    import _io
    _real['open'] = io.open
    _real['os_open'] = os.open
    _real['getcwd'] = os.getcwd
    _real['fstat'] = os.fstat
    _real['lstat_'] = os.lstat
    lstat = os.lstat

    def lexists(p):
        try:
            lstat(p)
        except OSError:
            return False
        return True
    _real['lexists'] = lexists
    builtins.open = io.open = _io.open = sim_open
    os.open = _os_open
    for n in ('stat', 'lstat', 'access', 'readlink'):
        _wrap_path(n, 'stat')
    for n in ('listdir', 'scandir'):
        _wrap_path(n, 'list')
    for n, k in (('unlink', 'unlink'), ('remove', 'unlink'), ('mkdir', 'mkdir'), ('rmdir', 'rmdir'),
                 ('utime', 'attr'), ('chmod', 'attr'), ('chown', 'attr'), ('truncate', 'truncate'),
                 ('mkfifo', 'mkfifo')):
        _wrap_path(n, k, mutates=True)
    for n in ('rename', 'replace'):
        _wrap_two(n, 'rename')
    _wrap_two('link', 'link')
    _wrap_two('symlink', 'symlink')
    for n, k in (('fsync', 'fsync'), ('fdatasync', 'fsync'), ('write', 'write'), ('pwrite', 'write'),
                 ('read', 'read'), ('pread', 'read'), ('close', 'close'), ('ftruncate', 'truncate')):
        _wrap_fd(n, k)
    _copy_fd('sendfile')
    _copy_fd('copy_file_range')
    _real['getpid'] = os.getpid
    os.getpid = lambda: SIM.pid if SIM is not None else _real['getpid']()
    _real['urandom'] = os.urandom
    os.urandom = lambda n: SIM.random_bytes(n) if SIM is not None else _real['urandom'](n)
    _real['Lock'], _real['RLock'] = threading.Lock, threading.RLock
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._RLock = SimRLock
    threading._allocate_lock = SimLock
    _install_clock()
    import fcntl
    _real['flock'], _real['lockf'] = fcntl.flock, fcntl.lockf
    fcntl.flock, fcntl.lockf = _flock, _lockf
    import random
    random._urandom = os.urandom
    import uuid

    def uuid4():
        return uuid.UUID(bytes=os.urandom(16), version=4)

    def uuid1(node=None, clock_seq=None):
        return uuid.UUID(bytes=os.urandom(16), version=1)
    uuid.uuid4, uuid.uuid1 = uuid4, uuid1


def activate(sim):
    global SIM, SCHED
    SIM = sim
    SCHED = DiskSched()
    import random
    random.seed(int.from_bytes(sim.random_bytes(8), 'little'))
    try:
        import tempfile
        tempfile._name_sequence = None
        tempfile.tempdir = None
    except Exception:
        pass


def deactivate():
    global SIM, SCHED
    SIM = None
    SCHED = None
