"""Simulated file system: real files of a scratch directory behind faulty
system calls (short reads and writes, disk full, I/O errors at any byte and at
close, failing opens, other processes creating or replacing files)."""
import builtins
import bz2
import errno
import io
import os
import shutil
import sys
import tempfile

from . import core

_real_open = io.open
_REAL = {n: getattr(os, n) for n in ('replace', 'rename', 'link', 'fsync',
                                     'unlink', 'remove', 'open', 'close', 'read',
                                     'write')}


class SimFileIO(io.FileIO):

    def __init__(self, fs, file, mode, closefd=True, opener=None):
        self._fs = fs
        super().__init__(file, mode, closefd, opener)
        fs.fds.add(self.fileno())

    # reads
    def readinto(self, b):
        n = self._fs.limit_read(len(b))
        r = super().readinto(memoryview(b)[:n])
        self._fs.nread += r or 0
        return r

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        b = bytearray(size)
        n = self.readinto(b)
        return None if n is None else bytes(b[:n])

    def readall(self):
        out = bytearray()
        while True:
            c = self.read(8192)
            if not c:
                return bytes(out)
            out += c

    # writes
    def write(self, b):
        mv = memoryview(b).cast('B')
        n = self._fs.limit_write(len(mv))
        r = super().write(mv[:n])
        self._fs.nwritten += r
        return r

    def close(self):
        if self.closed:
            return
        writable = False
        try:
            writable = self.writable()
        except ValueError:
            pass
        fs = self._fs
        fs.fds.discard(self.fileno())
        super().close()
        s = core.active()
        if s is not None and s is fs.sim and writable and fs.close_fail:
            fs.close_fail = False
            fs.fault('close-error')
            raise OSError(errno.EIO, os.strerror(errno.EIO))


class SimFS:

    def __init__(self, sim):
        self.sim = sim
        self.root = os.path.realpath(
            tempfile.mkdtemp(prefix='dst-fs-', dir=tempfile.gettempdir()))
        self.read_fail_at = None
        self.write_fail_at = None
        self.write_errno = errno.ENOSPC
        self.short_reads = False
        self.short_writes = False
        self.short_max = 64
        self.close_fail = False
        self.open_fail = {}  # open count -> errno
        self.pre_open = None  # called before the n-th open
        self.nread = 0
        self.nwritten = 0
        self.nopen = 0
        self.fired = []
        self.fds = set()  # descriptors of files of this file system

    def limit_read(self, n):
        """How many of n bytes the system call reads (or it fails)."""
        self.sim.yield_('fs.read')
        if self.read_fail_at is not None and self.nread >= self.read_fail_at:
            self.fault('read-error')
            raise OSError(errno.EIO, os.strerror(errno.EIO))
        if self.read_fail_at is not None:
            n = min(n, max(1, self.read_fail_at - self.nread))
        if self.short_reads and n > 1:
            m = 1 + self.sim.ch.draw('fs.short', min(n, self.short_max))
            if m < n:
                self.fault('short-read')
                n = m
        return n

    def limit_write(self, n):
        """How many of n bytes the system call writes (or it fails)."""
        self.sim.yield_('fs.write')
        if n == 0:
            return n
        if self.write_fail_at is not None:
            room = self.write_fail_at - self.nwritten
            if room <= 0:
                self.fault('disk-full' if self.write_errno == errno.ENOSPC else
                           'write-error')
                raise OSError(self.write_errno, os.strerror(self.write_errno))
            n = min(n, room)
        if self.short_writes and n > 1:
            m = 1 + self.sim.ch.draw('fs.short', min(n, self.short_max))
            if m < n:
                self.fault('short-write')
                n = m
        return n

    def fault(self, name):
        self.fired.append(name)
        self.sim.count('fault:' + name)

    def path(self, *p):
        return os.path.join(self.root, *p)

    def owns(self, file):
        if isinstance(file, int):
            return file in self.fds
        try:
            p = os.path.abspath(os.fsdecode(os.fspath(file)))
        except TypeError:
            return False
        return p == self.root or p.startswith(self.root + os.sep)

    def before_open(self, file, mode):
        self.sim.yield_('fs.open')
        self.nopen += 1
        if self.pre_open is not None:
            self.pre_open(self, os.fspath(file), mode)
        if self.nopen in self.open_fail:
            e = self.open_fail[self.nopen]
            self.fault('open-error')
            raise OSError(e, os.strerror(e), os.fspath(file))

    def open(self, file, mode, buffering, encoding, errors, newline, closefd,
             opener):
        if not isinstance(file, int) and opener is None:
            self.before_open(file, mode)
        binary = 'b' in mode
        rmode = mode.replace('b', '').replace('t', '').replace('U', '')
        if binary and 't' in mode:
            raise ValueError("can't have text and binary mode at once")
        if binary and (encoding or errors or newline):
            raise ValueError('binary mode does not take text arguments')
        if buffering == 0 and not binary:
            raise ValueError("can't have unbuffered text I/O")
        raw = SimFileIO(self, file, rmode, closefd, opener)
        if buffering == 0:
            return raw
        if '+' in rmode:
            buf = io.BufferedRandom(raw)
        elif rmode[0] == 'r':
            buf = io.BufferedReader(raw)
        else:
            buf = io.BufferedWriter(raw)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)
        t.mode = mode
        return t

    def cleanup(self):
        shutil.rmtree(self.root, ignore_errors=True)

    # helpers for oracles (no faults)
    def put(self, path, data):
        with _real_open(path, 'wb') as f:
            f.write(data)

    def get(self, path):
        try:
            with _real_open(path, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    s = core.active()
    fs = getattr(s, 'fs', None)
    if fs is not None and fs.owns(file):
        return fs.open(file, mode, buffering, encoding, errors, newline,
                       closefd, opener)
    return _real_open(file, mode, buffering, encoding, errors, newline,
                      closefd, opener)


def _wrap(name):
    real = _REAL[name]

    def f(*a, **k):
        s = core.active()
        fs = getattr(s, 'fs', None)
        if fs is not None and a and fs.owns(a[-1] if name != 'fsync' else 0):
            s.yield_('fs.' + name)
            if fs.pre_open is not None and name in ('replace', 'rename',
                                                    'link'):
                fs.nopen += 1
                fs.pre_open(fs, os.fspath(a[-1]), name)
        return real(*a, **k)

    f.__name__ = name
    return f


def _fs_of(file):
    fs = getattr(core.active(), 'fs', None)
    return fs if fs is not None and fs.owns(file) else None


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    fs = _fs_of(path)
    if fs is None:
        return _REAL['open'](path, flags, mode, dir_fd=dir_fd)
    fs.before_open(path, flags)
    fd = _REAL['open'](path, flags, mode, dir_fd=dir_fd)
    fs.fds.add(fd)
    return fd


def _os_close(fd):
    fs = _fs_of(fd)
    if fs is not None:
        fs.fds.discard(fd)
    _REAL['close'](fd)
    if fs is not None and fs.close_fail:
        fs.close_fail = False
        fs.fault('close-error')
        raise OSError(errno.EIO, os.strerror(errno.EIO))


def _os_read(fd, n):
    fs = _fs_of(fd)
    if fs is None:
        return _REAL['read'](fd, n)
    out = _REAL['read'](fd, fs.limit_read(n))
    fs.nread += len(out)
    return out


def _os_write(fd, data):
    fs = _fs_of(fd)
    if fs is None:
        return _REAL['write'](fd, data)
    mv = memoryview(data).cast('B')
    r = _REAL['write'](fd, mv[:fs.limit_write(len(mv))])
    fs.nwritten += r
    return r


class FaultyStdin(io.RawIOBase):
    """Standard input delivering its data in arbitrary pieces."""

    def __init__(self, fs, data):
        self._fs, self._data, self._pos = fs, data, 0

    def readable(self):
        return True

    def readinto(self, b):
        fs = self._fs
        fs.sim.yield_('stdin.read')
        if fs.read_fail_at is not None and self._pos >= fs.read_fail_at:
            fs.fault('read-error')
            raise OSError(errno.EIO, os.strerror(errno.EIO))
        n = min(len(b), len(self._data) - self._pos)
        if fs.read_fail_at is not None:
            n = min(n, max(1, fs.read_fail_at - self._pos)) if n else 0
        if fs.short_reads and n > 1:
            m = 1 + fs.sim.ch.draw('fs.short', min(n, fs.short_max))
            if m < n:
                fs.fault('short-read')
                n = m
        b[:n] = self._data[self._pos:self._pos + n]
        self._pos += n
        return n


def stdin(fs, data):
    return io.TextIOWrapper(io.BufferedReader(FaultyStdin(fs, data)),
                            encoding='utf-8')


def install():
    builtins.open = sim_open
    io.open = sim_open
    bz2._builtin_open = sim_open
    for n in ('replace', 'rename', 'link'):
        setattr(os, n, _wrap(n))
    for n in ('open', 'close', 'read', 'write'):
        setattr(os, n, globals()['_os_' + n])
