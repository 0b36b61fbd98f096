"""Simulated disk: every system call that changes the scratch directory is a fault point.

The bytes really land in a scratch directory; the simulator decides, call by
call, whether a call succeeds, writes only a part, fails with an error, or is
the last thing the process ever does."""
import builtins
import contextlib
import errno
import io
import os

from sim.core import SimCrash

_open, _io_open = builtins.open, io.open
_os = {n: getattr(os, n) for n in ('open', 'write', 'close', 'fsync', 'fdatasync', 'replace', 'rename', 'unlink', 'remove',
                                   'truncate', 'ftruncate', 'link', 'symlink', 'chmod', 'mkdir', 'rmdir', 'sendfile',
                                   'copy_file_range', 'writev', 'pwrite', 'fchmod', 'utime', 'dup')}

ERRNO = {'nospace': errno.ENOSPC, 'io': errno.EIO, 'quota': errno.EDQUOT, 'perm': errno.EACCES, 'readonly': errno.EROFS,
         'files': errno.EMFILE}
# what each call may fail with
CAN = {'open': ['perm', 'nospace', 'readonly', 'files', 'io', 'quota'], 'write': ['nospace', 'io', 'quota', 'nospace'],
       'close': ['io', 'quota'], 'sync': ['io', 'nospace'], 'rename': ['perm', 'io', 'nospace', 'readonly'],
       'unlink': ['perm', 'io', 'readonly'], 'other': ['perm', 'io']}


class SimRaw(io.RawIOBase):
    def __init__(self, disk, fd, path, readable, closefd=True):
        self.disk, self.fd, self.path, self.r, self.closefd = disk, fd, path, readable, closefd
        self.epoch = disk.epoch
        self.name = path
        self.mode = 'wb'

    def _stale(self):
        # buffers of an earlier attempt, flushed by the garbage collector
        return self.epoch != self.disk.epoch or not self.disk.on

    def writable(self):
        return True

    def readable(self):
        return self.r

    def seekable(self):
        return True

    def seek(self, *a):
        return os.lseek(self.fd, *(a if len(a) > 1 else (a[0], 0)))

    def tell(self):
        return os.lseek(self.fd, 0, os.SEEK_CUR)

    def fileno(self):
        return self.fd

    def readinto(self, b):
        d = os.read(self.fd, len(b))
        b[:len(d)] = d
        return len(d)

    def truncate(self, size=None):
        if self._stale():
            return 0
        size = self.tell() if size is None else size
        self.disk.step('other', self.path)
        _os['ftruncate'](self.fd, size)
        return size

    def write(self, b):
        b = bytes(b)
        if self._stale():
            return len(b)
        return self.disk.write(self.fd, self.path, b)

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            self.disk.fds.pop(self.fd, None)
            if self.closefd:
                try:
                    if not self._stale():
                        self.disk.step('close', self.path)
                finally:
                    _os['close'](self.fd)


class SimDisk:
    def __init__(self, ctx, root, encoding=None):
        self.ctx = ctx
        self.root = os.path.realpath(root)
        self.encoding = encoding         # default text encoding of the simulated locale
        self.fds = {}
        self.epoch = 0
        self.on = False
        self.ops = []
        self.fault = None
        self.fired = None
        self.full = False
        self.hook = None

    # -- decisions -----------------------------------------------------------
    def inside(self, path):
        try:
            p = os.fsdecode(os.fspath(path))
        except TypeError:
            return False
        p = os.path.abspath(p)
        p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        return p == self.root or p.startswith(self.root + os.sep)

    def step(self, kind, path, n=0):
        """One call; returns the number of bytes allowed for a write."""
        if self.ctx.dead:
            raise SimCrash('dead')
        k = len(self.ops)
        self.ops.append((kind, n))
        self.ctx.log('disk', k, kind, n)
        f = self.fault
        if self.full and kind in ('write', 'open') and f:
            if kind == 'write':
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
        if not f or f['op'] != k:
            return n
        self.fired = f
        self.ctx.count('fault.disk_' + f['kind'])
        self.ctx.sched_log('disk fault', k, kind, f['kind'], f.get('bytes'))
        if f['kind'] == 'other_process':
            self.fault = None
            self.hook()
            return n
        if f['kind'] in ('crash', 'short', 'full') and kind == 'write':
            return min(n, f['bytes'])
        if f['kind'] == 'crash':
            if f.get('after'):
                return -1
            self.ctx.dead = True
            raise SimCrash('disk')
        if f['kind'] in ('short', 'full'):
            return n
        if kind == 'write' and f['bytes']:
            return min(n, f['bytes'])
        e = ERRNO[f['kind']]
        raise OSError(e, os.strerror(e), path)

    def write(self, fd, path, b):
        k = len(self.ops)
        m = self.step('write', path, len(b))
        f = self.fired if self.fired and self.fired['op'] == k else None
        n = m
        done = 0
        while done < n:
            done += _os['write'](fd, b[done:n])
        if f is None or f['kind'] == 'other_process':
            return n
        if f['kind'] == 'crash':
            self.ctx.dead = True
            raise SimCrash('disk')
        if f['kind'] == 'full':
            self.full = True
            if n == 0:
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), path)
            return n
        if f['kind'] == 'short':
            return max(n, 0) or self._rest(fd, b)
        e = ERRNO[f['kind']]
        raise OSError(e, os.strerror(e), path)

    def _rest(self, fd, b):
        _os['write'](fd, b[:1])
        return 1

    def simple(self, kind, name, paths):
        real = _os[name]

        def call(*a, **k):
            if not self.on or not any(self.inside(a[i]) for i in paths if i < len(a)):
                return real(*a, **k)
            if self.step(kind, a[0]) == -1:
                real(*a, **k)
                self.ctx.dead = True
                raise SimCrash('disk')
            return real(*a, **k)
        return call

    def on_fd(self, kind, name):
        real = _os[name]

        def call(fd, *a, **k):
            n = fd if isinstance(fd, int) else getattr(fd, 'fileno', lambda: fd)()
            if not self.on or n not in self.fds:
                return real(fd, *a, **k)
            if self.step(kind, self.fds[n]) == -1:
                real(fd, *a, **k)
                self.ctx.dead = True
                raise SimCrash('disk')
            if name == 'close':
                self.fds.pop(n, None)
            return real(fd, *a, **k)
        return call

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
        if not self.on or not w or dir_fd is not None or not self.inside(path):
            return _os['open'](path, flags, mode, dir_fd=dir_fd)
        after = self.step('open', path) == -1
        fd = _os['open'](path, flags, mode)
        if after:
            _os['close'](fd)
            self.ctx.dead = True
            raise SimCrash('disk')
        self.fds[fd] = os.fsdecode(os.fspath(path))
        return fd

    def os_write(self, fd, b):
        if not self.on or fd not in self.fds:
            return _os['write'](fd, b)
        return self.write(fd, self.fds[fd], bytes(b))

    def refuse(self, name):
        real = _os[name]

        def call(out, src, *a, **k):
            if self.on and (out in self.fds or src in self.fds):
                raise OSError(errno.ENOTSOCK, os.strerror(errno.ENOTSOCK))
            return real(out, src, *a, **k)
        return call

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        writing = any(c in mode for c in 'wax+')
        tracked = isinstance(file, int) and file in self.fds
        if not self.on or not writing or not (tracked or (not isinstance(file, int) and self.inside(file))):
            return _io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if tracked:
            fd = file
        else:
            flags = os.O_CLOEXEC | (os.O_RDWR if '+' in mode else os.O_WRONLY)
            if 'w' in mode:
                flags |= os.O_CREAT | os.O_TRUNC
            elif 'a' in mode:
                flags |= os.O_CREAT | os.O_APPEND
            elif 'x' in mode:
                flags |= os.O_CREAT | os.O_EXCL
            fd = opener(file, flags) if opener else self.os_open(file, flags, 0o666)
        raw = SimRaw(self, fd, self.fds.get(fd, str(file)), '+' in mode or 'r' in mode, closefd)
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else 8192
        buf = io.BufferedRandom(raw, size) if '+' in mode else io.BufferedWriter(raw, size)
        if 'b' in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding or self.encoding, errors, newline, line_buffering=buffering == 1)
        text.mode = mode
        return text

    # -- activation ------------------------------------------------------------
    @contextlib.contextmanager
    def active(self, fault=None, hook=None):
        self.epoch += 1
        self.ops, self.fault, self.fired, self.full, self.hook = [], fault, None, False, hook
        self.fds = {}
        saved = {}
        new = {'open': self.os_open, 'write': self.os_write, 'close': self.on_fd('close', 'close'),
               'fsync': self.on_fd('sync', 'fsync'), 'fdatasync': self.on_fd('sync', 'fdatasync'),
               'replace': self.simple('rename', 'replace', (0, 1)), 'rename': self.simple('rename', 'rename', (0, 1)),
               'unlink': self.simple('unlink', 'unlink', (0,)), 'remove': self.simple('unlink', 'remove', (0,)),
               'truncate': self.simple('other', 'truncate', (0,)), 'ftruncate': self.on_fd('other', 'ftruncate'),
               'link': self.simple('rename', 'link', (0, 1)), 'symlink': self.simple('rename', 'symlink', (1,)),
               'chmod': self.simple('other', 'chmod', (0,)), 'fchmod': self.on_fd('other', 'fchmod'),
               'mkdir': self.simple('other', 'mkdir', (0,)), 'rmdir': self.simple('unlink', 'rmdir', (0,)),
               'sendfile': self.refuse('sendfile'), 'copy_file_range': self.refuse('copy_file_range')}
        for n, f in new.items():
            saved[n] = getattr(os, n)
            setattr(os, n, f)
        keep = builtins.open, io.open
        builtins.open = io.open = self.open
        was, self.on = self.on, True
        try:
            yield self
        finally:
            self.on = was
            for n, f in saved.items():
                setattr(os, n, f)
            builtins.open, io.open = keep


def resolve(ops, spec):
    """Turn fractions into a call number, a kind of fault possible there, and a byte count."""
    if 'op' in spec or not ops:
        return spec if 'op' in spec else None
    k = int(spec['f'] * len(ops)) % len(ops)
    # the calls that make the file what it is are few: look at each kind evenly
    kinds = sorted({o[0] for o in ops})
    kind = kinds[int(spec['g'] * len(kinds)) % len(kinds)]
    ks = [i for i, o in enumerate(ops) if o[0] == kind]
    k = ks[int(spec['f'] * len(ks)) % len(ks)]
    n = ops[k][1]
    what = spec['what']
    if what == 'error':
        what = CAN[kind][int(spec['e'] * len(CAN[kind])) % len(CAN[kind])]
    if what in ('short', 'full') and kind != 'write':
        w = [i for i, o in enumerate(ops) if o[0] == 'write']
        if not w:
            what = 'crash'
        else:
            k = w[int(spec['f'] * len(w)) % len(w)]
            n = ops[k][1]
    return {'op': k, 'kind': what, 'bytes': int(spec['b'] * (n + 1)) if n else 0, 'after': spec['after'] and kind != 'write'}
