"""The simulated process environment: files, standard streams, default text
encoding, disk faults, crashes and power loss.

Everything happens in a scratch directory.  The functions through which Python
code reaches files (builtins.open, io.open, the os module) are replaced for the
duration of a session.  Calls on paths inside the scratch directory are
simulated: each one is numbered, may be delivered in short pieces, may fail, or
may be the last thing the process does.  Calls that would write anywhere else
are recorded and refused.  Calls that only read elsewhere (imports) pass.
"""

import builtins
import errno
import gc
import io
import os
import random
import shutil
import sys
import tempfile

from . import core
from .core import SimCrash, HarnessError

_o = {k: getattr(os, k) for k in (
    'open', 'read', 'write', 'close', 'fsync', 'fdatasync', 'rename', 'replace', 'unlink', 'remove', 'mkdir',
    'rmdir', 'link', 'symlink', 'chmod', 'truncate', 'ftruncate', 'lseek', 'fstat', 'stat', 'sendfile',
    'pwrite', 'pread', 'listdir', 'scandir', 'fdopen', 'posix_fallocate', 'utime', 'fchmod', 'dup', 'copy_file_range', 'sync')}
_open0 = builtins.open

ERR = {'EXDEV': errno.EXDEV, 'EIO': errno.EIO, 'ENOSPC': errno.ENOSPC, 'EACCES': errno.EACCES, 'EPIPE': errno.EPIPE, 'EROFS': errno.EROFS,
       'EMFILE': errno.EMFILE, 'EDQUOT': errno.EDQUOT}


_Text0 = io.TextIOWrapper


def text_wrapper(fs):
    """io.TextIOWrapper with the simulated default encoding."""
    class Meta(type(_Text0)):
        def __instancecheck__(cls, x):
            return isinstance(x, _Text0)

        def __subclasscheck__(cls, x):
            return issubclass(x, _Text0)

    class TextIOWrapper(_Text0, metaclass=Meta):
        def __init__(self, buffer, encoding=None, *args, **kwargs):
            if encoding in (None, 'locale'):
                encoding = fs.encoding
            _Text0.__init__(self, buffer, encoding, *args, **kwargs)
    return TextIOWrapper


def oserr(name, path=None):
    return OSError(ERR[name], os.strerror(ERR[name]), path)


class SimRaw(io.RawIOBase):
    """An unbuffered file of the simulated system."""

    def __init__(self, fs, fd, flags, name):
        self.fs = fs
        self.fd = fd
        self.name = name
        acc = flags & os.O_ACCMODE
        self._r = acc in (os.O_RDONLY, os.O_RDWR)
        self._w = acc in (os.O_WRONLY, os.O_RDWR)
        self.mode = 'rb' if not self._w else ('rb+' if self._r else 'wb')

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def readable(self):
        self._chk()
        return self._r

    def writable(self):
        self._chk()
        return self._w

    def seekable(self):
        self._chk()
        return True

    def fileno(self):
        self._chk()
        return self.fd

    def isatty(self):
        return False

    def readinto(self, b):
        self._chk()
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        data = self.fs.do_read(self.fd, len(b))
        b[:len(data)] = data
        return len(data)

    def readall(self):
        out = []
        while True:
            d = self.fs.do_read(self.fd, 1 << 16)
            if not d:
                return b''.join(out)
            out.append(d)

    def write(self, b):
        self._chk()
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        return self.fs.do_write(self.fd, bytes(b))

    def seek(self, off, whence=0):
        self._chk()
        return _o['lseek'](self.fd, off, whence)

    def tell(self):
        self._chk()
        return _o['lseek'](self.fd, 0, os.SEEK_CUR)

    def truncate(self, size=None):
        self._chk()
        if size is None:
            size = self.tell()
        self.fs.do_ftruncate(self.fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                io.RawIOBase.close(self)
            finally:
                # (a handle that outlives its file system has lost its descriptor)
                if self.fd in self.fs.fds:
                    self.fs.do_close(self.fd)


class SimStd(io.RawIOBase):
    """Standard output or error of the simulated process."""

    def __init__(self, fs, name):
        self.fs = fs
        self.name = name
        self.data = bytearray()

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        if not b:
            return 0
        n, err = self.fs.decide_write(self.name, None, len(b))
        self.data += b[:n]
        if err is not None and n == 0:
            raise err
        return n


class Inode(object):
    def __init__(self, data):
        self.durable = bytearray(data)
        self.ops = []


class FS(object):
    """faults: list of dicts
         op:   read, write, stdout, close, fsync, open, rename, unlink, mkdir, ... or any
         n:    occurrence among matching operations
         do:   EIO/ENOSPC/EACCES/EPIPE...: the call fails;  crash: the process dies before the call;
               crash-part: dies in the middle of a write
         sticky: the error persists
         path: only operations on files with this base name
       quota: bytes that can be written before the disk is full (None: no limit)
    """

    def __init__(self, ctx, rng, cfg=None):
        cfg = cfg or {}
        self.ctx = ctx
        self.rng = rng
        self.seed = rng.getrandbits(40)
        self.opened = {}
        self.base = os.path.realpath(tempfile.mkdtemp(prefix='xigt-dst-', dir=core.SCRATCH))
        self.root = os.path.join(self.base, 'r')
        os.mkdir(self.root)
        self.short_r = cfg.get('short_r', 0)
        self.short_w = cfg.get('short_w', 0)
        self.bufsize = cfg.get('bufsize') or 8192
        self.encoding = cfg.get('encoding') or 'utf-8'
        self.std_encoding = cfg.get('std_encoding') or self.encoding
        self.line_buffering = bool(cfg.get('line_buffering'))
        self.listing = cfg.get('listing')
        self.faults = []
        self.quota = None
        self.dead = False
        self.counts = {}
        self.nops = 0
        self.written = 0
        self.out_written = 0
        self.trace = []
        self.escapes = []
        self.fds = {}
        self.inodes = {}
        self.meta = []
        self.barrier = 0
        self.fired = []
        self.active = False
        self.bytes_read = 0
        self.initial = None

    # -------------------------------------------------------------- setup

    def p(self, *parts):
        return os.path.join(self.root, *parts)

    def put(self, rel, data):
        """Harness: create a file (not simulated, durable)."""
        path = self.p(rel)
        d = os.path.dirname(path)
        if not os.path.isdir(d):
            os.makedirs(d)
        with _open0(path, 'wb') as fh:
            fh.write(data)
        return path

    def get(self, rel):
        try:
            with _open0(self.p(rel), 'rb') as fh:
                return fh.read()
        except OSError:
            return None

    def snapshot(self):
        out = {}
        for d, dirs, files in os.walk(self.root):
            for x in dirs:
                q = os.path.join(d, x)
                out[os.path.relpath(q, self.root)] = 'link:' + os.readlink(q) if os.path.islink(q) else None
            for x in files:
                q = os.path.join(d, x)
                rel = os.path.relpath(q, self.root)
                if os.path.islink(q):
                    out[rel] = 'link:' + os.readlink(q)
                else:
                    with _open0(q, 'rb') as fh:
                        out[rel] = fh.read()
        return out

    def destroy(self):
        self.uninstall()
        shutil.rmtree(self.base, ignore_errors=True)

    # ------------------------------------------------------------- faults

    def arm(self, faults=(), quota=None):
        self.faults = [dict(f, seen=0, done=False) for f in faults]
        self.quota = quota
        self.counts = {}
        self.nops = 0
        self.written = 0
        self.out_written = 0
        self.fired = []
        self.opened = {}

    def hit(self, kind, path=None):
        """Account for one operation; returns a fault or None."""
        if self.dead:
            raise SimCrash('dead')
        self.nops += 1
        self.counts[kind] = self.counts.get(kind, 0) + 1
        rel = os.path.relpath(path, self.root) if path and path.startswith('/') else (path or '')
        if self.active and len(self.trace) < 4000:
            self.trace.append((kind, rel))
        for f in self.faults:
            op = f['op']
            if op != 'any' and op != kind and not (op == 'out' and kind in ('write', 'stdout')):
                continue
            if f.get('path') and os.path.basename(rel) != f['path']:
                continue
            if f['done']:
                if f.get('sticky'):
                    return f
                continue
            k = f['seen']
            f['seen'] += 1
            if k == f['n']:
                f['done'] = True
                self.fired.append(f['do'])
                self.ctx.fault('{}@{}'.format(f['do'], kind))
                self.ctx.log('fault', f['do'], kind, rel, self.nops)
                if f['do'] == 'crash':
                    self.dead = True
                    raise SimCrash('crash before {} {}'.format(kind, rel))
                return f
        return None

    def decide_write(self, path, fd, n):
        """-> (bytes that get through, error or None)"""
        kind = 'stdout' if path == '<stdout>' else ('stderr' if path == '<stderr>' else 'write')
        f = self.hit(kind, path)
        if f is not None:
            if f['do'] == 'crash-part':
                return n * f.get('part', 50) // 100, SimCrash('crash in write')
            return 0, oserr(f['do'])
        if kind == 'stderr':
            return n, None
        m = n
        if self.short_w and n > 1 and self.rng.random() < self.short_w:
            m = self.rng.randint(1, n - 1)
            self.ctx.fault('short-write')
        if self.quota is not None:
            left = self.quota - self.written
            if left <= 0:
                if 'ENOSPC' not in self.fired:
                    self.fired.append('ENOSPC')
                    self.ctx.log('fault', 'disk-full', kind, self.nops)
                self.ctx.fault('disk-full')
                return 0, oserr('ENOSPC')
            m = min(m, left)
        self.written += m
        return m, None

    # --------------------------------------------------------- descriptors

    def inode(self, fd, fresh=False):
        st = _o['fstat'](fd)
        k = st.st_ino
        if fresh or k not in self.inodes:
            size = st.st_size
            data = b''
            if not fresh and size:
                # read through another descriptor: fd may be write-only
                with _open0('/proc/self/fd/{}'.format(fd), 'rb') as fh:
                    data = fh.read()
            self.inodes[k] = Inode(data)
        return self.inodes[k]

    def do_read(self, fd, n):
        path = self.fds[fd]['path']
        f = self.hit('read', path)
        if f is not None:
            raise oserr(f['do'])
        # the pieces a file arrives in do not depend on other files
        rng = self.fds[fd]['rng']
        if self.short_r and n > 1 and rng.random() < self.short_r:
            n = min(n, rng.choice([1, 2, 7, rng.randint(1, n), 100]))
            self.ctx.fault('short-read')
        data = _o['read'](fd, n)
        self.bytes_read += len(data)
        return data

    def do_write(self, fd, data):
        info = self.fds[fd]
        if not data:
            return 0
        n, err = self.decide_write(info['path'], fd, len(data))
        if n:
            ino = self.inode(fd)
            if info['flags'] & os.O_APPEND:
                pos = _o['fstat'](fd).st_size
            else:
                pos = _o['lseek'](fd, 0, os.SEEK_CUR)
            w = 0
            while w < n:
                w += _o['write'](fd, data[w:n])
            ino.ops.append(('w', pos, data[:n]))
        if isinstance(err, SimCrash):
            self.dead = True
            raise err
        if err is not None:
            raise err
        return n

    def do_ftruncate(self, fd, size):
        path = self.fds[fd]['path']
        f = self.hit('truncate', path)
        if f is not None:
            raise oserr(f['do'])
        ino = self.inode(fd)
        _o['ftruncate'](fd, size)
        ino.ops.append(('t', size))

    def do_close(self, fd):
        info = self.fds.pop(fd, None)
        _o['close'](fd)
        if info is None or not self.active:
            return
        if self.dead:
            return
        if (info['flags'] & os.O_ACCMODE) != os.O_RDONLY:
            f = self.hit('close', info['path'])
            if f is not None:
                raise oserr(f['do'])

    def do_fsync(self, fd):
        info = self.fds[fd]
        f = self.hit('fsync', info['path'])
        if f is not None:
            raise oserr(f['do'])
        if info.get('dir'):
            self.barrier = len(self.meta)
            return
        ino = self.inode(fd)
        ino.durable = self._apply(ino, len(ino.ops))
        ino.ops = []

    @staticmethod
    def _apply(ino, k, part=None):
        data = bytearray(ino.durable)
        for j, op in enumerate(ino.ops[:k]):
            if op[0] == 't':
                if len(data) > op[1]:
                    del data[op[1]:]
                else:
                    data += b'\0' * (op[1] - len(data))
            else:
                pos, d = op[1], op[2]
                if part is not None and j == k - 1:
                    d = d[:part]
                if len(data) < pos:
                    data += b'\0' * (pos - len(data))
                data[pos:pos + len(d)] = d
        return data

    # ----------------------------------------------------------- functions

    def full(self, path, dir_fd=None):
        path = os.fsdecode(os.fspath(path))
        if dir_fd is not None and not os.path.isabs(path):
            path = os.path.join(os.readlink('/proc/self/fd/{}'.format(dir_fd)), path)
        path = os.path.abspath(path)
        d, b = os.path.split(path)
        return os.path.join(os.path.realpath(d), b)

    def inside(self, path):
        return path == self.root or path.startswith(self.root + '/')

    def escape(self, op, path):
        self.escapes.append((op, path))
        self.ctx.log('escape', op, os.path.relpath(path, self.root))
        raise PermissionError(errno.EACCES, 'outside of the simulated file system', path)

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        wr = (flags & os.O_ACCMODE) != os.O_RDONLY or flags & (os.O_CREAT | os.O_TRUNC)
        full = self.full(path, dir_fd)
        target = os.path.realpath(full)
        if not self.inside(target):
            if self.dead and wr:
                raise SimCrash('dead')
            if wr and target != '/dev/null':
                self.escape('open', full)
            return _o['open'](path, flags, mode, dir_fd=dir_fd)
        kind = 'open-w' if wr else 'open'
        if os.path.isdir(target):
            kind = 'opendir'
        f = self.hit(kind, full)
        if f is not None:
            raise oserr(f['do'], path)
        existed = os.path.exists(target)
        if existed and wr and os.path.isfile(target):
            # know the old contents before they are truncated
            fd0 = _o['open'](target, os.O_RDONLY)
            ino = self.inode(fd0)
            _o['close'](fd0)
        fd = _o['open'](path, flags, mode, dir_fd=dir_fd)
        n = self.opened[full] = self.opened.get(full, 0) + 1
        info = {'path': full, 'flags': flags, 'dir': os.path.isdir(target),
                'rng': random.Random('{}/{}/{}'.format(self.seed, os.path.relpath(full, self.root), n))}
        self.fds[fd] = info
        if not info['dir']:
            if not existed:
                self.inode(fd, fresh=True)
                self.meta.append(('create', target, _o['fstat'](fd).st_ino))
            elif wr and flags & os.O_TRUNC:
                ino.ops.append(('t', 0))
        return fd

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if isinstance(file, int):
            if file not in self.fds:
                return _open0(file, mode, buffering, encoding, errors, newline, closefd, opener)
            path = self.fds[file]['path']
        else:
            path = self.full(file)
        base = mode.replace('b', '').replace('t', '').replace('U', '')
        updating = '+' in base
        base = base.replace('+', '')
        if base not in ('r', 'w', 'a', 'x') or ('b' in mode and 't' in mode):
            raise ValueError('invalid mode: {!r}'.format(mode))
        if 'b' in mode and (encoding is not None or errors is not None or newline is not None):
            raise ValueError('binary mode takes no encoding, errors or newline argument')
        acc = os.O_RDWR if updating else (os.O_RDONLY if base == 'r' else os.O_WRONLY)
        flags = acc | os.O_CLOEXEC
        if base == 'w':
            flags |= os.O_CREAT | os.O_TRUNC
        elif base == 'a':
            flags |= os.O_CREAT | os.O_APPEND
        elif base == 'x':
            flags |= os.O_CREAT | os.O_EXCL
        if not isinstance(file, int):
            target = os.path.realpath(path)
            if not self.inside(target):
                if base == 'r' and not updating:
                    return _open0(file, mode, buffering, encoding, errors, newline, closefd, opener)
                if target == '/dev/null':
                    return _open0(file, mode, buffering, encoding, errors, newline, closefd, opener)
                if opener is None:
                    self.escape('open', path)
            if opener is not None:
                fd = opener(file, flags)
            else:
                fd = self.os_open(file, flags, 0o666)
            if os.path.isdir(target):
                self.do_close(fd)
                raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), file)
        else:
            fd = file
            flags = self.fds[fd]['flags'] if not updating else flags
        if fd not in self.fds:
            return _open0(fd, mode, buffering, encoding, errors, newline, closefd)
        raw = SimRaw(self, fd, (flags & ~os.O_ACCMODE) | acc, file)
        if base == 'a':
            _o['lseek'](fd, 0, os.SEEK_END)
        if buffering == 0:
            if 'b' not in mode:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = self.bufsize if buffering in (-1, 1) else buffering
        if updating:
            buf = io.BufferedRandom(raw, size)
        elif base == 'r':
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if 'b' in mode:
            return buf
        text = _Text0(buf, self.encoding if encoding in (None, 'locale') else encoding, errors, newline,
                                buffering == 1)
        text.mode = mode
        return text

    def _path_op(self, kind, orig, npaths, after=None):
        def call(*args, **kw):
            fulls = []
            for j in range(npaths):
                df = kw.get('dir_fd')
                if npaths == 2:
                    df = kw.get('src_dir_fd' if j == 0 else 'dst_dir_fd')
                if isinstance(args[j], int):
                    fulls.append(self.fds[args[j]]['path'] if args[j] in self.fds else '/?fd')
                else:
                    fulls.append(self.full(args[j], df))
            for f in fulls:
                if not self.inside(f):
                    if self.dead:
                        raise SimCrash('dead')
                    self.escape(kind, f)
            ft = self.hit(kind, fulls[-1])
            if ft is not None:
                raise oserr(ft['do'], args[0])
            if kind in ('rename', 'link') and len(set(f.startswith(self.tmp + '/') for f in fulls)) == 2:
                # temporary files are on another device
                raise oserr('EXDEV', args[0])
            res = orig(*args, **kw)
            if after:
                after(fulls, args)
            return res
        return call

    def _after_rename(self, fulls, args):
        self.meta.append(('rename', fulls[0], fulls[1]))

    def _after_unlink(self, fulls, args):
        self.meta.append(('unlink', fulls[0]))

    def _after_mkdir(self, fulls, args):
        self.meta.append(('mkdir', fulls[0]))

    def _after_rmdir(self, fulls, args):
        self.meta.append(('rmdir', fulls[0]))

    def _after_link(self, fulls, args):
        self.meta.append(('link', fulls[0], fulls[1]))

    def os_symlink(self, src, dst, *a, **k):
        full = self.full(dst)
        if not self.inside(full):
            self.escape('symlink', full)
        f = self.hit('symlink', full)
        if f is not None:
            raise oserr(f['do'], full)
        return _o['symlink'](src, dst, *a, **k)

    def os_truncate(self, path, length):
        if isinstance(path, int):
            return self.do_ftruncate(path, length) if path in self.fds else _o['ftruncate'](path, length)
        fd = self.os_open(path, os.O_WRONLY)
        try:
            self.do_ftruncate(fd, length)
        finally:
            self.do_close(fd)

    def install(self):
        fs = self
        gc.collect()

        def os_read(fd, n):
            return fs.do_read(fd, n) if fd in fs.fds else _o['read'](fd, n)

        def os_write(fd, data):
            return fs.do_write(fd, bytes(data)) if fd in fs.fds else _o['write'](fd, data)

        def os_close(fd):
            return fs.do_close(fd) if fd in fs.fds else _o['close'](fd)

        def os_fsync(fd):
            if not isinstance(fd, int):
                fd = fd.fileno()
            return fs.do_fsync(fd) if fd in fs.fds else _o['fsync'](fd)

        def os_ftruncate(fd, n):
            return fs.do_ftruncate(fd, n) if fd in fs.fds else _o['ftruncate'](fd, n)

        def os_dup(fd):
            new = _o['dup'](fd)
            if fd in fs.fds:
                fs.fds[new] = dict(fs.fds[fd])
            return new

        def os_listdir(path='.'):
            names = _o['listdir'](path)
            return fs.listed(names) if not isinstance(path, int) and fs.inside(fs.full(path)) else names

        class Scan(object):
            """What os.scandir() gives, in an order the simulator chooses."""

            def __init__(self, path='.'):
                with _o['scandir'](path) as it:
                    entries = {e.name: e for e in it}
                names = fs.listed(list(entries)) if not isinstance(path, int) and fs.inside(fs.full(path)) else list(entries)
                self.it = iter([entries[k] for k in names])

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.it)

            def __enter__(self):
                return self

            def __exit__(self, *exc):
                self.close()

            def close(self):
                self.it = iter(())

        def unsupported(name):
            def call(*a, **k):
                raise OSError(errno.ENOSYS, 'not simulated: ' + name)
            return call

        def os_fchmod(fd, mode):
            return _o['fchmod'](fd, mode)

        repl = {
            'open': fs.os_open, 'read': os_read, 'write': os_write, 'close': os_close, 'fsync': os_fsync,
            'fdatasync': os_fsync, 'ftruncate': os_ftruncate, 'truncate': fs.os_truncate, 'dup': os_dup,
            'rename': fs._path_op('rename', _o['rename'], 2, fs._after_rename),
            'replace': fs._path_op('rename', _o['replace'], 2, fs._after_rename),
            'unlink': fs._path_op('unlink', _o['unlink'], 1, fs._after_unlink),
            'remove': fs._path_op('unlink', _o['remove'], 1, fs._after_unlink),
            'mkdir': fs._path_op('mkdir', _o['mkdir'], 1, fs._after_mkdir),
            'rmdir': fs._path_op('rmdir', _o['rmdir'], 1, fs._after_rmdir),
            'link': fs._path_op('link', _o['link'], 2, fs._after_link),
            'chmod': fs._path_op('chmod', _o['chmod'], 1),
            'utime': fs._path_op('utime', _o['utime'], 1),
            'symlink': fs.os_symlink, 'listdir': os_listdir, 'scandir': Scan,
            'sendfile': unsupported('sendfile'), 'copy_file_range': unsupported('copy_file_range'),
            'pwrite': unsupported('pwrite'), 'posix_fallocate': unsupported('posix_fallocate'),
        }
        self._back = []
        swap = {}
        for k, v in repl.items():
            self._back.append((os, k, getattr(os, k)))
            swap[id(getattr(os, k))] = v
            setattr(os, k, v)
        for m in (builtins, io):
            self._back.append((m, 'open', getattr(m, 'open')))
            m.open = fs.open
        swap[id(_open0)] = fs.open
        self._back.append((io, 'TextIOWrapper', io.TextIOWrapper))
        io.TextIOWrapper = swap[id(_Text0)] = text_wrapper(fs)
        # names bound by "from os import mkdir" and the like
        for name, mod in sorted(sys.modules.items()):
            if name == 'xigt' or name.startswith('xigt.'):
                for k, v in list(vars(mod).items()):
                    if callable(v) and id(v) in swap:
                        self._back.append((mod, k, v))
                        setattr(mod, k, swap[id(v)])
        for m, k, v in ((shutil, '_USE_CP_SENDFILE', False), (tempfile, 'tempdir', self.base),
                        (tempfile, '_name_sequence', iter('t%06d' % j for j in range(10 ** 6)))):
            if hasattr(m, k):
                self._back.append((m, k, getattr(m, k)))
                setattr(m, k, v)
        self.tmp = os.path.join(self.root, '.tmp')
        if not os.path.isdir(self.tmp):
            _o['mkdir'](self.tmp)
        tempfile.tempdir = self.tmp
        import locale
        for k, v in (('getpreferredencoding', lambda do_setlocale=True: fs.encoding),
                     ('getencoding', lambda: fs.encoding)):
            if hasattr(locale, k):
                self._back.append((locale, k, getattr(locale, k)))
                setattr(locale, k, v)
        self._cwd = os.getcwd()
        os.chdir(self.root)
        if self.initial is None:
            self.begin()
        self.active = True

    def listed(self, names):
        """The order in which the system lists a directory."""
        names = sorted(names, key=os.fsencode)
        if self.listing is not None:
            random.Random(self.listing).shuffle(names)
            self.ctx.fault('listing-order')
        return names

    def begin(self):
        """The present contents are durable; forget all history."""
        self.initial = {}
        self.inodes = {}
        self.meta = []
        self.barrier = 0
        for d, dirs, files in os.walk(self.root):
            for x in dirs:
                self.initial[os.path.join(d, x)] = ('d', None, None)
            for x in files:
                q = os.path.join(d, x)
                if os.path.islink(q):
                    self.initial[q] = ('l', None, os.readlink(q))
                    continue
                with _open0(q, 'rb') as fh:
                    self.initial[q] = ('f', _o['stat'](q).st_ino, fh.read())

    def uninstall(self):
        if not self.active:
            return
        gc.collect()      # files nobody holds are closed inside the session
        for m, k, v in reversed(self._back):
            setattr(m, k, v)
        os.chdir(self._cwd)
        self.active = False
        for fd in list(self.fds):
            try:
                _o['close'](fd)
            except OSError:
                pass
        self.fds = {}

    def __enter__(self):
        self.install()
        return self

    def __exit__(self, *exc):
        self.uninstall()

    # ---------------------------------------------------------- power loss

    def power_loss(self, rng):
        """{relative path: bytes} after losing everything volatile: a prefix
        of the metadata operations survives, and of every file the data of its
        last fsync plus a prefix of what was written later."""
        k = rng.choice([self.barrier, len(self.meta), rng.randint(self.barrier, len(self.meta))])
        ns = dict((p, x) for p, x in self.initial.items())
        for op in self.meta[:k]:
            if op[0] == 'create':
                ns[op[1]] = ('f', op[2], b'')
            elif op[0] == 'rename':
                if op[1] in ns:
                    ns[op[2]] = ns.pop(op[1])
            elif op[0] in ('unlink', 'rmdir'):
                ns.pop(op[1], None)
            elif op[0] == 'mkdir':
                ns[op[1]] = ('d', None, None)
            elif op[0] == 'link':
                if op[1] in ns:
                    ns[op[2]] = ns[op[1]]
        out = {}
        cache = {}
        for p, (t, ino, data) in sorted(ns.items()):
            rel = os.path.relpath(p, self.root)
            if t != 'f':
                continue
            if ino in self.inodes:
                if ino not in cache:
                    nd = self.inodes[ino]
                    n = len(nd.ops)
                    j = rng.choice([0, n, rng.randint(0, n)])
                    part = None
                    if j and nd.ops[j - 1][0] == 'w' and rng.random() < .5:
                        part = rng.randint(0, len(nd.ops[j - 1][2]))
                    cache[ino] = bytes(self._apply(nd, j, part))
                out[rel] = cache[ino]
            else:
                out[rel] = data
        return out
