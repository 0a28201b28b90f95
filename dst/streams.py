"""Sources and destinations handed to the library as arguments: the caller's
files, pipes, wrappers and in-memory handles, delivering and accepting data in
pieces the simulator chooses, and failing where it says."""

import io

from .core import HarnessError


class SrcRaw(io.RawIOBase):
    """A pipe: not seekable, short reads, may fail or end early."""

    def __init__(self, data, rng, short, ctx, fail_at=None, exc=None, sticky=True, maxpiece=None):
        self.data = data
        self.pos = 0
        self.rng = rng
        self.short = short
        self.ctx = ctx
        self.fail_at = fail_at
        self.exc = exc
        self.sticky = sticky
        self.failed = 0
        self.maxpiece = maxpiece
        self.reads = 0

    def readable(self):
        return True

    def _next(self, n):
        self.reads += 1
        if self.fail_at is not None and self.pos >= self.fail_at and (self.sticky or not self.failed):
            self.failed += 1
            self.ctx.fault('read-error')
            raise self.exc()
        if self.maxpiece:
            n = min(n, self.maxpiece)
        if self.short and n > 1 and self.rng.random() < self.short:
            n = min(n, self.rng.choice([1, 2, 3, 16, self.rng.randint(1, n)]))
            self.ctx.fault('short-read')
        if self.fail_at is not None and (self.sticky or not self.failed):
            n = min(n, self.fail_at - self.pos)
        d = self.data[self.pos:self.pos + n]
        self.pos += len(d)
        return d

    def readinto(self, b):
        d = self._next(len(b))
        b[:len(d)] = d
        return len(d)


class Duck(object):
    """An object that only has read()."""

    def __init__(self, raw, text=None):
        self._raw = raw
        self._text = text
        if text is not None:
            self._raw.data = text
            self._empty = ''
        else:
            self._empty = b''

    def read(self, n=-1):
        if n is None or n < 0:
            out = []
            while True:
                d = self._raw._next(1 << 16)
                if not d:
                    return self._empty.join(out)
                out.append(d)
        return self._raw._next(n)


SOURCES = ['path', 'binary', 'unbuffered', 'text', 'pipe', 'pipe-raw', 'pipe-text', 'duck', 'duck-text', 'bytesio',
           'stringio', 'str', 'bytes']


def open_source(kind, data, text, enc, rng, short, ctx, fs, name, fail_at=None, exc=None, maxpiece=None, bufsize=None,
                sticky=True):
    """-> (argument for load or loads, 'load'|'loads', counter) ; counter() is
    the number of bytes (or characters) taken from the source so far."""
    if kind in ('path', 'binary', 'unbuffered', 'text'):
        p = fs.put(name, data)
        fs.short_r = short
        n0 = fs.bytes_read
        cnt = lambda: fs.bytes_read - n0
        if kind == 'path':
            return p, 'load', cnt
        if kind == 'binary':
            return open(p, 'rb'), 'load', cnt
        if kind == 'unbuffered':
            return open(p, 'rb', buffering=0), 'load', cnt
        return open(p, 'r', encoding=enc, newline=rng.choice([None, ''])), 'load', cnt
    if kind in ('str', 'stringio'):
        return (text, 'loads', lambda: 0) if kind == 'str' else (io.StringIO(text), 'load', lambda: 0)
    if kind in ('bytes', 'bytesio'):
        return (data, 'loads', lambda: 0) if kind == 'bytes' else (io.BytesIO(data), 'load', lambda: 0)
    raw = SrcRaw(data, rng, short, ctx, fail_at, exc, sticky, maxpiece)
    cnt = lambda: raw.pos
    if kind == 'pipe-raw':
        return raw, 'load', cnt
    if kind == 'duck':
        return Duck(raw), 'load', cnt
    if kind == 'duck-text':
        return Duck(raw, text), 'load', cnt
    buf = io.BufferedReader(raw, bufsize or 8192)
    if kind == 'pipe':
        return buf, 'load', cnt
    if kind == 'pipe-text':
        return io.TextIOWrapper(buf, encoding=enc), 'load', cnt
    raise HarnessError(kind)


class DstRaw(io.RawIOBase):
    """A destination that accepts data in pieces and may fail for good after
    ``room`` bytes."""

    def __init__(self, rng, short, ctx, room=None, exc=None):
        self.data = bytearray()
        self.rng = rng
        self.short = short
        self.ctx = ctx
        self.room = room
        self.exc = exc
        self.failed = False

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        n = len(b)
        if n == 0:
            return 0
        if self.room is not None:
            left = self.room - len(self.data)
            if left <= 0:
                self.failed = True
                self.ctx.fault('write-error')
                if self.exc is None:
                    return None      # would block
                raise self.exc()
            n = min(n, left)
        if self.short and n > 1 and self.rng.random() < self.short:
            n = self.rng.choice([1, self.rng.randint(1, n), max(1, n - 1)])
            self.ctx.fault('short-write')
        self.data += b[:n]
        return n


class DuckDst(object):
    """An object that only has write(), which says nothing about how much."""

    def __init__(self, empty, room=None, exc=None, ctx=None):
        self.parts = []
        self.empty = empty
        self.room = room
        self.exc = exc
        self.ctx = ctx
        self.failed = False

    def write(self, x):
        if not isinstance(x, type(self.empty)):
            raise TypeError('wrong kind of data')
        if self.room is not None and sum(len(p) for p in self.parts) + len(x) > self.room:
            self.failed = True
            self.ctx.fault('write-error')
            raise self.exc()
        self.parts.append(x)

    @property
    def data(self):
        return self.empty.join(self.parts)
