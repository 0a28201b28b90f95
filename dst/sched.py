"""Caller threads under a scheduler the simulator owns, and interrupts at
chosen points.  Threads are real, but only the one holding the baton runs; at
every line of the code under test the running thread asks the scheduler
whether to hand the baton over."""

import sys
import threading
import zlib

from . import core
from .core import HarnessError

PREFIX = core.REPO + '/xigt'


class Sched(object):
    """Where threads are switched: 'random', at every line with probability p; 'points', at a few chosen lines;
    'func', within a chosen part of the functions only, but there also at calls and returns, each with probability p."""

    def __init__(self, rng, mode, p, npoints, total=None, max_switch=200000, parts=8):
        self.parts = parts
        self.salt = rng.randrange(1 << 20) if mode == 'func' else 0
        self.chosen = {}
        self.rng = rng
        self.p = p
        self.mode = mode           # 'random' or 'points'
        self.points = set()
        if mode == 'points' and total:
            self.points = set(rng.randrange(total) for _ in range(npoints))
        self.lines = 0
        self.switches = 0
        self.trace = []
        self.live = []
        self.cv = threading.Condition()
        self.turn = None
        self.max_switch = max_switch

    def _trace(self, me):
        def local(frame, event, arg):
            if event == 'line':
                self.point(me, frame)
            return local

        # (not at every bytecode: tracing those crashes CPython 3.12 when several threads run the same function)
        def funclocal(frame, event, arg):
            if event in ('line', 'return'):
                self.point(me, frame)
            return funclocal

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(PREFIX):
                if self.mode != 'func':
                    return local
                if self.is_chosen(frame.f_code):
                    self.point(me, frame)
                    return funclocal
            return None
        return glob

    def is_chosen(self, code):
        c = self.chosen.get(code)
        if c is None:
            s = '{}:{}:{}'.format(self.salt, code.co_filename[len(PREFIX):], code.co_qualname)
            c = self.chosen[code] = zlib.crc32(s.encode()) % self.parts == 0
        return c

    def point(self, me, frame):
        k = self.lines
        self.lines += 1
        if len(self.live) < 2:
            return
        if self.mode == 'points':
            go = k in self.points
        else:
            go = self.rng.random() < self.p
        if go and self.switches < self.max_switch:
            others = [t for t in self.live if t != me]
            nxt = others[self.rng.randrange(len(others))]
            self.switches += 1
            if len(self.trace) < 3000:
                self.trace.append((me, nxt, frame.f_lineno))
            with self.cv:
                self.turn = nxt
                self.cv.notify_all()
                while self.turn != me:
                    self.cv.wait()

    def run(self, fns):
        """Run the functions as threads; returns their outcomes."""
        out = [None] * len(fns)
        self.live = list(range(len(fns)))

        def body(i):
            with self.cv:
                while self.turn != i:
                    self.cv.wait()
            sys.settrace(self._trace(i))
            try:
                out[i] = core.attempt(fns[i])
            except BaseException as e:
                out[i] = e
            finally:
                sys.settrace(None)
                with self.cv:
                    self.live.remove(i)
                    self.turn = self.live[self.rng.randrange(len(self.live))] if self.live else None
                    self.cv.notify_all()

        old = threading.stack_size(16 << 20)
        ts = [threading.Thread(target=body, args=(i,)) for i in range(len(fns))]
        for t in ts:
            t.daemon = True
            t.start()
        threading.stack_size(old)
        with self.cv:
            self.turn = self.rng.randrange(len(fns))
            self.cv.notify_all()
        for t in ts:
            t.join()
        for o in out:
            if isinstance(o, BaseException):
                raise o
        return out


def count_lines(fn):
    """Run fn; -> (outcome, lines executed inside the code under test)."""
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PREFIX) else None

    sys.settrace(glob)
    try:
        o = core.attempt(fn)
    finally:
        sys.settrace(None)
    return o, n[0]


def interrupt_at(fn, k, exc):
    """Run fn and raise exc() at the k-th line executed inside the code under
    test; -> (outcome, fired, where)."""
    st = {'n': 0, 'fired': False, 'where': ''}

    def local(frame, event, arg):
        if event == 'line':
            if st['n'] == k and not st['fired']:
                st['fired'] = True
                st['where'] = '{}:{}'.format(frame.f_code.co_filename[len(core.REPO) + 1:], frame.f_lineno)
                st['n'] += 1
                raise exc()
            st['n'] += 1
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PREFIX) else None

    sys.settrace(glob)
    try:
        o = core.attempt(fn)
    finally:
        sys.settrace(None)
    return o, st['fired'], st['where']
