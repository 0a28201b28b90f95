"""One simulated process: command line in, exit status and output out."""

import gc
import io
import logging
import os
import sys
import traceback
import warnings

from .core import SimCrash, StepBudget, HarnessError, Violation, attempt
from .simfs import SimStd


class Result(object):
    def __init__(self, code, out, err, exc, crashed):
        self.code = code          # exit status; None when crashed
        self.out = out            # bytes
        self.err = err            # str
        self.exc = exc            # uncaught exception, or None
        self.crashed = crashed

    @property
    def ok(self):
        return self.code == 0

    def short(self):
        return 'crash' if self.crashed else 'exit {}{}'.format(
            self.code, ' ' + type(self.exc).__name__ if self.exc is not None else '')


def reset_ambient():
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.setLevel(logging.WARNING)
    logging.disable(logging.NOTSET)


class Process(object):
    """with Process(fs) as p: ...  p.result after the block.
    Runs one call in a fresh ambient state, with simulated standard streams."""

    def __init__(self, fs, fn):
        self.fs = fs
        self.fn = fn

    def run(self):
        fs = self.fs
        raw = SimStd(fs, '<stdout>')
        buf = io.BufferedWriter(raw, fs.bufsize)
        out = io.TextIOWrapper(buf, encoding=fs.std_encoding, errors='strict', line_buffering=fs.line_buffering)
        err = io.StringIO()
        saved = (sys.stdout, sys.stderr, sys.argv, list(warnings.filters), warnings.showwarning)
        sys.stdout, sys.stderr = out, err
        reset_ambient()
        code, exc, crashed = 0, None, False
        try:
            try:
                self.fn()
            except SystemExit as e:
                if e.code is None:
                    code = 0
                elif isinstance(e.code, int):
                    code = e.code & 0xFF
                else:
                    err.write(str(e.code) + '\n')
                    code = 1
            except (StepBudget, HarnessError, Violation):
                raise
            except SimCrash:
                crashed = True
            except BaseException as e:
                exc = e
                code = 130 if isinstance(e, KeyboardInterrupt) else 1
                err.write('{}: {}\n'.format(type(e).__name__, e))
            if not crashed:
                # what the interpreter does at exit
                try:
                    # the frames of an uncaught exception keep files open
                    if exc is not None:
                        tb = traceback.extract_tb(exc.__traceback__)
                        self.where = ['{}:{}'.format(os.path.basename(f.filename), f.lineno) for f in tb[-3:]]
                        exc.__traceback__ = None
                        exc.__context__ = None
                        exc.__cause__ = None
                    gc.collect()
                    if not out.closed:
                        out.flush()
                except SimCrash:
                    crashed = True
                except (OSError, ValueError) as e:
                    if code == 0:
                        code = 120
                        err.write('Exception ignored: {}\n'.format(e))
        finally:
            sys.stdout, sys.stderr, sys.argv = saved[:3]
            warnings.filters[:] = saved[3]
            warnings.showwarning = saved[4]
            reset_ambient()
            data = bytes(raw.data)
            # do not let the buffer be written at collection
            raw.fs = _Null()
            try:
                out.detach()
            except (ValueError, OSError, SimCrash):
                pass
        return Result(None if crashed else code, data, err.getvalue(), exc, crashed)


class _Null(object):
    def decide_write(self, *a):
        return a[-1], None


def cli(fs, argv):
    def fn():
        import xigt.main
        sys.argv = ['xigt'] + list(argv)
        xigt.main.main()
    with fs:
        return Process(fs, fn).run()
