"""Core of the deterministic simulator: seeds, run context, violations,
isolated execution (one forked process per run), minimisation, evidence.

A *run* is a pure function of (property, plan, code under test, PYTHONHASHSEED).
A *plan* is a JSON value produced by the property's ``gen(rng, tier)`` from one
integer seed: the corpora, the operations, the schedule decisions and the fault
placements are all in it, so a plan is also the replay file.
"""

import gc
import hashlib
import json
import os
import random
import resource
import select
import signal
import struct
import sys
import time
import traceback

SCRATCH = os.environ.get('XIGT_DST_SCRATCH') or ('/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp')
REPO = os.environ.get('XIGT_DST_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# --------------------------------------------------------------- outcomes

class Violation(Exception):
    """The property does not hold in this run."""
    def __init__(self, cls, msg, **data):
        Exception.__init__(self, '{}: {}'.format(cls, msg))
        self.cls = cls
        self.msg = msg
        self.data = data


class HarnessError(Exception):
    """The simulator itself is broken (never a verdict on the code)."""


class StepBudget(BaseException):
    """The code under test used up its step budget (no progress)."""


class SimCrash(BaseException):
    """The simulated process died here (power loss / kill)."""


# ---------------------------------------------------------------- context

class Ctx(object):
    """What one run records.  Logging never draws randomness and never reads
    a clock, so it cannot perturb the schedule."""

    def __init__(self, keep_log=False):
        self._h = hashlib.blake2b(digest_size=12)
        self.n_events = 0
        self.faults = {}
        self.probes = {}
        self.steps = 0
        self.tail = []
        self.keep_log = keep_log
        self.full = []
        self.sig = []          # coarse signature: distinct-states measure
        self.trivial = True
        self.value = None      # result of a run that works for another one

    def log(self, *ev):
        s = json.dumps(ev, sort_keys=True, default=str, ensure_ascii=True)
        self._h.update(s.encode('ascii'))
        self._h.update(b'\n')
        self.n_events += 1
        if self.keep_log:
            self.full.append(s)
        self.tail.append(s[:300])
        if len(self.tail) > 40:
            del self.tail[:20]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.trivial = False

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def nontrivial(self):
        self.trivial = False

    def mark(self, *x):
        self.sig.append(json.dumps(x, sort_keys=True, default=str))

    def digest(self):
        return self._h.hexdigest()

    def signature(self):
        return hashlib.blake2b('|'.join(self.sig).encode(), digest_size=10).hexdigest()


class Out(object):
    """Outcome of calling the code under test."""
    __slots__ = ('ok', 'value', 'exc')

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    @property
    def name(self):
        return 'ok' if self.ok else type(self.exc).__name__

    def __repr__(self):
        return 'ok' if self.ok else '{}: {}'.format(type(self.exc).__name__, self.exc)


def attempt(fn, *a, **k):
    """Call the code under test; exceptions become values.  StepBudget and
    SimCrash are the simulator's own control flow and pass through."""
    try:
        return Out(True, fn(*a, **k))
    except (StepBudget, SimCrash):
        raise
    except HarnessError:
        raise
    except Violation:
        raise
    except BaseException as e:  # KeyboardInterrupt is an injected fault here
        return Out(False, exc=e)


def must(cls, fn, *a, **k):
    """Call the code under test where nothing may fail."""
    o = attempt(fn, *a, **k)
    if not o.ok:
        e = o.exc
        where = ''
        tb = e.__traceback__
        for fr in traceback.extract_tb(tb):
            where = '{}:{}'.format(os.path.basename(fr.filename), fr.lineno)
        raise Violation(cls, 'unexpected {}: {} (at {})'.format(
            type(e).__name__, str(e)[:300], where))
    return o.value


def require(cond, cls, msg, **data):
    if not cond:
        raise Violation(cls, msg, **data)


# ------------------------------------------------------------ step budget

_budget = [None, 0, None]


def install_step_counter(limit):
    """Count loop iterations and calls inside the code under test with
    sys.monitoring and abort when the limit is passed: a deterministic
    definition of 'no progress'."""
    mon = sys.monitoring
    tool = 4
    prefix = REPO + '/xigt'
    try:
        mon.use_tool_id(tool, 'dst')
    except ValueError:
        pass
    state = _budget
    state[0], state[1] = limit, 0
    DISABLE = mon.DISABLE
    known = {}

    def hit(code, *args):
        ours = known.get(code)
        if ours is None:
            ours = known[code] = code.co_filename.startswith(prefix)
        if not ours:
            return DISABLE
        state[1] += 1
        if state[1] > state[0]:
            state[1] = state[0] - 2000   # raise again if swallowed
            raise StepBudget(state[0])

    ev = mon.events
    for e in (ev.PY_START, ev.PY_RESUME, ev.JUMP):
        mon.register_callback(tool, e, hit)
    mon.set_events(tool, ev.PY_START | ev.PY_RESUME | ev.JUMP)


def steps_used():
    return _budget[1]


def extend_budget(n):
    """For phases the harness itself repeats."""
    if _budget[0] is not None:
        _budget[0] += n


# --------------------------------------------------------------- seeding

def rng_for(prop, seed, i):
    h = hashlib.blake2b('{}/{}/{}'.format(prop, seed, i).encode(), digest_size=8)
    return random.Random(int.from_bytes(h.digest(), 'big'))


def sub_rng(*parts):
    h = hashlib.blake2b(json.dumps(parts, sort_keys=True, default=str).encode(), digest_size=8)
    return random.Random(int.from_bytes(h.digest(), 'big'))


# ------------------------------------------------------- isolated running

RUN_WALL = 240.0     # wall backstop for one run; never a verdict
STEP_LIMIT = 3000000
MEM_LIMIT = 3 << 30


def run_plan_here(prop, plan, keep_log=False, step_limit=None):
    """Execute a plan in this process.  Returns a JSON-able result."""
    ctx = Ctx(keep_log)
    res = {'status': 'ok'}
    limit = step_limit or getattr(prop, 'STEP_LIMIT', STEP_LIMIT)
    install_step_counter(limit)
    try:
        prop.run(plan, ctx)
    except Violation as v:
        res = {'status': 'viol', 'cls': v.cls, 'msg': v.msg, 'data': v.data}
    except StepBudget:
        res = {'status': 'viol', 'cls': 'no-progress',
               'msg': 'the code under test did not finish within {} steps'.format(limit),
               'data': {}}
    except MemoryError:
        res = {'status': 'viol', 'cls': 'no-progress',
               'msg': 'the code under test exhausted memory', 'data': {}}
    except (OSError, HarnessError, ImportError, NameError):
        res = {'status': 'err', 'msg': traceback.format_exc()[-6000:]}
    except Exception as e:
        # the code under test gave something that the oracle cannot even look at
        res = {'status': 'viol', 'cls': 'beyond-oracle',
               'msg': 'what the code under test gave cannot be judged: {}: {}\n{}'.format(
                   type(e).__name__, e, traceback.format_exc()[-1200:]), 'data': {}}
    except BaseException:
        res = {'status': 'err', 'msg': traceback.format_exc()[-6000:]}
    res['digest'] = ctx.digest()
    res['events'] = ctx.n_events
    res['faults'] = ctx.faults
    res['probes'] = ctx.probes
    res['steps'] = steps_used()
    res['sig'] = ctx.signature()
    res['trivial'] = ctx.trivial
    if ctx.value is not None:
        res['value'] = ctx.value
    if res['status'] != 'ok':
        res['tail'] = ctx.tail[-25:]
    if keep_log:
        res['log'] = ctx.full
    return res


def run_isolated(prop, plan, keep_log=False):
    """Run a plan in a forked child, so that no state of the code under test
    leaks from one run into the next."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            except (ValueError, OSError):
                pass
            signal.alarm(int(RUN_WALL))
            sys.unraisablehook = lambda *a: None
            gc.collect()
            gc.freeze()
            res = run_plan_here(prop, plan, keep_log)
            data = json.dumps(res, default=str).encode()
            _write_all(w, struct.pack('>I', len(data)) + data)
        except BaseException:
            code = 3
            try:
                sys.__stderr__.write(traceback.format_exc())
                sys.__stderr__.flush()
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    while True:
        part = os.read(r, 1 << 16)
        if not part:
            break
        buf += part
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if len(buf) >= 4:
        n = struct.unpack('>I', buf[:4])[0]
        if len(buf) == 4 + n:
            return json.loads(buf[4:].decode())
    return {'status': 'err', 'msg': 'run process ended abnormally (wait status {})'.format(st),
            'digest': '', 'events': 0, 'faults': {}, 'probes': {}, 'steps': 0,
            'sig': '', 'trivial': True}


def _write_all(fd, data):
    mv = memoryview(data)
    while mv:
        n = os.write(fd, mv)
        mv = mv[n:]


# ------------------------------------------------------------ minimiser

def plan_size(x):
    return len(json.dumps(x, sort_keys=True, default=str))


def _paths(x, path=()):
    """All container paths, big and shallow first."""
    out = []
    stack = [(path, x)]
    while stack:
        p, v = stack.pop(0)
        if isinstance(v, (list, dict)):
            out.append(p)
            items = enumerate(v) if isinstance(v, list) else v.items()
            for k, c in items:
                stack.append((p + (k,), c))
    return out


def _get(x, path):
    for k in path:
        x = x[k]
    return x


def _with(x, path, value):
    y = json.loads(json.dumps(x))
    if not path:
        return value
    c = y
    for k in path[:-1]:
        c = c[k]
    c[path[-1]] = value
    return y


def same_failure(res, v):
    """Is this the violation v?  (A plan that lacks something is beyond the
    oracle as well, but for another reason.)"""
    if res['status'] != 'viol' or res['cls'] != v['cls']:
        return False
    return v['cls'] != 'beyond-oracle' or res['msg'].split(': ')[:2] == v['msg'].split(': ')[:2]


def minimise(prop, plan, v, deadline, runner=None, max_trials=1500):
    """Delta-debug the plan: drop list elements (operations, faults, IGTs,
    tiers, items...), drop optional dict entries, shorten strings, shrink
    numbers, while the same violation class persists."""
    runner = runner or (lambda p: run_isolated(prop, p))
    trials = [0]

    def fails(p):
        if trials[0] >= max_trials or time.monotonic() > deadline:
            return False
        trials[0] += 1
        res = runner(p)
        return same_failure(res, v)

    keep_keys = set(getattr(prop, 'KEEP_KEYS', ()))
    best = plan
    improved = True
    while improved and time.monotonic() < deadline and trials[0] < max_trials:
        improved = False
        # 1. list chunks
        for path in _paths(best):
            try:
                v = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(v, list) and v:
                n = len(v)
                size = n
                while size >= 1:
                    i = 0
                    while i < len(v):
                        cand_v = v[:i] + v[i + size:]
                        cand = _with(best, path, cand_v)
                        if fails(cand):
                            best, v = cand, cand_v
                            improved = True
                        else:
                            i += size
                    size //= 2
            elif isinstance(v, dict):
                for k in list(v):
                    if k in keep_keys:
                        continue
                    cand_v = {a: b for a, b in v.items() if a != k}
                    cand = _with(best, path, cand_v)
                    if fails(cand):
                        best, v = cand, cand_v
                        improved = True
        # 2. scalars
        for path in _paths(best):
            try:
                v = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            items = list(enumerate(v)) if isinstance(v, list) else list(v.items())
            for k, c in items:
                cands = []
                if isinstance(c, str) and k in keep_keys:
                    pass
                elif isinstance(c, str) and len(c) > 1:
                    cands = ([c[:1]] if len(c) > 3 else []) + [c[:len(c) // 2], c[len(c) // 2:], c[1:], c[:-1]]
                elif isinstance(c, bool):
                    cands = [False] if c else []
                elif isinstance(c, int) and abs(c) > 0:
                    cands = [0, c // 2, c - 1]
                elif c is not None and not isinstance(c, (str, int, float, list, dict)):
                    cands = [None]
                for cv in cands:
                    if cv == c:
                        continue
                    cand = _with(best, path + (k,), cv)
                    if plan_size(cand) <= plan_size(best) and cand != best and fails(cand):
                        best = cand
                        improved = True
                        break
    return best, trials[0]
