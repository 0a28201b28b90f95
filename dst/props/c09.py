"""C09: read-only operations leave the corpus unchanged, even when interrupted."""

import copy
import random

from .. import corpusgen as cg
from .. import sched
from ..core import attempt, must, require
from . import edits, readops
from .cliutil import arm, gen_fault
from .common import Env, frac, fs_cfg, pos

ID = 'C09'
RUNS = {'quick': 5000, 'thorough': 300000}
STEP_LIMIT = 30000000
RULE = ('One run: a random corpus gets a random sequence of read-only operations (dumps in both formats, comparisons, selections, path '
        'queries, references, walks, validation, exports, plain access); some are interrupted at a chosen executed line of the code under '
        'test, abandoned after some results, or fail because the disk does. After each one everything visible of the corpus and the arguments '
        'must be unchanged, and each operation run again must give what it gives on an untouched twin; at the end the same edits '
        'are made to both and all operations must again agree. Non-trivial: an operation was interrupted or failed; '
        'distinct by (operations, interruption points, outcomes).')
REAL = ['xigt.model', 'xigt.mixins', 'xigt.metadata', 'xigt.query', 'xigt.ref', 'xigt.xigtpath', 'xigt.codecs', 'xigt.exporters',
        'xigt.scripts.xigt_validate']
STUB = ['file system', 'interrupts (injected at a line of the code under test)', 'pyDelphin (stub)']
ASSUMPTIONS = ['an interrupt arrives between two lines of the library']
KEEP_KEYS = ('k', 'where', 'fmt', 'enc', 'how', 'exc', 'at', 'path', 'attrs', 'follow', 'kw', 'key', 'ns', 'cond', 'op', 'lvl', 'src')


def gen(rng, tier):
    spec = readops.gen_spec(rng)
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5, 8])):
        op = readops.gen_op(rng)
        x = rng.random()
        if x < .5:
            op['how'] = 'interrupt'
            op['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
            op['at'] = frac(rng)
        elif x < .6 and op['k'] in ('dump', 'latex', 'itsdb'):
            op['how'] = 'fail'
            op['fault'] = gen_fault(rng, ['write', 'quota', 'open-w', 'close'])
        ops.append(op)
    kn = cg.Knobs(rng, names_ascii=True)
    return {'spec': spec, 'ops': ops, 'src': rng.choice(['built', 'built', 'loaded', 'lazy']), 'cfg': fs_cfg(rng), 'fseed': rng.randrange(1 << 30),
            'edits': edits.gen_edits(rng, kn, spec, rng.choice([0, 1, 3])),
            'stale': edits.gen_edits(rng, kn, spec, rng.choice([0, 0, 0, 1, 2, 4]))}


def make(plan):
    from xigt.codecs import xigtxml
    spec = plan['spec']
    if plan['src'] == 'built':
        xc = must('build', cg.build_corpus, spec)
        stale(plan, xc)
        return xc
    import io
    doc = cg.xml_bytes(spec, None, 'utf-8')
    xc = must('build', xigtxml.load, io.BytesIO(doc), mode='full' if plan['src'] == 'loaded' else 'incremental')
    must('build', list, xc)
    stale(plan, xc)
    return xc


def stale(plan, xc):
    """Edits whose effects on references nobody has looked up yet."""
    for e in plan.get('stale', []):
        must('build', edits.apply_obj, xc, e, xc.nsmap)


def outcome(o):
    """Comparable outcome of an operation."""
    if o.ok:
        return ['ok', o.value]
    return ['raised', type(o.exc).__name__]


def run(plan, ctx):
    exc = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}
    with Env(ctx, plan) as fs, fs:
        xc = make(plan)
        twin = make(plan)      # never touched by an interrupt
        other = make(plan)     # what both are compared with
        m, mt = readops.keys(xc), readops.keys(twin)
        before = readops.deep(xc)
        serial = [0]

        def do(op, c, mm):
            serial[0] += 1
            return attempt(readops.do_op, op, c, fs, other, mm, 'o{}'.format(serial[0]))

        def check(what):
            d = readops.deep_diff(before, readops.deep(xc))
            require(d is None, 'changed', '{}: {}'.format(what, d))

        for op in plan['ops']:
            k = op['k']
            what = describe(op)
            how = op.get('how')
            if how == 'interrupt':
                # as often as the same operation executes lines
                res, n = count(op, twin, mt, fs, other, serial)
                serial[0] += 1
                nm = 'o{}'.format(serial[0])
                at = pos(n, op['at'])
                o, fired, where = sched.interrupt_at(lambda: readops.do_op(op, xc, fs, other, m, nm), at, exc[op['exc']])
                if fired:
                    ctx.fault('interrupt:' + op['exc'])
                    ctx.nontrivial()
                what += ' interrupted at {}'.format(where)
                ctx.log(k, 'interrupt', where, outcome(o)[0])
                ctx.mark(k, 'interrupt', at, n)
                changed_args(o, what)
                check(what)
            elif how == 'fail':
                arm(fs, op['fault'], {'counts': {'write': 3, 'open-w': 1, 'close': 1, 'truncate': 1}, 'nops': 6, 'written': 2000})
                o = do(op, xc, m)
                if fs.fired:
                    ctx.nontrivial()
                fs.faults = []
                fs.quota = None
                ctx.log(k, 'fail', outcome(o)[0], list(fs.fired))
                changed_args(o, what)
                check(what + ' on a failing disk')
            o = do(op, xc, m)
            changed_args(o, what)
            check(what)
            t = do(op, twin, mt)
            ctx.log(k, outcome(o)[0])
            ctx.mark(k, outcome(o)[0])
            require(outcome(o) == outcome(t), 'result', '{}: gives {} on the corpus and {} on an untouched twin'.format(
                what, short(o), short(t)))
        # the same edits on both
        if plan['edits']:
            for e in plan['edits']:
                ea = attempt(edits.apply_obj, xc, e, xc.nsmap)
                eb = attempt(edits.apply_obj, twin, e, twin.nsmap)
                attempt(edits.apply_obj, other, e, other.nsmap)
                require(ea.ok == eb.ok, 'later-edit', 'a later edit ({}): {} on the corpus, {} on an untouched twin'.format(e['op'], ea, eb))
            for c in (xc, twin, other):
                for g in c:
                    attempt(g.refresh_indices)
            m, mt = readops.keys(xc), readops.keys(twin)
            before = readops.deep(xc)
            for op in plan['ops']:
                o, t = do(op, xc, m), do(op, twin, mt)
                what = describe(op) + ' after later edits'
                require(outcome(o) == outcome(t), 'result', '{}: gives {} on the corpus and {} on an untouched twin'.format(what, short(o), short(t)))
                # and a corpus that was never read from
                fresh = make(plan)
                for e in plan['edits']:
                    attempt(edits.apply_obj, fresh, e, fresh.nsmap)
                for g in fresh:
                    attempt(g.refresh_indices)
                f = do(op, fresh, readops.keys(fresh))
                require(outcome(o) == outcome(f), 'result', '{}: gives {} on the corpus and {} on one edited without reading it first'.format(
                    what, short(o), short(f)))
                check(what)


def count(op, twin, mt, fs, other, serial):
    serial[0] += 1
    return sched.count_lines(lambda: readops.do_op(op, twin, fs, other, mt, 'o{}'.format(serial[0])))


def changed_args(o, what):
    require(o.ok or not isinstance(o.exc, readops.ArgsChanged), 'arguments', '{}: {}'.format(what, o))


def describe(op):
    return op['k'] + ''.join(' {}'.format(op[x]) for x in ('fmt', 'path', 'attrs', 'key') if op.get(x))


def short(o):
    s = '{}'.format(outcome(o))
    return s if len(s) < 300 else s[:300] + '...'
