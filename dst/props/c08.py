"""C08: threads working on separate corpora, or only reading one, get sequential results."""

import copy
import io
import json
import os
import random

from .. import corpusgen as cg
from .. import sched
from ..core import attempt, must, require
from . import edits, readops
from .c14 import place_bad
from .common import Env, fs_cfg

ID = 'C08'
RUNS = {'quick': 6000, 'thorough': 150000}
STEP_LIMIT = 60000000
RULE = ('One run: two to four threads, each with a random program over its own corpus (load in both formats and all modes, also damaged '
        'documents; edit, query, compare, validate, export, write, refused and failing writes) or over one shared fully loaded corpus (reading only), '
        'interleaved line by line by a seeded scheduler; every result and output is compared with the same program run alone. '
        'Non-trivial: the scheduler switched threads; distinct by (programs, schedule).')
REAL = ['xigt.codecs', 'xigt.model', 'xigt.mixins', 'xigt.metadata', 'xigt.query', 'xigt.ref', 'xigt.xigtpath', 'xigt.exporters',
        'xigt.scripts.xigt_validate']
STUB = ['thread scheduler (real threads, one runs at a time, switched between lines of the code under test)', 'file system', 'pyDelphin (stub)']
ASSUMPTIONS = ['threads are switched between lines of the library and its callbacks, not inside C code or the standard library']
KEEP_KEYS = ('k', 'where', 'fmt', 'enc', 'how', 'path', 'attrs', 'follow', 'kw', 'key', 'ns', 'cond', 'op', 'lvl', 'do', 'mode', 'bad', 'sched')

DO_OWN = ['op', 'op', 'op', 'op', 'load', 'load', 'loads', 'edit', 'walk', 'bad', 'damaged', 'abandon', 'missing']


def gen_step(rng, kn, shared, spec, serial):
    if shared:
        return {'do': 'op', 'op': readops.gen_op(rng)}
    d = rng.choice(DO_OWN)
    s = {'do': d}
    if d == 'op':
        s['op'] = readops.gen_op(rng)
    elif d in ('load', 'loads', 'damaged', 'abandon', 'walk'):
        s['fmt'] = rng.choice(['xml', 'xml', 'json'])
        s['mode'] = rng.choice(['full', 'incremental', 'transient'])
        s['cut'] = rng.randrange(1, 1000000)
        s['take'] = rng.choice([1, 2, 5])
    elif d == 'edit':
        s['edit'] = edits.gen_edit(rng, kn, cg.scope_of({}, spec), serial)
    elif d == 'bad':
        s['fmt'] = rng.choice(['xml', 'json'])
        s['bad'] = rng.choice(['obj-text', 'obj-attr', 'bytes-attr'])
        s['where'] = rng.randrange(1000)
    return s


def gen(rng, tier):
    n = rng.choice([2, 2, 2, 3, 4])
    shared = rng.random() < .4
    kn = cg.Knobs(rng, names_ascii=True)
    spec = readops.gen_spec(rng)
    threads = []
    for k in range(n):
        own = not shared or rng.random() < .15
        sp = readops.gen_spec(rng) if own else None
        kind = rng.random()
        if threads and kind < .35 and threads[0]['own'] == own:
            # the same work at the same time
            t = copy.deepcopy(threads[0])
            if rng.random() < .5 and own:
                t['spec'] = sp
        else:
            t = {'own': own, 'spec': sp, 'steps': [gen_step(rng, kn, not own, sp or spec, i) for i in range(rng.choice([1, 1, 2, 3]))]}
        threads.append(t)
    paths = [x['op'] for t in threads for x in t['steps'] if x['do'] == 'op' and 'path' in x['op']]
    if len(paths) > 1 and rng.random() < .4:
        for op in paths:
            op['path'] = paths[0]['path']
    sc = {'mode': rng.choice(['random', 'random', 'points', 'points', 'func', 'func', 'func']), 'parts': rng.choice([1, 4, 10, 25, 60]), 'p': rng.choice([.01, .05, .3, .9]), 'n': rng.choice([1, 2, 3, 8, 30]),
          'seed': rng.randrange(1 << 30)}
    # the threads may be the first to use the library, or the same work has been done alone before (so that anything
    # the library keeps is there); their length is not known when they are first
    sc['first'] = rng.random() < .5
    sc['total'] = rng.choice([100, 1000, 10000, 50000])
    return {'spec': spec, 'threads': threads, 'sched': sc, 'cfg': fs_cfg(rng), 'fseed': rng.randrange(1 << 30)}


def program(t, i, fs, shared, keys, twin, tag):
    """The thread's work as a function returning plain data."""
    from xigt.codecs import xigtjson, xigtxml

    def body():
        out = []
        xc = shared
        m = keys
        if t['own']:
            xc = cg.build_corpus(t['spec'])
            m = None
        serial = 0
        for s in t['steps']:
            serial += 1
            name = '{}{}-{}'.format(tag, i, serial)
            d = s['do']
            codec = {'xml': xigtxml, 'json': xigtjson}.get(s.get('fmt'))
            if d == 'op':
                mm = m if m is not None else readops.keys(xc)
                o = attempt(readops.do_op, s['op'], xc, fs, twin, mm, name)
                out.append(o.value if o.ok else [type(o.exc).__name__, msg(o.exc)])
            elif d == 'edit':
                o = attempt(edits.apply_obj, xc, s['edit'], xc.nsmap)
                for g in xc:
                    attempt(g.refresh_indices)
                out.append([o.ok, cg.canon(xc, xml=False)])
            elif d == 'bad':
                undo = place_bad(xc, s, None)
                o = attempt(codec.dumps, xc)
                out.append(['bad', undo is not None, o.ok, None if o.ok else type(o.exc).__name__])
                if undo:
                    undo()
                o = attempt(codec.dumps, xc)
                out.append(o.value if o.ok else [type(o.exc).__name__, msg(o.exc)])
            elif d == 'missing':
                o = attempt(xigtxml.load, fs.p('nosuch' + name))
                out.append(type(o.exc).__name__ if not o.ok else 'loaded')
            else:
                doc = fs.get('doc{}.{}'.format(i, s['fmt']))
                if d == 'damaged':
                    doc = doc[:max(1, len(doc) * s['cut'] // 1000000)]
                if d == 'loads':
                    o = attempt(codec.loads, doc.decode('utf-8'))
                else:
                    fs.put(name, doc)
                    o = attempt(codec.load, fs.p(name), s['mode'])
                if not o.ok:
                    out.append([d, type(o.exc).__name__, msg(o.exc)])
                    continue
                yc = o.value
                if d in ('walk', 'abandon'):
                    it = iter(yc)
                    got = []
                    for _ in range(s['take']):
                        o = attempt(next, it, None)
                        got.append(cg.canon(o.value) if o.ok and o.value is not None else o.name)
                    out.append([d, got])
                    if d == 'abandon':
                        continue
                    del it
                if yc.mode == 'transient':
                    o = attempt(lambda: [cg.canon(g) for g in yc])
                else:
                    o = attempt(cg.canon, yc)
                    if o.ok:
                        xc, m = yc, None
                out.append([d, o.value if o.ok else [type(o.exc).__name__, msg(o.exc)]])
        return out
    return body


def msg(e):
    s = str(e)
    i = s.find('/')
    return (s if i < 0 else s[:i])[:100]


def run(plan, ctx):
    with Env(ctx, plan) as fs, fs:
        ths = plan['threads']
        if len(ths) < 2:
            return
        for i, t in enumerate(ths):
            if t['own']:
                fs.put('doc{}.xml'.format(i), cg.xml_bytes(t['spec'], None, 'utf-8'))
                fs.put('doc{}.json'.format(i), json.dumps(cg.json_obj(t['spec'])).encode())
        twin = must('build', cg.build_corpus, plan['spec'])
        expected = []

        def alone():
            lines = 0
            for i, t in enumerate(ths):
                sh = cg.build_corpus(plan['spec'])
                o, n = sched.count_lines(program(t, i, fs, sh, readops.keys(sh), twin, 's'))
                require(o.ok, 'harness', 'solo run failed: {}'.format(o))
                lines += n
                expected.append(o.value)
            return lines
        sc = plan['sched']
        total = sc['total'] if sc.get('first') else alone()
        shared = cg.build_corpus(plan['spec'])
        keys = readops.keys(shared)
        before = readops.deep(shared)
        s = sched.Sched(random.Random(sc['seed']), sc['mode'], sc['p'], sc['n'], total=total, parts=sc.get('parts', 8))
        outs = s.run([program(t, i, fs, shared, keys, twin, 't') for i, t in enumerate(ths)])
        if sc.get('first'):
            ctx.probe('threads-first')
            alone()
        if s.switches:
            ctx.nontrivial()
        ctx.log('switches', s.switches, s.lines, s.trace[:50])
        ctx.mark([[x['do'], x.get('op', {}).get('k')] for t in ths for x in t['steps']], s.switches, s.trace[:200])
        for i, (o, e) in enumerate(zip(outs, expected)):
            require(o.ok, 'interleaved', 'thread {} failed: {}'.format(i, o))
            for k, (a, b) in enumerate(zip(o.value, e)):
                require(a == b, 'interleaved', 'thread {} of {}, result {}: {} differs from the same work done alone: {}'.format(
                    i, len(ths), k, *first_diff(a, b)))
            require(len(o.value) == len(e), 'interleaved', 'thread {} gave {} results, alone {}'.format(i, len(o.value), len(e)))
        d = readops.deep_diff(before, readops.deep(shared))
        require(d is None, 'changed', 'the shared corpus: {}'.format(d))


def first_diff(a, b):
    if isinstance(a, list) and isinstance(b, list):
        for x, y in zip(a, b):
            if x != y:
                return first_diff(x, y)
    a, b = repr(a), repr(b)
    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    k = max(0, k - 60)
    return a[k:k + 160], b[k:k + 160]
