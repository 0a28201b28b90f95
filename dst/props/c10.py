"""C10: lazily evaluated queries and traversals are independent, exact and finite."""

import random

from .. import corpusgen as cg
from ..core import attempt, must, require
from .common import pick
from . import refpath
from .c07 import mentioned

ID = 'C10'
RUNS = {'quick': 12000, 'thorough': 400000}
STEP_LIMIT = 2000000
RULE = ('One run: a random corpus with tier and item references (cyclic and self references, look-alike ids) and a random schedule '
        'that opens, advances, abandons and throws into several path queries, selections and ancestor/descendant walks; every '
        'result is compared with the same query evaluated at once on a twin corpus, every path generated as a tree also with an independent '
        'evaluator of such trees, and every walk with an independent reading of the references. Non-trivial: the steps of two queries were interleaved; distinct by (queries, schedule).')
REAL = ['xigt.xigtpath', 'xigt.query', 'xigt.ref', 'xigt.model', 'xigt.mixins']
STUB = ['the query scheduler']
ASSUMPTIONS = ['references to tiers that do not exist are not walked']
KEEP_KEYS = ('kind', 'op', 'k', 'path', 'at', 'attrs', 'follow', 'id', 'where', 'mode', 'how')

IDS = ['a', 'aa', 'ab', 'b', 'm', 'mm', 'gm', 'w', 'ww', 'w-a', 'g', 'p']
ATTR = ['alignment', 'segmentation', 'content']


def gen_igt(rng, gid, kn):
    ids = rng.sample(IDS, rng.choice([1, 2, 3, 5, 7]))
    tiers = []
    shape = rng.choice(['acyclic', 'acyclic', 'any', 'ring', 'self'])
    items = {t: [t + j for j in cg.id_suffixes(rng, rng.choice([1, 2, 3, 4]))] for t in ids}
    for k, t in enumerate(ids):
        s = {'id': t, 'items': []}
        if rng.random() < .6:
            s['type'] = rng.choice(['words', 'glosses', 'x'])
        refs = {}
        for ra in rng.sample(ATTR, rng.choice([0, 1, 1, 1, 2])):
            if shape == 'acyclic':
                to = rng.choice(ids[:k]) if k else None
            elif shape == 'ring':
                to = ids[(k + 1) % len(ids)]
            elif shape == 'self':
                to = rng.choice([t, rng.choice(ids)])
            else:
                to = rng.choice(ids)
            if to:
                refs[ra] = to
        if refs:
            s['attrs'] = dict(refs)
        for i in items[t]:
            it = {'id': i, 'text': rng.choice(['x', 'y z', None])}
            at = {}
            for ra, to in refs.items():
                if rng.random() < .85:
                    at[ra] = rng.choice('+,').join(rng.sample(items[to], rng.choice([1, 1, min(2, len(items[to]))])))
                    if rng.random() < .2:
                        at[ra] += '[0:1]'
            if at:
                it['attrs'] = at
            s['items'].append(it)
        tiers.append(s)
    g = {'id': gid, 'tiers': tiers}
    if rng.random() < .4:
        g['mds'] = [{'type': 'xigt-meta', 'metas': [{'type': 'language', 'attrs': {'code': 'x'}, 'children': [{'name': 'q', 'text': 't'}]}]}]
    return g


STEPS = ['igt', 'tier', 'item', '*', 'metadata', 'meta', '..', '.', 'q']
PREDS = ['[@type="words"]', '[@id="{}"]', '[@type!="x"]', '[tier/@id="{}"]', '[item]', '[metadata]', '[@alignment]', '[tier]', '[@zz:q="1"]']
LAST = ['@id', '@type', '@alignment', 'text()', 'value()', 'referent()', 'referrer()', 'referent("alignment")', 'referrer("segmentation")',
        '@*', '@no:such', 'nothing']


def gen_path(rng):
    x = rng.random()
    parts = []
    if x < .25:
        start = '//' + rng.choice(['igt', 'tier', 'item', 'meta', 'metadata', 'q'])
    elif x < .5:
        start = rng.choice(['igt', 'igt/tier', 'igt/tier/item', '/igt', '/igt/tier/item', '/metadata/meta', 'igt//item'])
    elif x < .6:
        start = rng.choice(['(igt/tier|igt)', '(tier|metadata)', '(igt|metadata)', '//item[@id="a1"]/(..|.)'])
    else:
        start = rng.choice(STEPS)
    p = start
    if rng.random() < .3:
        p += rng.choice(PREDS).format(rng.choice(IDS))
    for _ in range(rng.choice([0, 0, 1, 2])):
        p += rng.choice(['/', '/', '//']) + rng.choice(STEPS[:8])
        if '//..' in p or '//.' in p or '//*' in p:
            p = start
        if rng.random() < .3:
            p += rng.choice(PREDS).format(rng.choice(IDS))
    if rng.random() < .35:
        p += '/' + rng.choice(LAST)
    return p


def gen(rng, tier):
    kn = cg.Knobs(rng)
    n = rng.choice([1, 1, 2, 3])
    spec = {'igts': [gen_igt(rng, 'i{}'.format(k), kn) for k in range(n)]}
    if rng.random() < .5:
        spec['mds'] = [{'type': 'xigt-meta', 'metas': [{'type': 'language', 'children': [{'name': 'q', 'children': [{'name': 'q'}]}]}]}]
    if rng.random() < .5:
        refpath.enrich(rng, spec, True)
    qs = []
    for _ in range(rng.choice([2, 3, 5])):
        x = rng.random()
        where = [rng.choice(['corpus', 'corpus', 'igt', 'tier', 'item']), rng.randrange(9), rng.randrange(9), rng.randrange(9)]
        if x < .15:
            q = {'kind': 'path', 'path': gen_path(rng)}
        elif x < .42:
            ast = refpath.gen_path(rng, where[0])
            q = {'kind': 'path', 'ast': ast}
        elif x < .5:
            q = {'kind': 'select', 'k': rng.choice(['type', 'id', 'namespace', 'none']), 'v': rng.choice(IDS + ['words', 'glosses', 'i0'])}
        elif x < .75:
            q = {'kind': 'anc', 'attrs': rng.sample(ATTR, rng.choice([1, 2, 3]))}
        else:
            q = {'kind': 'desc', 'attrs': rng.sample(ATTR, rng.choice([1, 2, 3])), 'follow': rng.choice(['first', 'first', 'all'])}
        if q['kind'] in ('anc', 'desc'):
            where[0] = rng.choice(['tier', 'item'])
            if rng.random() < .2:
                q['attrs'] = None
        q['where'] = where
        qs.append(q)
    steps = []
    for _ in range(rng.choice([6, 15, 40])):
        x = rng.random()
        steps.append({'k': rng.randrange(len(qs)), 'op': 'next' if x < .85 else rng.choice(['close', 'throw', 'once', 'restart', 'restart'])})
    return {'spec': spec, 'qs': qs, 'steps': steps, 'mode': rng.choice(['full', 'full', 'incremental'])}


class World(object):
    def __init__(self, spec, mode):
        self.xc = must('build', cg.build_corpus, spec, mode, iter([cg.build_igt(g, cg.scope_of({}, spec)) for g in spec['igts']]) if mode != 'full' else None)

    def target(self, where):
        lvl, a, b, c = where
        x = self.xc
        if lvl == 'corpus':
            return x
        must('build', list, x)
        x = pick(x, a)
        if lvl == 'igt' or x is None:
            return x
        x = pick(x, b)
        if lvl == 'tier' or x is None:
            return x
        return pick(x, c) or x

    def start(self, q):
        from xigt import xigtpath, query
        x = self.target(q['where'])
        if q['kind'] == 'path':
            path = name(q)
            return lambda: xigtpath.iterfind(x, path)
        if q['kind'] == 'select':
            kw = {} if q['k'] == 'none' else {q['k']: q['v']}
            return lambda: iter(x.select(**kw))
        kw = {}
        if q['attrs'] is not None:
            kw['refattrs'] = tuple(q['attrs'])
        if q['kind'] == 'anc':
            return lambda: query.ancestors(x, **kw)
        return lambda: query.descendants(x, follow=q['follow'], **kw)

    def keys(self):
        """Object identity -> where it is."""
        m = {}

        def put(x, path):
            m[id(x)] = path
            subs = []
            kind = cg.kind_of(x)
            if kind in ('corpus', 'igt', 'tier'):
                subs += [('md', y) for y in x.metadata]
            if kind != 'item':
                subs += [('c', y) for y in list.__iter__(x)]
            for n, (s, y) in enumerate(subs):
                put(y, path + [s + str(n)])
        put(self.xc, ['/'])
        return m


def flat(v, m):
    if isinstance(v, tuple):
        return [flat(x, m) for x in v]
    if isinstance(v, list) and id(v) not in m:
        return [flat(x, m) for x in v]
    if v is None or isinstance(v, (str, int, bool)):
        return v
    return '/'.join(m.get(id(v), ['unknown ' + type(v).__name__]))


def downward(p, top=True):
    """Does the path look at the igts of a corpus once, and never up from them?"""
    if p.get('abs'):
        return False
    for n, s in enumerate(p['steps']):
        if s['axis'] == 'parent' or (top and n == 0 and s['axis'] not in ('child', 'desc')):
            return False
        if not all(downward(a, False) for a in s.get('alts', ())):
            return False
        if not all(downward(q['path'], top and n == 0 and s['axis'] == 'desc') for q in s.get('preds', ())):
            return False
    # (the corpus itself must not be found)
    return not top or p['steps'][0]['axis'] == 'child' or p['steps'][0]['name'] != '*'


def looks(v):
    """What a result is, when it cannot be kept."""
    if v is None or isinstance(v, (str, int, bool)):
        return v
    return [cg.kind_of(v), v.id, v.type, sorted(v.attributes.items()), getattr(v, 'text', None)]


def streamed(ctx, spec, q, model):
    """The query over IGTs that are gone once they have been looked at."""
    from xigt import xigtpath
    for k in (1, 3):
        plan = dict(spec, igts=[dict(g, id='{}-{}'.format(g['id'], j) if j else g['id']) for j in range(k) for g in spec['igts']])
        xc = must('build', cg.build_corpus, plan, 'transient', (cg.build_igt(g, cg.scope_of({}, plan)) for g in plan['igts']))
        got = []

        def go():
            for v in xigtpath.iterfind(xc, name(q)):
                got.append(looks(v))
        o = attempt(go)
        require(o.ok, 'failed', '{} of a transient corpus raised {}'.format(name(q), o))
        exp = model if k == 1 else None
        if exp is None:
            full = World(plan, 'full')
            exp = [looks(v) for v in must('find', xigtpath.findall, full.xc, name(q))]
        ctx.probe('streamed')
        compare(got, exp, 'inexact', '{} of a transient corpus of {} igts'.format(name(q), len(plan['igts'])))


def evaluate(start):
    """All results at once -> (list, error)"""
    out = []
    o = attempt(start)
    if not o.ok:
        return out, type(o.exc).__name__
    it = o.value
    while True:
        o = attempt(next, it)
        if not o.ok:
            return out, None if isinstance(o.exc, StopIteration) else type(o.exc).__name__
        out.append(o.value)


# ----------------------------------------------------- independent walks

def refs_of(x, ra):
    return mentioned(x.attributes.get(ra))


def model_ancestors(igt, tier, items, refattrs):
    out = []
    seen = {tier.id}
    while True:
        ra = [r for r in refattrs if r in tier.attributes]
        if not ra:
            return out
        ra = ra[0]
        to = next(t for t in igt if t.id == tier.attributes[ra])
        ids = set()
        for i in items:
            ids.update(refs_of(i, ra))
        its = [i for i in to if i.id in ids]
        out.append((tier, ra, to, its))
        if to.id in seen:
            return out
        seen.add(to.id)
        tier, items = to, its


def model_descendants(igt, tier, items, refattrs, follow):
    out = []
    seen = set()
    todo = [(tier, items)]
    while todo:
        tier, items = todo.pop(0)
        by = [(ra, [t for t in igt if tier.id in refs_of(t, ra)]) for ra in refattrs]
        by = [x for x in by if x[1]]
        if follow == 'first':
            by = by[:1]
        for ra, ts in by:
            if (tier.id, ra) in seen:
                continue
            seen.add((tier.id, ra))
            ids = set(i.id for i in items)
            for t in ts:
                its = [i for i in t if ids & set(refs_of(i, ra))]
                out.append((tier, ra, t, its))
                todo.append((t, its))
    return out


def shortcuts(x, path, vals, tk):
    """find() and findall() agree with iterfind(); a path that stops after a
    slash is none."""
    from xigt import xigtpath
    one = must('failed', xigtpath.find, x, path)
    compare([] if one is None else [flat(one, tk)], [v for v in vals[:1] if v is not None], 'inexact', 'find ' + path)
    compare([flat(v, tk) for v in must('failed', xigtpath.findall, x, path)], vals, 'inexact', 'findall ' + path)
    for bad in ('/', '//'):
        o = attempt(xigtpath.findall, x, path + bad)
        require(not o.ok, 'accepted', '{} is no path, but finds {} objects'.format(path + bad, len(o.value) if o.ok else 0))


def run(plan, ctx):
    spec, qs = plan['spec'], plan['qs']
    if not qs or not spec['igts']:
        return
    twin = World(spec, 'full')
    tk = twin.keys()
    expected = []
    for q in qs:
        x = twin.target(q['where'])
        if x is None or (q['kind'] in ('anc', 'desc') and cg.kind_of(x) not in ('tier', 'item')):
            expected.append(None)
            continue
        if q['kind'] == 'select' and cg.kind_of(x) == 'item':
            expected.append(None)
            continue
        if 'ast' in q and not refpath.valid(q['ast']):
            expected.append(None)
            continue
        model = None
        if 'ast' in q:
            try:
                model = refpath.evaluate(twin.xc, x, q['ast'])
            except refpath.TooMuch:
                ctx.probe('too-large')
                expected.append(None)
                continue
            except refpath.Skip as e:
                ctx.probe('unjudged')
                ctx.log('unjudged', str(e))
                if name(q).count('/') > 6:
                    expected.append(None)
                    continue
        vals, err = evaluate(twin.start(q))
        vals = [flat(v, tk) for v in vals]
        if model is not None:
            ctx.probe('reference')
            if model:
                ctx.probe('reference-found')
            require(err is None, 'failed', '{} of {} raised {}'.format(name(q), q['where'][0], err))
            compare(vals, [flat(v, tk) for v in model], 'inexact', name(q))
            shortcuts(x, name(q), vals, tk)
            if q['where'][0] == 'corpus' and downward(q['ast']):
                streamed(ctx, spec, q, [looks(v) for v in model])
        if q['kind'] in ('anc', 'desc'):
            item = cg.kind_of(x) == 'item'
            tier, items = (x.tier, [x]) if item else (x, list(x))
            ra = tuple(q['attrs']) if q['attrs'] is not None else (
                ('alignment', 'segmentation') if q['kind'] == 'anc' else ('segmentation', 'alignment'))
            known = set(t.id for t in tier.igt)
            if all(t.attributes.get(r, t.id) in known for t in tier.igt for r in ra):
                model = (model_ancestors(tier.igt, tier, items, ra) if q['kind'] == 'anc' else
                         model_descendants(tier.igt, tier, items, ra, q['follow']))
                model = [flat(v, tk) for v in model]
                require(err is None, 'failed', '{} of {} raised {}'.format(q['kind'], x.id, err))
                compare(vals, model, 'inexact', '{} of {} by {}'.format(q['kind'], x.id, ','.join(ra)))
            else:
                expected.append(None)
                continue
        expected.append((vals, err))
        ctx.log(q['kind'], len(vals), err)
        ctx.mark(q['kind'], len(vals), err)
    w = World(spec, plan['mode'])
    live = {}
    got = {}

    def finish(k, err):
        exp, experr = expected[k]
        m = w.keys()
        vals = [flat(v, m) for v in got[k]]
        compare(vals, exp, 'interleaved', name(qs[k]))
        require(err == experr, 'interleaved', '{} ended with {}, at once with {}'.format(name(qs[k]), err, experr))

    def prefix(k):
        exp, _ = expected[k]
        m = w.keys()
        vals = [flat(v, m) for v in got[k]]
        compare(vals, exp[:len(vals)], 'interleaved', name(qs[k]))

    def step(k):
        if k not in live:
            o = attempt(w.start(qs[k]))
            got[k] = []
            if not o.ok:
                finish(k, type(o.exc).__name__)
                return False
            live[k] = o.value
        if len(live) > 1:
            ctx.nontrivial()
        o = attempt(next, live[k])
        if o.ok:
            got[k].append(o.value)
            return True
        del live[k]
        finish(k, None if isinstance(o.exc, StopIteration) else type(o.exc).__name__)
        ctx.probe('finished')
        return False

    for s in plan['steps']:
        k = s['k'] % len(qs)
        if expected[k] is None:
            continue
        ctx.log(s['op'], k)
        ctx.mark(s['op'], k)
        if s['op'] == 'next':
            step(k)
        elif s['op'] == 'once':
            vals, err = evaluate(w.start(qs[k]))
            m = w.keys()
            compare([flat(v, m) for v in vals], expected[k][0], 'interleaved', name(qs[k]))
            require(err == expected[k][1], 'interleaved', '{} ended with {}, alone with {}'.format(name(qs[k]), err, expected[k][1]))
        elif k in live:
            it = live.pop(k)
            prefix(k)
            ctx.fault('abandoned-query')
            if s['op'] == 'throw' and hasattr(it, 'throw'):
                attempt(it.throw, ValueError('thrown in'))
            elif s['op'] == 'close' and hasattr(it, 'close'):
                must('close', it.close)
            del it
            if s['op'] == 'restart':
                step(k)
    # let everything run to its end, round robin
    while live:
        for k in sorted(live):
            if k in live:
                step(k)


def name(q):
    return q.get('path') or (refpath.render(q['ast']) if 'ast' in q else q['kind'])


def compare(got, exp, cls, what):
    for n, (a, b) in enumerate(zip(got, exp)):
        require(a == b, cls, '{}: result {} is {!r}, expected {!r}'.format(what, n, a, b))
    require(len(got) == len(exp), cls, '{}: {} results, expected {}'.format(what, len(got), len(exp)))
