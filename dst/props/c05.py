"""C05: lazily loaded corpora deliver every IGT once per pass."""

import gc
import json
import random
import weakref

from .. import corpusgen as cg
from .. import sched
from ..core import attempt, must, require
from .c02 import json_doc
from .common import Env, fs_cfg, gen_source, document, load_doc, read_xml, same, pos, frac, pick

ID = 'C05'
RUNS = {'quick': 14000, 'thorough': 400000}
RULE = ('One run: a random corpus is loaded lazily (from an XML or JSON document through a simulated source, or from a counting '
        'generator), and a random schedule opens, advances, closes, throws into and drops several passes, selections and path '
        'queries over it, mixed with lookups, writes and, for incremental corpora, interrupts at a chosen line. Non-trivial: two '
        'passes were open at once or one was abandoned; distinct by (mode, source, schedule of steps and outcomes).')
REAL = ['xigt.model', 'xigt.mixins', 'xigt.xigtpath', 'xigt.codecs.xigtxml', 'xigt.codecs.xigtjson', 'xml.etree/expat', 'io layers']
STUB = ['the pass scheduler', 'files, pipes and handles below the io layers (simfs, streams)']
ASSUMPTIONS = ['a pass that raised is over (as Python generators are)',
               'after an injected interrupt a corpus may refuse to go on with an error, but must not end normally or skip anything',
               'a query holds at most the IGT it is at']
KEEP_KEYS = ('op', 'k', 'kind', 'mode', 'source', 'src', 'cfg', 'fseed', 'fmt', 'seed', 'enc', 'how', 'at', 'i', 'name', 'key', 'exc')

PASS_KINDS = ['iter', 'iter', 'iter', 'select', 'select-id', 'igt', 'tier', 'item', 'igt-id', 'zip']


def gen(rng, tier):
    kn = cg.Knobs(rng, max_igts=rng.choice([1, 2, 3, 5, 8]))
    source = rng.choice(['xml', 'xml', 'xml', 'json', 'gen', 'gen', 'gen-list'])
    mode = rng.choice(['incremental', 'transient'])
    spec = cg.gen_corpus(rng, kn, n=rng.choice([None, kn.max_igts]))
    if rng.random() < .5 and kn.meta:
        spec.setdefault('mds', []).append({'type': 'xigt-meta', 'metas': [{'type': 'language', 'text': 'zz'}, {'type': 'author'}]})
    src = gen_source(rng, encs=['utf-8'])
    sig = 4 if tier == 'quick' else 8
    ops = []
    for _ in range(rng.choice([3, 8, 15, 30])):
        x = rng.random()
        k = rng.randrange(sig)
        if x < .22:
            ops.append({'op': 'open', 'k': k, 'kind': rng.choice(PASS_KINDS), 'i': rng.randrange(9)})
        elif x < .68:
            ops.append({'op': 'next', 'k': k})
        elif x < .76:
            ops.append({'op': 'close', 'k': k, 'how': rng.choice(['close', 'del', 'throw', 'del'])})
        elif x < .80:
            ops.append({'op': 'drain', 'k': k})
        elif x < .87:
            ops.append({'op': 'look'})
        elif x < .90:
            ops.append({'op': 'gc'})
        elif x < .93:
            ops.append({'op': 'find', 'i': rng.randrange(9)})
        elif x < .97:
            ops.append({'op': rng.choice(['igts', 'list', 'dumps', 'json', 'in', 'findall', 'len', 'repr'])})
        elif mode == 'incremental' and rng.random() < .5:
            ops.append({'op': 'interrupt', 'k': k, 'at': frac(rng), 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
        else:
            ops.append({'op': 'next', 'k': k})
    return {'spec': spec, 'source': source, 'mode': mode, 'src': src, 'ops': ops, 'cfg': fs_cfg(rng), 'fseed': rng.randrange(1 << 30)}


def brief(v):
    """(the text of a model object may need what is missing)"""
    return '{} {}'.format(type(v).__name__, getattr(v, 'id', ''))


class Counting(object):
    def __init__(self, spec):
        self.scope = cg.scope_of({}, spec)
        self.spec = spec
        self.pulled = 0

    def __iter__(self):
        for g in self.spec.get('igts', []):
            self.pulled += 1
            yield cg.build_igt(g, self.scope)
        self.pulled += 1


class Pass(object):
    def __init__(self, kind, it, arg=None):
        self.kind = kind
        self.it = it
        self.arg = arg
        self.p = 0          # next IGT (incremental)
        self.queue = []     # what the IGT it is at still has to give


class World(object):
    def __init__(self, plan, ctx, xc, counter):
        self.ctx = ctx
        self.xc = xc
        self.spec = plan['spec']
        self.inc = plan['mode'] == 'incremental'
        self.exp = [cg.canon_spec(g, 'igt', cg.scope_of({}, self.spec)) for g in self.spec.get('igts', [])]
        if plan['source'] == 'json':
            self.exp = [cg.canon_spec(g, 'igt', cg.scope_of({}, self.spec), xml=False) for g in self.spec.get('igts', [])]
        self.xml = plan['source'] != 'json'
        self.n = len(self.exp)
        self.seen = []       # incremental: delivered objects
        self.taken = 0       # transient: how many were delivered
        self.refs = []
        self.passes = {}
        self.counter = counter
        self.ended = False   # someone needed the end
        self.shaky = False   # interrupted

    # -- one IGT arrives
    def check(self, g, k):
        require(k < self.n, 'extra', 'IGT {} was delivered, but there are only {}'.format(k, self.n))
        same(self.exp[k], cg.canon(g, self.xml), 'changed', 'IGT {}'.format(k))
        require(g.corpus is self.xc, 'link', 'IGT {} is not linked to its corpus'.format(k))
        s = self.spec['igts'][k]
        for key in ('language', 'author'):
            exp = metas_of(s, key) or metas_of(self.spec, key)
            got = g.get_meta(key)
            exp = [m.get('text') for m in exp]
            got = None if got is None else [m.text for m in got]
            require((got or []) == [t if t is None or t.strip() or not self.xml else None for t in exp], 'link',
                    'IGT {} has the metadata {} = {!r}, expected {!r}'.format(k, key, got, exp))

    def delivered(self, g, p):
        """A pass at position p got g."""
        if self.inc:
            if p < len(self.seen):
                require(g is self.seen[p], 'identity', 'IGT {} of a later pass is not the object delivered before'.format(p))
            else:
                self.check(g, p)
                self.seen.append(g)
            return
        self.check(g, self.taken)
        self.refs.append(weakref.ref(g))
        self.taken += 1

    def arrived(self):
        return len(self.seen) if self.inc else self.taken

    def expected(self, ps, igt):
        """What a pass yields for one IGT spec."""
        s = self.spec['igts'][igt]
        kind = ps.kind
        if kind in ('iter', 'select', 'igt', 'zip'):
            return [('igt', igt)]
        if kind in ('select-id', 'igt-id'):
            return [('igt', igt)] if s.get('id') == ps.arg else []
        if kind == 'tier':
            return [('tier', igt, j) for j in range(len(s.get('tiers', [])))]
        return [('item', igt, j, l) for j, t in enumerate(s.get('tiers', [])) for l in range(len(t.get('items', [])))]

    def step(self, ps):
        """Advance a pass and check -> True while it goes on"""
        want = None
        while not ps.queue:
            k = ps.p if self.inc else self.taken
            if not self.inc:
                k = self.future
            if k >= self.n:
                self.ended = True
                break
            ps.queue = self.expected(ps, k)
            ps.p = k + 1
            if not self.inc:
                self.future += 1
        want = ps.queue.pop(0) if ps.queue else None
        o = attempt(next, ps.it)
        if not o.ok and not isinstance(o.exc, StopIteration):
            require(self.shaky, 'failed', 'a pass ({}) failed: {}'.format(ps.kind, o))
            return False
        if not o.ok:
            require(want is None, 'missing', 'a pass ({}) ended before {}'.format(ps.kind, want))
            return False
        require(want is not None, 'extra', 'a pass ({}) goes on after the last IGT: {}'.format(ps.kind, brief(o.value)))
        self.got(ps, want, o.value)
        return True

    def got(self, ps, want, v):
        k = want[1]
        if ps.kind == 'zip':
            v = v[0]
        if want[0] == 'igt':
            self.arrive_until(k, v)
        else:
            require(type(v).__name__.lower() == want[0], 'changed', 'a query for {} gave {}'.format(want[0], brief(v)))
            g = v.igt
            require(g is not None, 'link', '{} {} is not linked to an IGT'.format(want[0], want[1:]))
            self.arrive_until(k, g)
            t = g[want[2]]
            x = t if want[0] == 'tier' else t[want[3]]
            require(v is x, 'changed', 'a query gave {} instead of {}'.format(brief(v), want))

    def arrive_until(self, k, g):
        """IGT k was delivered as g; the ones before it have arrived too."""
        if self.inc:
            while len(self.seen) < k:
                i = len(self.seen)
                require(len(self.xc) > i, 'missing', 'IGT {} was delivered but IGT {} is not kept'.format(k, i))
                self.delivered(list.__getitem__(self.xc, i), i)
            self.delivered(g, k)
        else:
            if k < self.taken:
                return      # another result from the same IGT
            # the ones before it were taken by a query that skipped them
            self.taken = k
            self.delivered(g, k)

    def sync(self):
        """Incremental: what was loaded by an operation that delivered no
        IGT itself."""
        if self.inc:
            n = len(self.xc)
            require(n >= len(self.seen), 'missing', '{} IGTs were delivered, only {} are kept'.format(len(self.seen), n))
            for i in range(len(self.seen), n):
                self.delivered(list.__getitem__(self.xc, i), i)

    def economy(self, limit):
        """Nothing is read before it is needed."""
        if self.counter is not None:
            require(self.counter.pulled <= limit, 'eager', '{} IGTs were taken from the source, {} are needed'.format(
                self.counter.pulled, limit))


def metas_of(s, key):
    return [m for md in s.get('mds', []) if md.get('type') == 'xigt-meta' for m in md.get('metas', []) if m.get('type') == key]


def run(plan, ctx):
    from xigt import XigtCorpus, xigtpath
    from xigt.codecs import xigtxml, xigtjson
    spec, source, mode = plan['spec'], plan['source'], plan['mode']
    counter = None
    with Env(ctx, plan) as fs, fs:
        if source in ('gen', 'gen-list'):
            counter = Counting(spec)
            igts = iter(counter) if source == 'gen' else counter
            xc = must('load', cg.build_corpus, spec, mode, igts)
        elif source == 'xml':
            xc, _ = must('load', load_doc, xigtxml, spec, plan['src'], ctx, fs, mode)
        else:
            text, data = json_doc(spec, plan['src'])
            xc, _ = must('load', load_doc, xigtjson, spec, plan['src'], ctx, fs, mode, data=data, text=text)
        w = World(plan, ctx, xc, counter)
        w.future = 0
        w.economy(0)
        require(len(xc) == 0, 'eager', '{} IGTs were loaded before any was asked for'.format(len(xc)))
        ctx.mark(mode, source, w.n)
        need = 0
        for op in plan['ops']:
            do = op['op']
            ps = w.passes.get(op.get('k'))
            ctx.log(do, op.get('k'))
            if do == 'open':
                w.passes[op['k']] = open_pass(w, op, xigtpath)
                ps = None
                ctx.mark('open', op['k'], op['kind'])
            elif do in ('next', 'drain') and ps is not None:
                if len(w.passes) > 1:
                    ctx.nontrivial()
                more = w.step(ps)
                n = 0
                while more and do == 'drain':
                    more = w.step(ps)
                    n += 1
                ctx.log('more' if more else 'over', w.arrived())
                ctx.mark(do[0], op['k'], more)
                if not more:
                    del w.passes[op['k']]
            elif do == 'close' and ps is not None:
                ctx.nontrivial()
                ctx.fault('abandoned-pass')
                if op['how'] == 'throw' and hasattr(ps.it, 'throw'):
                    attempt(ps.it.throw, KeyError('thrown in'))
                elif op['how'] == 'close' and hasattr(ps.it, 'close'):
                    must('close', ps.it.close)
                ctx.mark('close', op['k'])
                del w.passes[op['k']]
            elif do == 'interrupt' and ps is not None and w.inc and ps.kind == 'iter':
                # how many lines the step takes is not known: spread
                k = pos(120, op['at'])
                o, fired, where = sched.interrupt_at(lambda: next(ps.it), k, {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[op['exc']])
                ctx.log('interrupt', fired, where, o.name)
                if fired:
                    ctx.fault('interrupt')
                    w.shaky = True
                    w.counter = None
                    del w.passes[op['k']]
                    o = None
                else:
                    if o.ok:
                        require(ps.p < w.n, 'extra', 'a pass goes on after the last IGT')
                        w.arrive_until(ps.p, o.value)
                        ps.p += 1
                    else:
                        require(w.shaky or (isinstance(o.exc, StopIteration) and ps.p >= w.n), 'missing', 'a pass ended at {}: {}'.format(ps.p, o))
                        w.ended = w.ended or ps.p >= w.n
                        del w.passes[op['k']]
                o = None
            elif do == 'look':
                look(w, xc)
            elif do == 'gc':
                alive(w)
            elif do == 'find':
                find(w, op, xigtpath)
            elif do in ('igts', 'list', 'dumps', 'json', 'findall'):
                whole(w, do, xigtxml, xigtjson, xigtpath)
                ctx.mark(do)
            elif do == 'in':
                g = pick(w.seen, len(w.ctx.sig)) if w.inc else None
                if g is not None:
                    require(must('in', lambda: g in xc), 'lookup', 'a delivered IGT is not in the corpus')
            elif do == 'len':
                require(w.inc is False or len(xc) >= len(w.seen), 'missing', 'len(corpus) is {}'.format(len(xc)))
                require(w.inc or len(xc) == 0, 'kept', 'a transient corpus keeps {} IGTs'.format(len(xc)))
            elif do == 'repr':
                must('repr', repr, xc)
            if ps is not None:
                ps = None
            w.sync()
            need = max(need, w.future if not w.inc else max([len(w.seen)] + [p.p for p in w.passes.values()]))
            w.economy(need + (1 if w.ended else 0))
        # to the end
        w.passes.clear()
        if w.inc:
            ps = Pass('iter', iter(xc))
            more = True
            while more:
                more = w.step(ps)
            if w.shaky:
                return
            look(w, xc)
            same(cg.canon_spec(spec, xml=w.xml), cg.canon(xc, w.xml), 'exhausted', 'the exhausted corpus')
            full = cg.build_corpus(spec)
            if source.startswith('gen'):
                require(xc == full and full == xc, 'exhausted', 'the exhausted corpus does not equal the full one')
        else:
            ps = Pass('iter', iter(xc))
            while w.step(ps):
                pass
            require(w.future == w.n, 'missing', 'IGTs were lost')
            del ps
            alive(w)
            require(attempt(list, xc).value == [], 'repeated', 'an exhausted transient corpus delivers IGTs')
            same(dict(cg.canon_spec(spec, xml=w.xml), sub=[]), cg.canon(xc, w.xml), 'exhausted', 'the exhausted corpus')


def open_pass(w, op, xigtpath):
    xc, kind = w.xc, op['kind']
    ids = [g.get('id') for g in w.spec.get('igts', [])]
    if kind == 'iter':
        return Pass(kind, iter(xc))
    if kind == 'zip':
        return Pass(kind, zip(xc))
    if kind == 'select':
        return Pass(kind, must('select', xc.select))
    if kind == 'select-id':
        i = pick(ids, op['i'])
        return Pass(kind, must('select', lambda: xc.select(id=i)), i)
    if kind == 'igt-id':
        i = pick([x for x in ids if x], op['i']) or 'none'
        return Pass(kind, must('query', xigtpath.iterfind, xc, 'igt[@id="{}"]'.format(i)), i)
    path = {'igt': 'igt', 'tier': 'igt/tier', 'item': 'igt/tier/item'}[kind]
    return Pass(kind, must('query', xigtpath.iterfind, xc, path))


def look(w, xc):
    """Lookups of what has been delivered."""
    if not w.inc:
        return
    for k, g in enumerate(w.seen):
        require(xc[k] is g, 'lookup', 'position {} is not the IGT delivered there'.format(k))
        if g.id is not None:
            require(xc.get(g.id) is g and xc[g.id] is g, 'lookup', 'id {} is not the IGT delivered'.format(g.id))
        require(xc.get(k) is g, 'lookup', 'get({})'.format(k))
    require([g for g in list.__iter__(xc)][:len(w.seen)] == w.seen, 'lookup', 'order')


def alive(w):
    if w.inc:
        return
    gc.collect()
    n = sum(1 for r in w.refs if r() is not None)
    w.ctx.log('alive', n)
    require(n <= len(w.passes), 'kept', '{} delivered IGTs are alive, {} passes are open'.format(n, len(w.passes)))
    w.ctx.probe('liveness-checked')


def find(w, op, xigtpath):
    """A query abandoned after its first result."""
    ids = [g.get('id') for g in w.spec.get('igts', []) if g.get('id')]
    i = pick(ids, op['i'])
    if i is None:
        return
    ps = Pass('igt-id', None, i)
    it = must('query', xigtpath.iterfind, w.xc, 'igt[@id="{}"]'.format(i))
    ps.it = it
    w.step(ps)


def whole(w, do, xigtxml, xigtjson, xigtpath):
    xc = w.xc
    start = 0 if w.inc else w.future
    exp = w.exp[start:]
    if do in ('dumps', 'json'):
        codec = xigtxml if do == 'dumps' else xigtjson
        o = attempt(codec.dumps, xc)
        if not o.ok:
            require(w.shaky, 'failed', 'writing failed: {}'.format(o))
            return
        back = must('read-back', codec.loads, o.value)
        got = [cg.canon(g, True, ns=False) for g in back]
        exp = [cg.canon_spec(g, 'igt', {}, True, ns=False) for g in w.spec.get('igts', [])[start:]]
        same(exp, got, 'missing', 'written while loading')
    else:
        o = attempt({'igts': lambda: xc.igts, 'list': lambda: list(xc), 'findall': lambda: xigtpath.findall(xc, 'igt')}[do])
        if not o.ok:
            require(w.shaky, 'failed', '{} failed: {}'.format(do, o))
            return
        gs = o.value
        require(len(gs) == len(exp), 'missing', '{}: {} IGTs, expected {}'.format(do, len(gs), len(exp)))
        for k, g in enumerate(gs):
            w.arrive_until(start + k, g)
        gs = g = None
        o = None
    w.ended = True
    if not w.inc:
        w.future = w.n
        w.taken = w.n
