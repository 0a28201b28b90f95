"""C21: objects are equal exactly when their contents are, however they came about."""

import copy
import json
import random

from .. import corpusgen as cg
from .. import sched
from ..core import attempt, must, require
from . import common
from .common import Env, fs_cfg

ID = 'C21'
RUNS = {'quick': 12000, 'thorough': 300000}
RULE = ('One run: two corpora that are the same but for at most a few random differences (any field at any depth, members left out, repeated or reordered, '
        'other prefixes), each built or read from XML or JSON in any loading mode and loaded to a random extent, are compared as a whole and '
        'object by object (==, !=, in, index, count) between edits, edits taken back, further loading, interrupts at any line and failing sources; '
        'the answers are compared with the contents as the public interface shows them. '
        'Non-trivial: contents differed in one place, a comparison was interrupted, an object was edited or a corpus was partly loaded; distinct by '
        '(origins, differences, steps, answers).')
REAL = ['xigt.model', 'xigt.mixins', 'xigt.metadata', 'xigt.codecs.xigtxml', 'xigt.codecs.xigtjson']
STUB = ['file system', 'interrupts (injected at a line of the code under test)', 'sources that fail at some IGT']
ASSUMPTIONS = ['prefixes and the containers of an object are not part of its contents', 'a transient corpus is spent by one comparison']
KEEP_KEYS = ('do', 'fmt', 'mode', 'exc', 'kind', 'field', 'op')
EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}
SUB = {'corpus': 'igts', 'igt': 'tiers', 'tier': 'items', 'md': 'metas', 'meta': 'children', 'child': 'children'}
FIELDS = ['id', 'type', 'attrs', 'attrs', 'uri', 'text', 'name', 'sub', 'sub', 'mds', 'ns', 'resolved', 'resolved']


def origin(rng):
    fmt = rng.choice(['mem', 'mem', 'mem', 'xml', 'json'])
    o = {'fmt': fmt, 'mode': rng.choice(['full', 'full', 'incremental', 'transient'])}
    if o['mode'] != 'full':
        o['loaded'] = rng.choice([0, 0, 1, 2, 9])
        if fmt == 'mem' and rng.random() < .25:
            o['fail'] = rng.choice([0, 1, 2, 5])
    return o


def gen(rng, tier):
    kn = cg.Knobs(rng, names_ascii=True, el_ns=rng.random() < .3)
    spec = cg.gen_corpus(rng, kn)
    plan = {'spec': spec, 'a': origin(rng), 'b': origin(rng), 'fseed': rng.randrange(1 << 30), 'cfg': fs_cfg(rng),
            'diffs': [gen_diff(rng) for _ in range(rng.choice([0, 1, 1, 1, 2]))]}
    steps = []
    for _ in range(rng.choice([1, 3, 6, 10])):
        do = rng.choice(['corpus', 'pair', 'pair', 'pair', 'cross', 'odd', 'in', 'edit', 'edit', 'undo', 'next'])
        s = {'do': do, 'at': rng.randrange(1 << 16), 'to': rng.randrange(1 << 16), 'op': rng.choice(['==', '==', '!='])}
        if do == 'edit':
            s.update(gen_diff(rng))
        if do in ('corpus', 'pair') and rng.random() < .15:
            s['exc'] = rng.choice(sorted(EXC))
            s['line'] = rng.choice([0, 2, 5, 10, 20, 60])
        s['side'] = rng.choice('ab')
        steps.append(s)
    if not any(s['do'] in ('corpus', 'pair') for s in steps):
        steps.append({'do': 'corpus', 'op': '==', 'at': 0, 'to': 0, 'side': 'a'})
    plan['steps'] = steps
    return plan


def gen_diff(rng):
    return {'field': rng.choice(FIELDS), 'where': rng.randrange(1 << 16), 'how': rng.randrange(1 << 16), 'value': rng.choice(['zz', 'zz9', '', 'a', None, 'é'])}


def all_specs(s, kind='corpus'):
    yield s, kind
    for m in s.get('mds', []):
        yield from all_specs(m, 'md')
    if kind in SUB:
        k = {'corpus': 'igt', 'igt': 'tier', 'tier': 'item', 'md': 'meta', 'meta': 'child', 'child': 'child'}[kind]
        for c in s.get(SUB[kind], []):
            yield from all_specs(c, k)


def apply_diff(spec, d):
    """Make one difference, in a spec."""
    f = d['field']
    nodes = [(s, k) for s, k in all_specs(spec) if fits(k, f)]
    if not nodes:
        return
    s, kind = nodes[d['where'] % len(nodes)]
    v, how = d['value'], d['how']
    if f == 'id':
        s['id'] = None if not v else 'q{}'.format(how % 3)
    elif f in ('type', 'text'):
        s[f] = v
    elif f == 'resolved':
        s['text'] = None        # (what it refers to may give it the same value)
    elif f == 'uri':
        s['uri'] = 'http://z/{}'.format(how % 3) if v else None
    elif f == 'name':
        s['name'] = s['name'] + 'x'
    elif f == 'ns':
        s['ns'] = dict(s.get('ns') or {}, zq='http://zq/')
    elif f == 'attrs':
        at = dict(s.get('attrs') or {})
        if at and how % 3 == 0:
            at.pop(sorted(at)[how % len(at)])
        elif at and how % 3 == 1:
            at[sorted(at)[how % len(at)]] = v or 'zz'
        else:
            at = dict([('zz{}'.format(how % 2), v or '')] + list(at.items()))
        s['attrs'] = at
    else:
        seq = s.get('mds' if f == 'mds' else SUB[kind], [])
        seq = change_seq(list(seq), how)
        s['mds' if f == 'mds' else SUB[kind]] = seq


def change_seq(seq, how):
    if not seq:
        return seq
    i = how % len(seq)
    w = how // 7 % 4
    if w == 0:
        del seq[i]
    elif w == 1:
        seq.reverse()
    elif w == 2:
        seq.append(seq.pop(i))
    else:
        c = copy.deepcopy(seq[i])
        if isinstance(c, dict):
            c.pop('id', None)
        seq.append(c)
    return seq


def fits(kind, f):
    if f == 'resolved':
        return kind == 'item'
    if f == 'text':
        return kind in ('item', 'meta', 'child')
    if f == 'name':
        return kind == 'child'
    if f in ('id', 'type'):
        return kind != 'child'
    if f == 'sub':
        return kind != 'item'
    if f == 'mds':
        return kind in ('corpus', 'igt', 'tier')
    if f == 'uri':
        return True
    return True


# ------------------------------------------------------------------- run

class Side(object):
    def __init__(self, fs, spec, o, name, seed):
        self.o = o
        self.spec = spec
        self.fail = None
        if o['fmt'] == 'mem':
            whole = cg.build_corpus(spec)
            igts = list(whole)
            if o['mode'] == 'full':
                self.xc = whole
            else:
                if o.get('fail') is not None and o['fail'] < len(igts):
                    self.fail = o['fail']
                self.xc = cg.build_corpus(dict(spec, igts=[]), mode=o['mode'], igts=self.source(igts))
            # the contents still to come, as they will be
            self.igts = igts
        else:
            from xigt.codecs import xigtjson, xigtxml
            codec = {'xml': xigtxml, 'json': xigtjson}[o['fmt']]
            data = cg.xml_bytes(spec, random.Random(seed), 'utf-8') if o['fmt'] == 'xml' else json.dumps(cg.json_obj(spec)).encode()
            fs.put(name, data)
            self.igts = list(must('load', codec.load, fs.p(name), mode='full'))
            self.xc = must('load', codec.load, fs.p(name), mode=o['mode'])
            if o['mode'] == 'full':
                self.igts = list(self.xc)
        self.rest = [cg.canon(g, xml=False, ns=False) for g in self.igts]
        self.known = list(self.xc) if o['mode'] == 'full' else []
        self.it = iter(self.xc)
        self.spent = False
        self.dead = False
        for _ in range(o.get('loaded', 0)):
            self.next()

    def source(self, igts):
        for k, g in enumerate(igts):
            if k == self.fail:
                raise OSError(5, 'Input/output error')
            yield g

    def next(self):
        if self.o['mode'] == 'full' or self.dead or self.spent:
            return False
        o = attempt(next, self.it)
        if o.ok:
            self.known.append(o.value)
        elif isinstance(o.exc, StopIteration):
            self.dead = True
        else:
            require(self.fail is not None and isinstance(o.exc, OSError), 'load', 'loading fails with {}'.format(o))
            self.dead = True
        return o.ok

    def loaded(self):
        """The IGTs there are now."""
        return [list.__getitem__(self.xc, i) for i in range(len(self.xc))]

    def content(self):
        """What the corpus amounts to when loaded completely; None if that is out of the question."""
        c = head(self.xc)
        if self.o['mode'] == 'transient':
            left = self.rest[len(self.known):]
        else:
            have = [cg.canon(g, xml=False, ns=False) for g in self.loaded()]
            left = have + self.rest[len(have):]
            if self.o['mode'] == 'full':
                left = have
        c['sub'] = left
        return c


def head(xc):
    c = {'kind': 'corpus', 'attrs': dict(xc.attributes), 'id': xc.id, 'type': xc.type, 'uri': xc.namespace,
         'mds': [cg.canon(m, xml=False, ns=False) for m in xc.metadata]}
    return c


def objects(x, kind=None):
    yield x
    k = cg.kind_of(x)
    if k in ('igt', 'tier', 'corpus'):
        for m in x.metadata:
            yield from objects(m)
    if k in SUB and k != 'corpus':
        for c in getattr(x, SUB[k]):
            yield from objects(c)


def everything(side):
    out = [m for md in side.xc.metadata for m in objects(md)]
    gs = side.loaded() if side.o['mode'] != 'transient' else side.known
    for g in gs:
        out.extend(objects(g))
    return out


def run(plan, ctx):
    with Env(ctx, plan) as fs, fs:
        spec2 = copy.deepcopy(plan['spec'])
        for d in plan['diffs']:
            apply_diff(spec2, d)
        a = Side(fs, plan['spec'], plan['a'], 'a', plan['fseed'])
        o = attempt(Side, fs, spec2, plan['b'], 'b', plan['fseed'] + 1)
        if not o.ok:
            # (the differences made it no corpus)
            ctx.log('unbuildable', o.name)
            return
        b = o.value
        sides = {'a': a, 'b': b}
        hist = []
        undo = []
        for s in plan['steps']:
            do = s['do']
            if do == 'next':
                if sides[s['side']].next():
                    hist.append('loaded one more of ' + s['side'])
                    ctx.nontrivial()
                continue
            if do == 'edit':
                xs = [x for x in everything(sides[s['side']]) if fits(cg.kind_of(x), s['field'])]
                if s['field'] == 'resolved':
                    xs = [x for x in xs if x.text is None and attempt(x.value).ok and x.value()] or xs
                if not xs:
                    continue
                x = xs[s['where'] % len(xs)]
                u = edit(x, s)
                if u:
                    undo.append(u)
                    hist.append('{} of {} {} edited'.format(s['field'], cg.kind_of(x), x.id))
                    ctx.nontrivial()
                    ctx.probe('edit-' + s['field'])
                    xs, ys = everything(a), everything(b)
                    if len(xs) == len(ys) and s['to'] % 2:
                        # what has been edited and its counterpart
                        for y, z in zip(xs, ys):
                            if y is x or z is x:
                                objs(y, z, s, hist, ctx)
                continue
            if do == 'undo':
                if undo:
                    undo.pop()()
                    hist.append('taken back')
                continue
            if do == 'corpus':
                corpora(a, b, s, hist, ctx)
                continue
            xs, ys = everything(a), everything(b)
            if not xs or not ys:
                continue
            x = xs[s['at'] % len(xs)]
            if do == 'pair':
                # one that may well be equal
                y = ys[s['at'] % len(ys)] if len(ys) == len(xs) else ys[s['to'] % len(ys)]
                objs(x, y, s, hist, ctx)
            elif do == 'cross':
                objs(x, (ys + xs)[s['to'] % (len(ys) + len(xs))], s, hist, ctx)
            elif do == 'odd' and s['to'] % 3 == 0:
                y = alike(x, s['to'] // 3)
                if y is not None:
                    objs(x, y, s, hist, ctx)
                    ctx.probe('alike')
            elif do == 'odd':
                y = [None, 'x', x.id, list(x) if isinstance(x, list) else 0, (), x.attributes, object()][s['to'] % 7]
                for r in (attempt(lambda: x == y), attempt(lambda: not x != y), attempt(lambda: y == x)):
                    require(r.ok and r.value is False, 'wrong-equal', '{} {} and {!r}: {}'.format(cg.kind_of(x), x.id, type(y), r if not r.ok else r.value))
                ctx.probe('odd')
            elif do == 'in':
                member(x, ys, s, hist, ctx)
        ctx.mark(plan['a'], plan['b'], [d['field'] for d in plan['diffs']], [s['do'] for s in plan['steps']], hist)


def alike(x, n):
    """An object of another (or the same) kind with the same fields."""
    from xigt import Igt, Item, Meta, MetaChild, Metadata, Tier, XigtCorpus
    kw = {'attributes': dict(x.attributes), 'namespace': x.namespace}
    kind = [Item, Meta, MetaChild, Metadata, Tier, Igt, XigtCorpus][n % 7]
    if kind is not MetaChild:
        kw.update(id=x.id, type=x.type)
    else:
        kw['name'] = getattr(x, 'name', 'x')
    if kind in (Item, Meta, MetaChild):
        kw['text'] = getattr(x, 'text', None) if not isinstance(x, Metadata) else None
    return kind(**kw)


def compare(x, y, s, ctx):
    f = (lambda: x == y) if s['op'] == '==' else (lambda: not (x != y))
    if 'exc' in s:
        o, fired, where = sched.interrupt_at(f, s['line'], EXC[s['exc']])
        if fired:
            ctx.fault('interrupt:' + s['exc'])
            ctx.nontrivial()
            return None
        return o
    return attempt(f)


def objs(x, y, s, hist, ctx):
    ca, cb = cg.canon(x, xml=False, ns=False), cg.canon(y, xml=False, ns=False)
    exp = ca == cb
    what = '{} {} and {} {} after {}'.format(cg.kind_of(x), x.id, cg.kind_of(y), y.id, hist[-6:])
    r = compare(x, y, s, ctx)
    for n, o in enumerate([r, attempt(lambda: y == x), attempt(lambda: not (y != x)), attempt(lambda: x == x)]):
        if o is None:
            continue
        e = exp if n < 3 else True
        require(o.ok, 'failed', 'comparing {} fails: {}'.format(what, o))
        require(o.value is e, 'wrong-equal' if o.value else 'wrong-unequal', '{}: {} (comparison {}), but {}'.format(
            what, 'equal' if o.value else 'unequal', n, 'they differ: {}'.format(cg.diff(ca, cb)) if not e else 'they have the same content'))
    require(ca == cg.canon(x, xml=False, ns=False) and cb == cg.canon(y, xml=False, ns=False), 'changed', 'comparing changed {}'.format(what))
    ctx.probe('equal' if exp else 'unequal')
    if not exp and cg.kind_of(x) == cg.kind_of(y):
        ctx.nontrivial()
    ctx.log('cmp', cg.kind_of(x), exp)


def member(x, ys, s, hist, ctx):
    conts = [y for y in ys if isinstance(y, list)]
    if not conts:
        return
    c = conts[s['to'] % len(conts)]
    ms = list(c)
    if s['at'] % 2 and ms:
        x = ms[s['at'] // 2 % len(ms)]
    cx = cg.canon(x, xml=False, ns=False)
    same = [i for i, m in enumerate(ms) if cg.canon(m, xml=False, ns=False) == cx]
    what = '{} {} in {} {} after {}'.format(cg.kind_of(x), x.id, cg.kind_of(c), c.id, hist[-6:])
    got = must('failed', lambda: x in c)
    require(got is bool(same), 'wrong-member', '{}: {}'.format(what, got))
    require(must('failed', c.count, x) == len(same), 'wrong-member', '{}: count is {} instead of {}'.format(what, c.count(x), len(same)))
    o = attempt(c.index, x)
    require((o.value == same[0] if o.ok else False) if same else isinstance(o.exc, ValueError), 'wrong-member', '{}: index is {}'.format(what, o.value if o.ok else o))
    ctx.probe('member')


def corpora(a, b, s, hist, ctx):
    if a.spent or b.spent:
        return
    for x in (a, b):
        if x.o['mode'] == 'transient' and x.dead:
            return
    ca, cb = a.content(), b.content()
    exp = ca == cb
    fails = [x.fail is not None for x in (a, b)]
    what = 'corpora ({} {}, {} {}; {} and {} IGTs of {} and {} loaded) after {}'.format(
        a.o['fmt'], a.o['mode'], b.o['fmt'], b.o['mode'], len(a.xc), len(b.xc), len(a.rest), len(b.rest), hist[-6:])
    if len(a.xc) != len(a.rest) or len(b.xc) != len(b.rest):
        ctx.nontrivial()
    r = compare(a.xc, b.xc, s, ctx)
    for x in (a, b):
        if x.o['mode'] == 'transient':
            x.spent = True
    if r is None:
        # interrupted: what is not loaded cannot be had any more
        for x in (a, b):
            if x.o['mode'] != 'full':
                x.spent = True
        return
    ctx.mark('corpora', exp, r.name)
    ctx.log('corpora', exp, r.name, r.value)
    ctx.probe('corpora-' + ('equal' if exp else 'unequal'))
    for x in (a, b):
        if x.fail is not None and x.o['mode'] == 'incremental':
            o = attempt(lambda: x.xc == x.xc)
            require(not o.ok or not o.value, 'failed-equal', '{}: a corpus whose source fails is equal to itself'.format(what))
    if any(fails):
        # nothing that failed to load passes for equal
        ctx.fault('source-failed')
        if not r.ok:
            require(isinstance(r.exc, OSError), 'failed', 'comparing {} fails: {}'.format(what, r))
        else:
            require(not r.value, 'failed-equal', '{}: equal, in spite of a source that fails'.format(what))
            fa = ca['sub'][:a.fail] if a.fail is not None else ca['sub']
            fb = cb['sub'][:b.fail] if b.fail is not None else cb['sub']
            n = min(len(fa), len(fb))
            known = fa[:n] != fb[:n] or dict(ca, sub=0) != dict(cb, sub=0) or (not fails[0] and len(fa) <= b.fail) or (not fails[1] and len(fb) <= a.fail)
            require(known, 'failed-unequal', '{}: unequal, though what could be loaded is not'.format(what))
        a.spent = b.spent = True
        return
    require(r.ok, 'failed', 'comparing {} fails: {}'.format(what, r))
    require(r.value is exp, 'wrong-equal' if r.value else 'wrong-unequal', '{}: {}, but {}'.format(
        what, 'equal' if r.value else 'unequal', cg.diff(ca, cb) if not exp else 'they have the same content'))
    for x in (a, b):
        if x.o['mode'] == 'transient':
            continue
        # nothing is lost and nothing comes twice
        got = [cg.canon(g, xml=False, ns=False) for g in must('load', list, x.xc)]
        want = (ca if x is a else cb)['sub']
        require(got == want, 'changed', '{}: comparing changed the IGTs from {} to {}'.format(what, [g['id'] for g in want], [g['id'] for g in got]))
        require(head(x.xc) == {k: v for k, v in (ca if x is a else cb).items() if k != 'sub'}, 'changed', '{}: comparing changed the corpus'.format(what))
    if not (a.spent or b.spent):
        for o in (attempt(lambda: a.xc == b.xc), attempt(lambda: b.xc == a.xc), attempt(lambda: not b.xc != a.xc)):
            require(o.ok and o.value is exp, 'wrong-again', '{}: compared again: {}'.format(what, o.value if o.ok else o))


def edit(x, s):
    """Edit an object; -> how to take it back"""
    f, v, how = s['field'], s['value'], s['how']
    kind = cg.kind_of(x)
    if f == 'resolved':
        # the text an item's reference gives it, or the other way round
        old = x.text
        v = attempt(x.value)
        if old is None and (not v.ok or v.value is None):
            return None
        x.text = v.value if old is None else None
        return lambda: setattr(x, 'text', old)
    if f in ('type', 'text', 'uri', 'name'):
        f = {'uri': 'namespace'}.get(f, f)
        old = getattr(x, f)
        setattr(x, f, (v or 'n') if f == 'name' else v)
        return lambda: setattr(x, f, old)
    if f == 'id':
        return None
    if f == 'ns':
        old = dict(x.nsmap)
        x.nsmap = dict(old, zq='http://zq/')
        return lambda: setattr(x, 'nsmap', old)
    if f == 'attrs':
        old = dict(x.attributes)
        if old and how % 3 == 0:
            del x.attributes[sorted(old)[how % len(old)]]
        else:
            x.attributes['zz'] = v or ''

        def back():
            x.attributes.clear()
            x.attributes.update(old)
        return back
    if f == 'mds':
        seq, attr = list(x.metadata), 'metadata'
    else:
        if kind == 'corpus':
            return None
        seq, attr = list(getattr(x, SUB[kind])), SUB[kind]
    if not seq:
        return None
    old = list(seq)
    new = list(seq)
    w = how // 7 % 3
    if w == 0:
        del new[how % len(new)]
    elif w == 1:
        new.reverse()
    else:
        new.append(new.pop(how % len(new)))
    o = attempt(setattr, x, attr, new)
    return (lambda: setattr(x, attr, old)) if o.ok else None
