"""C20: attribute, namespace and metadata lookups follow the objects' present containers."""

import random

from .. import corpusgen as cg
from .. import sched
from ..core import attempt, must, require
from . import common
from .common import Env, fs_cfg

ID = 'C20'
RUNS = {'quick': 12000, 'thorough': 300000}
RULE = ('One run: a random corpus, built or read (XML or JSON, in all loading modes), gets a random sequence of edits (attributes set and removed, '
        'declarations changed, members and metadata moved between containers one by one or as whole contents, refused additions) mixed with '
        'advances of the loading and with lookups of attributes (plain, prefixed, with a namespace; inherited or not), namespaces and metadata, some '
        'of them interrupted; each lookup is compared with a model that knows only the present containment. Non-trivial: an edit, an '
        'interruption or an advance preceded a lookup; distinct by (origin, edits, lookups and outcomes).')
REAL = ['xigt.mixins', 'xigt.metadata', 'xigt.model', 'xigt.codecs.xigtxml', 'xigt.codecs.xigtjson']
STUB = ['file system', 'interrupts (injected at a line of the code under test)']
ASSUMPTIONS = ['an object declares either nothing or all prefixes in force for it (as the readers do)', 'objects out of all containers are not looked at',
               'a prefix that is not declared is an error or gives the default']
KEEP_KEYS = ('how', 'first', 'do', 'fmt', 'mode', 'form', 'key', 'cfg', 'exc', 'kind')
EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}


def gen(rng, tier):
    src = rng.choice(['mem', 'mem', 'mem', 'xml', 'xml', 'json'])
    kn = cg.Knobs(rng, names_ascii=True, el_ns=src != 'xml' and rng.random() < .3)
    spec = cg.gen_corpus(rng, kn)
    plan = {'spec': spec, 'fmt': src, 'mode': rng.choice(common.MODES) if src != 'mem' else 'full', 'cfg': fs_cfg(rng),
            'fseed': rng.randrange(1 << 30)}
    keys = ['one', 'two', 'nosuch']
    collect(spec, keys)
    steps = []
    for _ in range(rng.choice([4, 8, 16, 30])):
        d = rng.choice(['look', 'look', 'look', 'look', 'ns', 'meta', 'select', 'next', 'set', 'set', 'del', 'nsmap', 'uri', 'uri', 'move', 'move', 'whole', 'refused', 'md', 'swap'])
        s = {'do': d, 'at': rng.randrange(1 << 16)}
        if d == 'look':
            k = rng.choice(keys)
            bare = k.split('}')[-1]
            pre, uri = rng.choice(cg.NSPOOL)
            s['form'] = rng.choice(['plain', 'plain', 'braced', 'prefix', 'ns-prefix', 'ns-uri'])
            s['key'] = {'plain': bare, 'braced': k if k[0] == '{' else '{%s}%s' % (uri, k), 'prefix': pre + ':' + bare}.get(s['form'], bare)
            s['ns'] = {'ns-prefix': pre, 'ns-uri': uri}.get(s['form'])
            s['inherit'] = rng.random() < .75
            s['default'] = rng.choice([None, 'dflt'])
            if rng.random() < .1:
                s['exc'] = rng.choice(sorted(EXC))
                s['line'] = rng.randrange(12)
        elif d in ('set', 'del'):
            k = rng.choice(keys)
            if rng.random() < .4 and k[0] != '{':
                k = '{%s}%s' % (rng.choice(cg.NSPOOL)[1], k)
            s['key'] = k
            s['value'] = rng.choice(['v1', 'v2', '', 'é'])
        elif d == 'nsmap':
            s['ns'] = rng.choice([None, None, 'up', dict(rng.sample(cg.NSPOOL, 1)), dict(rng.sample(cg.NSPOOL, 2))])
        elif d == 'uri':
            s['ns'] = rng.choice([None] + [u for _, u in cg.NSPOOL[:4]] * 2)
        elif d == 'meta':
            s['inherit'] = rng.random() < .75
            s['cond'] = rng.random() < .2
            s['default'] = rng.choice([None, 'dflt'])
        elif d == 'select':
            s['ns'] = rng.choice(rng.choice(cg.NSPOOL))
            s['md'] = rng.random() < .5
        elif d in ('move', 'whole', 'md', 'swap'):
            s['to'] = rng.randrange(1 << 16)
            s['pos'] = rng.randrange(8)
            s['kind'] = rng.choice(['item', 'tier', 'igt'])
            s['first'] = rng.random() < .5      # it is in the new container before it leaves the old one
            s['how'] = rng.choice(['pop', 'pop', 'del', 'del-id'])
        elif d == 'refused':
            s['kind'] = rng.choice(['item', 'tier'])
            s['to'] = rng.randrange(1 << 16)
        steps.append(s)
    plan['steps'] = steps
    return plan


def collect(s, keys):
    for k in s.get('attrs', {}):
        if k not in keys:
            keys.append(k)
    for c in ('igts', 'tiers', 'items', 'mds', 'metas', 'children'):
        for x in s.get(c, []):
            collect(x, keys)


# ----------------------------------------------------------------- model

SUB = {'corpus': 'igts', 'igt': 'tiers', 'tier': 'items', 'md': 'metas', 'meta': 'children', 'child': 'children'}
SUBKIND = {'corpus': 'igt', 'igt': 'tier', 'tier': 'item', 'md': 'meta', 'meta': 'child', 'child': 'child'}


class Node(object):
    """What is known of one object."""

    def __init__(self, spec, kind, up, scope):
        self.kind = kind
        self.up = up
        scope = cg.scope_of(scope, spec)
        self.attrs = dict(spec.get('attrs', {}))
        self.ns = dict(scope) if spec.get('ns') else None
        self.id = spec.get('id')
        self.type = spec.get('type')
        self.uri = spec.get('uri')
        self.obj = None
        self.fuzzy = False         # whether its prefixes are in question
        self.mds = [Node(m, 'md', self, scope) for m in spec.get('mds', [])]
        self.kids = [Node(c, SUBKIND[kind], self, scope) for c in spec.get(SUB[kind], [])] if kind in SUB else []

    def bind(self, obj):
        """obj is this one; its members likewise."""
        self.obj = obj
        if self.kind != 'corpus':
            self.bind_kids()
        if self.kind in ('corpus', 'igt', 'tier'):
            pair(self.mds, list(obj.metadata))

    def bind_kids(self):
        if self.kind in SUB:
            pair(self.kids, list(getattr(self.obj, SUB[self.kind])))

    def walk(self):
        if self.obj is None:
            return
        yield self
        for n in self.mds + self.kids:
            yield from n.walk()

    def all(self):
        yield self
        for n in self.mds + self.kids:
            yield from n.all()

    def nsmap(self):
        n = self
        while n is not None:
            if n.fuzzy:
                return None
            if n.ns is not None:
                return n.ns
            n = n.up
        return {}


def pair(nodes, objs):
    require(len(nodes) == len(objs), 'harness-members', '{} members instead of {}'.format(len(objs), len(nodes)))
    for n, o in zip(nodes, objs):
        n.bind(o)


def name(n):
    return '{} {!r}'.format(n.kind, n.id)


def expected(n, s):
    """-> (judged, value) of an attribute lookup"""
    key, ns = s['key'], s.get('ns')
    m = n.nsmap()
    if key.startswith('{'):
        pass
    elif ':' in key:
        if m is None:
            return False, None
        pre, key = key.split(':', 1)
        if pre not in m:
            return 'undeclared', s['default']
        key = '{%s}%s' % (m[pre], key)
    elif ns:
        if m is None:
            return False, None
        key = '{%s}%s' % (m.get(ns, ns), key)
    else:
        if m is None or None in m:
            return False, None
    while n is not None:
        if key in n.attrs:
            return True, n.attrs[key]
        if not s['inherit']:
            break
        n = n.up
    return True, s['default']


def metas_of(n, s, typ):
    while n is not None:
        got = [x for md in n.mds if md.type == 'xigt-meta' for x in md.kids if x.type == typ and (not s['cond'] or x.id)]
        if got:
            return [x.obj for x in got]
        if not s['inherit']:
            break
        n = n.up
    return s['default']


# ------------------------------------------------------------------- run

def run(plan, ctx):
    with Env(ctx, plan) as fs, fs:
        spec = plan['spec']
        root = Node(spec, 'corpus', None, {})
        if plan['fmt'] == 'mem':
            xc = must('build', cg.build_corpus, spec)
        else:
            from xigt.codecs import xigtjson, xigtxml
            codec = {'xml': xigtxml, 'json': xigtjson}[plan['fmt']]
            if plan['fmt'] == 'xml':
                fs.put('in', cg.xml_bytes(spec, random.Random(plan['fseed']), 'utf-8'))
            else:
                import json
                fs.put('in', json.dumps(cg.json_obj(spec)).encode())
            xc = must('load', codec.load, fs.p('in'), mode=plan['mode'])
        root.bind(xc)
        it = iter(xc)
        nxt = 0
        hist = []
        moved = False
        if plan['mode'] == 'full':
            pair(root.kids, list(xc))
            nxt = len(root.kids)
        total = len(root.kids)
        for s in plan['steps']:
            d = s['do']
            alive = list(root.walk())
            at = alive[s['at'] % len(alive)]
            if d == 'next':
                if nxt < total:
                    root.kids[nxt].bind(must('next', next, it))
                    nxt += 1
                    moved = True
                continue
            if d == 'look':
                look(at, s, hist, ctx)
            elif d == 'ns':
                m = at.nsmap()
                if m is not None:
                    got = must('nsmap', lambda: dict(at.obj.nsmap))
                    if plan['fmt'] != 'mem':
                        # (documents may declare more)
                        got = {k: v for k, v in got.items() if k in m}
                    require({k: v for k, v in got.items() if k} == m, 'namespaces', '{}: the namespaces are {} instead of {} after {}'.format(
                        name(at), got, m, hist[-6:]))
                    ctx.probe('nsmap')
            elif d == 'meta':
                meta(at, s, hist, ctx)
            elif d == 'select':
                select(at, s, hist, ctx)
            else:
                e = edit(root, at, s, alive, plan, xc, ctx)
                if e:
                    hist.append(e)
                    moved = True
                    ctx.probe(d)
            if moved and d in ('look', 'ns', 'meta', 'select'):
                ctx.nontrivial()
        ctx.mark(plan['fmt'], plan['mode'], hist, [s['do'] for s in plan['steps']])


def look(n, s, hist, ctx):
    judged, exp = expected(n, s)
    if not judged:
        ctx.probe('unjudged')
        return
    kw = {'inherit': s['inherit'], 'default': s['default']}
    if not s['inherit'] and s['at'] % 2:
        del kw['inherit']          # (what it is by default)
    if s['default'] is None and s['at'] % 3:
        del kw['default']
    if s.get('ns'):
        kw['namespace'] = s['ns']
    what = '{}: get_attribute({!r}, {})'.format(name(n), s['key'], kw)
    if 'exc' in s:
        o, fired, where = sched.interrupt_at(lambda: n.obj.get_attribute(s['key'], **kw), s['line'], EXC[s['exc']])
        if fired:
            ctx.fault('interrupt:' + s['exc'])
            ctx.nontrivial()
    o = attempt(n.obj.get_attribute, s['key'], **kw)
    ctx.log('look', s['key'], o.name if not o.ok else o.value)
    ctx.probe('look-' + s['form'])
    if judged == 'undeclared':
        require(not o.ok or o.value == exp, 'lookup', '{} gives {!r} for a prefix that is not declared'.format(what, o))
        return
    require(o.ok, 'lookup', '{} fails: {}, after {}'.format(what, o, hist[-6:]))
    require(o.value == exp, 'lookup', '{} gives {!r} instead of {!r}, after {}'.format(what, o.value, exp, hist[-6:]))


def meta(n, s, hist, ctx):
    while n.kind not in ('corpus', 'igt', 'tier'):
        n = n.up
    types = sorted({x.type for y in [n] + ups(n) for md in y.mds for x in md.kids if x.type is not None}) + ['nosuch']
    typ = types[s['at'] % len(types)]
    exp = metas_of(n, s, typ)
    kw = {'inherit': s['inherit'], 'default': s['default']}
    if s['inherit'] and s['at'] % 2:
        del kw['inherit']
    if s['default'] is None and s['at'] % 3:
        del kw['default']
    if s['cond']:
        kw['conditions'] = [lambda m: bool(m.id)]
    got = must('lookup', n.obj.get_meta, typ, **kw)
    ctx.probe('get_meta')
    same = got == exp if not isinstance(exp, list) else isinstance(got, list) and len(got) == len(exp) and all(a is b for a, b in zip(got, exp))
    require(same, 'metadata', '{}: get_meta({!r}, {}) gives {!r} instead of {!r}, after {}'.format(name(n), typ, kw, got, exp, hist[-6:]))


def ups(n):
    out = []
    while n.up is not None:
        n = n.up
        out.append(n)
    return out


def select(n, s, hist, ctx):
    if s['md']:
        while n.kind not in ('corpus', 'igt', 'tier'):
            n = n.up
        cont, kids = n.obj.metadata, n.mds
    else:
        if n.kind == 'item' or (n.kind == 'corpus' and (n.obj.mode == 'transient' or any(k.obj is None for k in n.kids))):
            return
        cont, kids = n.obj, n.kids
    m = n.nsmap()
    if m is None:
        return
    uri = m.get(s['ns'], s['ns'])
    exp = [k.obj for k in kids if k.uri == uri]
    got = must('lookup', lambda: list(cont.select(namespace=s['ns'])))
    ctx.probe('select')
    require(len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), 'selection', '{}: select(namespace={!r}) gives {} instead of {}, after {}'.format(
        name(n), s['ns'], [getattr(x, 'id', 0) for x in got], [getattr(x, 'id', 0) for x in exp], hist[-6:]))


def edit(root, at, s, alive, plan, xc, ctx):
    d = s['do']
    if d == 'set':
        at.obj.attributes[s['key']] = at.attrs[s['key']] = s['value']
        return 'set {} of {}'.format(s['key'], name(at))
    if d == 'del':
        keys = sorted(at.attrs)
        if not keys:
            return None
        k = s['key'] if s['key'] in at.attrs else keys[s['at'] % len(keys)]
        del at.attrs[k]
        del at.obj.attributes[k]
        return 'del {} of {}'.format(k, name(at))
    if d == 'uri':
        if at.kind == 'corpus':
            return None
        at.obj.namespace = s['ns']
        at.uri = s['ns']
        return 'namespace of {}'.format(name(at))
    if d == 'nsmap':
        if plan['fmt'] != 'mem' and s['ns'] is None:
            # (nothing says which of the read objects have declarations of their own)
            return None
        ns = s['ns']
        if ns == 'up':
            # what is in force for it already, from now on its own
            ns = at.nsmap()
            if not ns:
                return None
        at.ns = None if ns is None else dict(ns)
        if plan['fmt'] != 'mem':
            for n in at.mds + at.kids:
                for x in n.all():
                    x.fuzzy = True
        given = None if ns is None else dict(ns)
        at.obj.nsmap = given
        if given:
            given['zzz'] = 'http://not.there'       # the caller's own
        return 'nsmap of {}'.format(name(at))
    if d == 'md':
        hosts = [n for n in alive if n.kind in ('corpus', 'igt', 'tier')]
        a, b = hosts[s['at'] % len(hosts)], hosts[s['to'] % len(hosts)]
        if not a.mds or a is b:
            return None
        n = a.mds[s['pos'] % len(a.mds)]
        if n.id is not None and any(x.id == n.id for x in b.mds):
            return None
        if not s.get('first'):
            detach(a.obj.metadata, a.mds, n, s)
        if s['pos'] % 2:
            b.obj.metadata.insert(0, n.obj)
            b.mds.insert(0, n)
        else:
            b.obj.metadata = list(b.obj.metadata) + [n.obj]
            b.mds.append(n)
        if s.get('first'):
            detach(a.obj.metadata, a.mds, n, s)
        settle(n, b, plan)
        return 'metadata {!r} from {} to {}'.format(n.id, name(a), name(b))
    kind = s['kind']
    if kind == 'igt':
        if plan['mode'] != 'full':
            return None
        if d == 'swap' and len(root.kids) > 1:
            order = list(reversed(root.kids))
            root.obj.igts = [n.obj for n in order]
            root.kids[:] = order
            return 'igts reversed'
        return None
    conts = [n for n in alive if SUBKIND.get(n.kind) == kind and n.kind in ('igt', 'tier')]
    if not conts:
        return None
    a, b = conts[s['at'] % len(conts)], conts[s['to'] % len(conts)]
    if d == 'move':
        if not a.kids:
            return None
        n = a.kids[s['pos'] % len(a.kids)]
        first = s.get('first') and a is not b and (n.id is None or all(x.id != n.id for x in b.kids))
        if not first:
            detach(a.obj, a.kids, n, s)
        to = b
        if n.id is not None and any(x.id == n.id for x in b.kids):
            require(not attempt(b.obj.append, n.obj).ok, 'harness-refused', 'a duplicate id was accepted')
            to = a
        i = s['pos'] % (len(to.kids) + 1)
        to.obj.insert(i, n.obj)
        to.kids.insert(i, n)
        if first:
            detach(a.obj, a.kids, n, s)
        settle(n, to, plan)
        return '{} moved from {} to {}'.format(name(n), name(a), name(to))
    if d == 'whole':
        if a is b:
            return None
        seq = list(a.kids)
        if any(n.kind != kind for n in seq):
            return None
        gone = list(b.kids)
        if not s.get('first'):
            a.obj.clear()
        setattr(b.obj, SUB[b.kind], [n.obj for n in seq])
        if s.get('first') and s['pos'] % 2:
            a.obj.clear()
        a.kids = []
        b.kids = seq
        setattr(a.obj, SUB[a.kind], (n.obj for n in gone))
        a.kids = gone
        for n in seq:
            settle(n, b, plan)
        for n in gone:
            settle(n, a, plan)
        return 'contents of {} and {} exchanged'.format(name(a), name(b))
    if d == 'swap':
        # put a member in another's place
        if a is b or not a.kids or not b.kids:
            return None
        n, o = a.kids[s['pos'] % len(a.kids)], b.kids[s['pos'] % len(b.kids)]
        if n.id is not None and any(x.id == n.id for x in b.kids if x is not o):
            return None
        if o.id is not None and any(x.id == o.id for x in a.kids if x is not n):
            return None
        if not s.get('first'):
            detach(a.obj, a.kids, n, s)
        k = b.kids.index(o)
        b.obj[k] = n.obj
        if s.get('first'):
            detach(a.obj, a.kids, n, s)
        b.kids[k] = n
        a.obj.append(o.obj)
        a.kids.append(o)
        settle(n, b, plan)
        settle(o, a, plan)
        return '{} and {} exchanged'.format(name(n), name(o))
    if d == 'refused':
        # a member elsewhere is offered to a container that must refuse it, as it has the id already
        dup = [(x, y) for x in conts for y in x.kids if y.id is not None and x is not b and any(z.id == y.id for z in b.kids)]
        if not dup:
            return None
        x, y = dup[s['at'] % len(dup)]
        o = attempt(b.obj.append, y.obj)
        require(not o.ok, 'harness-refused', 'a duplicate id was accepted')
        return '{} of {} refused by {}'.format(name(y), name(x), name(b))
    return None


def detach(cont, nodes, n, s):
    i = next(i for i, x in enumerate(nodes) if x is n)
    how = s.get('how', 'pop')
    if how == 'pop':
        o = cont.pop(i)
        require(o is n.obj, 'harness-pop', 'pop({}) gives another member'.format(i))
    elif how == 'del' or n.id is None:
        del cont[i]
    else:
        del cont[n.id]
    del nodes[i]


def settle(n, up, plan):
    if n.up is not up and plan['fmt'] != 'mem':
        for x in n.all():
            x.fuzzy = True
    n.up = up
