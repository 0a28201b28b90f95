"""Paths as data: a generator, a renderer to XigtPath, and an independent
evaluator working on a corpus through its public interface.

A path is {'abs': bool, 'steps': [step, ...]}; a step has an 'axis' (child,
desc, self, parent, attr, func, group) and may have predicates."""

from .. import corpusgen as cg
from .c07 import mentioned

NS = {'dc': 'http://purl.org/dc/elements/1.1/', 'olac': 'http://www.language-archives.org/OLAC/1.1/'}
MC = ['subject', 'language', 'text', 'value', 'textual', 'item', 'q', 'sub.ject', 'referent']
ATTRS = ['alignment', 'segmentation', 'content', 'textual', 'text', 'a.b', 'a', 'code', 'value', 'valued']
VALS = ['words', 'glosses', 'x', 'say "hi"', 'a b', '', 'a/b', '[1]', '(x|y)', 'a', 'i0', '{0}', '=', 'jpn', "it's", '..']


def vals(rng):
    """The few values of this run, so that comparisons often hold."""
    if not hasattr(rng, 'vals'):
        rng.vals = rng.sample(VALS, rng.choice([2, 4, 6]))
    return rng.vals


def kind_of(x):
    k = cg.kind_of(x)
    return {'md': 'metadata', 'child': 'metachild'}.get(k, k)


class Skip(Exception):
    """The reference does not say what this means."""


class TooMuch(Exception):
    pass


# ------------------------------------------------------------- documents

def gen_attrs(rng, scope):
    out = {}
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.choice(ATTRS[3:])
        if scope and rng.random() < .4:
            k = '{%s}%s' % (scope[rng.choice(sorted(scope))], k)
        out[k] = rng.choice(vals(rng))
    return out


def gen_child(rng, scope, depth):
    c = {'name': rng.choice(MC)}
    if scope and rng.random() < .6:
        c['uri'] = scope[rng.choice(sorted(scope))]
    at = gen_attrs(rng, scope)
    if rng.random() < .3:
        at['type'] = rng.choice(['x', 'words'])
    if rng.random() < .2:
        at['id'] = 'a'
    if at:
        c['attrs'] = at
    if rng.random() < .6:
        c['text'] = rng.choice([v for v in vals(rng) + ['x'] if v.strip()])
    if depth and rng.random() < .5:
        c['children'] = [gen_child(rng, scope, depth - 1) for _ in range(rng.choice([1, 1, 2, 3]))]
    return c


def gen_mds(rng, scope):
    mds = []
    for _ in range(rng.choice([1, 1, 2])):
        metas = []
        for _ in range(rng.choice([0, 1, 2])):
            m = {'type': rng.choice(['language', 'x', 'words'])}
            at = gen_attrs(rng, scope)
            if at:
                m['attrs'] = at
            if rng.random() < .3:
                m['text'] = rng.choice([v for v in vals(rng) + ['x'] if v.strip()])
            if rng.random() < .8:
                m['children'] = [gen_child(rng, scope, rng.choice([0, 1, 2])) for _ in range(rng.choice([1, 2, 3]))]
            metas.append(m)
        md = {'metas': metas}
        if rng.random() < .6:
            md['type'] = 'xigt-meta'
        mds.append(md)
    return mds


def enrich(rng, spec, elements=False):
    """Give a corpus of igts namespaces, attributes and metadata; elements:
    also namespaces of igts, tiers, items and metadata."""
    scope = {}
    if rng.random() < .7:
        scope = {p: NS[p] for p in rng.sample(sorted(NS), rng.choice([1, 2]))}
        spec['ns'] = dict(scope)
    if rng.random() < .6:
        spec['mds'] = gen_mds(rng, scope)
    for g in spec['igts']:
        if rng.random() < .5:
            g['mds'] = gen_mds(rng, scope)
        for x in [g] + g['tiers'] + [i for t in g['tiers'] for i in t['items']]:
            if rng.random() < .3:
                at = gen_attrs(rng, scope)
                at.update(x.get('attrs') or {})
                if at:
                    x['attrs'] = at
        for t in g['tiers']:
            if rng.random() < .15:
                t['mds'] = gen_mds(rng, scope)
            for i in t['items']:
                if rng.random() < .3:
                    i['text'] = rng.choice(vals(rng))
    if elements and rng.random() < .5:
        uris = sorted(scope.values()) + ['zz']
        for x in [spec] + spec['igts'] + [t for g in spec['igts'] for t in g['tiers']]:
            for y in x.get('mds', []) + [m for md in x.get('mds', []) for m in md['metas']] + x.get('igts', []) + x.get('tiers', []) + x.get('items', []):
                if rng.random() < .4:
                    y['uri'] = rng.choice(uris)
    if rng.random() < .3:
        # the same prefixes mean something else further down
        for x in below(spec):
            if rng.random() < .15:
                p = rng.choice(sorted(NS))
                x['ns'] = {p: rng.choice(sorted(NS.values()) + ['zz'])}
    return spec


def below(x):
    for sub in ('igts', 'tiers', 'items', 'mds', 'metas', 'children'):
        for y in x.get(sub, []):
            yield y
            yield from below(y)


# ------------------------------------------------------------- generator

CHILDREN = {
    'corpus': ['igt', 'igt', '*', 'metadata'], 'igt': ['tier', 'tier', '*', 'metadata'], 'tier': ['item', 'item', '*', 'metadata'],
    'metadata': ['meta', '*'], 'meta': ['*', 'NAME', 'NAME'], 'child': ['*', 'NAME', 'NAME'], 'item': ['*', 'item'],
}
BELOW = {'corpus': ['igt', 'tier', 'item', 'metadata', 'meta', 'NAME', '*'], 'igt': ['igt', 'tier', 'item', 'metadata', 'meta', 'NAME', '*'],
         'tier': ['item', 'metadata', 'meta', 'NAME', '*', 'tier'], 'metadata': ['meta', 'NAME', '*'], 'meta': ['NAME', '*'], 'child': ['NAME', '*'],
         'item': ['item']}
PARENT = {'igt': 'corpus', 'tier': 'igt', 'item': 'tier', 'meta': 'metadata', 'child': 'meta', 'metadata': 'igt'}
RESULT = {'igt': 'igt', 'tier': 'tier', 'item': 'item', 'metadata': 'metadata', 'meta': 'meta'}


def named(rng, n, kind):
    """A node test -> (step part, kind of what it finds)"""
    s = {}
    if n == 'NAME':
        n = rng.choice(MC)
        if rng.random() < .45:
            s['ns'] = rng.choice(['dc', 'dc', 'olac', 'zz'])
            if rng.random() < .3:
                n = '*'
        k = 'child'
    else:
        k = RESULT.get(n) or {'corpus': 'igt', 'igt': 'tier', 'tier': 'item', 'metadata': 'meta'}.get(kind, 'child')
        if rng.random() < .12:
            s['ns'] = rng.choice(['dc', 'olac', 'zz'])
    s['name'] = n
    return s, k


def gen_pred(rng, kind):
    p = {}
    x = rng.random()
    if x < .5:
        p['path'] = {'steps': [gen_attr(rng)]}
    elif x < .62 and kind in ('item', 'meta', 'child'):
        p['path'] = {'steps': [{'axis': 'func', 'name': rng.choice(['text', 'value']) if kind == 'item' else 'text'}]}
    elif x < .75:
        steps, _ = gen_steps(rng, kind, rng.choice([1, 1, 2]), False, False)
        if rng.random() < .6:
            steps = steps + [gen_attr(rng)]
        p['path'] = {'steps': steps}
    elif x < .9 and kind in PARENT:
        p['path'] = {'steps': [{'axis': 'parent'}, gen_attr(rng)]}
    else:
        steps, _ = gen_steps(rng, 'corpus', rng.choice([1, 2]), False, False)
        p['path'] = {'abs': True, 'steps': steps + ([gen_attr(rng)] if rng.random() < .6 else [])}
    if p['path']['steps'][-1]['axis'] in ('attr', 'func') and rng.random() < .7:
        p['cmp'] = rng.choice(['=', '=', '=', '!='])
        p['val'] = rng.choice(vals(rng) + (['a', 'aa', 'm', 'w', 'a1', 'w1'] if rng.random() < .3 else []))
    return p


def gen_attr(rng):
    x = rng.random()
    if x < .25:
        return {'axis': 'attr', 'name': 'id'}
    if x < .5:
        return {'axis': 'attr', 'name': 'type'}
    if x < .6:
        return {'axis': 'attr', 'name': '*'}
    s = {'axis': 'attr', 'name': rng.choice(ATTRS)}
    if rng.random() < .3:
        s['ns'] = rng.choice(['dc', 'olac', 'olac'])
        if rng.random() < .4:
            s['name'] = '*'
    return s


def gen_steps(rng, kind, n, groups=True, preds=True):
    steps = []
    for _ in range(n):
        x = rng.random()
        if groups and x < .15:
            alts, ks = [], []
            for _ in range(rng.choice([1, 2, 2, 3])):
                if rng.random() < .12:
                    a, k = gen_steps(rng, 'corpus', rng.choice([1, 2]), True, preds)
                    alts.append({'abs': True, 'steps': a})
                else:
                    a, k = gen_steps(rng, kind, rng.choice([1, 1, 2]), rng.random() < .5, preds)
                    alts.append({'steps': a})
                ks.append(k)
            s = {'axis': 'group', 'alts': alts}
            k = rng.choice(ks)
        elif x < .22 and kind in PARENT:
            s, k = {'axis': 'parent'}, PARENT[kind]
        elif x < .27:
            s, k = {'axis': 'self'}, kind
        elif x < .45:
            s, k = named(rng, rng.choice(BELOW[kind]), 'corpus')
            s['axis'] = 'desc'
        elif x < .5 and kind in ('tier', 'item'):
            s = {'axis': 'func', 'name': rng.choice(['referent', 'referrer'])}
            if rng.random() < .5:
                s['args'] = rng.sample(ATTRS[:3], rng.choice([1, 1, 2, 3]))
            k = kind
        else:
            s, k = named(rng, rng.choice(CHILDREN[kind]), kind)
            s['axis'] = 'child'
        if preds and s['axis'] != 'self' and rng.random() < .28:
            s['preds'] = [gen_pred(rng, k) for _ in range(rng.choice([1, 1, 2]))]
        steps.append(s)
        kind = k
    return steps, kind


def gen_path(rng, kind='corpus', final=True):
    p = {}
    if rng.random() < (.3 if kind == 'corpus' else .12):
        p['abs'] = True
        kind = 'corpus'
    p['steps'], kind = gen_steps(rng, kind, rng.choice([1, 1, 2, 2, 3]))
    x = rng.random()
    if final and x < .22:
        p['steps'].append(gen_attr(rng))
    elif final and x < .32 and kind in ('item', 'meta', 'child'):
        p['steps'].append({'axis': 'func', 'name': rng.choice(['text', 'value']) if kind == 'item' else 'text'})
    if rng.random() < .2:
        p['spaces'] = True
    return p


# -------------------------------------------------------------- renderer

def render(p, spaces=None):
    sp = ' ' if (p.get('spaces') if spaces is None else spaces) else ''
    out = ''
    for n, s in enumerate(p['steps']):
        a = s['axis']
        if a == 'desc':
            # a relative path starts with its context
            out += ('.' if n == 0 and not p.get('abs') else '') + '//'
        elif n or p.get('abs'):
            out += '/'
        name = (s['ns'] + ':' if s.get('ns') else '') + s.get('name', '')
        if a in ('child', 'desc'):
            out += name
        elif a == 'self':
            out += '.'
        elif a == 'parent':
            out += '..'
        elif a == 'attr':
            out += '@' + name
        elif a == 'func':
            out += name + '(' + (',' + sp).join('"{}"'.format(x) for x in s.get('args') or []) + ')'
        elif a == 'group':
            out += '(' + sp + (sp + '|' + sp).join(render(x, bool(sp)) for x in s['alts']) + sp + ')'
        for q in s.get('preds') or []:
            out += '[' + sp + render(q['path'], bool(sp))
            if q.get('cmp'):
                out += sp + q['cmp'] + sp + '"' + q['val'].replace('"', '\\"') + '"'
            out += sp + ']'
    return out


def valid(p):
    return bool(p['steps']) and all(
        (s['axis'] != 'group' or (s['alts'] and all(valid(x) for x in s['alts']))) and
        all(valid(q['path']) for q in s.get('preds') or []) for s in p['steps'])


# ------------------------------------------------------------- evaluator

class Evaluator(object):
    def __init__(self, xc):
        self.xc = xc
        self.up = {}
        self.work = 0
        self._link(xc)

    def subs(self, x):
        kind = kind_of(x)
        out = []
        if kind in ('corpus', 'igt', 'tier'):
            out += list(x.metadata)
        if kind != 'item':
            out += list(list.__iter__(x))
        return out

    def _link(self, x):
        for y in self.subs(x):
            self.up[id(y)] = x
            self._link(y)

    def path(self, p, x):
        objs = [self.xc if p.get('abs') else x]
        for s in p['steps']:
            out = []
            for o in objs:
                out += self.step(s, o)
            for q in s.get('preds') or []:
                out = [o for o in out if self.holds(q, o)]
            objs = out
        return objs

    def holds(self, q, x):
        vals = self.path(q['path'], x)
        if not q.get('cmp'):
            return any(v is not None for v in vals)
        if q['cmp'] == '=':
            return q['val'] in [v for v in vals if isinstance(v, str)]
        return all(v != q['val'] for v in vals)

    def named(self, s, y, scope):
        """Does the node test hold for y?"""
        if s.get('ns'):
            if scope.get(s['ns'], s['ns']) != y.namespace:
                return False
        kind = kind_of(y)
        return s['name'] in ('*', y.name if kind == 'metachild' else kind)

    def step(self, s, x):
        a = s['axis']
        self.work += 1
        if self.work > 8000:
            raise TooMuch('too much')
        if isinstance(x, (str, type(None), int)):
            raise Skip('a step from a value')
        kind = kind_of(x)
        if a == 'self':
            return [x]
        if a == 'group':
            return [r for p in s['alts'] for r in self.path(p, x)]
        if a == 'parent':
            if id(x) not in self.up:
                raise Skip('above the corpus')
            return [self.up[id(x)]]
        if a == 'child':
            return [y for y in self.subs(x) if self.named(s, y, x.nsmap)]
        if a == 'desc':
            out = [x] if self.named(s, x, x.nsmap) else []
            for y in self.subs(x):
                out += self.step(s, y)
            return out
        if a == 'attr':
            return self.attr(s, x, kind)
        n = s['name']
        if n == 'text':
            if kind not in ('item', 'meta', 'metachild'):
                raise Skip('text of ' + kind)
            return [x.text]
        if n == 'value':
            if kind != 'item':
                raise Skip('value of ' + kind)
            try:
                return [x.value()]
            except Exception:
                raise Skip('unresolvable')
        return self.refs(s, x, kind)

    def attr(self, s, x, kind):
        n, ns = s['name'], s.get('ns')
        if ns:
            uri = x.nsmap.get(ns)
            if uri is None:
                raise Skip('undeclared prefix')
            return [v for k, v in x.attributes.items() if k.startswith('{' + uri + '}') and n in ('*', k[len(uri) + 2:])]
        if n == '*':
            return list(x.attributes.values())
        if n == 'name':
            raise Skip('name')
        v = None
        if kind != 'metachild':
            v = x.id if n == 'id' else x.type if n == 'type' else None
        if v is None:
            v = x.attributes.get(n)
        return [] if v is None else [v]

    def refs(self, s, x, kind):
        if kind not in ('tier', 'item') or x.id is None:
            raise Skip('references of ' + kind)
        igt = self.up[id(x)] if kind == 'tier' else self.up[id(self.up[id(x)])]
        tiers = list(list.__iter__(igt))
        items = [i for t in tiers for i in list.__iter__(t)]
        ids = [y.id for y in tiers + items if y.id is not None]
        if len(set(ids)) != len(ids):
            raise Skip('ambiguous ids')
        by = {y.id: y for y in tiers + items if y.id is not None}
        # all reference attributes are allowed unless an extension says else
        attrs = sorted(set(s.get('args') or ['alignment', 'content', 'segmentation']))
        out = []
        for ra in attrs:
            if s['name'] == 'referent':
                out += [by.get(i) for i in mentioned(x.attributes.get(ra))]
            else:
                out += [y for y in (tiers if kind == 'tier' else items) if y.id is not None and x.id in mentioned(y.attributes.get(ra))]
        return out


def evaluate(xc, x, p):
    """-> results, or Skip"""
    return Evaluator(xc).path(p, x)
