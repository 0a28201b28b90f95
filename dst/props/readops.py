"""Read-only operations on a corpus: generating them, doing them, and stating
what a corpus looks like through its public interface."""

import copy
import io
import json
import os
import random
import re
from collections import Counter

from .. import corpusgen as cg
from .common import pick
from .c10 import ATTR, gen_igt as gen_ref_igt, gen_path

KINDS = ['dumps', 'dumps', 'dump', 'dump-handle', 'eq', 'eq-sub', 'select', 'path', 'path', 'find', 'findall', 'value', 'resolve', 'refs',
         'anc', 'desc', 'attr', 'meta', 'validate', 'validate', 'latex', 'latex', 'itsdb', 'repr', 'access', 'iter', 'refmod', 'deref', 'validate-report']

CONFIGS = [
    None, {},
    {'tier_types': ['words', 'glosses']},
    {'tier_types': ['words', 'morphemes', 'glosses', 'x'], 'item_substitutions': [['o', '0', 'words'], ['([A-Z]+)', '\\\\textsc{\\1}', 'glosses']],
     'tier_substitutions': [['\\s+', ' ', None]]},
    {'tier_types': ('glosses', 'words'), 'item_substitutions': [], 'extra': {'deep': [1, 2]}},
]
ITSDB = [
    {}, {'i-id_start': 100, 'i-id_skip': 1}, {'cells': [['i-input', 'igt.id'], ['i-comment', '"{}".format(len(igt))']]},
    {'cells': [('i-wf', '0 if igt.get_meta("judgment") else 1')], 'i-id_skip': 5},
    {'cells': [['i-input', '((']]}, {'cells': [['i-comment', 'igt.nosuch']]},
]


def gen_spec(rng, xmlable=True):
    """A corpus with references, or a rich one; sometimes both."""
    x = rng.random()
    kn = cg.Knobs(rng, names_ascii=True)
    if x < .45:
        spec = {'id': 'c', 'igts': [gen_ref_igt(rng, 'i{}'.format(k), kn) for k in range(rng.choice([1, 1, 2, 3]))]}
        if rng.random() < .5:
            spec['mds'] = [{'type': 'xigt-meta', 'metas': [{'type': 'language', 'attrs': {'tiers': 'a'}, 'children': [{'name': 'q', 'children': [{'name': 'q'}]}]},
                                                           {'type': 'judgment', 'text': '*'}]}]
    else:
        spec = cg.gen_corpus(rng, kn)
        if x > .85:
            used = set(g.get('id') for g in spec['igts'])
            spec['igts'] += [g for g in [gen_ref_igt(rng, 'ir0', kn)] if g['id'] not in used]
    return spec


def gen_op(rng, kinds=KINDS):
    k = rng.choice(kinds)
    op = {'k': k, 'where': [rng.choice(['corpus', 'corpus', 'igt', 'tier', 'item']), rng.randrange(9), rng.randrange(9), rng.randrange(9)],
          'seed': rng.randrange(1 << 30)}
    if k in ('dumps', 'dump', 'dump-handle'):
        op['fmt'] = rng.choice(['xml', 'json'])
        op['indent'] = rng.choice([2, None, 0, 4])
        if op['fmt'] == 'xml':
            op['enc'] = rng.choice(['utf-8', 'unicode', 'utf-16', 'us-ascii'])
    elif k in ('path', 'find', 'findall'):
        op['path'] = gen_path(rng)
        op['take'] = rng.choice([None, None, 0, 1, 3])
    elif k == 'select':
        op['kw'] = rng.choice([{}, {'type': 'words'}, {'id': 'a'}, {'type': None}, {'id': 'i0', 'type': None}, {'namespace': 'dc'}])
        op['take'] = rng.choice([None, None, 1])
    elif k in ('anc', 'desc', 'refs', 'refmod', 'deref'):
        op['attrs'] = rng.choice([None, rng.sample(ATTR, rng.choice([1, 2, 3]))])
        op['follow'] = rng.choice(['first', 'all'])
        op['take'] = rng.choice([None, None, 1, 2])
    elif k == 'attr':
        op['key'] = rng.choice(['type', 'id', 'alignment', 'x', 'dc:creator', 'xml:lang', 'q'])
        op['ns'] = rng.choice([None, None, 'dc', 'urn:none'])
        op['inherit'] = rng.random() < .6
    elif k == 'meta':
        op['key'] = rng.choice(['language', 'judgment', 'x', 'comment'])
        op['cond'] = rng.choice([None, 'all', 'none'])
    elif k == 'latex':
        op['config'] = copy.deepcopy(rng.choice(CONFIGS))
    elif k == 'itsdb':
        op['config'] = copy.deepcopy(rng.choice(ITSDB))
    elif k == 'iter':
        op['take'] = rng.choice([None, 0, 1, 2])
    return op


def keys(xc):
    """Object identity -> where it is."""
    m = {}

    def put(x, path):
        m[id(x)] = path
        kind = cg.kind_of(x)
        if kind in ('corpus', 'igt', 'tier'):
            for n, y in enumerate(x.metadata):
                put(y, '{}/md{}'.format(path, n))
        if kind != 'item':
            for n, y in enumerate(list.__iter__(x)):
                put(y, '{}/{}'.format(path, n))
    put(xc, '')
    return m


def flat(v, m):
    if isinstance(v, str):
        return re.sub(r'\bat (0x)?[0-9a-f]{6,}', 'at ADDR', v)
    if v is None or isinstance(v, (int, bool, float)):
        return v
    if isinstance(v, bytes):
        return v.hex()
    if isinstance(v, dict):
        return sorted([str(k), flat(x, m)] for k, x in v.items())
    if id(v) in m:
        return 'obj:' + m[id(v)]
    if isinstance(v, (list, tuple)):
        return [flat(x, m) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(json.dumps(flat(x, m)) for x in v)
    return 'unknown:' + type(v).__name__


def target(xc, where):
    lvl, a, b, c = where
    x = xc
    for depth, n in (('igt', a), ('tier', b), ('item', c)):
        if lvl == 'corpus' or cg.kind_of(x) == lvl:
            return x
        y = pick(list(list.__iter__(x)), n)
        if y is None:
            return x
        x = y
    return x


def take(it, n, m):
    out = []
    it = iter(it)
    while n is None or len(out) < n:
        try:
            x = next(it)
        except StopIteration:
            break
        out.append(flat(x, m))
    return out


class ArgsChanged(Exception):
    pass


def same_args(before, after, what):
    if before != after:
        raise ArgsChanged('{}: the argument {!r} became {!r}'.format(what, before, after))


def do_op(op, xc, fs, twin, m, name='out'):
    """Perform one operation; the result as plain data.  fs may be None (then
    nothing is written to files).  m: keys(xc)."""
    from xigt import query, ref, xigtpath
    from xigt.codecs import xigtjson, xigtxml
    k = op['k']
    x = target(xc, op['where'])
    kind = cg.kind_of(x)
    codec = {'xml': xigtxml, 'json': xigtjson}.get(op.get('fmt'))
    if k in ('dumps', 'dump', 'dump-handle'):
        kw = {'indent': op['indent']}
        if op['fmt'] == 'xml':
            kw['encoding'] = op['enc']
        if k == 'dumps' or fs is None:
            return flat(codec.dumps(xc, **kw), m)
        if k == 'dump':
            codec.dump(fs.p(name), xc, **kw)
            return fs.get(name).hex()
        h = io.StringIO() if op['fmt'] == 'json' or op['enc'] == 'unicode' else io.BytesIO()
        h.write('before' if isinstance(h, io.StringIO) else b'before')
        codec.dump(h, xc, **kw)
        return flat(h.getvalue(), m)
    if k == 'eq':
        return [xc == twin, twin == xc, xc != twin, xc == xc]
    if k == 'eq-sub':
        y = target(twin, op['where'])
        z = target(xc, [op['where'][0]] + [n + 1 for n in op['where'][1:]])
        return [x == y, y == x, x == z, z == x, x == 5, x == None]     # noqa: E711
    if k == 'select':
        if kind == 'item':
            return None
        kw = copy.deepcopy(op['kw'])
        out = take(x.select(**kw), op['take'], m)
        same_args(op['kw'], kw, 'select')
        return out
    if k == 'path':
        return take(xigtpath.iterfind(x, op['path']), op['take'], m)
    if k == 'find':
        return flat(xigtpath.find(x, op['path']), m)
    if k == 'findall':
        return flat(xigtpath.findall(x, op['path']), m)
    if k == 'value':
        if kind != 'item':
            return None
        return [flat(x.value(), m), flat(x.span(0, 2), m), flat(x.value(refattrs=('segmentation', 'content')), m)]
    if k == 'resolve':
        if kind != 'item':
            return None
        ra = pick(sorted(r for r in x.attributes if r in ATTR), op['seed'])
        return flat(x.resolve_ref(ra), m) if ra else None
    if k in ('refs', 'refmod', 'anc', 'desc', 'deref'):
        if kind not in ('tier', 'item') or (k != 'anc' and x.id is None):
            return None
        attrs = list(op['attrs']) if op['attrs'] is not None else None
        if k == 'refs':
            out = [flat(x.referents(attrs), m), flat(x.referrers(attrs), m)]
        elif k == 'refmod':
            # the caller may do what it likes with these
            a, b = ref.referents(x.igt, x.id, attrs or ATTR), ref.referrers(x.igt, x.id, attrs or ATTR)
            out = [flat(a, m), flat(b, m)]
            for d in (a, b):
                for v in d.values():
                    v.append('zzz')
                d['new'] = ['zzz']
        elif k == 'deref':
            out = []
            for ra in sorted(x.attributes):
                if ra in ATTR:
                    out.append([flat(ref.dereference(x, ra), m), flat(ref.dereference_all(x, ra), m)])
                    e = x.attributes[ra]
                    out.append([ref.expand(e), ref.compress(e), ref.selections(e), ref.spans(e), ref.ids(e)])
        elif k == 'anc':
            out = take(query.ancestors(x, **({} if attrs is None else {'refattrs': attrs})), op['take'], m)
        else:
            out = take(query.descendants(x, follow=op['follow'], **({} if attrs is None else {'refattrs': attrs})), op['take'], m)
        same_args(list(op['attrs']) if op['attrs'] is not None else None, attrs, k)
        return out
    if k == 'attr':
        return flat(x.get_attribute(op['key'], 'dflt', inherit=op['inherit'], namespace=op['ns']), m)
    if k == 'meta':
        if kind == 'item':
            return None
        conds = {None: None, 'all': [lambda y: True], 'none': [lambda y: False]}[op['cond']]
        was = None if conds is None else list(conds)
        out = flat(x.get_meta(op['key'], conds), m)
        same_args(was, conds, 'get_meta')
        return out
    if k in ('validate', 'validate-report'):
        from xigt.scripts import xigt_validate as v
        rep = v.validate_corpus(xc, v.make_context(xc, 0, '<xigt-corpus>', 'collection', ids=Counter()))
        if k == 'validate-report':
            v.report_is_empty(rep)
            v.filter_empty_reports(rep)
        return report(rep)
    if k == 'latex':
        from xigt.exporters import latex
        config = copy.deepcopy(op['config'])
        if fs is None:
            out = '\n'.join(latex.export_corpus(xc, latex.prepare_config(config)))
        else:
            latex.xigt_export(xc, fs.p(name + '.tex'), config)
            out = fs.get(name + '.tex').decode('utf-8', 'replace')
        same_args(op['config'], config, 'latex export')
        return out
    if k == 'itsdb':
        from xigt.exporters import itsdb
        if fs is None:
            return None
        fs.put('relations', b'item:\n')
        config = copy.deepcopy(op['config'])
        config['relations'] = fs.p('relations')
        was = copy.deepcopy(config)
        try:
            itsdb.xigt_export(xc, fs.p(name + '.d'), config)
        finally:
            same_args(was, config, '[incr tsdb()] export')
        return (fs.get(name + '.d/item') or b'').hex()
    if k == 'repr':
        return [flat(repr(x), m), flat(str(x), m), len(x) if kind != 'item' else None]
    if k == 'access':
        if kind == 'item':
            return [x.id, x.type, x.text, flat(x.tier, m), flat(x.igt, m), flat(x.corpus, m), flat(x.nsmap, m)]
        kids = list(list.__iter__(x))
        out = [flat(x[0:2], m), flat(list(reversed(x)), m), len(x), flat(x.get('nosuch'), m), flat(x.nsmap, m)]
        for y in kids[:3]:
            out += [y in x, x.index(y), x.count(y), flat(x[x.index(y)], m), flat(x.get(y.id), m) if y.id else None]
        return out
    if k == 'iter':
        return take(x if kind != 'item' else [], op['take'], m)
    raise ValueError(k)


def report(rep):
    return {'id': rep.get('id'), 'index': rep.get('index'), 'children': [report(c) for c in rep.get('children', [])],
            'records': [[type(r).__name__, str(r)] if not isinstance(r, (tuple, list, dict)) else json.loads(json.dumps(r, default=str))
                        for r in rep.get('records', [])]}


def deep(xc):
    """Everything a user can see of a corpus, with object identities."""
    out = []

    def obj(x, up):
        kind = cg.kind_of(x)
        e = [kind, id(x), x.id, x.type if kind != 'child' else None, [(k, v) for k, v in x.attributes.items()], x.namespace,
             sorted(x.nsmap.items(), key=str)]
        out.append(e)
        if kind in ('item', 'meta', 'child'):
            e.append(x.text)
        if kind == 'child':
            e.append(x.name)
        if kind == 'item':
            e += [id(x.tier), id(x.igt), id(x.corpus)]
            return
        if kind == 'tier':
            e += [id(x.igt), id(x.corpus)]
        if kind == 'igt':
            e.append(id(x.corpus))
        kids = list(list.__iter__(x))
        e.append([id(y) for y in kids])
        e.append([(y.id, id(x.get(y.id))) for y in kids if y.id is not None])
        if kind == 'igt':
            ids = [t.id for t in kids] + [i.id for t in kids for i in t]
            for i in ids:
                if i is not None:
                    e.append((i, id(x.get_item(i)), id(x.get_any(i)), json.dumps(x.referents(i), sort_keys=True),
                              json.dumps(x.referrers(i), sort_keys=True)))
        if kind in ('corpus', 'igt', 'tier'):
            mds = list(list.__iter__(x.metadata))
            e.append([(id(y), y.id, id(x.metadata.get(y.id)) if y.id else 0) for y in mds])
            for y in mds:
                obj(y, x)
        for y in kids:
            obj(y, x)
    obj(xc, None)
    return out


def deep_diff(a, b):
    for k, (x, y) in enumerate(zip(a, b)):
        for j, (p, q) in enumerate(zip(x, y)):
            if p != q:
                return '{} number {} (id {}): field {} was {!r}, is {!r}'.format(x[0], k, x[2], j, p, q)
        if len(x) != len(y):
            return '{} number {} (id {}) changed'.format(x[0], k, x[2])
    if len(a) != len(b):
        return 'there were {} objects, now {}'.format(len(a), len(b))
    return None
