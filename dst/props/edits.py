"""Edits in two worlds: on a spec (the reference model) and on the objects of
the code under test.  Positions are taken modulo the current sizes, so any
sub-list of edits is still meaningful."""

import copy

from .. import corpusgen as cg


def gen_edit(rng, kn, scope, serial):
    op = rng.choice(['text', 'attr', 'attr', 'delattr', 'add_igt', 'ins_igt', 'del_igt', 'add_tier', 'del_tier', 'add_item',
                     'del_item', 'meta', 'type', 'ns', 'ref', 'ref'])
    e = {'op': op, 'a': rng.randrange(12), 'b': rng.randrange(12), 'c': rng.randrange(12)}
    if op == 'text':
        e['v'] = cg.text(rng, kn)
    elif op == 'attr':
        e['lvl'] = rng.choice(['corpus', 'igt', 'tier', 'item'])
        e['k'] = rng.choice(cg.ATTRS)
        e['v'] = cg.text(rng, kn)
    elif op == 'ref':
        e['k'] = rng.choice(['alignment', 'segmentation', 'content'])
        e['v'] = rng.choice(['{}', '{}', '{}[0:1]', '{},zz'])
        e['d'] = rng.randrange(12)
        e['lvl'] = 'item'
    elif op == 'delattr':
        e['lvl'] = rng.choice(['corpus', 'igt', 'tier', 'item'])
    elif op in ('add_igt', 'ins_igt'):
        e['spec'] = cg.gen_igt(rng, kn, scope, 'new{}'.format(serial))
    elif op == 'add_tier':
        e['spec'] = {'id': 'nt{}'.format(serial), 'type': 'extra', 'items': [
            cg.gen_item(rng, kn, scope, 'nt{}-{}'.format(serial, j)) for j in range(rng.choice([0, 1, 3]))]}
    elif op == 'add_item':
        e['spec'] = cg.gen_item(rng, kn, scope, 'ni{}'.format(serial))
    elif op == 'meta':
        e['spec'] = (cg.gen_mds(rng, kn, scope, 1) or [{'metas': [{'text': 'm'}]}])[0]
        e['spec'].pop('id', None)
        e['lvl'] = rng.choice(['corpus', 'igt', 'tier'])
    elif op == 'type':
        e['lvl'] = rng.choice(['corpus', 'igt', 'tier', 'item'])
        e['v'] = rng.choice(['t1', 'words', ''])
    elif op == 'ns':
        e['v'] = ['px{}'.format(serial), rng.choice(['urn:edit', 'http://purl.org/dc/elements/1.1/'])]
    return e


def gen_edits(rng, kn, spec, n):
    scope = cg.scope_of({}, spec)
    return [gen_edit(rng, kn, scope, i) for i in range(n)]


def _at(seq, i):
    return seq[i % len(seq)] if len(seq) else None


def _target(lvl, corpus, igts, e, tiers_of, items_of):
    """Walk down to the object an edit is about, in either world."""
    if lvl == 'corpus':
        return corpus
    g = _at(igts, e['a'])
    if g is None or lvl == 'igt':
        return g
    t = _at(tiers_of(g), e['b'])
    if t is None or lvl == 'tier':
        return t
    return _at(items_of(t), e['c'])


def apply_spec(spec, igts, e):
    """igts: the part of spec['igts'] that exists by now (edited in place)."""
    op = e['op']
    tiers_of = lambda g: g.get('tiers', [])
    items_of = lambda t: t.get('items', [])
    if op in ('text',):
        x = _target('item', spec, igts, e, tiers_of, items_of)
        if x is not None:
            x['text'] = e['v']
    elif op == 'attr':
        x = _target(e['lvl'], spec, igts, e, tiers_of, items_of)
        if x is not None:
            x.setdefault('attrs', {})[e['k']] = e['v']
    elif op == 'delattr':
        x = _target(e['lvl'], spec, igts, e, tiers_of, items_of)
        if x is not None and x.get('attrs'):
            del x['attrs'][sorted(x['attrs'])[e['c'] % len(x['attrs'])]]
    elif op == 'ref':
        x = _target('item', spec, igts, e, tiers_of, items_of)
        if x is not None:
            ids = [i['id'] for t in tiers_of(_at(igts, e['a'])) for i in items_of(t) if i.get('id')]
            x.setdefault('attrs', {})[e['k']] = e['v'].format(_at(ids, e['d']) or 'zz')
    elif op == 'type':
        x = _target(e['lvl'], spec, igts, e, tiers_of, items_of)
        if x is not None:
            x['type'] = e['v']
    elif op == 'add_igt':
        if not _has_id(igts, e['spec']['id']):
            igts.append(copy.deepcopy(e['spec']))
    elif op == 'ins_igt':
        if not _has_id(igts, e['spec']['id']):
            igts.insert(e['a'] % (len(igts) + 1), copy.deepcopy(e['spec']))
    elif op == 'del_igt':
        if igts:
            del igts[e['a'] % len(igts)]
    elif op == 'add_tier':
        x = _target('igt', spec, igts, e, tiers_of, items_of)
        if x is not None and not _has_id(x.setdefault('tiers', []), e['spec']['id']):
            x['tiers'].append(copy.deepcopy(e['spec']))
    elif op == 'del_tier':
        x = _target('igt', spec, igts, e, tiers_of, items_of)
        if x is not None and x.get('tiers'):
            del x['tiers'][e['b'] % len(x['tiers'])]
    elif op == 'add_item':
        x = _target('tier', spec, igts, e, tiers_of, items_of)
        if x is not None and not _has_id(x.setdefault('items', []), e['spec']['id']):
            x['items'].append(copy.deepcopy(e['spec']))
    elif op == 'del_item':
        x = _target('tier', spec, igts, e, tiers_of, items_of)
        if x is not None and x.get('items'):
            del x['items'][e['c'] % len(x['items'])]
    elif op == 'meta':
        x = _target(e['lvl'], spec, igts, e, tiers_of, items_of)
        if x is not None:
            x.setdefault('mds', []).append(copy.deepcopy(e['spec']))
    elif op == 'ns':
        spec.setdefault('ns', {})[e['v'][0]] = e['v'][1]


def _has_id(seq, i):
    return any(x.get('id') == i for x in seq)


def apply_obj(xc, e, scope):
    """The same edit on the real objects.  scope: prefixes of the corpus."""
    op = e['op']
    igts = [list.__getitem__(xc, i) for i in range(len(xc))]
    tiers_of = lambda g: g.tiers
    items_of = lambda t: t.items
    if op == 'text':
        x = _target('item', xc, igts, e, tiers_of, items_of)
        if x is not None:
            x.text = e['v']
    elif op == 'attr':
        x = _target(e['lvl'], xc, igts, e, tiers_of, items_of)
        if x is not None:
            x.attributes[e['k']] = e['v']
    elif op == 'delattr':
        x = _target(e['lvl'], xc, igts, e, tiers_of, items_of)
        if x is not None and x.attributes:
            del x.attributes[sorted(x.attributes)[e['c'] % len(x.attributes)]]
    elif op == 'ref':
        x = _target('item', xc, igts, e, tiers_of, items_of)
        if x is not None:
            ids = [i.id for t in _at(igts, e['a']) for i in t if i.id]
            x.attributes[e['k']] = e['v'].format(_at(ids, e['d']) or 'zz')
    elif op == 'type':
        x = _target(e['lvl'], xc, igts, e, tiers_of, items_of)
        if x is not None:
            x.type = e['v']
    elif op == 'add_igt':
        if not any(g.id == e['spec']['id'] for g in igts):
            xc.append(cg.build_igt(e['spec'], scope))
    elif op == 'ins_igt':
        if not any(g.id == e['spec']['id'] for g in igts):
            xc.insert(e['a'] % (len(igts) + 1), cg.build_igt(e['spec'], scope))
    elif op == 'del_igt':
        if igts:
            del xc[e['a'] % len(igts)]
    elif op == 'add_tier':
        x = _target('igt', xc, igts, e, tiers_of, items_of)
        if x is not None and not any(t.id == e['spec']['id'] for t in x):
            x.append(cg.build_tier(e['spec'], x.nsmap))
    elif op == 'del_tier':
        x = _target('igt', xc, igts, e, tiers_of, items_of)
        if x is not None and len(x):
            del x[e['b'] % len(x)]
    elif op == 'add_item':
        x = _target('tier', xc, igts, e, tiers_of, items_of)
        if x is not None and not any(i.id == e['spec']['id'] for i in x):
            x.append(cg.build_item(e['spec'], x.nsmap))
    elif op == 'del_item':
        x = _target('tier', xc, igts, e, tiers_of, items_of)
        if x is not None and len(x):
            del x[e['c'] % len(x)]
    elif op == 'meta':
        x = _target(e['lvl'], xc, igts, e, tiers_of, items_of)
        if x is not None:
            x.metadata = list(x.metadata) + [cg.build_md(e['spec'], x.nsmap)]
    elif op == 'ns':
        ns = dict(xc.nsmap)
        ns[e['v'][0]] = e['v'][1]
        xc.nsmap = ns
