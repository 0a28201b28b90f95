"""C07: refreshed indices answer lookups from the current content."""

import random
import re
import warnings

from .. import corpusgen as cg
from .. import sched
from ..core import attempt, must, require
from .common import pick, pos, frac

ID = 'C07'
RUNS = {'quick': 9000, 'thorough': 400000}
RULE = ('One run: a random IGT gets a random sequence of edits (tiers, items, references, texts, renames), lookups, refused edits, '
        'partial refreshes and refreshes interrupted at a chosen line; then its indices are refreshed and every lookup is compared '
        'with an independent reading of the references. Non-trivial: an edit or an interrupted refresh preceded the final refresh; '
        'distinct by the sequence of edits and outcomes.')
REAL = ['xigt.model', 'xigt.mixins', 'xigt.ref', 'xigt.xigtpath']
STUB = ['interrupts (injected at a line of the code under test)']
ASSUMPTIONS = ['ids that several objects of an IGT share are not looked up',
               'referring to an id nothing has is neither required nor forbidden to be listed',
               'renaming an item also needs its tier\'s own index refreshed before values are computed']
KEEP_KEYS = ('op', 'spec', 'at', 'exc', 'a', 'b', 'c', 'v', 'k', 'how')

REFATTRS = ('alignment', 'content', 'segmentation')
RANK = ['p', 'w', 'm', 'g', 'pos', 't', 'nt0', 'nt1', 'nt2', 'nt3']


def gen_expr(rng, ids):
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        x = rng.choice(ids)
        if rng.random() < .35:
            a = rng.choice([0, 1, 2])
            x += '[{}:{}]'.format(a, a + rng.choice([0, 1, 3]))
        parts.append(x)
    out = parts[0]
    for x in parts[1:]:
        out += rng.choice('+,') + x
    return out


def item_ids(tid):
    # (one id inside of another, to tell ids from their characters)
    return [tid + j for j in ('1', '2', '11', '1.2', '12')]


def gen_item(rng, tid, iid, reftier, refattr):
    it = {'id': iid}
    if reftier and rng.random() < .85:
        it['attrs'] = {refattr: gen_expr(rng, item_ids(reftier))}
    if not (it.get('attrs') and rng.random() < .6):
        it['text'] = rng.choice(['dog', 'ab', 'x-y', 'inu=ga', '', 'a b'])
    return it


def gen_tier(rng, tid, lower):
    t = {'id': tid, 'items': []}
    reftier = refattr = None
    if lower and rng.random() < .85:
        reftier = rng.choice(lower)
        refattr = rng.choice(['segmentation', 'alignment', 'content', 'content'])
        t['attrs'] = {refattr: reftier}
    if rng.random() < .6:
        t['type'] = rng.choice(['words', 'glosses'])
    for i in rng.sample(item_ids(tid), rng.choice([0, 1, 2, 4])):
        t['items'].append(gen_item(rng, tid, i, reftier, refattr))
    return t


def gen(rng, tier):
    names = [n for n in RANK[:6] if rng.random() < .7]
    tiers = [gen_tier(rng, n, names[:k]) for k, n in enumerate(names)]
    rng.shuffle(tiers)
    ops = []
    serial = 0
    for _ in range(rng.choice([0, 2, 5, 10, 20])):
        op = rng.choice(['text', 'text', 'ref', 'ref', 'ref', 'tierref', 'unref', 'add-item', 'del-item', 'add-tier', 'del-tier', 'rename-item',
                         'rename-item', 'rename-tier', 'clear', 'assign', 'set-item', 'dup-item', 'dup-tier', 'lookup', 'lookup', 'lookup-gone',
                         'refresh', 'refresh-part', 'interrupt', 'interrupt', 'values', 'sort', 'type', 'xpath'])
        e = {'op': op, 'a': rng.randrange(9), 'b': rng.randrange(9), 'c': rng.randrange(9)}
        if op == 'text':
            e['v'] = rng.choice(['new', 'T', None, '', 'longer text'])
        elif op == 'ref':
            e['k'] = rng.choice(REFATTRS)
            e['seed'] = rng.randrange(1 << 20)
        elif op == 'unref':
            e['k'] = rng.choice(REFATTRS)
            e['how'] = rng.choice(['del', 'none'])
        elif op == 'tierref':
            e['k'] = rng.choice(REFATTRS)
        elif op in ('add-tier',):
            serial += 1
            e['seed'] = rng.randrange(1 << 20)
        elif op in ('rename-item', 'rename-tier'):
            serial += 1
            e['v'] = 'rn{}'.format(serial)
            e['how'] = rng.choice(['late', 'index'])
        elif op == 'refresh-part':
            e['v'] = [rng.random() < .5 for _ in range(4)]
        elif op == 'interrupt':
            e['at'] = frac(rng)
            e['exc'] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
            e['how'] = rng.choice(['refresh', 'refresh', 'append', 'assign'])
        elif op == 'type':
            e['v'] = rng.choice(['words', None, 'other'])
        ops.append(e)
    return {'tiers': tiers, 'ops': ops, 'final': rng.choice(['all', 'all', 'default'])}


def mentioned(expr):
    """The ids an expression mentions (independent of xigt.ref)."""
    out = []
    for part in re.split(r'[\s+,]+', re.sub(r'\[[^\]]*\]', '', expr or '')):
        if part and part[0].isascii() and part[0].isalpha():
            out.append(part)
    return out


def nm(o):
    return o if not o.ok else getattr(o.value, 'id', o.value)


class Unknown(Exception):
    pass


def value(igt, item, tier, depth=0):
    """What an item's value is, read from the current content."""
    if item.text is not None:
        return item.text
    if depth > 30:
        raise Unknown()
    for ra in ('content', 'segmentation'):
        if ra in item.attributes:
            rt = tier.attributes.get(ra)
            t = [x for x in igt if x.id == rt]
            if len(t) != 1:
                raise Unknown()
            out = ''
            for delim, i, rng in re.findall(r'([+,]?)([A-Za-z][-.\w]*)(?:\[([^\]]*)\])?', item.attributes[ra]):
                its = [x for x in t[0] if x.id == i]
                if len(its) != 1:
                    raise Unknown()
                v = value(igt, its[0], t[0], depth + 1) or ''
                if rng:
                    a, b = rng.split(':')
                    v = v[int(a):int(b)]
                out += (' ' if delim == ',' else '') + v
            return out
    return None


def check_values(igt, ctx, what):
    for t in igt:
        for i in t:
            try:
                exp = value(igt, i, t)
            except Unknown:
                continue
            o = attempt(i.value)
            require(o.ok and o.value == exp, 'value', '{}: the value of item {} is {}, expected {!r}'.format(what, i.id, o.value if o.ok else o, exp))


def check_all(igt, gone, ctx):
    from xigt import xigtpath
    tiers = list(igt)
    items = [i for t in tiers for i in t]
    count = {}
    for x in tiers + items:
        count[x.id] = count.get(x.id, 0) + 1
    tid = {t.id: t for t in tiers if t.id is not None}
    iid = {i.id: i for i in items if i.id is not None}
    known = set(tid) | set(iid)
    for i, x in list(tid.items()) + list(iid.items()):
        if count[i] > 1:
            continue
        o = attempt(igt.get_any, i)
        require(o.ok and o.value is x, 'lookup', 'get_any({}) gives {}'.format(i, nm(o)))
        o = attempt(igt.get_item, i)
        require(o.ok and o.value is (x if i in iid else None), 'lookup', 'get_item({}) gives {}'.format(i, nm(o)))
        if i in tid:
            require(igt[i] is x and igt.get(i) is x, 'lookup', 'tier {} is not found'.format(i))
        same_kind = tiers if i in tid else items
        for how in ('cached', 'fresh', 'method'):
            if how == 'cached':
                f, b = attempt(igt.referents, i), attempt(igt.referrers, i)
            elif how == 'fresh':
                f, b = attempt(igt.referents, i, REFATTRS), attempt(igt.referrers, i, REFATTRS)
            else:
                f, b = attempt(x.referents), attempt(x.referrers)
            require(f.ok and b.ok, 'lookup', 'references of {} ({}): {} {}'.format(i, how, f, b))
            for ra in REFATTRS:
                exp = set(mentioned(x.attributes.get(ra)))
                got = set(f.value.get(ra, ()))
                require(got & known == exp & known and got <= exp, 'referents', '{} refers by {} to {}, got {} ({})'.format(
                    i, ra, sorted(exp), sorted(got), how))
                exp = set(y.id for y in same_kind if y.id is not None and count[y.id] == 1 and i in mentioned(y.attributes.get(ra)))
                got = set(j for j in b.value.get(ra, ()) if count.get(j, 1) == 1)
                require(got == exp, 'referrers', '{} is referred to by {} from {}, got {} ({})'.format(i, ra, sorted(exp), sorted(got), how))
        # through path queries
        for ra in REFATTRS:
            if ra in x.attributes:
                exp = [j for j in mentioned(x.attributes[ra])]
                if all(count.get(j) == 1 for j in exp):
                    got = must('lookup', xigtpath.findall, x, 'referent("{}")'.format(ra))
                    exp = [tid.get(j) if j in tid else iid.get(j) for j in exp]
                    require(len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), 'referents', 'path query on {}'.format(i))
    for g in gone:
        if g in known or g is None:
            continue
        require(igt.get_item(g) is None and igt.get_any(g) is None and igt.get(g) is None, 'stale', 'the removed or renamed {} is found'.format(g))
        o = attempt(igt.referents, g)
        require(not o.ok or not any(o.value.values()), 'stale', 'the removed or renamed {} has referents'.format(g))
        o = attempt(igt.referrers, g)
        if o.ok:
            for ra, who in o.value.items():
                exp = set(y.id for y in tiers + items if g in mentioned(y.attributes.get(ra)))
                require(set(who) <= exp, 'stale', 'the removed or renamed {} is referred to by {}'.format(g, sorted(who)))


def run(plan, ctx):
    from xigt import Igt, Tier, Item
    warnings.simplefilter('ignore')
    igt = must('build', Igt, id='i1', tiers=[cg.build_tier(t, {}) for t in plan['tiers']])
    ctx.log('tiers', len(igt))
    gone = set()
    renamed = tier_renamed = False
    dirty = set()
    items = lambda: [i for t in igt for i in t]
    rank = lambda t: RANK.index(t.id) if t.id in RANK else None
    nt = 0
    for e in plan['ops']:
        op = e['op']
        t = pick(igt, e['a'])
        i = pick(t, e['b']) if t is not None else None
        ctx.mark(op)
        ctx.log(op)
        lower = lambda t: [x for x in igt if rank(x) is not None and rank(t) is not None and rank(x) < rank(t)]
        if op == 'text' and i is not None:
            i.text = e['v']
            ctx.nontrivial()
        elif op == 'ref' and i is not None:
            rng = random.Random(e['seed'])
            rt = t.attributes.get(e['k']) or (lower(t)[0].id if lower(t) else None)
            if rt:
                x = igt.get(rt)
                i.attributes[e['k']] = gen_expr(rng, [y.id for y in (x or []) if y.id] or item_ids(rt))
        elif op == 'tierref' and t is not None:
            c = pick(lower(t), e['b'])
            if c is not None:
                t.attributes[e['k']] = c.id
        elif op == 'unref' and (i is not None or t is not None):
            x = i if i is not None and e['c'] & 1 else t
            if e['how'] == 'del':
                x.attributes.pop(e['k'], None)
            else:
                setattr(x, e['k'], None)
        elif op == 'add-item' and t is not None and id(t) not in dirty:
            i2 = next((j for j in item_ids(t.id) if all(y.id != j for y in items())), None)
            if i2:
                must('edit', t.insert, e['b'], cg.build_item({'id': i2, 'text': 'added'}, {}))
                ctx.nontrivial()
        elif op == 'set-item' and i is not None and id(t) not in dirty:
            gone.add(i.id)
            t[list(t).index(i) if False else [k for k, y in enumerate(t) if y is i][0]] = Item(id=i.id, text='set')
        elif op == 'del-item' and i is not None:
            gone.add(i.id)
            if e['c'] & 1:
                must('edit', t.pop, [k for k, y in enumerate(t) if y is i][0])
            else:
                del t[i.id if i.id and not dirty else [k for k, y in enumerate(t) if y is i][0]]
        elif op == 'add-tier':
            if nt < 4:
                lowers = [x.id for x in igt if x.id in RANK]
                if all(x.id != 'nt{}'.format(nt) for x in igt):
                    must('edit', igt.append, cg.build_tier(gen_tier(random.Random(e['seed']), 'nt{}'.format(nt), lowers), {}))
                nt += 1
                ctx.nontrivial()
        elif op == 'del-tier' and t is not None:
            gone.add(t.id)
            gone.update(y.id for y in t)
            del igt[[k for k, y in enumerate(igt) if y is t][0]]
        elif op == 'rename-item' and i is not None:
            gone.add(i.id)
            i.id = e['v'] + 'i'
            renamed = True
            if e['how'] == 'index':
                must('edit', t.refresh_index)
            else:
                dirty.add(id(t))
        elif op == 'rename-tier' and t is not None:
            gone.add(t.id)
            t.id = e['v'] + 't'
            tier_renamed = True
            if e['how'] == 'index':
                must('edit', igt.refresh_index)
        elif op == 'clear' and t is not None:
            gone.update(y.id for y in t)
            t.clear()
        elif op == 'assign' and t is not None and id(t) not in dirty:
            gone.update(y.id for y in t)
            t.items = [y for y in t if y is not i]
        elif op == 'dup-item' and t is not None and len(t) > 1:
            x = list(t)
            if x[0].id and not dirty:
                o = attempt(t.append, Item(id=x[0].id, text='dup'))
                require(not o.ok, 'accepted', 'a duplicate item was accepted')
                ctx.fault('refused-edit')
        elif op == 'dup-tier' and t is not None and not tier_renamed:
            o = attempt(lambda: setattr(igt, 'tiers', [Tier(id='z9'), Tier(id='z9')]))
            require(not o.ok, 'accepted', 'duplicate tiers were accepted')
            ctx.fault('refused-edit')
        elif op == 'lookup':
            # asking must leave no traces
            for x in ([t] if t is not None else []) + ([i] if i is not None else []):
                for fn in (lambda: igt.get_any(x.id), lambda: igt.referents(x.id), lambda: igt.referrers(x.id),
                           lambda: igt.referrers(x.id).get('alignment'), lambda: x.referents(), lambda: dict(igt.referrers('nothing'))):
                    attempt(fn)
        elif op == 'lookup-gone':
            for g in sorted(x for x in gone if x)[:3] + ['nothing-here']:
                attempt(igt.referrers, g)
                attempt(igt.referrers, g, REFATTRS)
                attempt(igt.referents, g)
                attempt(lambda: igt.referrers(g)['alignment'])
        elif op == 'refresh':
            must('refresh', igt.refresh_indices, tiers=tier_renamed)
            tier_renamed = False
        elif op == 'refresh-part':
            v = e['v']
            must('refresh', igt.refresh_indices, tiers=v[0], items=v[1], referents=v[2], referrers=v[3])
            if v[0]:
                tier_renamed = False
        elif op == 'interrupt':
            exc = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[e['exc']]
            fn = lambda: igt.refresh_indices(tiers=tier_renamed)
            o, n = sched.count_lines(fn)
            require(o.ok, 'refresh', 'refreshing failed: {}'.format(o))
            k = pos(n, e['at'])
            o, fired, where = sched.interrupt_at(fn, k, exc)
            ctx.log('interrupted', fired, o.name)
            if fired:
                ctx.fault('interrupt')
        elif op == 'values':
            if not renamed and not tier_renamed:
                check_values(igt, ctx, 'without a refresh')
                ctx.probe('values')
        elif op == 'sort':
            if not tier_renamed:
                must('edit', igt.sort_tiers)
        elif op == 'type' and t is not None:
            t.type = e['v']
        elif op == 'xpath' and i is not None:
            from xigt import xigtpath
            attempt(xigtpath.findall, igt, 'tier/item/referent()')
            attempt(xigtpath.findall, i, 'referrer()')
    if plan['final'] == 'default' and not tier_renamed:
        must('refresh', igt.refresh_indices)
    else:
        must('refresh', igt.refresh_indices, tiers=True)
    check_all(igt, gone, ctx)
    for t in igt:
        if id(t) in dirty:
            must('refresh', t.refresh_index)
    check_values(igt, ctx, 'after a refresh')
    # asking has changed nothing
    check_all(igt, gone, ctx)
    ctx.log('items', len(items()))
