"""C06: edits keep contents, id lookup and parent links consistent, even when they fail."""

from .. import corpusgen as cg
from ..core import attempt, must, require
from .common import pick

ID = 'C06'
RUNS = {'quick': 24000, 'thorough': 800000}
RULE = ('One run: one collection (IGTs of a corpus, tiers, items, metadata, metas or metadata children) gets a random sequence of '
        'list edits, many of which must be refused or are fed by iterators that fail part-way; after every edit contents, id '
        'lookup and links are compared with a list model. Non-trivial: an edit was refused or failed; distinct by (level, '
        'sequence of edits and outcomes).')
REAL = ['xigt.mixins', 'xigt.model', 'xigt.metadata']
STUB = ['the iterators and keys handed to the edits']
ASSUMPTIONS = ['members are put in one collection at a time (an accepted edit never takes an object that is a member elsewhere)',
               'what a removed object says about its former container is not specified']
KEEP_KEYS = ('op', 'level', 'o', 'id', 'v', 'how', 'exc', 'i', 'kind')

LEVELS = ['corpus', 'corpus', 'igt', 'tier', 'corpus-md', 'igt-md', 'tier-md', 'metadata', 'meta', 'child']
EXC = {'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'XigtError': None, 'StopIteration': None}


def gen_obj(rng, ids):
    x = rng.random()
    if x < .08:
        return {'o': 'wrong', 'v': rng.randrange(6)}
    if x < .16:
        return {'o': 'foreign', 'i': rng.randrange(9)}
    if x < .26:
        return {'o': 'removed', 'i': rng.randrange(9)}
    if x < .34:
        return {'o': 'member', 'i': rng.randrange(9)}
    return {'o': 'new', 'id': rng.choice(ids + [None]), 'v': rng.choice(['a', 'a', 'b'])}


def gen(rng, tier):
    level = rng.choice(LEVELS)
    ids = ['x{}'.format(k) for k in range(rng.choice([3, 6, 12]))] + ['a-b.c', 'a']
    n = rng.choice([0, 2, 4, 7])
    init = [{'id': i if rng.random() < .8 else None, 'v': rng.choice('ab')} for i in ids[:n]]
    foreign = [{'id': rng.choice(ids), 'v': 'f'} for _ in range(3)]
    ops = []
    idx = lambda: rng.choice([0, 1, 2, -1, -2, 3, 5, 50, -50])
    for _ in range(rng.choice([2, 6, 12, 25])):
        op = rng.choice(['append', 'append', 'insert', 'insert', 'extend', 'extend', 'iadd', 'set', 'set', 'del', 'del', 'delid', 'delslice',
                         'remove', 'pop', 'pop', 'clear', 'sort', 'reverse', 'assign', 'assign', 'assign-self', 'setslice', 'setid',
                         'rename', 'rename-gone', 'badidx', 'add'])
        e = {'op': op}
        if op in ('append', 'set', 'insert', 'remove', 'setid', 'add'):
            e['obj'] = gen_obj(rng, ids)
        if op in ('insert', 'set', 'del', 'pop', 'delid', 'setid', 'rename', 'rename-gone'):
            e['i'] = idx()
        if op == 'pop' and rng.random() < .4:
            e['i'] = None
        if op in ('extend', 'iadd', 'assign', 'setslice'):
            e['objs'] = [gen_obj(rng, ids) if rng.random() < .5 else {'o': 'new', 'id': rng.choice([None, 'y{}'.format(rng.randrange(40))]), 'v': 'c'}
                         for _ in range(rng.choice([0, 1, 2, 4]))]
            e['how'] = rng.choice(['list', 'list', 'gen', 'gen', 'fail', 'fail', 'none', 'noniter'])
            e['old'] = rng.random() < .3      # the deprecated name of the edit, if it has one
            if e['how'] == 'fail':
                e['at'] = rng.randrange(4)
                e['exc'] = rng.choice(['ValueError', 'KeyboardInterrupt', 'MemoryError'])
        if op in ('delslice', 'setslice'):
            e['sl'] = [rng.choice([None, 0, 1, 2, -1]), rng.choice([None, 1, 3, -1, 9]), rng.choice([None, None, 1, 2, -1])]
        if op == 'setslice' and rng.random() < .4:
            e['one'] = rng.choice(['id', 'v'])      # one member, instead of a list of them
        if op == 'delid':
            e['id'] = rng.choice(ids + ['zz', '0', '1', '-1', '9'])
        if op == 'sort':
            e['key'] = rng.choice(['id', 'v', 'none', 'len', 'fail', 'mixed'])
            e['rev'] = rng.random() < .3
            e['at'] = rng.randrange(5)
        if op == 'assign-self':
            e['how'] = rng.choice(['select', 'genexp', 'reversed', 'tail', 'self', 'iter', 'dup', 'self-fail'])
            e['v'] = rng.choice('ab')
        if op == 'rename-gone':
            e['how'] = rng.choice(['pop', 'del', 'delslice', 'remove', 'set', 'set', 'set', 'clear', 'assign'])
            e['v'] = rng.choice(['none', 'old', 'new'])      # the id of what comes in its place
        if op in ('rename', 'rename-gone'):
            e['id'] = rng.choice(ids + ['r{}'.format(rng.randrange(9)), None])
        if op == 'badidx':
            e['how'] = rng.choice(['insert-str', 'insert-none', 'set-none', 'del-none', 'pop-str', 'remove-other', 'set-float', 'get'])
        ops.append(e)
    if rng.random() < .3:
        # last, because the members then are there twice
        ops.append({'op': 'twice', 'how': rng.choice(['extend', 'iadd', 'iter'])})
    return {'level': level, 'init': init, 'foreign': foreign, 'ops': ops, 'lazy': rng.random() < .3}


class Level(object):
    """One collection, and how to make, link and assign its members."""

    def __init__(self, level, plan):
        from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
        self.level = level
        ns = {'p': 'urn:here'}
        ns2 = {'p': 'urn:there'}
        base = level.split('-')[0]
        cls = {'corpus': XigtCorpus, 'igt': Igt, 'tier': Tier, 'metadata': Metadata, 'meta': Meta}.get(base)
        if base == 'child':
            self.owner, self.other = MetaChild('x', nsmap=ns), MetaChild('y', nsmap=ns2)
        else:
            self.owner, self.other = cls(id='own', nsmap=ns), cls(id='oth', nsmap=ns2)
        if level.endswith('-md'):
            self.member = Metadata
            self.prop = 'metadata'
            self.link = None
        else:
            self.member = {'corpus': Igt, 'igt': Tier, 'tier': Item, 'metadata': Meta, 'meta': MetaChild, 'child': MetaChild}[level]
            self.prop = {'corpus': 'igts', 'igt': 'tiers', 'tier': 'items', 'metadata': 'metas', 'meta': 'children', 'child': 'children'}[level]
            self.link = {'corpus': 'corpus', 'igt': 'igt', 'tier': 'tier'}.get(level)
        self.wrong = [Item(id='w'), Tier(id='w'), Meta(id='w'), 'text', None, 7]
        self.wrong = [w if not isinstance(w, self.member) else Igt(id='w') for w in self.wrong]
        self.is_child = self.member is MetaChild

    def coll(self, owner):
        return owner.metadata if self.level.endswith('-md') else owner

    def make(self, s):
        if self.is_child:
            o = self.member('n', attributes={'v': s['v']})
            if s.get('id') is not None:
                o.id = s['id']
            return o
        return self.member(id=s.get('id'), attributes={'v': s['v']})

    def links(self, o):
        """What the object says about where it belongs (public view)."""
        ns = o.nsmap.get('p') if hasattr(o, 'nsmap') else None
        return (id(getattr(o, self.link)) if self.link and isinstance(o, self.member) else None, ns)

    def linked(self, o, owner):
        if self.link and getattr(o, self.link) is not owner:
            return False
        return o.nsmap.get('p') == owner.nsmap['p']


class Refused(Exception):
    pass


def norm(i, n):
    return i + n if i < 0 else i


def run(plan, ctx):
    from xigt import XigtCorpus
    lv = Level(plan['level'], plan)
    own = lv.coll(lv.owner)
    model = []
    ids0 = set()
    init = []
    for s in plan['init']:
        if s['id'] is None or s['id'] not in ids0:
            ids0.add(s['id'])
            init.append(lv.make(s))
    if plan['level'] == 'corpus' and plan.get('lazy'):
        lv.owner = own = XigtCorpus(id='own', nsmap={'p': 'urn:here'}, igts=iter(init), mode='incremental')
        must('build', list, own)
    else:
        must('build', own.extend, init)
    model = list(init)
    oth = lv.coll(lv.other)
    for s in plan['foreign']:
        if s['id'] not in [o.id for o in oth]:
            must('build', oth.append, lv.make(s))
    foreign = list(oth)
    removed = []
    kept = []         # keep every object alive, so that identities stay distinct
    check(lv, own, model, foreign, removed, 'building')
    ctx.mark(plan['level'])
    for n, e in enumerate(plan['ops']):
        op = e['op']

        def obj(s):
            k = s['o']
            if k == 'wrong':
                return lv.wrong[s['v'] % len(lv.wrong)]
            if k == 'foreign':
                # only objects that must be refused
                ids = [m.id for m in model]
                c = [f for f in foreign if f.id in ids]
                x = pick(c, s['i'])
            elif k == 'removed':
                x = pick(removed, s['i'])
            elif k == 'member':
                x = pick([m for m in model if m.id is not None], s['i'])
            else:
                x = lv.make(s)
                kept.append(x)
            if x is None:
                x = lv.make({'id': None, 'v': 'z'})
                kept.append(x)
            return x
        arg = obj(e['obj']) if 'obj' in e else None
        objs = []
        for s in e.get('objs', []):
            x = obj(s)
            if not any(x is y for y in objs) or getattr(x, 'id', None) is not None:
                objs.append(x)
        before = list(model)
        watch = [(x, lv.links(x), getattr(x, 'id', None)) for x in ([arg] if arg is not None else []) + objs if isinstance(x, lv.member)]
        try:
            new, call = plan_op(lv, own, model, e, arg, objs)
        except Skip:
            continue
        if any(x is f for x in (new[0] if isinstance(new, tuple) else new) for f in foreign):
            continue      # would move a member of another container
        o = attempt(call)
        partial = isinstance(new, tuple)
        must_fail = partial
        if partial:
            new = new[0]
        ctx.log(op, e.get('how'), o.name, len(new))
        ctx.mark(op, e.get('how'), o.ok)
        if must_fail:
            ctx.nontrivial()
            ctx.probe('refused')
            require(not o.ok, 'accepted', '{} must be refused, but ended normally'.format(describe(e)))
            if e.get('how') in ('fail', 'self-fail') or e.get('key') == 'fail':
                ctx.fault('failing-iterator')
        else:
            require(o.ok, 'refused', '{} was refused: {}'.format(describe(e), o))
        for x in before:
            if not any(x is y for y in new) and not any(x is y for y in removed):
                removed.append(x)
        removed[:] = [x for x in removed if not any(x is y for y in new)]
        model[:] = new
        what = '{} ({})'.format(describe(e), 'refused' if must_fail else 'done')
        check(lv, own, model, foreign, removed, what, kept)
        for x, links, i in watch:
            require(getattr(x, 'id', None) == i, 'refused-changed' if must_fail else 'changed', '{}: the id of an object changed'.format(what))
            if not any(x is y for y in new):
                require(lv.links(x) == links, 'refused-changed', '{}: an object that was not taken is linked to the collection'.format(what))
        if op == 'pop' and not must_fail:
            exp = before[e['i'] if e['i'] is not None else -1]
            require(o.value is exp, 'changed', 'pop returned another member')
        o = None


def describe(e):
    return e['op'] + (' ({})'.format(e['how']) if e.get('how') else '')


class Skip(Exception):
    pass


def plan_op(lv, own, model, e, arg, objs):
    """-> (the new contents, or a tuple with them when the edit must fail; the edit)"""
    op = e['op']
    n = len(model)
    ids = [m.id for m in model if m.id is not None]
    ok_kind = lambda x: isinstance(x, lv.member)
    dup = lambda x, against: x.id is not None and x.id in against
    M = list(model)
    if op in ('append', 'add'):
        fn = own.append if op == 'append' else own.add
        if not ok_kind(arg) or dup(arg, ids):
            return (M,), lambda: fn(arg)
        return M + [arg], lambda: fn(arg)
    if op == 'insert':
        i = e['i']
        if not ok_kind(arg) or dup(arg, ids):
            return (M,), lambda: own.insert(i, arg)
        new = list(M)
        new.insert(i, arg)
        return new, lambda: own.insert(i, arg)
    if op in ('extend', 'iadd', 'assign'):
        how = e['how']
        src = list(objs)
        fails_at = None
        if how == 'fail':
            fails_at = min(e.get('at', 0), len(src))
        if op == 'assign':
            def fn(x):
                setattr(lv.owner, 'text' if lv.level == 'metadata' and e.get('old') else lv.prop, x)
        elif op == 'iadd':
            def fn(x):
                c = own
                c += x
                if c is not own:
                    raise AssertionError('+= made another collection')
        else:
            fn = own.add_list if e.get('old') else own.extend
        if how == 'none':
            if op == 'assign' and lv.prop != 'metadata':
                return [], lambda: fn(None)
            return (M,), lambda: fn(None)
        if how == 'noniter':
            return (M,), lambda: fn(5)
        # what is taken
        new = [] if op == 'assign' else list(M)
        seen = [] if op == 'assign' else list(ids)
        bad = False
        for k, x in enumerate(src):
            if fails_at == k:
                bad = True
                break
            if not ok_kind(x) or dup(x, seen):
                bad = True
                break
            if x.id is not None:
                seen.append(x.id)
            new.append(x)
        if fails_at is not None and fails_at >= len(src):
            bad = True
        if bad and op == 'assign':
            new = list(M)

        def it():
            for k, x in enumerate(src):
                if k == fails_at:
                    raise EXC[e['exc']]('injected')
                yield x
            if fails_at is not None:
                raise EXC[e['exc']]('injected')
        a = src if how == 'list' else it()
        return (new,) if bad else new, lambda: fn(a)
    if op == 'set':
        i = e['i']

        def call():
            own[i] = arg
        if not ok_kind(arg) or not -n <= i < n:
            return (M,), call
        rest = [m.id for k, m in enumerate(model) if k != norm(i, n) and m.id is not None]
        if dup(arg, rest):
            return (M,), call
        new = list(M)
        new[i] = arg
        return new, call
    if op == 'setid':
        m = pick(model, e['i'])
        if m is None or m.id is None:
            raise Skip()

        def call():
            own[m.id] = arg
        return (M,), call
    if op == 'setslice':
        sl = slice(*e['sl'])

        def call():
            if e.get('one'):
                own[sl] = one
            else:
                own[sl] = list(objs)
        one = lv.make({'id': 'fresh-one' if e.get('one') == 'id' else None, 'v': 'q'})
        return (M,), call
    if op == 'del':
        i = e['i']

        def call():
            del own[i]
        if not -n <= i < n:
            return (M,), call
        del M[i]
        return M, call
    if op == 'delid':
        m = pick(model, e['i'])
        i = e['id']
        if m is not None and m.id is not None and e['i'] > 0:
            i = m.id

        def call():
            del own[i]
        if i in ids:
            return [x for x in M if x.id != i], call
        if i.lstrip('-').isdigit():
            raise Skip()
        return (M,), call
    if op == 'delslice':
        sl = slice(*e['sl'])
        del M[sl]

        def call():
            del own[sl]
        return M, call
    if op == 'remove':
        if not ok_kind(arg):
            return (M,), lambda: own.remove(arg)
        k = next((k for k, m in enumerate(model) if m is arg or (m.id == arg.id and m.attributes == arg.attributes)), None)
        if k is None:
            return (M,), lambda: own.remove(arg)
        del M[k]
        return M, lambda: own.remove(arg)
    if op == 'pop':
        i = e['i']
        call = (lambda: own.pop()) if i is None else (lambda: own.pop(i))
        i = -1 if i is None else i
        if not -n <= i < n:
            return (M,), call
        del M[i]
        return M, call
    if op == 'clear':
        return [], own.clear
    if op == 'reverse':
        return M[::-1], own.reverse
    if op == 'sort':
        c = [0]
        kind = e['key']
        at = e['at']

        def key(x):
            c[0] += 1
            if kind == 'fail' and c[0] > at:
                raise ValueError('injected')
            if kind == 'id':
                return x.id or ''
            if kind == 'v':
                return x.attributes['v']
            if kind == 'len':
                return len(own) * (1 if x.id is None else -1)      # looks into the collection
            if kind == 'mixed':
                return x.id                                        # None and text do not compare
            return 0
        call = lambda: own.sort(key=key, reverse=e['rev'])
        if kind == 'fail' and at < n:
            return (M,), call
        if kind == 'mixed':
            if n > 1 and any(m.id is None for m in M):
                try:
                    sorted(m.id for m in M)
                except TypeError:
                    return (M,), call
                return sorted(M, key=lambda m: m.id, reverse=e['rev']), call
            return sorted(M, key=lambda m: m.id, reverse=e['rev']) if n > 1 else M, call
        ks = {'id': lambda m: m.id or '', 'v': lambda m: m.attributes['v'], 'len': lambda m: n * (1 if m.id is None else -1)}
        return sorted(M, key=ks.get(kind, lambda m: 0), reverse=e['rev']), call
    if op == 'assign-self':
        how = e['how']

        def put(x):
            setattr(lv.owner, lv.prop, x)
        if how == 'select':
            if lv.level.endswith('-md'):
                raise Skip()
            i = next((m.id for m in model if m.id), None)
            return [m for m in M if m.id == i], lambda: put(own.select(id=i))
        if how == 'genexp':
            return [m for m in M if m.attributes['v'] == e['v']], lambda: put(x for x in own if x.attributes['v'] == e['v'])
        if how == 'reversed':
            return M[::-1], lambda: put(reversed(own))
        if how == 'tail':
            return M[1:], lambda: put(own[1:])
        if how == 'self':
            return M, lambda: put(own)
        if how == 'iter':
            return M, lambda: put(iter(own))
        if how == 'dup':
            a = M + M[:1]
            if not M or M[0].id is None:
                raise Skip()
            return (M,), lambda: put(x for x in list(own) + list(own)[:1])

        def failing():
            for x in own:
                yield x
            raise ValueError('injected')
        return (M,), lambda: put(failing())
    if op == 'rename':
        m = pick(model, e['i'])
        if m is None:
            raise Skip()
        old = m.id
        if e['id'] is not None and any(x.id == e['id'] for x in model if x is not m):
            raise Skip()

        def call():
            m.id = e['id']
            # selecting looks at the objects, not at the index
            for i in (old, e['id']):
                got = list(own.select(id=i))
                exp = [x for x in M if x.id == i]
                require(len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), 'select', 'after a rename, selecting the id {} gives {}'.format(
                    i, show(got)))
            own.refresh_index()
        return M, call
    if op == 'rename-gone':
        # removed after its id was changed, without a refresh in between
        m = pick(model, e['i'])
        if m is None or e['id'] is not None and any(x.id == e['id'] for x in model):
            raise Skip()
        how = e['how']
        k = next(k for k, x in enumerate(M) if x is m)
        x = lv.make({'id': {'old': m.id, 'new': e['id']}.get(e.get('v')), 'v': 'q'})
        new = M[:k] + M[k + 1:]

        def call():
            m.id = e['id']
            if how == 'pop':
                own.pop(k)
            elif how == 'del':
                del own[k]
            elif how == 'delslice':
                del own[k:k + 1]
            elif how == 'remove':
                if own.index(m) != k:
                    del own[k]      # (it looks like another one)
                else:
                    own.remove(m)
            elif how == 'set':
                own[k] = x
            elif how == 'clear':
                own.clear()
            else:
                setattr(lv.owner, lv.prop, list(new))
        return [] if how == 'clear' else M[:k] + [x] + M[k + 1:] if how == 'set' else new, call
    if op == 'twice':
        # a collection added to itself: the same members again
        if not M or any(m.id is not None for m in M) or n > 12:
            raise Skip()

        def call():
            if e['how'] == 'extend':
                own.extend(own)
            elif e['how'] == 'iadd':
                coll = own
                coll += own
            else:
                own.extend(list(own))
        return M + M, call
    if op == 'badidx':
        how = e['how']
        x = lv.make({'id': None, 'v': 'q'})
        if how == 'insert-str':
            return (M,), lambda: own.insert('x1', lv.make({'id': 'fresh-one', 'v': 'q'}))
        if how == 'insert-none':
            return (M,), lambda: own.insert(None, lv.make({'id': 'fresh-one', 'v': 'q'}))
        if how == 'set-none':
            def call():
                own[None] = x
            return (M,), call
        if how == 'set-float':
            if not model:
                raise Skip()
            raise Skip()
        if how == 'del-none':
            def call():
                del own[None]
            return (M,), call
        if how == 'pop-str':
            return (M,), lambda: own.pop('x1')
        if how == 'remove-other':
            return (M,), lambda: own.remove('something')

        def call():
            if own.get('no-such') is not None or own.get('no-such', 5) != 5 or own.get(999, 7) != 7:
                raise AssertionError('get of an absent member')
        return M, call
    raise AssertionError(op)


def check(lv, own, model, foreign, removed, what, kept=()):
    got = list(list.__iter__(own))
    require(len(got) == len(model) and all(a is b for a, b in zip(got, model)), 'contents', 'after {}: contents are {}, expected {}'.format(
        what, show(got), show(model)))
    require(len(own) == len(model), 'contents', 'after {}: len() is {}'.format(what, len(own)))
    if not lv.level.endswith('-md'):
        require([id(x) for x in getattr(lv.owner, lv.prop)] == [id(x) for x in model], 'contents', 'after {}: .{} differs'.format(what, lv.prop))
    ids = {}
    for k, m in enumerate(model):
        require(own[k] is m and own[k - len(model)] is m, 'lookup', 'after {}: position {} differs'.format(what, k))
        if m.id is not None:
            require(m.id not in ids, 'lookup', 'after {}: id {} is not unique'.format(what, m.id))
            ids[m.id] = m
            o = attempt(lambda: own[m.id])
            require(o.ok and o.value is m and own.get(m.id) is m, 'lookup', 'after {}: looking up the id {} gives {!r}'.format(
                what, m.id, o.value if o.ok else o))
        require(lv.linked(m, lv.owner), 'link', 'after {}: member {} is not linked to its container'.format(what, k))
    known = set(x.id for x in removed + foreign + list(kept)) | set(['w', 'zz', 'fresh-one', 'own', 'oth', 'a', 'a-b.c'] + ['x{}'.format(k) for k in range(12)] + ['r{}'.format(k) for k in range(9)])
    for i in known:
        # (looking up a number gives a position)
        if i is not None and i not in ids and not i.lstrip('-').isdigit():
            require(own.get(i) is None, 'lookup', 'after {}: the id {} of no member is found'.format(what, i))
            require(not attempt(lambda: own[i]).ok, 'lookup', 'after {}: the id {} of no member is found'.format(what, i))
    for x in lv.wrong:
        if hasattr(x, 'nsmap'):
            require(not x.nsmap, 'refused-changed', 'after {}: an object of the wrong kind is linked to the collection'.format(what))
    for x in foreign:
        require(lv.linked(x, lv.other), 'refused-changed', 'after {}: a member of another container lost its link'.format(what))


def show(xs):
    return '[' + ', '.join(str(x.id) for x in xs) + ']'
