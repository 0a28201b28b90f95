"""C13: validation succeeds only if every file was fully read and meets the requirements."""

import copy
import random
import re

from .. import corpusgen as cg
from ..core import attempt, must, require
from . import common
from .c07 import mentioned
from .cliutil import damage, files, new_fs, run_cli
from .common import frac, fs_cfg, pos, well_formed

ID = 'C13'
RUNS = {'quick': 5000, 'thorough': 120000}
RULE = ('One run: `xigt validate` in a simulated process on a batch of 1-4 files - valid, violating one mandatory rule at a random '
        'place, damaged, truncated, missing, unreadable, failing at a random read - in random order and verbosity, compared with an '
        'independent judgement of each file and with the output of validating each file alone. Non-trivial: some file is bad; '
        'distinct by (file states, verbosity).')
REAL = ['xigt.main', 'xigt.scripts.xigt_validate', 'xigt.codecs.xigtxml', 'xigt.model', 'xigt.mixins', 'xigt.ref']
STUB = ['file system (open, os.*), standard streams']
ASSUMPTIONS = ['advisory findings may affect the exit status when the verbosity asks for them']
KEEP_KEYS = ('files', 'state', 'how', 'id', 'inject', 'args', 'op', 'path')

INJECT = ['dup-igt', 'dup-tier', 'dup-item', 'dup-item-in-tier', 'tier-ref', 'tier-ref-foreign', 'tier-ref-number', 'item-ref', 'item-ref-other',
          'item-ref-part', 'undeclared', 'empty-ref', 'bad-id', 'item-ref-range', 'advise', 'advise', 'advise']
REFATTRS = ('alignment', 'segmentation', 'content')


def inject(rng, spec, how):
    """Break one mandatory rule somewhere (where possible)."""
    igts = spec['igts']
    tiers = [(g, t) for g in igts for t in g['tiers']]
    items = [(g, t, i) for g, t in tiers for i in t['items']]
    last = lambda xs: xs[-1] if rng.random() < .4 else rng.choice(xs)
    if how == 'dup-igt' and len(igts) > 1 and igts[0].get('id'):
        last(igts[1:])['id'] = igts[0]['id']
    elif how == 'dup-tier':
        c = [g for g in igts if len(g['tiers']) > 1 and g['tiers'][0].get('id')]
        if c:
            g = last(c)
            last(g['tiers'][1:])['id'] = g['tiers'][0]['id']
    elif how in ('dup-item', 'dup-item-in-tier') and items:
        for g in igts[::-1]:
            xs = [(t, i) for t in g['tiers'] for i in t['items'] if i.get('id')]
            xs = [(a, b) for a in xs for b in xs if a[1] is not b[1] and (a[0] is b[0]) == (how == 'dup-item-in-tier')]
            if xs:
                a, b = rng.choice(xs)
                a[1]['id'] = b[1]['id']
                break
    elif how in ('tier-ref', 'tier-ref-number', 'tier-ref-foreign') and tiers:
        g, t = last(tiers)
        v = {'tier-ref': rng.choice(['nowhere', 'W', 'w1', 'w m', 'w,m']), 'tier-ref-number': rng.choice(['0', '1', '-1'])}.get(how)
        if v is None:
            mine = [x.get('id') for x in g['tiers']]
            c = [x['id'] for h, x in tiers if x.get('id') and x['id'] not in mine]
            v = rng.choice(c) if c else 'nowhere'
        t.setdefault('attrs', {})[rng.choice(REFATTRS)] = v
    elif how == 'undeclared' and items:
        g, t, i = last(items)
        i.setdefault('attrs', {})[rng.choice(REFATTRS)] = rng.choice(['w1', 'zz', ''])
    elif how == 'empty-ref':
        c = [g for g in igts if len(g['tiers']) > 1]
        if c:
            g = last(c)
            a, b = rng.sample(g['tiers'], 2)
            if a.get('id') and b['items']:
                a['items'] = []
                ra = rng.choice(REFATTRS)
                b.setdefault('attrs', {})[ra] = a['id']
                last(b['items']).setdefault('attrs', {})[ra] = a['id'] + '1'
    elif how.startswith('item-ref'):
        c = [(g, t, i, ra) for g, t, i in items for ra in REFATTRS if t.get('attrs', {}).get(ra)]
        if c:
            g, t, i, ra = last(c)
            old = i.get('attrs', {}).get(ra)
            other = [x['id'] for u in g['tiers'] for x in u['items'] if x.get('id') and u.get('id') != t['attrs'][ra]]
            v = {'item-ref': rng.choice(['zz', 'w99', '{}0'.format(mentioned(old)[0] if mentioned(old) else 'x')]), 'item-ref-other': rng.choice(other or ['zz']),
                 'item-ref-part': (old or 'zz') + rng.choice('+,') + 'zz', 'item-ref-range': 'zz[0:1]'}[how]
            i.setdefault('attrs', {})[ra] = v
    elif how == 'advise':
        # nothing mandatory: spans that overlap or leave their item, objects
        # without an id or a type
        c = [(g, t, i, ra) for g, t, i in items for ra in REFATTRS if t.get('attrs', {}).get(ra) and mentioned(i.get('attrs', {}).get(ra))]
        for g, t, i, ra in rng.sample(c, min(len(c), rng.choice([0, 1, 2]))):
            x = mentioned(i['attrs'][ra])[0]
            a, b = sorted(rng.choice([0, 1, 2, 3]) for _ in range(2))
            i['attrs'][ra] = rng.choice(['{x}[{a}:{b}]+{x}[1:2]', '{x}[{a}:{b},0:1]', '{x}+{x}', '{x} {x}[{a}:{b}]', '{x}[{a}:99]', '{x}[50:51]', '{x}[{a}:{b}+{b}:{b}]',
                                         '{x}[0:1,2:3]', '{x}[0:1+1:2]']).format(x=x, a=a, b=b)
        if igts and rng.random() < .3:
            last(igts).pop('id', None)
        if tiers and rng.random() < .3:
            last(tiers)[1].pop('type', None)
        if items and rng.random() < .3:
            x = last(items)[2].pop('id', None)
    elif how == 'bad-id' and items:
        x = last([x for tup in items for x in tup])
        x['id'] = rng.choice(['1x', 'a b', '#', ''])


def siblings(rng, fl):
    """Files that look alike, of which at most one lacks something."""
    ok = [f for f in fl if f['state'] == 'ok' and 'inject' not in f and f['enc'] not in common.NARROW and f['spec']['igts']]
    if not ok:
        return
    f = rng.choice(ok)
    for h in rng.sample(fl, rng.choice([1, len(fl)])):
        if h is f or h['state'] != 'ok' or h['enc'] in common.NARROW:
            continue
        h['spec'] = copy.deepcopy(f['spec'])
        h.pop('inject', None)
        h['spec'].pop('id', None)
        f['spec'].pop('id', None)
        for s in rng.choice([[h], [f], [h, f], []]):
            gone(rng, s['spec'])
            s['inject'] = 'gone'


def gone(rng, spec):
    """Take away something another part refers to."""
    c = []
    for g in spec['igts']:
        for t in g['tiers']:
            for ra in REFATTRS:
                r = t.get('attrs', {}).get(ra)
                for u in g['tiers']:
                    if r and u.get('id') == r and u is not t:
                        c.append((g['tiers'], u))
                        for i in t['items']:
                            ids = mentioned(i.get('attrs', {}).get(ra))
                            c += [(u['items'], x) for x in u['items'] if x.get('id') in ids] * 2
    if c:
        where, x = rng.choice(c)
        where[:] = [y for y in where if y is not x]


def gen(rng, tier):
    nf = rng.choice([1, 1, 2, 2, 3, 4])
    fl = []
    for k in range(nf):
        enc = rng.choice(['utf-8', 'utf-8', 'utf-8-bom', 'utf-16', 'iso-8859-1'])
        kn = cg.Knobs(rng)
        kn.noids = kn.noids and rng.random() < .5
        if enc in common.NARROW:
            kn.names_ascii = True
        if rng.random() < .12:
            kn.big = True
        spec = cg.gen_corpus(rng, kn)
        if 'id' in spec and rng.random() < .85:
            spec['id'] = 'c{}'.format(k)
        if rng.random() < .15:
            # a corpus nothing can be said about
            for g in spec['igts']:
                g.setdefault('id', 'i')
                for t in g['tiers']:
                    t.setdefault('type', 'x')
        f = {'enc': enc, 'fmt': rng.randrange(1 << 30), 'path': rng.choice(['a{}.xml', 'd/b{}.xml', 'é{}.xml', 'c {{}}{}']).format(k), 'state': 'ok'}
        x = rng.random()
        if x < .35:
            f['inject'] = rng.choice(INJECT)
            inject(rng, spec, f['inject'])
        elif x < .5:
            f['state'] = 'damage'
            f['how'] = rng.choice(['truncate', 'truncate', 'truncate', 'junk', 'empty', 'html', 'mismatch', 'nuls', 'zeros', 'badbyte'])
            f['at'] = frac(rng)
        elif x < .62:
            f['state'] = 'read-error'
            f['at'] = frac(rng)
        elif x < .68:
            f['state'] = rng.choice(['missing', 'dir', 'open-error', 'json'])
        f['spec'] = spec
        fl.append(f)
    if nf > 1 and rng.random() < .4:
        siblings(rng, fl)
    order = list(range(nf))
    rng.shuffle(order)
    if rng.random() < .06:
        order.append(rng.choice(order))
    args = rng.choice([[], [], [], ['-q'], ['-q'], ['-v'], ['-v'], ['-vv'], ['-v', '-v'], ['--color'], ['--color', '-q'], ['-v', '--color']])
    return {'files': fl, 'order': order, 'args': args, 'cfg': fs_cfg(rng, ['utf-8', 'utf-8', 'utf-8', 'us-ascii']), 'fseed': rng.randrange(1 << 30)}


def violations(spec):
    """Independent: the mandatory rules this corpus breaks."""
    from xigt.ref import id_re
    out = set()

    def uniq(what, xs):
        xs = [x.get('id') for x in xs if x.get('id')]
        if len(xs) != len(set(xs)):
            out.add('duplicate ' + what)
    uniq('igt', spec['igts'])
    for o in [spec] + spec['igts'] + [t for g in spec['igts'] for t in g['tiers']] + [i for g in spec['igts'] for t in g['tiers'] for i in t['items']]:
        if o.get('id') is not None and not id_re.match(o['id']):
            out.add('bad id')
    for g in spec['igts']:
        uniq('tier', g['tiers'])
        uniq('item', [i for t in g['tiers'] for i in t['items']])
        for t in g['tiers']:
            for ra in REFATTRS:
                r = t.get('attrs', {}).get(ra)
                to = [x for x in g['tiers'] if x.get('id') and x['id'] == r]
                if r and not to:
                    out.add('dangling tier reference')
                for i in t['items']:
                    ir = i.get('attrs', {}).get(ra)
                    if ir is not None and ra not in t.get('attrs', {}):
                        out.add('undeclared reference attribute')
                    if ir and to:
                        have = set(x.get('id') for x in to[0]['items'])
                        if any(x not in have for x in mentioned(ir)):
                            out.add('dangling item reference')
    return out


ERROR, WARNING, INFO = 40, 30, 20


def item_value(xi):
    try:
        return xi.value()
    except Exception:
        return None


def findings(spec):
    """Independent: [(depth, index, id, levels of the findings), ...] in the
    order of the document, for a corpus that can be loaded; or None."""
    try:
        xc = cg.build_corpus(spec)
    except Exception:
        return None
    out = []

    def note(depth, k, x, levels):
        out.append((depth, k, x.get('id') or None, levels))
    note(0, None, spec, [] if spec.get('id') else [INFO])
    for gk, g in enumerate(spec['igts']):
        note(1, gk, g, [] if g.get('id') else [WARNING])
        seen = set()
        for tk, t in enumerate(g['tiers']):
            levels = [WARNING for k in ('id', 'type') if not t.get(k)]
            at = t.get('attrs', {})
            to = {}
            for ra in REFATTRS:
                to[ra] = next((k for k, x in enumerate(g['tiers']) if x.get('id') and x['id'] == at.get(ra)), None)
                if at.get(ra) and to[ra] is None:
                    levels.append(ERROR)
            if any(ra not in at and ra in i.get('attrs', {}) for i in t['items'] for ra in REFATTRS):
                levels.append(ERROR)
            note(2, tk, t, levels)
            for ik, i in enumerate(t['items']):
                levels = [] if i.get('id') else [WARNING]
                if i.get('id'):
                    if i['id'] in seen:
                        levels.append(ERROR)
                    seen.add(i['id'])
                for ra in REFATTRS:
                    ref = i.get('attrs', {}).get(ra)
                    if not ref or to[ra] is None:
                        continue
                    have = {x['id']: n for n, x in enumerate(g['tiers'][to[ra]]['items']) if x.get('id')}
                    if any(x not in have for x in mentioned(ref)):
                        levels.append(ERROR)
                    cover = {}
                    outside = overlap = False
                    for x, rngs in re.findall(r'([a-zA-Z][-.\w]*)(?:\[([^\]]*)\])?', ref):
                        if x not in have:
                            continue
                        v = item_value(xc[gk][to[ra]][have[x]])
                        spans = []
                        if rngs:
                            if not re.match(r'^\d+:\d+([+,]\d+:\d+)*$', rngs):
                                return None
                            spans = [tuple(int(n) for n in y.split(':')) for y in re.split('[+,]', rngs)]
                            if any(max(y) > len(v or '') for y in spans):
                                outside = True
                        elif v is not None:
                            spans = [(0, len(v))]
                        for a, b in spans:
                            for n in range(a, min(b, len(v or ''))):
                                if n in cover.setdefault(x, set()):
                                    overlap = True
                                cover[x].add(n)
                    levels += [WARNING] * (outside + overlap)
                note(3, ik, i, levels)
    return out


def headings(found, k, minlevel):
    """The headings of objects with findings or above ones."""
    out = []
    need = set()
    for n in range(len(found) - 1, -1, -1):
        d = found[n][0]
        if max(found[n][3] + [0]) >= minlevel or d in need:
            need = set(x for x in need if x < d)
            if d:
                need.add(d - 1)
            _, idx, i, _ = found[n]
            out.append('{} {} {}'.format(['corpus', 'igt', 'tier', 'item'][d], k if idx is None else idx, '' if i is None else '(id: "{}")'.format(i)).strip())
        else:
            need = set(x for x in need if x != d)
    return out[::-1]


def build(ctx, plan, datas, which):
    fs = new_fs(ctx, plan)
    for k, (f, d) in enumerate(zip(plan['files'], datas)):
        if k not in which:
            continue
        if f['state'] == 'missing':
            continue
        if f['state'] == 'dir':
            fs.put(f['path'] + '/x', b'')
        else:
            fs.put(f['path'], d)
    fs.arm()
    return fs


def faults_for(plan, which, reads):
    out = []
    for k in which:
        f = plan['files'][k]
        base = f['path'].split('/')[-1]
        if f['state'] == 'open-error':
            out.append({'op': 'open', 'path': base, 'n': 0, 'do': 'EACCES', 'sticky': True})
        elif f['state'] == 'read-error' and reads.get(k):
            out.append({'op': 'read', 'path': base, 'n': pos(reads[k], f['at']), 'do': 'EIO', 'sticky': True})
    return out


def run(plan, ctx):
    fl = plan['files']
    if not fl or any(k >= len(fl) for k in plan['order']):
        return
    datas, bad = [], []
    for f in fl:
        d = cg.xml_bytes(f['spec'], random.Random(f['fmt']), f['enc'])
        b = violations(f['spec'])
        if f['state'] == 'damage':
            x = damage(d, f['how'], f['at'])
            if x is None:
                return
            d = x
            b = set([f['how']])
            ctx.fault('damage-' + f['how'])
        elif f['state'] == 'json':
            d = b'{"id": "x", "igts": []}'
            b = set(['json'])
        elif f['state'] != 'ok':
            b = set([f['state']])
        datas.append(d)
        bad.append(b)
    # how many reads each file takes
    reads = {}
    outs = {}
    for k in sorted(set(plan['order'])):
        fs = build(ctx, plan, datas, [k])
        try:
            if fl[k]['state'] == 'read-error':
                run_cli(ctx, fs, ['validate', fl[k]['path']])
                reads[k] = fs.counts.get('read', 0)
                fs.arm(faults_for(plan, [k], reads))
            elif fl[k]['state'] == 'open-error':
                fs.arm(faults_for(plan, [k], reads))
            before = files(fs)
            r = run_cli(ctx, fs, ['validate'] + plan['args'] + [fl[k]['path']])
            require(files(fs) == before, 'touched', 'validating changed the files')
            verdict(plan, ctx, [k], r, bad, 'alone')
            outs[k] = r
        finally:
            fs.destroy()
    ctx.mark([(fl[k]['state'], fl[k].get('how'), fl[k].get('inject'), sorted(bad[k])) for k in plan['order']], plan['args'])
    if any(bad[k] for k in plan['order']):
        ctx.nontrivial()
    if len(plan['order']) < 2:
        return
    fs = build(ctx, plan, datas, plan['order'])
    try:
        again = len(set(plan['order'])) < len(plan['order'])
        if again and any(fl[k]['state'] == 'read-error' for k in plan['order']):
            return
        fs.arm(faults_for(plan, plan['order'], reads))
        r = run_cli(ctx, fs, ['validate'] + plan['args'] + [fl[k]['path'] for k in plan['order']])
        ids = [fl[k]['spec'].get('id') for k in plan['order'] if 'id' in fl[k]['spec'] and fl[k]['state'] in ('ok', 'read-error', 'damage')]
        clash = len(ids) != len(set(ids))
        if clash:
            if not any(bad[k] for k in plan['order']):
                require(r.code != 0, 'passed', 'two corpora with the same id were passed')
                ctx.probe('same-corpus-id')
            same_ids(plan, ctx, r)
            return
        verdict(plan, ctx, plan['order'], r, bad, 'in a batch')
        for name, attr in (('output', 'out'), ('messages', 'err')):
            exp = b'' if attr == 'out' else ''
            for n, k in enumerate(plan['order']):
                x = getattr(outs[k], attr)
                if attr == 'out':
                    x = x.replace(b'Corpus 0 ', b'Corpus %d ' % n).replace(b'corpus 0 ', b'corpus %d ' % n)
                exp += x
            got = getattr(r, attr)
            require(got == exp, 'dependent', 'the {} of a batch differs from what validating each file alone gives: {!r} instead of {!r}'.format(
                name, got[-400:], exp[-400:]))
    finally:
        fs.destroy()


def same_ids(plan, ctx, r):
    """A corpus that has the id of an earlier one is reported, whatever else
    is wrong with either."""
    seen = set()
    enc = (plan['cfg'] or {}).get('encoding') or 'utf-8'
    for n, k in enumerate(plan['order']):
        f = plan['files'][k]
        if f['state'] != 'ok' or not f['spec'].get('id'):
            continue
        if f['spec']['id'] in seen:
            out = r.out.decode(enc, 'replace').lower()
            require(r.crashed or r.code != 0, 'passed', 'two corpora with the same id were passed')
            require(r.crashed or 'corpus {} '.format(n) in out, 'unreported', 'corpus {} has the id of an earlier one, but nothing is reported about it: {!r}'.format(n, out[-400:]))
            ctx.probe('same-corpus-id-reported')
        seen.add(f['spec']['id'])


def verdict(plan, ctx, which, r, bad, how):
    states = [(plan['files'][k]['path'], sorted(bad[k])) for k in which]
    require(r.exc is None and not r.crashed, 'aborted', 'validating {} ended with {}: {}'.format(how, r.short(), r.err[-300:]))
    require(r.code in (0, 1), 'aborted', 'validating {} ended with {}'.format(how, r.short()))
    if any(bad[k] for k in which):
        require(r.code != 0, 'passed', 'validating {} passed {}'.format(how, states))
        enc = (plan['cfg'] or {}).get('encoding') or 'utf-8'
        for n, k in enumerate(which):
            if bad[k]:
                out = r.out.decode(enc, 'replace') + r.err
                path = plan['files'][k]['path'].encode(enc, 'backslashreplace').decode(enc)
                require('corpus {} '.format(n) in out.lower() or path in out, 'unreported',
                        'validating {}: nothing is reported about {} {}'.format(how, plan['files'][k]['path'], sorted(bad[k])))
    # the objects the report is about
    if any(plan['files'][k]['state'] != 'ok' for k in which):
        return
    minlevel = {0: ERROR, 1: WARNING}.get(sum(a.count('v') for a in plan['args'] if a.startswith('-v')), INFO)
    found = [findings(plan['files'][k]['spec']) for k in which]
    if any(x is None for x in found):
        ctx.probe('unjudged-advice')
        return
    exp = [h for n, x in enumerate(found) for h in headings(x, n, minlevel)]
    if exp:
        ctx.probe('headings')
    if minlevel < ERROR and exp and not any(bad[k] for k in which):
        ctx.probe('advice')
    enc = (plan['cfg'] or {}).get('encoding') or 'utf-8'
    got = re.sub('\x1b\\[[0-9;]*m', '', r.out.decode(enc, 'replace'))
    squash = lambda s: ' '.join(s.encode(enc, 'backslashreplace').decode(enc).split())
    require(squash(got) == squash('\n'.join(exp)), 'unreported', 'validating {} {} reports {!r}, expected {!r}'.format(
        how, states, squash(got)[-400:], squash('\n'.join(exp))[-400:]))
    if '-q' not in plan['args']:
        n = sum(x >= minlevel for f in found for o in f for x in o[3])
        said = len(re.findall(r'(?m)^ *\* ', re.sub('\x1b\\[[0-9;]*m', '', r.err)))
        require(said == n, 'unreported', 'validating {} {} reports {} findings, expected {}: {!r}'.format(how, states, said, n, r.err[-500:]))
    require((r.code == 0) == (not exp), 'passed' if exp else 'rejected', 'validating {} {} ended with {}: {} {}'.format(
        how, states, r.short(), r.out[-300:], r.err[-300:]))
