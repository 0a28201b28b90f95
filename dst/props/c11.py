"""C11: sorting never loses data; in-place sorting replaces the file all or nothing."""

import copy
import random
import re

from .. import corpusgen as cg
from ..core import attempt, must, require
from . import common
from .cliutil import arm, damage, files, gen_fault, new_fs, run_cli, usage
from .common import frac, fs_cfg, read_xml, same, well_formed

ID = 'C11'
RUNS = {'quick': 6000, 'thorough': 150000}
RULE = ('One run: `xigt sort` in a simulated process on a random corpus (natural-order traps in ids, missing keys, dangling, '
        'repeated and cyclic tier references), to standard output or in place, first without faults and then with a read, write, '
        'disk-full, fsync, rename or other failure, a crash or a power loss at a random operation, or with damaged input; then '
        'sorted again after recovery. Output and file contents are compared with an independently sorted corpus. Non-trivial: a fault fired, '
        'or the order changed; distinct by (options, fault, outcome).')
REAL = ['xigt.main', 'xigt.scripts.xigt_sort', 'xigt.codecs.xigtxml', 'xigt.model', 'xigt.mixins', 'xigt.xigtpath']
STUB = ['file system (open, os.*), standard streams']
ASSUMPTIONS = ['after a crash data not yet written is lost; after a power loss, data not synchronised and metadata operations not yet on disk may be lost in order',
               'rename replaces atomically']
KEEP_KEYS = ('keys', 'op', 'do', 'how', 'tier_deps', 'id', 'mode')

IDS = ['i', 'i-', 'x', 'a.', '']
VALS = ['10', '9', '2', 'a10', 'a9', 'a2b', 'a10b', 'B', 'b', '', '007', '7', 'x y', 'é1', '1.10', '1.9', '-1', '٣', 'z٣9', '²', '9' * 25]


def gen(rng, tier):
    kn = cg.Knobs(rng)
    if rng.random() < .1:
        kn.big = True
    enc = rng.choice(['utf-8', 'utf-8', 'utf-8', 'utf-8-bom', 'utf-16', 'iso-8859-1', 'us-ascii'])
    if enc in common.NARROW:
        kn.names_ascii = True
    spec = cg.gen_corpus(rng, kn)
    nums = [1, 2, 9, 10, 11, 100, 19, 3]
    for g in spec['igts']:
        if rng.random() < .8:
            g.setdefault('attrs', {})['doc-id'] = rng.choice(VALS)
    # ids whose textual and natural order differ
    pre = rng.choice(['i', 'g-', 'x.'])
    k = rng.sample(nums + [12, 200, 21, 33], len(spec['igts']))
    for j, g in enumerate(spec['igts']):
        if 'id' in g:
            g['id'] = '{}{}{}'.format(pre, k[j], rng.choice(['', '', 'a', '-2', '-10']) if rng.random() < .3 else '')
    for g in spec['igts']:
        ids = [t['id'] for t in g['tiers'] if 'id' in t]
        for t in g['tiers']:
            if rng.random() < .3:
                t.setdefault('attrs', {})['q'] = rng.choice(VALS)
            for it in t['items']:
                if rng.random() < .3:
                    it.setdefault('attrs', {})['q'] = rng.choice(VALS)
        if rng.random() < .5:
            shape = rng.choice(['cycle', 'random', 'self', 'dangling', 'reverse'])
            for j, t in enumerate(g['tiers']):
                ra = rng.choice(['segmentation', 'alignment', 'content', 'segmentation'])
                if not ids:
                    break
                to = {'cycle': ids[(j + 1) % len(ids)], 'random': rng.choice(ids), 'self': t.get('id', 'zz'), 'dangling': 'nowhere',
                      'reverse': ids[min(j + 1, len(ids) - 1)]}[shape]
                if rng.random() < .8:
                    t.setdefault('attrs', {})[ra] = to
        if rng.random() < .3:
            rng.shuffle(g['tiers'])
        for t in g['tiers']:
            if rng.random() < .3:
                rng.shuffle(t['items'])
    keys = {}
    if rng.random() < .7:
        keys['igt'] = [rng.choice(['@id', '@doc-id', '@type', 'tier/@id', 'metadata/meta/text()', '@nope', '@doc-id'])
                       for _ in range(rng.choice([1, 1, 2, 3]))]
    x = rng.random()
    if x < .3:
        keys['tier'] = [rng.choice(['@id', '@type', '@q', 'item/text()', '@nope']) for _ in range(rng.choice([1, 1, 2]))]
    elif x < .75:
        keys['deps'] = rng.choice(['segmentation,alignment,content', 'alignment', 'content, segmentation', 'alignment,segmentation', 'nope'])
    if rng.random() < .4:
        keys['item'] = [rng.choice(['@id', '@type', '@q', 'text()', '@nope']) for _ in range(rng.choice([1, 1, 2]))]
    inplace = rng.random() < .65
    plan = {'spec': spec, 'keys': keys, 'inplace': inplace, 'cfg': fs_cfg(rng, ['utf-8', 'utf-8', 'us-ascii', 'iso-8859-1']), 'fseed': rng.randrange(1 << 30),
            'enc': enc, 'fmt': rng.randrange(1 << 30), 'link': rng.random() < .1, 'hard': rng.random() < .1, 'verbose': rng.choice([0, 0, 1])}
    if rng.random() < .25:
        # what a file may be called
        plan['name'] = rng.choice(['n' * 220 + '.xml', 'x' * 251 + '.xml', 'a file.xml', '.xml', 'noext', 'in.xml.gz', u'k\xe4se.xml', '%s{}.xml', 'in.*.xml'])
    x = rng.random()
    if x < .18:
        plan['mode'] = 'plain'
    elif x < .3:
        plan['mode'] = 'damage'
        plan['how'] = rng.choice(['truncate', 'truncate', 'truncate', 'junk', 'empty', 'html', 'mismatch', 'nuls', 'zeros'])
        plan['at'] = frac(rng)
    elif x < .4:
        plan['mode'] = 'fault'
        plan['fault'] = gen_fault(rng, ['read', 'read', 'open'])
    elif x < .75 or not inplace:
        plan['mode'] = 'fault'
        plan['fault'] = gen_fault(rng, ['out', 'out', 'write', 'quota', 'quota', 'fsync', 'rename', 'close', 'open-w', 'chmod', 'any'])
    else:
        plan['mode'] = 'crash'
        plan['fault'] = gen_fault(rng, ['any', 'any', 'write', 'rename', 'open-w', 'close', 'fsync'], crash=True)
        plan['power'] = rng.randrange(1 << 30)
    return plan


# ------------------------------------------------------------ independent

def natural(s):
    out = []
    for k, x in enumerate(re.split(r'(\d+)', s or '')):
        out.append(int(x) if k % 2 else x)
    return out


def attr(name):
    def get(s):
        if name in ('id', 'type'):
            return s.get(name)
        return s.get('attrs', {}).get(name)
    return get


def first(lists):
    return lists[0] if lists else None


KEYS = {
    '@id': attr('id'), '@doc-id': attr('doc-id'), '@type': attr('type'), '@nope': attr('nope'), '@q': attr('q'),
    'tier/@id': lambda g: first([t['id'] for t in g['tiers'] if t.get('id')]),
    'metadata/meta/text()': lambda g: first([m.get('text') if (m.get('text') or '').strip() else None
                                             for d in g.get('mds', ()) for m in d.get('metas', ())]),
    'item/text()': lambda t: first([i.get('text') or None for i in t['items']]),
    'text()': lambda i: i.get('text') or None,
}


def order(seq, keys):
    return sorted(seq, key=lambda s: [natural(KEYS[k](s)) for k in keys])


def parents(tiers, refattrs):
    pr = {}
    ids = set(t.get('id') for t in tiers)
    for t in tiers:
        ra = next((r for r in refattrs if r in t.get('attrs', {})), None)
        if ra and t['attrs'][ra] in ids:
            pr[t.get('id')] = t['attrs'][ra]
    return pr


def check_deps(before, after, refattrs, what):
    """after: ids in output order"""
    pr = parents(before, refattrs)
    for t in before:
        i = t.get('id')
        seen = [i]
        while seen[-1] in pr and pr[seen[-1]] not in seen:
            seen.append(pr[seen[-1]])
        cyclic = seen[-1] in pr
        if cyclic or i not in pr or i is None:
            continue
        require(after.index(pr[i]) < after.index(i), 'order', '{}: tier {} comes before the tier {} it refers to'.format(what, i, pr[i]))


def expected(spec, keys):
    s = copy.deepcopy(spec)
    if 'igt' in keys:
        s['igts'] = order(s['igts'], keys['igt'])
    for g in s['igts']:
        if 'tier' in keys:
            g['tiers'] = order(g['tiers'], keys['tier'])
        if 'item' in keys:
            for t in g['tiers']:
                t['items'] = order(t['items'], keys['item'])
    return s


def settled(plan):
    """Does sorting twice make no difference?  (The key of an IGT may depend
    on the order of its tiers.)"""
    if 'tier/@id' in plan['keys'].get('igt', ()) and 'deps' in plan['keys']:
        return False
    once = expected(plan['spec'], plan['keys'])
    return cg.canon_spec(expected(once, plan['keys'])) == cg.canon_spec(once)


def judge(plan, data, what, cls='lost'):
    """data: a complete sorted corpus?"""
    got = cg.canon(read_xml(data, cls, what))
    exp = expected(plan['spec'], plan['keys'])
    if 'deps' in plan['keys']:
        ras = [r.strip() for r in plan['keys']['deps'].split(',')]
        xc = read_xml(data, cls, what)
        require(len(xc) == len(exp['igts']), cls, '{}: {} IGTs instead of {}'.format(what, len(xc), len(exp['igts'])))
        for g, e in zip(xc, exp['igts']):
            after = [t.id for t in g]
            require(sorted(map(str, after)) == sorted(str(t.get('id')) for t in e['tiers']), cls,
                    '{}: igt {}: tiers {} instead of {}'.format(what, g.id, after, [t.get('id') for t in e['tiers']]))
            check_deps(e['tiers'], after, ras, what)
            left = list(e['tiers'])
            new = []
            for i in after:
                t = next(t for t in left if t.get('id') == i)
                left.remove(t)
                new.append(t)
            e['tiers'] = new
    same(cg.canon_spec(exp), got, 'order' if cls == 'lost' else cls, what)


def is_sorted(plan, data):
    o = attempt(judge, plan, data, 'x')
    return o


def argv(plan):
    out = ['sort'] + ['-v'] * plan.get('verbose', 0)
    for k, opt in (('igt', '--igt-key'), ('tier', '--tier-key'), ('item', '--item-key')):
        for x in plan['keys'].get(k, ()):
            out += [opt, x]
    if 'deps' in plan['keys']:
        out += ['--tier-deps', plan['keys']['deps']]
    if plan['inplace']:
        out.append('--in-place')
    return out


def valid_keys(plan):
    return all(x in KEYS for k in ('igt', 'tier', 'item') for x in plan['keys'].get(k, ()))


def prepare(ctx, plan, data):
    fs = new_fs(ctx, plan)
    name = plan.get('name', 'in.xml')
    real = 'real.xml' if plan['link'] else name
    path = fs.put(real, data)
    if plan['link']:
        import os
        os.symlink('real.xml', fs.p(name))
        path = fs.p(name)
    if plan.get('hard'):
        # the file has a second name
        import os
        os.link(fs.p(real), fs.p('second.xml'))
    fs.put('other.xml', b'other')
    return fs, path, real


def run(plan, ctx):
    if not valid_keys(plan):
        return
    rng = random.Random(plan['fmt'])
    data = cg.xml_bytes(plan['spec'], rng, plan['enc'])
    args = argv(plan)
    name = plan.get('name', 'in.xml')
    ctx.mark(sorted(plan['keys']), plan['inplace'], plan['mode'], plan.get('how'), (plan.get('fault') or {}).get('op'), (plan.get('fault') or {}).get('do'))
    # without faults
    fs, path, real = prepare(ctx, plan, data)
    try:
        fs.arm()
        r = run_cli(ctx, fs, args + [path])
        require(r.code == 0, 'failed', 'sorting an intact corpus ended with {}: {}'.format(r.short(), r.err[-300:]))
        if plan['inplace']:
            new = fs.get(name)
            require(new is not None, 'lost', 'the file is gone after sorting')
            require(fs.get(real) == new, 'lost', 'the file the link refers to was not sorted')
            judge(plan, new, 'sorted file')
            f = files(fs)
            require(sorted(f) == sorted(set([name, real, 'other.xml'] + ['second.xml'] * bool(plan.get('hard')))) and f['other.xml'] == b'other', 'litter',
                    'after sorting in place, the directory holds {}'.format(sorted(f)))
            for k in range(2):
                disk = fs.power_loss(random.Random(plan['fseed'] + k))
                ctx.fault('power-loss')
                now = disk.get(name, disk.get('real.xml'))
                require(now is not None, 'lost', 'after success and a power loss the file is gone')
                if now != data:
                    judge(plan, now, 'file after success and a power loss', 'half-done')
        else:
            judge(plan, r.out, 'standard output')
            require(fs.get(name) == data, 'input-changed', 'sorting to standard output changed the input file')
        base = usage(fs)
        good = r.out
    finally:
        fs.destroy()
    if [g.get('id') for g in plan['spec']['igts']] != [g.get('id') for g in expected(plan['spec'], plan['keys'])['igts']]:
        ctx.nontrivial()
        ctx.probe('order-changed')
    if plan['mode'] == 'plain':
        return
    if plan['mode'] == 'damage':
        bad = damage(data, plan['how'], plan['at'])
        if bad is None:
            return
        ctx.fault('damage-' + plan['how'])
        fs, path, real = prepare(ctx, plan, bad)
        try:
            fs.arm()
            r = run_cli(ctx, fs, args + [path])
            require(r.code != 0, 'damaged-accepted', 'sorting a damaged corpus ({}) ended with success'.format(plan['how']))
            require(fs.get(name) == bad, 'input-changed', 'sorting a damaged corpus changed the file')
        finally:
            fs.destroy()
        return
    fs, path, real = prepare(ctx, plan, data)
    try:
        if not arm(fs, plan['fault'], base):
            return
        r = run_cli(ctx, fs, args + [path])
        ctx.mark(r.code, bool(fs.fired))
        what = '{} at {}'.format(plan['fault'].get('do', 'disk full'), plan['fault']['op'])
        if not fs.fired:
            require(r.code == 0, 'failed', 'no fault fired, but sorting ended with {}: {}'.format(r.short(), r.err[-300:]))
        if plan['inplace']:
            now = fs.get(name)
            require(now is not None, 'lost', 'after {} the file is gone'.format(what))
            if r.code == 0:
                judge(plan, now, 'success after ' + what)
            elif now != data:
                judge(plan, now, 'file after {} ({})'.format(what, r.short()), 'half-done')
                ctx.probe('failed-but-replaced')
            if plan.get('hard'):
                now = fs.get('second.xml')
                require(now is not None, 'lost', "after {} the file's second name is gone".format(what))
                if now != data:
                    judge(plan, now, 'the second name of the file after {} ({})'.format(what, r.short()), 'half-done')
            if plan['mode'] == 'crash' or plan.get('power'):
                for k in range(4):
                    disk = fs.power_loss(random.Random(plan['power'] + k))
                    ctx.fault('power-loss')
                    now = disk.get(name, disk.get('real.xml'))
                    require(now is not None, 'lost', 'after a power loss the file is gone')
                    if now != data:
                        judge(plan, now, 'file after a power loss', 'half-done')
                        ctx.probe('new-after-power-loss')
                    else:
                        ctx.probe('old-after-power-loss')
            require(fs.get('other.xml') == b'other', 'litter', 'another file was changed')
        else:
            require(fs.get(name) == data, 'input-changed', 'sorting to standard output changed the input file')
            if r.code == 0:
                judge(plan, r.out, 'output in spite of ' + what)
        # recovery: a new process finds a corpus it can sort
        fs.dead = False
        fs.arm()
        before = fs.get(name)
        r = run_cli(ctx, fs, args + [path])
        require(r.code == 0, 'no-recovery', 'after {} and a restart, sorting ended with {}: {}'.format(what, r.short(), r.err[-300:]))
        if plan['inplace']:
            now = fs.get(name)
            if before != data and not settled(plan):
                # it was sorted already, and that changed the keys of some
                read_xml(now, 'no-recovery', 'sorted again after ' + what)
            else:
                judge(plan, now, 'sorted again after ' + what)
        else:
            require(r.out == good, 'no-recovery', 'after {} and a restart, the output differs'.format(what))
    finally:
        fs.destroy()
