"""C12: partitioning puts every IGT in exactly one output file and touches nothing else."""

import os
import random

from .. import corpusgen as cg
from ..core import attempt, must, require
from . import common
from .cliutil import arm, damage, files, gen_fault, new_fs, run_cli, usage
from .common import frac, fs_cfg, read_xml, well_formed

ID = 'C12'
RUNS = {'quick': 5000, 'thorough': 120000}
RULE = ('One run: `xigt partition` in a simulated process over 1-4 random corpora with adversarial keys (separators, dots, equal after '
        'normalisation, missing, empty, equal to the default), first without faults and then with a read, write, disk-full, mkdir, open or '
        'close failure or a crash at a random operation, or with one damaged input. The output directory is compared with an '
        'independently computed grouping, everything else with its former contents. Non-trivial: a fault fired or more than one '
        'output file; distinct by (keys, fault, outcome).')
REAL = ['xigt.main', 'xigt.scripts.xigt_partition', 'xigt.codecs.xigtxml', 'xigt.model', 'xigt.mixins', 'xigt.xigtpath']
STUB = ['file system (open, os.*), standard streams']
ASSUMPTIONS = ['IGTs of one group have distinct ids (otherwise the run may fail)', 'keys are shorter than a file name may be']
KEEP_KEYS = ('path', 'op', 'do', 'how', 'id', 'mode', 'files', 'key')

VALS = ['deu', 'eng', 'a/b', 'a:b', 'a-b', 'a\\b', 'A-b', 'a-b-2', 'A:B', '../up', '..', '.', '/abs', './x', '', ' ', 'x.xml', '.xml', '---',
        'é', 'DEU', 'a//b', '../../in/a', 'in', 'a\tb', 'con', '-', '-v', '*', '~', '%s', '{}', 'x-2', 'x', 'X', 'a:b-2', '\u0130', 'i']
PATHS = {
    '@doc-id': lambda g: g.get('attrs', {}).get('doc-id'),
    '@id': lambda g: g.get('id'),
    '@type': lambda g: g.get('type'),
    '@nope': lambda g: None,
    'tier/@type': lambda g: next((t['type'] for t in g['tiers'] if t.get('type') is not None), None),
    'tier/item/text()': lambda g: next(((i.get('text') or None) for t in g['tiers'] for i in t['items']), None),
    'metadata/meta/text()': lambda g: next((m.get('text') if (m.get('text') or '').strip() else None
                                            for d in g.get('mds', ()) for m in d.get('metas', ())), None),
    'tier[@id="w"]/@state': lambda g: next((t.get('attrs', {}).get('state') for t in g['tiers'] if t.get('id') == 'w' and 'state' in t.get('attrs', {})), None),
}


def gen(rng, tier):
    nf = rng.choice([1, 1, 2, 2, 3, 4])
    vals = rng.sample(VALS, rng.choice([1, 2, 3, 5, 8]))
    if rng.random() < .4:
        vals = rng.choice([['a/b', 'a:b', 'a-b', 'A-b', 'a\\b', 'a-b-2'], ['---', 'x', None], ['../up', '..', '/abs', 'in'], ['x', 'X', 'x-2', 'x:2']])
    path = rng.choice(list(PATHS) + ['@doc-id'] * 6)
    fl = []
    for k in range(nf):
        enc = rng.choice(['utf-8', 'utf-8', 'utf-8-bom', 'utf-16', 'iso-8859-1'])
        kn = cg.Knobs(rng)
        if enc in common.NARROW:
            kn.names_ascii = True
        if rng.random() < .05:
            kn.big = True
        spec = cg.gen_corpus(rng, kn)
        for j, g in enumerate(spec['igts']):
            if 'id' in g:
                g['id'] = 'f{}-{}'.format(k, j + 1)
            v = rng.choice(vals)
            if v is not None and rng.random() < .85:
                g.setdefault('attrs', {})['doc-id'] = v
            for t in g['tiers']:
                if rng.random() < .2:
                    t['type'] = rng.choice(vals) or 'q'
                if rng.random() < .4:
                    t.setdefault('attrs', {})['state'] = rng.choice(vals) or 'q'
        fl.append({'spec': spec, 'enc': enc, 'fmt': rng.randrange(1 << 30),
                   'path': rng.choice(['in/a{}.xml', 'b{}.xml', 'in/deep/c{}', 'out{}.xml']).format(k)})
    if nf > 1 and rng.random() < .1:
        # the same ids in two files
        for g in fl[1]['spec']['igts']:
            if 'id' in g:
                g['id'] = g['id'].replace('f1', 'f0')
    order = list(range(nf))
    rng.shuffle(order)
    if rng.random() < .1:
        order.append(rng.choice(order))
    plan = {'files': fl, 'order': order, 'key': path, 'cfg': fs_cfg(rng, ['utf-8', 'utf-8', 'us-ascii', 'iso-8859-1']), 'fseed': rng.randrange(1 << 30),
            'default': rng.choice([None, None, None, 'none', 'a/b', 'x']), 'rel': rng.random() < .3, 'verbose': rng.choice([0, 0, 1]),
            'out': rng.choice(['out', 'out', 'new/', './o', 'in/parts'])}
    x = rng.random()
    if x < .15:
        plan['mode'] = 'plain'
    elif x < .3:
        plan['mode'] = 'damage'
        plan['which'] = rng.randrange(nf)
        plan['how'] = rng.choice(['truncate', 'truncate', 'truncate', 'junk', 'empty', 'html', 'mismatch', 'nuls', 'zeros'])
        plan['at'] = frac(rng)
    elif x < .35:
        plan['mode'] = 'exists'
        plan['kind'] = rng.choice(['dir', 'file', 'noparent'])
    elif x < .5:
        plan['mode'] = 'fault'
        plan['fault'] = gen_fault(rng, ['read', 'read', 'open'])
    elif x < .9:
        plan['mode'] = 'fault'
        plan['fault'] = gen_fault(rng, ['out', 'write', 'quota', 'quota', 'close', 'open-w', 'mkdir', 'any'])
    else:
        plan['mode'] = 'crash'
        plan['fault'] = gen_fault(rng, ['any', 'write', 'close', 'open-w'], crash=True)
    return plan


def groups(plan):
    """[[canonical IGTs] per key]"""
    default = plan['default'] if plan['default'] is not None else '---'
    get = PATHS[plan['key']]
    by, ids, clash = {}, {}, False
    seen = []
    for k in plan['order']:
        if k in seen:
            continue
        seen.append(k)
        spec = plan['files'][k]['spec']
        scope = cg.scope_of({}, spec)
        for g in spec['igts']:
            key = get(g)
            if key is None:
                key = default
            c = cg.canon_spec(g, 'igt', scope)
            by.setdefault(key, []).append(c)
            if g.get('id') is not None:
                if g['id'] in ids.setdefault(key, set()):
                    clash = True
                ids[key].add(g['id'])
    return by, clash


def judge(plan, fs, by, what, before):
    """The output directory holds exactly the groups."""
    out = os.path.normpath(plan['out'])
    now = files(fs)
    left = list(by.items())
    for path in sorted(now):
        if not path.startswith(out + '/'):
            continue
        require(now[path] is not None and '/' not in path[len(out) + 1:], 'litter', '{}: {} is in the output directory'.format(what, path))
        xc = read_xml(now[path], 'incomplete', '{}: {}'.format(what, os.path.basename(path)))
        got = [cg.canon(g) for g in xc]
        for k, (key, exp) in enumerate(left):
            if cg.diff(exp, got, '', True) is None:
                del left[k]
                break
        else:
            # explain
            d = ''
            for key, exp in left:
                if [e['id'] for e in exp] == [e['id'] for e in got]:
                    d = cg.diff(exp, got, '', True)
            require(False, 'grouping', '{}: {} holds the IGTs {}, which are not those of any key ({}); keys left: {}'.format(
                what, path, [g['id'] for g in got], d, [(k, [e['id'] for e in x]) for k, x in left]))
    require(not left, 'lost', '{}: nothing was written for the keys {}'.format(what, [k for k, x in left]))
    return len(by)


def outside(plan, fs, before, what):
    out = os.path.normpath(plan['out'])
    now = {k: v for k, v in files(fs).items() if k != out and not k.startswith(out + '/')}
    for k in sorted(set(now) | set(before)):
        require(k in now, 'touched', '{}: {} was removed'.format(what, k))
        require(k in before, 'touched', '{}: {} was created'.format(what, k))
        require(now[k] == before[k], 'touched', '{}: {} was changed'.format(what, k))


def prepare(ctx, plan, datas):
    fs = new_fs(ctx, plan)
    for f, d in zip(plan['files'], datas):
        fs.put(f['path'], d)
    fs.put('up.xml', b'precious')
    fs.put('in/up.xml', b'precious')
    fs.put('in/keep', b'precious')
    return fs, files(fs)


def argv(plan, fs):
    out = ['partition'] + ['-v'] * plan['verbose'] + ['--key-path', plan['key']]
    if plan['default'] is not None:
        out += ['--default-key', plan['default']]
    j = (lambda p: p) if plan['rel'] else fs.p
    return out + [j(plan['out'])] + [j(plan['files'][k]['path']) for k in plan['order']]


def run(plan, ctx):
    if plan.get('key') not in PATHS or not plan['files'] or any(k >= len(plan['files']) for k in plan['order']):
        return
    datas = [cg.xml_bytes(f['spec'], random.Random(f['fmt']), f['enc']) for f in plan['files']]
    by, clash = groups(plan)
    if any(len(k.encode('utf-8', 'replace')) > 200 for k in by):
        return
    mode = plan['mode']
    ctx.mark(plan['key'], len(by), mode, plan.get('how'), (plan.get('fault') or {}).get('op'), (plan.get('fault') or {}).get('do'))
    fs, before = prepare(ctx, plan, datas)
    try:
        fs.arm()
        r = run_cli(ctx, fs, argv(plan, fs))
        outside(plan, fs, before, 'without faults')
        if not clash:
            require(r.code == 0, 'failed', 'partitioning intact corpora ended with {}: {}'.format(r.short(), r.err[-300:]))
        if r.code == 0:
            judge(plan, fs, by, 'without faults', before)
            base = usage(fs)
        else:
            return
    finally:
        fs.destroy()
    if len(by) > 1:
        ctx.nontrivial()
    if mode == 'plain':
        return
    if mode == 'damage':
        w = plan['which'] % len(datas)
        if w not in plan['order']:
            return
        bad = damage(datas[w], plan['how'], plan['at'])
        if bad is None:
            return
        datas[w] = bad
        ctx.fault('damage-' + plan['how'])
    fs, before = prepare(ctx, plan, datas)
    try:
        what = mode
        fs.arm()
        if mode == 'exists':
            ctx.fault('output-' + plan['kind'])
            out = os.path.normpath(plan['out'])
            if plan['kind'] == 'dir':
                fs.put(out + '/old.xml', b'old')
            elif plan['kind'] == 'file':
                fs.put(out, b'old')
            else:
                plan = dict(plan, out='no/such/out')
            before = files(fs)
        elif 'fault' in plan:
            if not arm(fs, plan['fault'], base):
                return
            what = '{} at {}'.format(plan['fault'].get('do', 'disk full'), plan['fault']['op'])
        r = run_cli(ctx, fs, argv(plan, fs))
        ctx.mark(r.code, bool(fs.fired))
        if mode == 'exists':
            require(r.code != 0, 'accepted', 'partitioning into {} ended with success'.format(
                {'dir': 'an existing directory', 'file': 'a file', 'noparent': 'a directory that cannot be created'}[plan['kind']]))
            now = files(fs)
            require(now == before, 'touched', 'existing output: files were created or changed: {}'.format(
                sorted(k for k in set(now) | set(before) if now.get(k, 0) != before.get(k, 0))))
            return
        outside(plan, fs, before, what)
        if mode == 'damage':
            require(r.code != 0, 'damaged-accepted', 'partitioning a damaged corpus ({}) ended with success'.format(plan['how']))
        elif r.code == 0:
            judge(plan, fs, by, 'success after ' + what, before)
        elif not fs.fired:
            require(False, 'failed', 'no fault fired, but partitioning ended with {}: {}'.format(r.short(), r.err[-300:]))
        # recovery: into another directory
        if mode != 'damage':
            fs.dead = False
            fs.arm()
            plan2 = dict(plan, out='again')
            before = files(fs)
            r = run_cli(ctx, fs, argv(plan2, fs))
            require(r.code == 0, 'no-recovery', 'after {} and a restart, partitioning ended with {}: {}'.format(what, r.short(), r.err[-300:]))
            judge(plan2, fs, by, 'again after ' + what, before)
            outside(plan2, fs, before, 'again')
    finally:
        fs.destroy()
