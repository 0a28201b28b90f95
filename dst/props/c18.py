"""C18: query reports are complete and exact for every file, or the run fails."""

import codecs
import os.path
import random
import re

from .. import corpusgen as cg
from ..core import attempt, must, require
from . import common, refpath
from .c10 import gen_igt, gen_path as gen_odd_path
from .cliutil import arm, damage, files, gen_fault, new_fs, run_cli, usage
from .common import frac, fs_cfg, pos

ID = 'C18'
RUNS = {'quick': 5000, 'thorough': 150000}
STEP_LIMIT = 4000000
RULE = ('One run: `xigt query` in a simulated process on a batch of 1-4 files (intact, damaged, missing, failing at a random read) with 0-4 '
        'find, tally, unique and count actions, descriptions and headings, first without and then with a failing read, open or write to '
        'standard output. The report is compared with one computed from the specifications of the files by an independent path evaluator. '
        'Non-trivial: a file is bad, a fault fired, or something was found; distinct by (actions, file states, faults, outcome).')
REAL = ['xigt.main', 'xigt.scripts.xigt_query', 'xigt.xigtpath', 'xigt.codecs.xigtxml', 'xigt.model', 'xigt.mixins', 'xigt.ref']
STUB = ['file system (open, os.*), standard streams']
ASSUMPTIONS = ['two objects are distinct unless they are the same object',
               'queries the reference evaluator does not judge are judged against xigt.xigtpath.findall on a corpus built in memory',
               'descriptions are well-formed format strings']
KEEP_KEYS = ('files', 'state', 'how', 'id', 'act', 'args', 'op', 'do', 'path')

DESCS = ['{query}\t{match}', '{match}', 'found {match!s}!', '{subquery}|{match}', '{nothing} {match}', '{{}} {match!r:.5}', 'x', '', '{other[0].a!r} {query}', 'é {match}', '}} {{']
STATES = ['ok', 'damage', 'read-error', 'missing', 'dir', 'open-error', 'json']
HEADS = ['{filename}', '== {filename} ==', 'file', '{{}} {filename}']


def normal(spec):
    """As read from XML: empty item text is no text."""
    for g in spec['igts']:
        for t in g['tiers']:
            for i in t['items']:
                if not i.get('text'):
                    i.pop('text', None)
    return spec


def gen_spec(rng, k):
    kn = cg.Knobs(rng)
    kn.names_ascii = True
    if rng.random() < .75:
        n = rng.choice([0, 1, 1, 2, 3, 5])
        spec = {'igts': [gen_igt(rng, 'i{}'.format(j), kn) for j in range(n)]}
        refpath.enrich(rng, spec)
    else:
        spec = cg.gen_corpus(rng, kn)
    if rng.random() < .6:
        spec['id'] = 'c{}'.format(k)
    else:
        spec.pop('id', None)
    return normal(spec)


SIMPLE = [('igt', [('child', 'igt')]), ('tier', [('child', 'igt'), ('child', 'tier')]), ('tier', [('desc', 'tier')]), ('item', [('desc', 'item')]),
          ('igt', [('desc', 'igt')]), ('meta', [('desc', 'meta')]), ('child', [('desc', 'subject')])]


def gen_query(rng):
    """-> (ast or text, kind)"""
    x = rng.random()
    if x < .1:
        return gen_odd_path(rng), None
    if x < .55:
        kind, steps = rng.choice(SIMPLE)
        p = {'steps': [{'axis': a, 'name': n} for a, n in steps]}
        if rng.random() < .3:
            p['abs'] = True
        if rng.random() < .4:
            p['steps'][-1]['preds'] = [refpath.gen_pred(rng, kind)]
        return p, kind
    return refpath.gen_path(rng, 'corpus'), None


def gen_action(rng):
    act = rng.choice(['find', 'find', 'tally', 'tally', 'unique', 'count'])
    q, kind = gen_query(rng)
    a = {'act': act, 'q': q}
    if act == 'tally':
        x = rng.random()
        if kind and x < .5:
            a['sub'] = {'steps': [refpath.gen_attr(rng)]}
        elif kind and x < .95:
            a['sub'] = refpath.gen_path(rng, kind)
        else:
            a['sub'] = rng.choice(['', gen_odd_path(rng)])
    elif kind and rng.random() < .6 and isinstance(q, dict):
        q['steps'].append(refpath.gen_attr(rng) if kind not in ('item', 'child', 'meta') or rng.random() < .5 else {'axis': 'func', 'name': 'text'})
    if rng.random() < .35:
        a['desc'] = rng.choice(DESCS)
    return a


def gen(rng, tier):
    nf = rng.choice([1, 1, 2, 2, 3, 4])
    fl = []
    for k in range(nf):
        f = {'enc': rng.choice(['utf-8', 'utf-8', 'utf-8-bom', 'utf-16', 'iso-8859-1']), 'fmt': rng.randrange(1 << 30),
             'path': rng.choice(['a{}.xml', 'd/b{}.xml', 'é{}.xml', 'c {{}}{}', 'd/{{0}}{}.xml']).format(k), 'state': 'ok'}
        x = rng.random()
        if x < .12:
            f['state'] = 'damage'
            f['how'] = rng.choice(['truncate', 'truncate', 'truncate', 'junk', 'empty', 'html', 'mismatch', 'nuls', 'zeros', 'badbyte'])
            f['at'] = frac(rng)
        elif x < .2:
            f['state'] = 'read-error'
            f['at'] = frac(rng)
        elif x < .25:
            f['state'] = rng.choice(['missing', 'dir', 'open-error', 'json'])
        f['spec'] = gen_spec(rng, k)
        fl.append(f)
    acts = [gen_action(rng) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    plan = {'files': fl, 'acts': acts, 'cfg': fs_cfg(rng, ['utf-8', 'utf-8', 'utf-8', 'us-ascii', 'iso-8859-1']), 'fseed': rng.randrange(1 << 30),
            'first': rng.random() < .3, 'base': rng.random() < .25}
    if rng.random() < .3:
        plan['head'] = rng.choice(HEADS)
    if rng.random() < .04:
        plan['early'] = rng.choice(DESCS)
    if rng.random() < .5:
        plan['fault'] = gen_fault(rng, ['stdout', 'stdout', 'stdout', 'read', 'open'])
    return plan


# ----------------------------------------------------- expected report

class Fails(Exception):
    """Reporting on this file fails."""


def qtext(q):
    return q if isinstance(q, str) else refpath.render(q)


def found(xc, x, q, ctx):
    from xigt import xigtpath
    if isinstance(q, dict):
        try:
            vals = refpath.evaluate(xc, x, q)
            ctx.probe('reference')
            return vals
        except refpath.Skip:
            ctx.probe('unjudged')
    try:
        return xigtpath.findall(x, qtext(q))
    except Exception:
        raise Fails('query')


def show(desc, **kw):
    """Replace known names in a description; other text stays as it is."""
    out = ''
    i = 0
    while i < len(desc):
        if desc[i:i + 2] in ('{{', '}}'):
            out += desc[i]
            i += 2
        elif desc[i] == '{':
            j = desc.index('}', i)
            inside = desc[i + 1:j]
            m = re.match(r'^(\w+)((?:\[\w*\]|\.\w+)*)(?:!([sr]))?(?::(.*))?$', inside)
            if m.group(1) in kw and not m.group(2):
                v = kw[m.group(1)]
                v = repr(v) if m.group(3) == 'r' else str(v)
                out += format(v, m.group(4) or '')
            else:
                out += '{' + inside + '}'
            i = j + 1
        else:
            out += desc[i]
            i += 1
    return out


class Group(tuple):
    def __str__(self):
        return ', '.join(str(x) for x in self)


def ident(v):
    return v if isinstance(v, (str, type(None))) else id(v)


def report(xc, acts, ctx):
    """The lines under the heading, as text."""
    out = ''
    rows = []
    for a in acts:
        q = qtext(a['q'])
        sub = qtext(a.get('sub') or '') if a['act'] == 'tally' else ''
        desc = a['desc'] if 'desc' in a else '{query}\t{subquery}\t{match}' if a['act'] == 'tally' else '{query}\t{match}'

        def line(m):
            return show(desc, query=q, subquery=sub, match=m)
        vals = found(xc, xc, a['q'], ctx)
        if vals:
            ctx.probe('found-' + a['act'])
        try:
            if a['act'] == 'find':
                for v in vals:
                    out += '  ' + line(v) + '\n'
            elif a['act'] == 'count':
                rows.append((len(vals), line('')))
            elif a['act'] == 'unique':
                rows.append((len(set(ident(v) for v in vals)), line('')))
            else:
                groups = []
                for v in vals:
                    # an empty path finds nothing
                    g = Group(found(xc, v, a['sub'], ctx)) if a['sub'] else Group()
                    key = [ident(y) for y in g]
                    for h in groups:
                        if h[1] == key:
                            h[0] += 1
                            break
                    else:
                        groups.append([1, key, g])
                groups.sort(key=lambda h: -h[0])
                rows += [(n, line(g)) for n, _, g in groups]
        except (Fails, refpath.TooMuch):
            raise
        except Exception:
            # e.g., objects that cannot be shown
            raise Fails('show')
    w = max([len(str(n)) for n, _ in rows] or [0])
    for n, d in rows:
        out += ' ' + ' ' * (w - len(str(n))) + str(n) + '\t' + d + '\n'
    return out


def mask(text):
    return re.sub(r'\bat \d{6,}', 'at ADDR', text)


# ----------------------------------------------------------------- run

def build(ctx, plan, datas):
    fs = new_fs(ctx, plan)
    for f, d in zip(plan['files'], datas):
        if f['state'] == 'missing':
            continue
        fs.put(f['path'] + '/x' if f['state'] == 'dir' else f['path'], d)
    fs.arm()
    return fs


def argv(plan):
    opts = []
    for a in plan['acts']:
        opts += ['--' + a['act'], qtext(a['q'])]
        if a['act'] == 'tally':
            opts.append(qtext(a.get('sub') or ''))
        if 'desc' in a:
            opts += ['--description', a['desc']]
    if 'head' in plan:
        opts += ['--file-description', plan['head']]
    if plan['base']:
        opts.append('--basename')
    fl = [f['path'] for f in plan['files']]
    return ['query'] + (fl + opts if plan['first'] else opts + ['--'] + fl)


def own_faults(plan, reads):
    out = []
    for f in plan['files']:
        name = os.path.basename(f['path'])
        if f['state'] == 'open-error':
            out.append({'op': 'open', 'path': name, 'n': 0, 'do': 'EACCES', 'sticky': True})
        elif f['state'] == 'read-error':
            if reads.get(f['path']):
                out.append({'op': 'read', 'path': name, 'n': pos(reads[f['path']], f['at']), 'do': 'EIO', 'sticky': True})
    return out


def run(plan, ctx):
    fl, acts = plan['files'], plan['acts']
    if any(f['state'] not in STATES for f in fl):
        return
    if not fl or not acts or len(set(os.path.basename(f['path']) for f in fl)) < len(fl):
        return
    if any(isinstance(q, dict) and not refpath.valid(q) for a in acts for q in (a['q'], a.get('sub'))):
        return
    text = ' '.join(qtext(q) for a in acts for q in (a['q'], a.get('sub') or ''))
    plain = re.search(r'@(\w+:)?\*', text)   # shows the order of attributes
    datas, blocks, bad = [], [], []
    for k, f in enumerate(fl):
        d = cg.xml_bytes(f['spec'], None if plain else random.Random(f['fmt']), f['enc'])
        b = f['state'] not in ('ok',)
        if f['state'] == 'damage':
            d = damage(d, f['how'], f['at'])
            if d is None:
                return
            ctx.fault('damage-' + f['how'])
        elif f['state'] == 'json':
            d = b'{"id": "x", "igts": []}'
        elif b:
            ctx.fault('file-' + f['state'])
        datas.append(d)
        bad.append(b)
        name = os.path.basename(f['path']) if plan['base'] else f['path']
        head = show(plan['head'] if 'head' in plan else '{filename}:', filename=name) + '\n'
        body = None
        if not b or f['state'] == 'read-error':
            xc = must('build', cg.build_corpus, f['spec'])
            try:
                body = mask(report(xc, acts, ctx))
            except refpath.TooMuch:
                ctx.probe('too-large')
                return
            except Fails as e:
                ctx.probe('fails-' + str(e))
        blocks.append((head, body))
    # reads of each file, for placing its own failure
    reads = {}
    for k, f in enumerate(fl):
        if f['state'] == 'read-error':
            fs = build(ctx, plan, datas)
            try:
                run_cli(ctx, fs, ['query', '--count', '.', '-D', 'x', f['path']])
                reads[f['path']] = fs.counts.get('read', 0)
            finally:
                fs.destroy()
    ctx.mark([(a['act'], 'desc' in a) for a in acts], [f['state'] for f in fl])
    fs = build(ctx, plan, datas)
    try:
        own = own_faults(plan, reads)
        fs.arm(own)
        before = files(fs)
        r = run_cli(ctx, fs, argv(plan))
        require(files(fs) == before, 'touched', 'querying changed the files')
        # with other short reads a file may have been read before its failure
        for x in fs.faults:
            if x['op'] == 'read' and not x['done']:
                for k, f in enumerate(fl):
                    if os.path.basename(f['path']) == x['path']:
                        bad[k] = False
        judge(plan, ctx, fs, r, blocks, bad, False)
        base = usage(fs)
    finally:
        fs.destroy()
    if plan.get('early'):
        # a description with no action to describe
        fs = build(ctx, plan, datas)
        try:
            r = run_cli(ctx, fs, ['query', '--description', plan['early']] + argv(plan)[1:])
            require(r.code not in (0, None) and not r.crashed, 'passed', 'a description before all actions ended with {}'.format(r.short()))
            require(not r.out, 'wrong', 'a refused command line printed {!r}'.format(r.out[:200]))
            ctx.probe('refused')
        finally:
            fs.destroy()
    fault = plan.get('fault')
    if not fault or own or fault['op'] not in ('stdout', 'read', 'open'):
        return
    fs = build(ctx, plan, datas)
    try:
        if not arm(fs, fault, base):
            return
        r = run_cli(ctx, fs, argv(plan))
        judge(plan, ctx, fs, r, blocks, bad, bool(fs.fired))
    finally:
        fs.destroy()


def judge(plan, ctx, fs, r, blocks, bad, fired):
    if fired:
        ctx.nontrivial()
    enc = plan['cfg'].get('encoding') or 'utf-8'
    good = ''
    stop = None
    for k, (head, body) in enumerate(blocks):
        if bad[k] or body is None:
            stop = k
            break
        good += head + body + '\n'
    if stop is not None or good.count('\n') > 2 * len(blocks):
        ctx.nontrivial()
    everything = good + ''.join(h + (b or '') + '\n' for h, b in blocks[stop:]) if stop is not None else good
    unprintable = False
    try:
        everything.encode(enc)
    except UnicodeEncodeError:
        unprintable = True
        ctx.probe('unprintable')
    # (a character may be cut in the middle)
    out = mask(codecs.getincrementaldecoder(enc)('replace').decode(r.out))
    ctx.mark(r.code, fired, unprintable)
    require(not r.crashed, 'aborted', 'the process died')
    if stop is None and not fired and not unprintable:
        require(r.code == 0, 'failed', 'querying intact files ended with {}: {}'.format(r.short(), r.err[-300:]))
        same(out, good)
        return
    if stop is not None or fired:
        require(r.code != 0, 'passed', 'a report that cannot be complete ended with success ({}): {!r}'.format(
            'fault' if fired else plan['files'][stop]['state'], out[-200:]))
    if r.code == 0:
        # characters may be lost only by failing
        require(False, 'passed', 'an unprintable report ended with success: {!r}'.format(out[-200:]))
    if fired or unprintable:
        # what was written is a beginning of the right report
        if fired and plan['fault']['op'] != 'stdout':
            # some file could not be read: reports of others may follow
            rest(out, blocks, 0, [True] * len(blocks))
        elif not unprintable:
            n = len(os.path.commonprefix([out, everything]))
            # an address may be cut
            cut = re.search(r'\bat \d*$', out)
            require(n >= (cut.start() if cut else len(out)) or stop is not None and n >= len(good), 'wrong',
                    'what was written is not a beginning of the report: {!r} instead of {!r}'.format(out[n:n + 100], everything[n:n + 100]))
        return
    require(out.startswith(good), 'wrong', 'the report of intact files is lost or wrong: {!r} instead of {!r}'.format(out[:400], good[:400]))
    if any(b is None for (_, b), x in zip(blocks, bad) if not x):
        return
    rest(out, blocks, stop, bad, len(good))


def rest(out, blocks, k, bad, at=0):
    """From k on: headings of bad files, perhaps whole reports of others."""
    for head, body in blocks[k:]:
        full = head + (body or '') + '\n'
        if body is not None and out.startswith(full, at):
            at += len(full)
        elif out.startswith(head, at):
            at += len(head)
            if out.startswith('\n', at):
                at += 1
    require(at == len(out), 'wrong', 'reported for unreadable files: {!r}'.format(out[at:at + 200]))


def same(out, good):
    if out == good:
        return
    a, b = out.split('\n'), good.split('\n')
    for n, (x, y) in enumerate(zip(a, b)):
        require(x == y, 'wrong', 'line {} of the report is {!r}, expected {!r}'.format(n, x[:200], y[:200]))
    require(False, 'wrong', 'the report has {} lines, expected {}'.format(len(a), len(b)))
