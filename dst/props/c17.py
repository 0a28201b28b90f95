"""C17: results do not depend on the ambient default text encoding."""

import copy
import io
import json
import random
import re

from .. import corpusgen as cg
from ..core import attempt, must, require
from . import c15, c16, c18, common
from .cliutil import damage, files, new_fs, run_cli
from .common import frac, fs_cfg, pos

ID = 'C17'
RUNS = {'quick': 6000, 'thorough': 150000}
STEP_LIMIT = 30000000
RULE = ('One run: one operation (loading and dumping paths and handles as XML and JSON, sorting to standard output and in place, partitioning, validating, '
        'querying, importing, exporting) on random, non-ASCII, sometimes damaged or failing inputs in random document encodings, repeated in '
        'simulated processes that differ only in their default text encoding (UTF-8 and 1-3 others); files, verdicts, findings and messages are '
        'compared. Non-trivial: the inputs or outputs have non-ASCII characters; distinct by (operation, encodings, outcome).')
REAL = ['xigt.codecs.xigtxml', 'xigt.codecs.xigtjson', 'xigt.scripts.*', 'xigt.main', 'xigt.importers.*', 'xigt.exporters.*', 'xigt.model']
STUB = ['file system, default text encoding (open, io.open, io.TextIOWrapper, locale)', 'process (argv, standard streams, exit)', 'toolbox and odintxt parsers, pyDelphin']
ASSUMPTIONS = ['a text handle for JSON has an ASCII-compatible encoding', 'file names are the same objects in every environment', 'what is printed may be lost only by failing, or be shown by backslash escapes in validation']
KEEP_KEYS = ('op', 'fmt', 'enc', 'outenc', 'mode', 'encs', 'how', 'do', 'state', 'kind', 'format', 'config', 'files', 'cfg', 'fseed', 'at', 'path', 'act') + tuple(
    c15.KEEP_KEYS) + tuple(c16.KEEP_KEYS)

AMBIENT = ['us-ascii', 'us-ascii', 'iso-8859-1', 'windows-1252', 'utf-16', 'koi8-r', 'shift_jis']
UNI = ['é', '日本', 'ß', '“q”', '\U0001F600', 'ŋ́', 'Ж', '\x85', '\xa0', '\xad']


def gen(rng, tier):
    op = rng.choice(['lib', 'lib', 'sort', 'sort-inplace', 'partition', 'validate', 'query', 'import', 'export'])
    plan = {'op': op, 'encs': rng.sample(sorted(set(AMBIENT)), rng.choice([1, 2, 3])), 'cfg': fs_cfg(rng), 'fseed': rng.randrange(1 << 30)}
    if rng.random() < .5 and 'us-ascii' not in plan['encs']:
        plan['encs'][0] = 'us-ascii'
    if op == 'import':
        p = c15.gen(rng, tier)
        plan['sub'] = {k: p[k] for k in ('kind', 'files', 'eol', 'dirname', 'outdir', 'config')}
        if rng.random() < .3 and p['kind'] != 'toolbox':
            plan['sub']['config'] = dict(p['config'] or {}, replacement_char=rng.choice(UNI))
        if rng.random() < .1:
            plan['undecodable'] = frac(rng)
    elif op == 'export':
        p = c16.gen(rng, tier)
        plan['sub'] = {k: p[k] for k in ('spec', 'format', 'config', 'enc', 'fmt')}
        if rng.random() < .3 and p['format'] == 'latex':
            plan['sub']['config'] = {'item_substitutions': [['words|glosses', [['o|é', rng.choice(UNI)]]]]}
        if rng.random() < .15:
            plan['damage'] = {'how': rng.choice(['truncate', 'truncate', 'junk', 'mismatch', 'nuls', 'zeros', 'badbyte']), 'at': frac(rng)}
    else:
        kn = cg.Knobs(rng, uni=rng.random() < .85)
        enc = rng.choice(['utf-8', 'utf-8', 'utf-8', 'utf-8-bom', 'utf-16', 'iso-8859-1', 'us-ascii'])
        if enc in common.NARROW:
            kn.names_ascii = True
        n = rng.choice([1, 1, 2]) if op in ('validate', 'query') else 1
        plan['docs'] = []
        for k in range(n):
            spec = cg.gen_corpus(rng, kn)
            spec.pop('id', None)
            for g in spec['igts']:
                if rng.random() < .6:
                    g.setdefault('attrs', {})['doc-id'] = rng.choice(['a', 'b', 'c'] + UNI[:4])
            d = {'spec': spec, 'enc': enc, 'fmt': rng.randrange(1 << 30)}
            if rng.random() < .12:
                d['damage'] = {'how': rng.choice(['truncate', 'truncate', 'junk', 'mismatch', 'nuls', 'zeros', 'badbyte', 'html']), 'at': frac(rng)}
            plan['docs'].append(d)
        if op == 'lib':
            plan['format'] = rng.choice(['xml', 'xml', 'json'])
            plan['mode'] = rng.choice(common.MODES)
            plan['outenc'] = rng.choice(['default', 'default', 'utf-8', 'utf-16', 'iso-8859-1', 'us-ascii'])
            plan['indent'] = rng.choice([2, None, 0])
            if plan['outenc'] in common.NARROW or plan['format'] == 'json':
                for d in plan['docs']:
                    d['spec'] = cg.gen_corpus(rng, cg.Knobs(rng, names_ascii=True, uni=rng.random() < .85))
        elif op in ('sort', 'sort-inplace'):
            plan['args'] = rng.choice([['--igt-key=@id'], ['--igt-key=@doc-id'], ['--tier-key=@type', '--igt-key=@id'], ['--tier-deps=alignment'], ['--item-key=text()']])
        elif op == 'partition':
            plan['args'] = ['--key-path=@doc-id'] + rng.choice([[], ['--default-key=' + rng.choice(['x', 'é'])]])
        elif op == 'query':
            # (objects show addresses, and whatever is odd in them)
            q = rng.choice(['//item/text()', '//igt/@doc-id', '//tier/@type', 'igt/@id', '//item[text()="{}"]/@id'.format(rng.choice(UNI)),
                            '//igt[@doc-id="{}"]/@id'.format(rng.choice(UNI))])
            plan['args'] = rng.choice([['--find', q], ['--count', q], ['--tally', 'igt', './' + q], ['--unique', q], ['--find', q, '-d', 'é {match}']])
        elif op == 'validate':
            plan['args'] = rng.choice([[], ['-q'], ['-v'], ['-vv']])
            if rng.random() < .4:
                gs = [t for d in plan['docs'] for g in d['spec']['igts'] for t in g['tiers']]
                if gs:
                    rng.choice(gs).setdefault('attrs', {})['alignment'] = 'n' + rng.choice(UNI)
    return plan


def sub_plan(plan, enc):
    return dict(copy.deepcopy(plan['sub']), cfg=dict(plan['cfg'], encoding=enc), fseed=plan['fseed'])


def once(plan, enc, ctx):
    """-> observations under the default encoding enc"""
    from xigt.codecs import xigtjson, xigtxml
    op = plan['op']
    env = dict(cfg=dict(plan['cfg'], encoding=enc), fseed=plan['fseed'])
    if op == 'import':
        fs, args, inp, outp = c15.prepare(ctx, sub_plan(plan, enc))
        if 'undecodable' in plan and plan['sub']['kind'] != 'odin-dir':
            d = fs.get('in.txt')
            fs.put('in.txt', d[:pos(len(d), plan['undecodable'])] + b'\xff\xc3' + d[pos(len(d), plan['undecodable']):])
    elif op == 'export':
        sp = sub_plan(plan, enc)
        data = cg.xml_bytes(sp['spec'], random.Random(sp['fmt']), sp['enc'])
        if 'damage' in plan:
            data = damage(data, plan['damage']['how'], plan['damage']['at'])
            if data is None:
                return None
        fs, args = c16.prepare(ctx, sp, data)
        if fs.get('cfg.json') is not None:
            # written by hand, in UTF-8
            fs.put('cfg.json', json.dumps(json.loads(fs.get('cfg.json').decode()), ensure_ascii=False).encode())
    else:
        fs = new_fs(ctx, env)
        names = []
        for k, d in enumerate(plan['docs']):
            if plan.get('format') == 'json':
                data = json.dumps(cg.json_obj(d['spec']), ensure_ascii=bool(d['fmt'] % 2)).encode('utf-8')
            else:
                data = cg.xml_bytes(d['spec'], random.Random(d['fmt']), d['enc'])
            if 'damage' in d:
                data = damage(data, d['damage']['how'], d['damage']['at']) if plan.get('format') != 'json' else data[:pos(len(data) - 1, d['damage']['at'])]
                if data is None:
                    fs.destroy()
                    return None
            names.append('in{}.xml'.format(k))
            fs.put(names[-1], data)
        if op == 'sort':
            args = ['sort'] + plan['args'] + names
        elif op == 'sort-inplace':
            args = ['sort', '--in-place'] + plan['args'] + names
        elif op == 'partition':
            args = ['partition'] + plan['args'] + ['out'] + names
        elif op in ('validate', 'query'):
            args = [op] + plan['args'] + ['--'] + names
    if op in ('import', 'export') and fs.get('cfg.json') is not None and op == 'import':
        fs.put('cfg.json', json.dumps(plan['sub']['config'], ensure_ascii=False).encode())
    try:
        fs.arm()
        if op != 'lib':
            r = run_cli(ctx, fs, args)
            ctx.probe('exit-{}'.format(r.code))
            return {'code': r.code, 'exc': type(r.exc).__name__, 'out': r.out, 'err': neutral(r.err, fs), 'files': rooted(fs)}
        codec = xigtxml if plan['format'] == 'xml' else xigtjson
        kw = {'indent': plan['indent']}
        if plan['outenc'] != 'default':
            kw['encoding'] = plan['outenc']
        says = []
        with fs:
            o = attempt(codec.load, fs.p('in0.xml'), **({'mode': plan['mode']}))
            says.append(o.name if not o.ok else 'loaded')
            if o.ok:
                o = attempt(codec.dump, fs.p('out.path'), o.value, **kw)
                says.append(o.name if not o.ok else 'dumped')
                # (JSON is text, which goes into the encoding of the handle)
                for how in ('w', 'wb') if plan['format'] == 'xml' or 'utf-16' not in plan['encs'] else ():
                    def dump():
                        xc = codec.load(fs.p('in0.xml'), **({'mode': 'full'}))
                        with open(fs.p('out.' + how), how) as fh:
                            codec.dump(fh, xc, **kw)
                    o = attempt(dump)
                    says.append(o.name if not o.ok else 'dumped')
        return {'code': says, 'exc': None, 'out': b'', 'err': '', 'files': rooted(fs)}
    finally:
        fs.destroy()


def rooted(fs):
    return {k: v.replace(fs.root.encode(), b'ROOT') if isinstance(v, bytes) else v for k, v in files(fs).items()}


def neutral(err, fs):
    return re.sub(r'\bat \d{6,}', 'at ADDR', err.replace(fs.root, 'ROOT'))


def run(plan, ctx):
    if not plan['encs'] or (plan['op'] not in ('import', 'export') and not plan.get('docs')):
        return
    if plan['op'] == 'import' and plan['sub']['kind'] != 'odin-dir' and not plan['sub']['files']:
        return
    base = once(plan, 'utf-8', ctx)
    if base is None:
        return
    op = plan['op']
    if plan.get('outenc') == 'utf-16' and plan.get('format') == 'json':
        pass
    text = base['out'].decode('utf-8') if op != 'sort' else None
    if any(b > 127 for v in base['files'].values() if isinstance(v, bytes) for b in v) or any(b > 127 for b in base['out']):
        ctx.nontrivial()
    for enc in plan['encs']:
        got = once(plan, enc, ctx)
        ctx.log('ambient', enc, got['code'])
        ctx.mark(op, plan.get('format'), enc, base['code'], got['code'], [d['enc'] for d in plan.get('docs', [])])
        ctx.fault('ambient-' + enc)
        ctx.probe(op)
        what = '{} under {}'.format(op, enc)
        # compare what is printed
        if op == 'sort':
            require(got['out'] == base['out'], 'output', '{}: writes {!r}, under UTF-8 {!r}'.format(what, got['out'][:300], base['out'][:300]))
        else:
            lost = False
            try:
                text.encode(enc)
            except UnicodeEncodeError:
                lost = True
                ctx.probe('unprintable')
            shown = got['out'].decode(enc)
            if lost and op == 'validate':
                require(shown == text.encode(enc, 'backslashreplace').decode(enc), 'findings', '{}: prints {!r}, under UTF-8 {!r}'.format(
                    what, shown[:300], text[:300]))
            elif lost:
                require(got['code'] != 0, 'lost', '{}: what is printed under UTF-8 cannot be printed, but the exit status is 0'.format(what))
                require(got['files'] == base['files'], 'files', '{}: {}'.format(what, differ(got['files'], base['files'])))
                continue
            else:
                require(shown == text, 'findings', '{}: prints {!r}, under UTF-8 {!r}'.format(what, shown[:300], text[:300]))
        require(got['code'] == base['code'], 'verdict', '{}: ends with {} {}, under UTF-8 with {} {}'.format(
            what, got['code'], got['err'][-300:], base['code'], base['err'][-300:]))
        require(got['files'] == base['files'], 'files', '{}: {}'.format(what, differ(got['files'], base['files'])))
        require(got['err'] == base['err'], 'messages', '{}: says {!r}, under UTF-8 {!r}'.format(what, got['err'][-300:], base['err'][-300:]))


def differ(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return 'file {} is {!r}, under UTF-8 {!r}'.format(k, (a.get(k) or b'')[:300], (b.get(k) or b'')[:300])
