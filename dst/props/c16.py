"""C16: exporting writes every IGT exactly once, in order, or fails."""

import copy
import io
import json
import os
import random
import re

from .. import corpusgen as cg
from .. import streams
from ..core import attempt, must, require
from .c07 import Unknown, value
from .cliutil import arm, damage, files, gen_fault, new_fs, run_cli, usage
from .common import Env, frac, fs_cfg, gen_source, open_doc, pos

ID = 'C16'
RUNS = {'quick': 3500, 'thorough': 250000}
STEP_LIMIT = 30000000
RULE = ('One run: a random corpus of aligned, oddly aligned, unaligned and defective IGTs is exported to LaTeX or [incr tsdb()] by the command line and '
        'by the library from random sources, delivery sizes and modes, with random options; every output must hold one block, notice or row per IGT, in '
        'order, equal to that of the IGT exported alone, with all tokens; then the same with a damaged input, a read error, a write error, a full '
        'disk or an interrupted source. Non-trivial: a fault fired or the corpus has an IGT that cannot be exported; '
        'distinct by (format, alignment shapes, sources, faults, outcomes).')
REAL = ['xigt.exporters.latex', 'xigt.exporters.itsdb', 'xigt.exporters.util', 'xigt.scripts.xigt_export', 'xigt.main', 'xigt.codecs.xigtxml', 'xigt.model', 'xigt.ref']
STUB = ['file system', 'process (argv, standard streams, exit)', 'pyDelphin (stub that writes the item file of a skeleton)']
ASSUMPTIONS = ['an [incr tsdb()] export may fail as a whole when one IGT cannot be exported']
KEEP_KEYS = ('format', 'config', 'op', 'kind', 'enc', 'how', 'fault', 'do', 'sticky', 'mode', 'cfg', 'fseed', 'what', 'text', 'id', 'seed')

TYPES = {'p': 'phrases', 'w': 'words', 'm': 'morphemes', 'g': 'glosses', 't': 'translations', 'x': 'extra', 'w2': 'Words', 'g2': 'GLOSSES', 'n': None,
         'p2': 'phrases', 't2': 'translations'}
WORDS = ['inu', 'ga', 'dog', 'NOM', 'a b', 'x', '50%', 'a_b', '{x}', '\\', '\\x', 'p~q', '^k', 'u\\ v', '#1', 'a&b', '~', '^', '$', 'é', '日本', 'foo', 'barks', '<>&', '', '3.SG']


def gen_tier(rng, tid, prev, odd):
    """prev: [(id, item ids, item texts)] of earlier tiers"""
    n = rng.choice([0, 1, 2, 3, 3, 4, 6])
    if tid in ('p', 't', 'p2', 't2'):
        n = rng.choice([1, 1, 1, 0, 2])
    t = {'id': tid, 'items': []}
    if TYPES[tid] is not None:
        t['type'] = TYPES[tid]
    ref = ra = None
    if prev and rng.random() < .9:
        ref = rng.choice(prev[-2:] if rng.random() < .8 else prev)
        ra = rng.choice(['alignment', 'segmentation', 'alignment', 'content' if odd else 'alignment'])
        t['attrs'] = {ra: ref[0]}
    last = 0
    for j in range(1, n + 1):
        it = {'id': '{}{}'.format(tid, j)}
        if rng.random() < .9 or not ref:
            it['text'] = rng.choice(WORDS[:10] if tid == 'g' else WORDS)
            if it['text'] == '':
                it['text'] = None
        if ref and ref[1] and rng.random() < (.7 if odd else .95):
            if odd:
                ids = rng.sample(ref[1], rng.choice([1, 1, min(2, len(ref[1])), min(3, len(ref[1]))]))
            else:
                last = min(len(ref[1]) - 1, last + rng.choice([0, 1, 1, 2]))
                ids = ref[1][last:last + rng.choice([1, 1, 2])]
            e = rng.choice('+,').join(ids)
            if rng.random() < .3:
                e += '[0:{}]'.format(rng.choice([1, 2]))
            if odd and rng.random() < .1:
                e = 'nosuch1'
            it['attrs'] = {ra: e}
        if it.get('text') is None:
            it.pop('text', None)
        t['items'].append(it)
    return t


def gen_igt(rng, gid, kn):
    odd = rng.random() < .4
    x = rng.random()
    if x < .5:
        ids = [i for i in ['p', 'w', 'm', 'g', 't'] if rng.random() < .85]
    else:
        ids = [i for i in TYPES if rng.random() < .5]
        if odd:
            rng.shuffle(ids)
    tiers, prev = [], []
    for i in ids:
        t = gen_tier(rng, i, prev, odd)
        tiers.append(t)
        prev.append((i, [y['id'] for y in t['items']]))
    g = {'tiers': tiers}
    if gid:
        g['id'] = gid
    if rng.random() < .2:
        g['mds'] = [{'type': 'xigt-meta', 'metas': [{'type': 'judgment', 'text': '*'}]}]
    if rng.random() < .08:
        # cannot be resolved
        if tiers:
            t = rng.choice(tiers)
            t.setdefault('attrs', {})['segmentation'] = 'none'
            t['items'].append({'id': 'bad1', 'attrs': {'segmentation': 'none1'}})
    if tiers and rng.random() < .06:
        # refers to itself, or to what refers to it
        ra = rng.choice(['content', 'segmentation'])
        ring = rng.sample(tiers, rng.choice([1, 1, min(2, len(tiers))]))
        for k, t in enumerate(ring):
            to = ring[(k + 1) % len(ring)]['id']
            t.setdefault('attrs', {})[ra] = to
            t['items'].append({'id': t['id'] + 'ring', 'attrs': {ra: to + 'ring'}})
    return g


CFG = [
    None, {}, {'tier_types': ['words', 'glosses']}, {'tier_types': ['words', 'morphemes', 'glosses', 'extra', 'phrases']},
    {'item_substitutions': [['words|morphemes', [['o', '0'], ['i', 'ii']]]]},
    {'item_substitutions': [['gloss', [['[A-Z]+', ['m', 'm.group(0).lower()']]]]]},
]
ITSDB = [{}, {'i-id_start': 100, 'i-id_skip': 1}, {'i-id_start': 7}, {'cells': [['i-input', 'igt.id'], ['i-comment', '"n{}".format(len(igt))']]},
         {'cells': [['i-wf', '0 if igt.get_meta("judgment") else 1'], ['i-length', 'len(igt)']]}]


def gen(rng, tier):
    kn = cg.Knobs(rng)
    n = rng.choice([0, 1, 1, 2, 3, 3, 5, 9])
    igts = [gen_igt(rng, 'i{}'.format(k) if rng.random() < .95 else None, kn) for k in range(n)]
    if igts and rng.random() < .25:
        # twins under different ids
        for _ in range(rng.choice([1, 2])):
            g = copy.deepcopy(rng.choice(igts))
            g['id'] = 'd{}'.format(len(igts))
            if rng.random() < .6:
                # the same shape, other words
                for t in g['tiers']:
                    for i in t['items']:
                        if 'text' in i and rng.random() < .7:
                            i['text'] = rng.choice(WORDS[:10])
            igts.insert(rng.randrange(len(igts) + 1), g)
    if rng.random() < .15:
        # nothing tells them apart by name
        for g in igts:
            g.pop('id', None)
    fmt = rng.choice(['latex', 'latex', 'itsdb'])
    if rng.random() < .06:
        igts = (igts or [gen_igt(rng, 'i0', kn)]) * rng.choice([10, 40])
        igts = [dict(copy.deepcopy(g), id='b{}'.format(k)) for k, g in enumerate(igts)]
    plan = {'spec': {'id': 'c', 'igts': igts}, 'format': fmt, 'config': copy.deepcopy(rng.choice(CFG if fmt == 'latex' else ITSDB)), 'cfg': fs_cfg(rng),
            'fseed': rng.randrange(1 << 30), 'enc': rng.choice(['utf-8', 'utf-8', 'utf-8-bom', 'utf-16', 'us-ascii', 'iso-8859-1']),
            'fmt': rng.randrange(1 << 30),
            'lib': [{'src': gen_source(rng), 'mode': rng.choice(['full', 'incremental', 'transient', 'built'])} for _ in range(rng.choice([0, 1, 2]))]}
    x = rng.random()
    if x < .2:
        plan['fail'] = {'what': 'damage', 'how': rng.choice(['truncate', 'truncate', 'truncate', 'junk', 'empty', 'html', 'mismatch', 'nuls', 'zeros', 'badbyte']), 'at': frac(rng)}
    elif x < .65:
        plan['fail'] = {'what': 'fault', 'fault': gen_fault(rng, ['read', 'open-r', 'write', 'write', 'write', 'quota', 'quota', 'open-w', 'close', 'mkdir'])}
    elif x < .8:
        plan['fail'] = {'what': 'source', 'at': frac(rng), 'exc': rng.choice(['OSError', 'ValueError', 'XigtError', 'KeyError', 'KeyboardInterrupt', 'StructureError']),
                        'mode': rng.choice(['incremental', 'transient'])}
    elif x < .85:
        plan['fail'] = {'what': 'relations', 'how': rng.choice(['none', 'missing', 'logon', 'logon', 'logon-without'])}
    return plan


# ------------------------------------------------------------- expectations

BLOCK = re.compile(r'^\\begin\{exe\}.*?^\\end\{exe\}|^% cannot export IGT [^\n]*', re.M | re.S)
SPECIAL = {'textbackslash': '\\', 'textasciitilde': '~', 'textasciicircum': '^'}
ESC = {'\\': '\\textbackslash', '&': '\\&', '%': '\\%', '$': '\\$', '#': '\\#', '_': '\\_', '{': '\\{', '}': '\\}', '~': '\\textasciitilde',
       '^': '\\textasciicircum'}


def squash(s):
    return re.sub(r'[\s{}]', '', s)


def blankless(s):
    return re.sub(r'\s', '', s)


def printed(s):
    """What LaTeX prints for s, apart from white space; None if it is not good LaTeX."""
    out, i, depth = [], 0, 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            m = re.compile(r'[A-Za-z]+').match(s, i + 1)
            if m is None:
                if s[i + 1:i + 2] not in list('&%$#_{}'):
                    return None
                out.append(s[i + 1])
                i += 2
                continue
            if m.group(0) not in SPECIAL:
                return None
            out.append(SPECIAL[m.group(0)])
            i = m.end()
            continue
        if c in '&%$#_~^':
            return None
        if c in '{}':
            depth += 1 if c == '{' else -1
            if depth < 0:
                return None
        elif not c.isspace():
            out.append(c)
        i += 1
    return ''.join(out) if not depth else None


def substituted(v, ttype, config):
    """The value as a configuration's substitutions make it (they are applied to LaTeX source)."""
    s = ''.join(ESC.get(c, c) for c in v) if v else ''
    for rx, pats in (config or {}).get('item_substitutions', []):
        if not re.match(rx, ttype):
            continue
        for a, b in pats:
            s = re.sub(a, b if isinstance(b, str) else eval('lambda {}: {}'.format(*b)), s)
    return squash(s)


def vals(igt, tier, items=None):
    return [value(igt, i, tier) for i in (tier if items is None else items)]


def columns(row):
    """The top-level groups of a row."""
    out = []
    depth = i = 0
    while i < len(row):
        c = row[i]
        if c == '\\':
            i += 2
            continue
        if c == '{':
            if depth == 0:
                start = i + 1
            depth += 1
        elif c == '}':
            depth -= 1
            if depth == 0:
                out.append(row[start:i])
        i += 1
    return out


def placed(cols, values):
    """The column of every value, or None if that cannot be told."""
    out, k, got = [], 0, ''
    for v in values:
        v = blankless(v or '')
        if not v:
            return None
        while k < len(cols) and got == printed(cols[k]):
            k, got = k + 1, ''
        if k == len(cols) or not (printed(cols[k]) or '').startswith(got + v):
            return None
        got += v
        out.append(k)
    return out


def check_columns(who, tiers, values, rows):
    """What is aligned is in one column, as long as it is in the order of what it is aligned to."""
    at = [placed(c, v) for c, v in zip(rows, values)]
    for n in range(1, len(tiers)):
        if at[n] is None or at[n - 1] is None:
            continue
        idx = {it.id: k for k, it in enumerate(tiers[n - 1])}
        if len(idx) != len(tiers[n - 1]):
            continue
        links = []
        for k, it in enumerate(tiers[n]):
            links.append([idx[i] for i in re.findall(r'[A-Za-z][A-Za-z0-9]*', it.alignment or it.segmentation or '') if i in idx])
        firsts = [min(x) for x in links if x]
        if firsts != sorted(firsts):
            continue
        for k, x in enumerate(links):
            require(all(at[n - 1][j] == at[n][k] for j in x), 'columns', '{}: {!r} of tier {} is in column {}, what it is aligned to in tier {} is in {}'.format(
                who, values[n][k], tiers[n].id, at[n][k], tiers[n - 1].id, [at[n - 1][j] for j in x]))
        if n == 1 and len(tiers) == 2:
            # what nothing is aligned to together stays apart
            for j in range(len(tiers[0]) - 1):
                together = any(x and min(x) <= j and max(x) > j for x in links)
                require((at[0][j] == at[0][j + 1]) == together, 'columns', '{}: {!r} and {!r} of tier {} are {}in one column'.format(
                    who, values[0][j], values[0][j + 1], tiers[0].id, 'not ' if together else ''))
    return any(at)


def check_block(igt, block, config):
    """An independent reading of what one block must hold."""
    types = (config or {}).get('tier_types') or ('words', 'morphemes', 'glosses')
    tiers = [t for t in igt if t.type is not None and t.type.lower() in types]
    who = 'IGT {}'.format(igt.id)
    if len(tiers) < 2:
        require(block.startswith('% cannot export IGT {}'.format(igt.id)), 'block', '{} has {} exportable tiers, but the output is {!r}'.format(
            who, len(tiers), block[:200]))
        return 'few'
    trans = [t for t in igt if t.type == 'translations' and len(t)]
    try:
        exp = [vals(igt, t) for t in tiers]
        exptrans = [value(igt, t[0], t) or '' for t in trans]
    except (Unknown, KeyError):
        require(block.startswith('% cannot export IGT {}'.format(igt.id)), 'block', '{} refers to what does not exist, but the output is {!r}'.format(
            who, block[:200]))
        return 'unresolvable'
    require(block.startswith('\\begin{exe}'), 'block', '{} can be exported, but the output is {!r}'.format(who, block[:200]))
    body = block[len('\\begin{exe}'):block.rindex('\\end{exe}')]
    body = body[body.index('\\ex'):]
    head, rest = body.split('\n', 1)
    require(head.strip() == '\\ex\\g' + 'l' * len(tiers), 'block', '{}: heading {!r} for {} tiers'.format(who, head, len(tiers)))
    parts = rest.split('\\\\\n')
    require(len(parts) == len(tiers) + 1, 'block', '{}: {} rows for {} tiers'.format(who, len(parts) - 1, len(tiers)))
    subs = (config or {}).get('item_substitutions')
    for t, e, row in zip(tiers, exp, parts):
        if subs:
            require(squash(row) == ''.join(substituted(v, t.type, config) for v in e), 'tokens',
                    '{}, tier {}: the row is {!r}, expected are the tokens {!r} as substituted'.format(who, t.id, row, e))
        else:
            require(printed(row) == blankless(''.join(v or '' for v in e)), 'tokens', '{}, tier {}: the row {!r} prints {!r}, expected are the tokens {!r}'.format(
                who, t.id, row, printed(row), e))
    cols = [columns(row) for row in parts[:-1]]
    require(len(set(map(len, cols))) == 1, 'columns', '{}: the rows have {} columns'.format(who, [len(c) for c in cols]))
    if not subs:
        check_columns(who, tiers, exp, cols)
    got = re.split(r'\\trans(?![A-Za-z])', parts[-1])
    require(not got[0].strip() and [printed(x) for x in got[1:]] == [blankless(x) for x in exptrans], 'trans',
            '{}: after the rows comes {!r}, expected are the translations {!r}'.format(who, parts[-1], exptrans))
    return 'exported'


FIELDS = ['i-id', 'i-origin', 'i-register', 'i-format', 'i-difficulty', 'i-category', 'i-input', 'i-wf', 'i-length', 'i-comment',
          'i-author', 'i-date']


def rows_of(text):
    out = []
    for line in text.split('\n')[:-1]:
        f = [re.sub(r'\\(.)', lambda m: {'s': '@', 'n': '\n', '\\': '\\'}[m.group(1)], x) for x in line.split('@')]
        out.append(dict(zip(FIELDS, f)))
    require(text == '' or text.endswith('\n'), 'row', 'the last row is not complete')
    return out


def check_row(igt, row, n, config):
    c = config or {}
    require(row.get('i-id') == str(c.get('i-id_start', 0) + n * c.get('i-id_skip', 10)), 'row', 'row {} has i-id {!r}'.format(n, row.get('i-id')))
    if 'cells' not in c:
        ph = [t for t in igt if t.type == 'phrases' and len(t)]
        exp = value(igt, ph[0][0], ph[0]) if ph else None
        if not exp and not (ph and exp == '' and row['i-input'] == ''):
            # (a phrase without any text: neither preferred nor wrong)
            w = [t for t in igt if t.type == 'words']
            exp = ' '.join(v or '' for v in vals(igt, w[0])) if w else ''
        require(row['i-input'] == exp, 'row', 'IGT {}: i-input is {!r}, expected {!r}'.format(igt.id, row['i-input'], exp))
    else:
        for k, e in c['cells']:
            exp = str(eval(e, {'igt': igt}))
            require(row[k] == exp, 'row', 'IGT {}: {} is {!r}, expected {!r}'.format(igt.id, k, row[k], exp))


def resolvable(igt):
    try:
        for t in igt:
            vals(igt, t)
    except (Unknown, KeyError):
        return False
    return True


EXC = {'OSError': lambda: OSError(5, 'Input/output error'), 'ValueError': lambda: ValueError('bad'), 'KeyboardInterrupt': KeyboardInterrupt,
       'KeyError': lambda: KeyError('bad')}


def out_text(fs, fmt):
    data = fs.get('out' if fmt == 'latex' else 'out/item')
    return None if data is None else data.decode('utf-8')


def judge(plan, ctx, text, solo, twin, what):
    fmt, config = plan['format'], plan['config']
    require(text is not None, 'lost', '{}: there is no output'.format(what))
    if fmt == 'latex':
        blocks = BLOCK.findall(text)
        require(len(blocks) == len(twin), 'count', '{}: {} blocks for {} IGTs'.format(what, len(blocks), len(twin)))
        for k, (b, g) in enumerate(zip(blocks, twin)):
            require(b == solo[k], 'neighbour', '{}: block {} differs from that of the same IGT exported alone: {!r} and {!r}'.format(
                what, k, b[:300], solo[k][:300]))
        require(text.index('\\begin{document}') < text.rindex('\\end{document}') and text.rstrip().endswith('\\end{document}'), 'count',
                '{}: the document is not complete'.format(what))
    else:
        rows = rows_of(text)
        require(len(rows) == len(twin), 'count', '{}: {} rows for {} IGTs'.format(what, len(rows), len(twin)))
        for k, (r, g) in enumerate(zip(rows, twin)):
            check_row(g, r, k, config)


def prepare(ctx, plan, data):
    fs = new_fs(ctx, plan)
    fs.put('in.xml', data)
    fs.put('relations', b'item:\n  i-id :integer :key\n')
    cfg = plan['config']
    if plan['format'] == 'itsdb':
        cfg = dict(cfg or {}, relations=fs.p('relations'))
    args = ['export', '-i', fs.p('in.xml'), '-o', fs.p('out'), '-f', plan['format']]
    if cfg is not None:
        fs.put('cfg.json', json.dumps(cfg).encode())
        args += ['-c', fs.p('cfg.json')]
    return fs, args


def run(plan, ctx):
    from xigt import XigtCorpus
    from xigt.codecs import xigtxml
    from xigt.errors import XigtError, XigtStructureError
    from xigt.exporters import itsdb, latex
    spec, fmt, config = plan['spec'], plan['format'], plan['config']
    exporter = {'latex': latex, 'itsdb': itsdb}[fmt]
    data = cg.xml_bytes(spec, random.Random(plan['fmt']), plan['enc'])
    twin = must('build', cg.build_corpus, spec)
    igts = list(twin)
    solo = []
    kinds = []
    if fmt == 'latex':
        for k, gs in enumerate(spec['igts']):
            fs = new_fs(ctx, plan)
            try:
                with fs:
                    one = cg.build_corpus(dict(spec, igts=[gs]))
                    must('failed', latex.xigt_export, one, fs.p('one'), copy.deepcopy(config))
                    b = BLOCK.findall(fs.get('one').decode('utf-8'))
            finally:
                fs.destroy()
            require(len(b) == 1, 'count', 'IGT {} alone gives {} blocks'.format(k, len(b)))
            solo.append(b[0])
            kinds.append(check_block(igts[k], b[0], config))
        ok = True
    else:
        kinds = ['row' if resolvable(g) else 'unresolvable' for g in igts]
        ok = all(k == 'row' for k in kinds)
    if 'unresolvable' in kinds or 'few' in kinds:
        ctx.nontrivial()
    for k in set(kinds):
        ctx.probe(k, 1) if False else ctx.probe(k)
    ctx.mark(fmt, kinds, config, [[t.get('attrs') for t in g['tiers']] for g in spec['igts'][:3]])
    # command line, no faults
    fs, args = prepare(ctx, plan, data)
    try:
        fs.arm()
        r = run_cli(ctx, fs, args)
        if ok or r.code == 0:
            require(r.code == 0, 'failed', 'exporting an intact corpus ended with {}: {}'.format(r.short(), r.err[-300:]))
            require(not r.out, 'differs', 'exporting to a file printed {!r}'.format(r.out[:200]))
            judge(plan, ctx, out_text(fs, fmt), solo, igts, 'command line')
            require(fs.get('in.xml') == data, 'input-changed', 'the input file was changed')
        good = out_text(fs, fmt) if r.code == 0 else None
        base = usage(fs)
    finally:
        fs.destroy()
    # library, any source and mode
    for k, v in enumerate(plan['lib']):
        fs = new_fs(ctx, plan)
        try:
            with fs:
                what = 'library ({}, {}, {})'.format(v['mode'], v['src']['kind'], v['src']['enc'])
                if v['mode'] == 'built':
                    xc = cg.build_corpus(spec)
                else:
                    arg, how, _ = open_doc(spec, v['src'], ctx, fs, 'v.xml')
                    if how == 'loads':
                        arg = io.BytesIO(arg) if isinstance(arg, bytes) else io.StringIO(arg)
                    xc = must('failed', xigtxml.load, arg, v['mode'])
                cfg = copy.deepcopy(config)
                if fmt == 'itsdb':
                    fs.put('relations', b'item:\n')
                    cfg = dict(cfg or {}, relations=fs.p('relations'))
                o = attempt(exporter.xigt_export, xc, fs.p('out'), cfg)
                ctx.mark(v['mode'], v['src']['kind'], v['src']['enc'], o.ok)
                ctx.log('lib', v['mode'], v['src']['kind'], o.name)
                require(o.ok or good is None, 'failed', '{}: exporting failed: {}'.format(what, o))
                if o.ok:
                    judge(plan, ctx, out_text(fs, fmt), solo, igts, what)
                    if good is not None:
                        require(out_text(fs, fmt) == good, 'differs', '{}: the output differs from that of the command line'.format(what))
        finally:
            fs.destroy()
    fail = plan.get('fail')
    if not fail:
        return
    if fail['what'] == 'source':
        fs = new_fs(ctx, plan)
        try:
            with fs:
                n = pos(len(igts) + 1, fail['at'])

                def src():
                    for g in igts[:n]:
                        yield g
                    raise {'XigtError': XigtError, 'StructureError': XigtStructureError}.get(fail['exc'], EXC.get(fail['exc']))('bad') \
                        if fail['exc'] in ('XigtError', 'StructureError') else EXC[fail['exc']]()
                xc = XigtCorpus(id='c', igts=src(), mode=fail['mode'])
                cfg = copy.deepcopy(config)
                if fmt == 'itsdb':
                    fs.put('relations', b'item:\n')
                    cfg = dict(cfg or {}, relations=fs.p('relations'))
                o = attempt(exporter.xigt_export, xc, fs.p('out'), cfg)
                ctx.fault('failing-source')
                ctx.nontrivial()
                ctx.log('source', fail['exc'], n, o.name)
                ctx.mark('source', fail['exc'], n, o.name)
                require(not o.ok, 'accepted', 'the source of the corpus failed ({}) after {} IGTs, but the export succeeded'.format(fail['exc'], n))
        finally:
            fs.destroy()
        return
    doc = data
    if fail['what'] == 'damage':
        doc = damage(data, fail['how'], fail['at'])
        if doc is None:
            return
        ctx.fault('damage-' + fail['how'])
        ctx.nontrivial()
    fs, args = prepare(ctx, plan, doc)
    try:
        if fail['what'] == 'fault':
            if not arm(fs, fail['fault'], base):
                return
        else:
            fs.arm()
        if fail['what'] == 'relations':
            if fmt != 'itsdb':
                return
            cfg = dict(plan['config'] or {})
            if fail['how'] == 'missing':
                cfg['relations'] = fs.p('nosuch')
            fs.put('cfg.json', json.dumps(cfg).encode())
            if fail['how'] == 'logon':
                # the relations of an installed LOGON system
                fs.put('logon/lingo/lkb/src/tsdb/skeletons/english/Relations', fs.get('relations'))
                os.remove(fs.p('relations'))
            if fail['how'].startswith('logon'):
                os.environ['LOGONROOT'] = fs.p('logon')
        try:
            r = run_cli(ctx, fs, args)
        finally:
            os.environ.pop('LOGONROOT', None)
        if fail['what'] == 'relations' and fail['how'] == 'logon':
            require(r.code == 0 or not ok, 'failed', 'exporting with the relations of LOGON ended with {}: {}'.format(r.short(), r.err[-300:]))
            require(r.code != 0 or out_text(fs, fmt) == good, 'differs', 'with the relations of LOGON the output differs')
            return
        what = '{}'.format(fail)
        ctx.mark(fail['what'], fail.get('how'), (fail.get('fault') or {}).get('op'), r.code, bool(fs.fired))
        if fail['what'] in ('damage', 'relations'):
            require(r.code != 0, 'accepted', 'exporting with {} ended with success'.format(what))
            if fail['what'] == 'relations':
                require(not os.path.exists(fs.p('out')), 'accepted', 'exporting with {} was refused, but wrote something'.format(what))
            return
        if fs.fired:
            ctx.nontrivial()
        if r.code == 0:
            judge(plan, ctx, out_text(fs, fmt), solo, igts, 'success in spite of {}'.format(fs.fired))
            require(out_text(fs, fmt) == good, 'incomplete', 'success in spite of {}, but the output differs'.format(fs.fired))
            if fmt == 'itsdb':
                require(fs.get('out/relations') == fs.get('relations'), 'incomplete', 'success in spite of {}, but the relations are incomplete'.format(fs.fired))
            require(not fs.fired, 'accepted', 'success in spite of {}'.format(fs.fired))
        else:
            require(fs.fired or not ok, 'failed', 'no fault fired, but exporting ended with {}: {}'.format(r.short(), r.err[-300:]))
        require(fs.get('in.xml') == data, 'input-changed', 'the input file was changed')
        # recovery
        fs.arm()
        r = run_cli(ctx, fs, args)
        require(r.code == 0 or not ok, 'no-recovery', 'exporting again ended with {}: {}'.format(r.short(), r.err[-300:]))
        if r.code == 0:
            require(out_text(fs, fmt) == good, 'no-recovery', 'exporting again gives another output')
    finally:
        fs.destroy()
