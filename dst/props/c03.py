"""C03: reading a corpus does not depend on how or in what pieces its bytes arrive."""

import copy
import gc
import io
import random
from xml.parsers import expat

from .. import corpusgen as cg
from .. import streams
from ..core import attempt, must, require
from .c02 import json_doc, load_json
from .common import Env, fs_cfg, gen_source, open_doc, same, undeclared, MODES

ID = 'C03'
RUNS = {'quick': 9000, 'thorough': 400000}
RULE = ('One run: one random corpus, 2-4 documents of it by an independent writer with random meaningless markup, encodings and '
        'placement of namespace declarations, delivered through random sources in random piece sizes in random modes; or one '
        'huge document read lazily from a pipe that must not be read far ahead. Non-trivial: short reads were injected, or '
        'a pipe, or a lazy mode; distinct by (sources, modes, encodings, sizes).')
REAL = ['xigt.codecs.xigtxml', 'xigt.codecs.xigtjson', 'xigt.model', 'xml.etree/expat', 'json', 'io buffering layers']
STUB = ['files, pipes and handles below the io layers (simfs, streams)', 'document writer (independent of xigt)']
ASSUMPTIONS = ['bounded look-ahead is taken as 192 KB beyond the end of the IGT handed over (expat defers parsing of '
               'unfinished tokens)', 'JSON documents have no bounded look-ahead']
KEEP_KEYS = ('op', 'enc', 'kind', 'mode', 'cfg', 'fseed', 'src', 'fmt', 'seed', 'name', 'variants', 'spec', 'what')
LOOKAHEAD = 192 * 1024
STEP_LIMIT = 6000000


def gen(rng, tier):
    if rng.random() < .05:
        kn = cg.Knobs(rng, max_igts=3)
        spec = cg.gen_corpus(rng, kn, n=rng.choice([1, 2, 3]))
        return {'what': 'huge', 'spec': spec, 'mode': rng.choice(['incremental', 'transient']),
                'kind': rng.choice(['pipe', 'pipe-raw', 'duck', 'pipe-text', 'duck-text']), 'bufsize': rng.choice([512, 8192]),
                'maxpiece': rng.choice([None, 700, 4096]), 'fmt': rng.randrange(1 << 30), 'seed': rng.randrange(1 << 30),
                'kb': rng.choice([500, 800]), 'take': rng.choice([1, 2, 7, 30, 100000]), 'fseed': 0, 'cfg': {}}
    encs = None if rng.random() < .5 else ['utf-8', 'utf-8-bom', 'utf-16']
    kn = cg.Knobs(rng, names_ascii=encs is None)
    if rng.random() < .1:
        kn.big = True
    spec = cg.gen_corpus(rng, kn)
    variants = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        v = {'mode': rng.choice(MODES), 'src': gen_source(rng, encs=encs), 'hoist': rng.random() < .2,
             'fmt': 'json' if rng.random() < .2 else 'xml', 'pass': rng.choice(['iter', 'iter', 'list', 'igts', 'select', 'two'])}
        if v['fmt'] == 'json':
            v['src']['enc'] = rng.choice(['utf-8', 'utf-8-bom', 'utf-16'])
        variants.append(v)
    return {'what': 'variants', 'spec': spec, 'variants': variants, 'cfg': fs_cfg(rng), 'fseed': rng.randrange(1 << 30)}


def hoist(spec):
    """Declare everything at the root, where that means the same; or None."""
    allns = {}

    def collect(s):
        for p, u in s.get('ns', {}).items():
            if allns.setdefault(p, u) != u:
                return False
        return all(collect(x) for k in ('mds', 'metas', 'children', 'igts', 'tiers', 'items') for x in s.get(k, ()))

    def strip(s):
        s.pop('ns', None)
        for k in ('mds', 'metas', 'children', 'igts', 'tiers', 'items'):
            for x in s.get(k, ()):
                strip(x)
    if not collect(spec):
        return None
    s = copy.deepcopy(spec)
    strip(s)
    if allns:
        s['ns'] = allns
    return s


def passes(xc, how):
    if how == 'list':
        return list(xc)
    if how == 'igts':
        return xc.igts
    if how == 'select':
        return list(xc.select())
    if how == 'two':
        out = []
        it = iter(xc)
        for _ in range(2):
            g = next(it, None)
            if g is not None:
                out.append(g)
        del it
        rest = list(xc)
        return rest if xc_keeps(xc, out, rest) else out + rest
    return [g for g in xc]


def xc_keeps(xc, out, rest):
    return not out or any(g is out[0] for g in rest)


def run(plan, ctx):
    from xigt.codecs import xigtxml, xigtjson
    if plan['what'] == 'huge':
        return run_huge(plan, ctx, xigtxml)
    spec = plan['spec']
    exact = not undeclared(spec)
    with Env(ctx, plan) as fs, fs:
        for k, v in enumerate(plan['variants']):
            src = v['src']
            doc = spec
            ns = True
            if v['hoist']:
                h = hoist(spec)
                if h is not None:
                    doc, ns = h, False
            if v['mode'] != 'full' or src['kind'].startswith('pipe'):
                ctx.nontrivial()
            xml = v['fmt'] == 'xml'
            what = 'reading {} ({}, {}, {})'.format(v['fmt'], src['kind'], src['enc'], v['mode'])
            if xml:
                arg, how, _ = open_doc(doc, src, ctx, fs, 'v{}.xml'.format(k))
                if how == 'loads' and v['mode'] == 'full':
                    xc = must('read-failed', xigtxml.loads, arg)
                else:
                    if how == 'loads':
                        arg = io.BytesIO(arg) if isinstance(arg, bytes) else io.StringIO(arg)
                    xc = must('read-failed', xigtxml.load, arg, mode=v['mode'])
            else:
                t, d = json_doc(doc, src)
                xc = must('read-failed', load_json, xigtjson, t, d, src, ctx, fs, v['mode'], 'v{}.json'.format(k))
            igts = must('read-failed', passes, xc, v['pass'])
            got = cg.canon(xc, xml=xml, sub=igts)
            exp = cg.canon_spec(doc, xml=xml)
            if not ns:
                got, exp = cg.dropns(got), cg.dropns(exp)
            ctx.log(k, v['mode'], src['kind'], src['enc'], len(igts))
            ctx.mark(v['fmt'], v['mode'], src['kind'], src['enc'], v['hoist'], v['pass'], len(igts), len(ctx.faults))
            same(exp, got, 'changed', what, not exact)


def run_huge(plan, ctx, xigtxml):
    spec = plan['spec']
    if not spec['igts']:
        return
    igts = []
    size = 0
    j = 0
    pad = 'padding ' * 40
    while size < plan['kb'] * 1024:
        g = copy.deepcopy(spec['igts'][j % len(spec['igts'])])
        g['id'] = 'h{}'.format(j)
        g.setdefault('tiers', [])
        g['tiers'] = [t for t in g['tiers'] if t.get('id') != 'pad'] + [{'id': 'pad', 'items': [
            {'id': 'pad{}'.format(q), 'text': pad} for q in range(6)]}]
        igts.append(g)
        size += 6 * len(pad) + 300
        j += 1
    spec = dict(spec, igts=igts)
    text = cg.xml_text(spec, None)
    data = text.encode('utf-8')
    ends = igt_ends(data)
    cends = ends if plan['kind'] != 'duck-text' else igt_ends_text(text, data, ends)
    with Env(ctx, plan):
        arg, how, cnt = streams.open_source(plan['kind'], data, text, 'utf-8', random.Random(plan['seed']), 0, ctx, None,
                                            'huge', bufsize=plan['bufsize'], maxpiece=plan['maxpiece'])
        ctx.nontrivial()
        ctx.probe('huge-document')
        xc = must('read-failed', xigtxml.load, arg, mode=plan['mode'])
        require(cnt() <= cends[0] + LOOKAHEAD, 'read-ahead', 'loading lazily read {} bytes before any IGT was asked for'
                .format(cnt()))
        it = iter(xc)
        worst = 0
        for k in range(min(plan['take'], len(igts))):
            g = must('read-failed', next, it, None)
            require(g is not None, 'lost', 'only {} of {} IGTs'.format(k, len(igts)))
            ahead = cnt() - cends[k]
            worst = max(worst, ahead)
            require(ahead <= LOOKAHEAD, 'read-ahead', 'IGT {} was handed over only after {} bytes beyond its end were read'
                    .format(k, ahead))
            if k % 10 == 0:
                same(cg.canon_spec(igts[k], 'igt', cg.scope_of({}, spec)), cg.canon(g), 'changed', 'IGT {}'.format(k), True)
            del g
        if plan['take'] > len(igts):
            require(must('read-failed', next, it, None) is None, 'extra', 'more IGTs than in the document')
            del it
            # memory: the parsed elements of a long document must not pile up
            n = sum(1 for o in gc.get_objects() if type(o).__name__ == 'Element')
            ctx.probe('memory-checked')
            total = data.count(b'</item>')
            require(n < total // 3 + 50, 'piles-up', '{} parsed elements are alive after a lazy pass over {} items'
                    .format(n, total))
        ctx.log('huge', plan['mode'], plan['kind'], len(igts), worst // 65536)
        ctx.mark('huge', plan['mode'], plan['kind'], plan['take'], plan['maxpiece'])


def igt_ends(data):
    ends, depth = [], [0]
    p = expat.ParserCreate()

    def start(n, a):
        depth[0] += 1

    def end(n):
        depth[0] -= 1
        if depth[0] == 1 and n == 'igt':
            ends.append(p.CurrentByteIndex)
    p.StartElementHandler, p.EndElementHandler = start, end
    p.Parse(data, True)
    return ends


def igt_ends_text(text, data, ends):
    out, last, chars = [], 0, 0
    for e in ends:
        chars += len(data[last:e].decode('utf-8'))
        last = e
        out.append(chars)
    return out
