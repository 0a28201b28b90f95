"""C02: an acknowledged XigtJSON write, or a format conversion, keeps the corpus."""

import copy
import io
import json
import random

from .. import corpusgen as cg
from .. import streams
from ..core import attempt, must, require
from . import edits as ed
from .c01 import destination, DESTS as _D
from .common import Env, fs_cfg, gen_source, load_doc, open_doc, read_xml, same, pos, frac, undeclared

ID = 'C02'
RUNS = {'quick': 11000, 'thorough': 400000}
RULE = ('One run: a random corpus, built or read from an XML or JSON document through a simulated source in some loading mode, '
        'reading steps and edits, then a chain of 1-4 writes in XigtJSON or XigtXML to simulated destinations, each read back '
        'in some mode and converted onwards, with write faults. Non-trivial: a fault, short transfer, edit, lazy mode or a chain '
        'longer than one; distinct by (origin, chain, destinations, outcomes, sizes).')
REAL = ['xigt.codecs.xigtjson', 'xigt.codecs.xigtxml', 'xigt.model', 'json', 'xml.etree/expat', 'io buffering layers']
STUB = ['files, pipes and handles below the io layers (simfs, streams)']
ASSUMPTIONS = ['JSON goes to text handles (documented); element namespaces are carried by JSON-only chains']
KEEP_KEYS = ('op', 'to', 'enc', 'indent', 'how', 'src', 'cfg', 'fseed', 'kind', 'name', 'a', 'b', 'c', 'v', 'k', 'lvl', 'spec',
             'seed', 'n', 'fmt', 'mode', 'origin')

JDESTS = ['path', 'path', 'text', 'str', 'pipe-text', 'stringio', 'duck-text', 'text-ascii']
XDESTS = ['path', 'str', 'bytes', 'binary', 'pipe']
ERRS = ['EIO', 'EPIPE', 'ENOSPC']


def gen(rng, tier):
    n = rng.choice([1, 1, 1, 2, 3, 4])
    chain = []
    pure = rng.random() < .5
    for i in range(n):
        fmt = 'json' if pure or i == 0 and rng.random() < .7 else rng.choice(['json', 'xml'])
        leg = {'fmt': fmt, 'to': rng.choice(JDESTS if fmt == 'json' else XDESTS), 'indent': rng.choice([2, None, 0, 4]),
               'mode': rng.choice(['full', 'full', 'incremental', 'transient']), 'seed': rng.randrange(1 << 30),
               'short': rng.choice([0, 0, .3, .9]), 'buf': rng.choice([1, 64, 8192]), 'src': gen_source(rng, encs=['utf-8'])}
        if rng.random() < .25:
            leg['fault'] = {'how': rng.choice(['quota', 'quota', 'op']), 'at': frac(rng), 'n': rng.choice([0, 0, 1, 2, 5]),
                            'do': rng.choice(ERRS), 'on': rng.choice(['write', 'write', 'close', 'open-w']),
                            'sticky': rng.random() < .5}
        chain.append(leg)
    origin = rng.choice(['built', 'json', 'json', 'xml'])
    alljson = origin != 'xml' and all(c['fmt'] == 'json' for c in chain)
    kn = cg.Knobs(rng, empty_text=alljson and rng.random() < .4, el_ns=alljson and rng.random() < .2)
    how = rng.choice(['full', 'incremental', 'transient'])
    spec = cg.gen_corpus(rng, kn)
    script = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        if rng.random() < .4 and origin != 'built':
            script.append({'op': 'step', 'n': rng.choice([1, 2, 5])})
        elif how != 'transient' or origin == 'built':
            script.append(ed.gen_edit(rng, kn, cg.scope_of({}, spec), len(script)))
    return {'spec': spec, 'origin': origin, 'how': how, 'chain': chain, 'script': script,
            'src': gen_source(rng, encs=['utf-8', 'utf-16', 'utf-8-bom']), 'cfg': fs_cfg(rng), 'fseed': rng.randrange(1 << 30)}


def json_doc(spec, src):
    t = json.dumps(cg.json_obj(spec), ensure_ascii=bool(src.get('fmt', 0) & 1), indent=[None, 0, 2][src.get('fmt', 0) % 3])
    enc = {'utf-8-bom': 'utf-8-sig'}.get(src.get('enc'), src.get('enc') or 'utf-8')
    if src['kind'] in ('text', 'pipe-text'):
        enc = 'utf-8'
    return t, t.encode(enc)


def load_json(xigtjson, text, data, src, ctx, fs, mode, name):
    arg, how, _ = open_doc(None, src, ctx, fs, name, data=data, text=text)
    if how == 'loads' and mode == 'full':
        return xigtjson.loads(arg)
    if how == 'loads':
        arg = io.BytesIO(arg) if isinstance(arg, bytes) else io.StringIO(arg)
    return xigtjson.load(arg, mode=mode)


def run(plan, ctx):
    from xigt.codecs import xigtxml, xigtjson
    spec = copy.deepcopy(plan['spec'])
    origin, how = plan['origin'], plan['how']
    if not plan['chain']:
        return
    with Env(ctx, plan) as fs, fs:
        lossy = origin == 'xml'
        if origin == 'built':
            xc = must('build', cg.build_corpus, spec)
            how = 'full'
        elif origin == 'xml':
            xc, _ = must('load', load_doc, xigtxml, spec, plan['src'], ctx, fs, how)
        else:
            t, d = json_doc(spec, plan['src'])
            xc = must('load-json', load_json, xigtjson, t, d, plan['src'], ctx, fs, how, 'in.json')
        if how != 'full' or len(plan['chain']) > 1:
            ctx.nontrivial()
        igts, todo = list(spec.get('igts', [])), []
        if how != 'full':
            igts, todo = [], igts
        for op in plan['script']:
            if op['op'] == 'step':
                it = iter(xc)
                for j in range(op['n']):
                    if must('step', next, it, None) is None:
                        break
                del it
                if how == 'transient':
                    del todo[:op['n']]
                else:
                    while todo and len(igts) < op['n']:
                        igts.append(todo.pop(0))
            elif how != 'transient':
                ed.apply_spec(spec, igts, op)
                must('edit', ed.apply_obj, xc, op, cg.scope_of({}, plan['spec']))
                ctx.nontrivial()
        now = dict(spec, igts=igts + todo)
        exact = not undeclared(now) and not undeclared(plan['spec'])
        ctx.mark(origin, how, len(now['igts']), len(todo))
        for k, leg in enumerate(plan['chain']):
            if leg['fmt'] == 'xml':
                lossy = True
            exp = cg.canon_spec(now, xml=lossy)
            o, data, hit = write(leg, xc, fs, ctx, lambda: cg.build_corpus(now), 'leg{}'.format(k), xigtxml, xigtjson)
            ctx.log('leg', k, leg['fmt'], leg['to'], o.name, hit, len(data) if data is not None else None)
            ctx.mark(leg['fmt'], leg['to'], leg['mode'], leg['indent'], o.name, hit)
            if not o.ok:
                require(hit, 'write-failed', 'writing {} to {} failed without a fault: {}'.format(leg['fmt'], leg['to'], o))
                ctx.probe('failed-write-reported')
                break
            what = 'written as {} to {}, then read'.format(leg['fmt'], leg['to'])
            if leg['fmt'] == 'json':
                if not isinstance(data, str):
                    data = must('bad-document', data.decode, 'utf-8')
                ok = attempt(json.loads, data)
                require(ok.ok, 'bad-document', '{}: not one JSON document: {}'.format(what, ok))
                xc = must('read', load_json, xigtjson, data, data.encode('utf-8'), leg['src'], ctx, fs, leg['mode'],
                          'back{}.json'.format(k))
            else:
                back = read_xml(data, 'bad-document', what, leg['mode'])
                xc = back
            # a transient corpus can be looked at only once
            if leg['mode'] != 'transient':
                same(exp, cg.canon(xc, xml=lossy), 'lost' if hit else 'changed', what, not exact)
            elif k == len(plan['chain']) - 1:
                got = cg.canon(xc, xml=lossy, sub=must('read', list, xc))
                same(exp, got, 'lost' if hit else 'changed', what, not exact)


def write(leg, xc, fs, ctx, twin, name, xigtxml, xigtjson):
    codec = xigtxml if leg['fmt'] == 'xml' else xigtjson
    if leg['to'] in ('str', 'bytes'):
        o = attempt(codec.dumps, xc, encoding='unicode' if leg['to'] == 'str' else 'utf-8', indent=leg['indent'])
        return o, o.value if o.ok else None, False
    w = dict(leg)
    size = 0
    if leg.get('fault'):
        o = attempt(codec.dumps, twin(), indent=leg['indent'])
        size = len(o.value) if o.ok else 1000
    if leg['to'] == 'text-ascii':
        w['to'] = 'text'
    dst, finish, fired = destination(w, fs, ctx, size, name)
    o = attempt(codec.dump, dst, xc, indent=leg['indent'])
    data = None
    if o.ok:
        fin = attempt(finish)
        if fin.ok:
            data = fin.value
        else:
            o = fin
    hit = fired()
    fs.arm()
    return o, data, hit
