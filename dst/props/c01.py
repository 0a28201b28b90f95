"""C01: an acknowledged XigtXML write reads back as the same corpus."""

import copy
import io
import random
import xml.etree.ElementTree as ET

from .. import corpusgen as cg
from .. import streams
from ..core import attempt, must, require
from . import edits as ed
from .common import (Env, fs_cfg, gen_source, spec_for, load_doc, read_xml, same, pos, frac, undeclared)

ID = 'C01'
RUNS = {'quick': 9000, 'thorough': 400000}
RULE = ('One run: a random corpus, built or loaded (full/incremental/transient) through a simulated source, a random '
        'sequence of reading steps, edits and writes to simulated destinations (paths, buffered/unbuffered/text handles, '
        'pipes with short writes) in random encodings and indentations, with write faults. Non-trivial: at least one '
        'fault or short transfer was injected, or an edit preceded a write, or the corpus was lazily loaded; distinct by '
        '(loading, destinations, encodings, faults and outcomes, sizes).')
REAL = ['xigt.codecs.xigtxml', 'xigt.model', 'xigt.mixins', 'xigt.metadata', 'xml.etree/expat', 'io buffering layers']
STUB = ['files, pipes and handles below the io layers (simfs, streams)']
ASSUMPTIONS = ['control characters, carriage returns, invalid XML names and names the encoding lacks are excluded, as the '
               'property says']
KEEP_KEYS = ('op', 'to', 'enc', 'indent', 'how', 'src', 'cfg', 'fseed', 'kind', 'name', 'a', 'b', 'c', 'v', 'k', 'lvl', 'spec',
             'seed', 'n')

ENCS = ['utf-8', 'utf-8', 'UTF-8', 'us-ascii', 'iso-8859-1', 'utf-16', 'windows-1252', 'unicode']
DESTS = ['path', 'path', 'binary', 'unbuffered', 'text', 'str', 'bytes', 'pipe', 'pipe-raw', 'pipe-text', 'bytesio', 'stringio',
         'duck', 'duck-text', 'text-unicode', 'rw', 'nonblock']
ERRS = {'EIO': lambda: OSError(5, 'io'), 'EPIPE': lambda: BrokenPipeError(32, 'pipe'), 'ENOSPC': lambda: OSError(28, 'full')}


def gen_write(rng, narrow_ok):
    enc = rng.choice(ENCS)
    if not narrow_ok and enc in ('us-ascii', 'iso-8859-1', 'windows-1252'):
        enc = 'utf-8'
    w = {'op': 'write', 'to': rng.choice(DESTS), 'enc': enc, 'indent': rng.choice([2, 2, None, 0, 1, 4]),
         'seed': rng.randrange(1 << 30), 'short': rng.choice([0, 0, .3, .9]), 'buf': rng.choice([1, 64, 8192])}
    if rng.random() < .35:
        w['fault'] = {'how': rng.choice(['quota', 'quota', 'op']), 'at': frac(rng), 'n': rng.choice([0, 0, 1, 2, 5]),
                      'do': rng.choice(['EIO', 'ENOSPC', 'EPIPE']), 'on': rng.choice(['write', 'write', 'close', 'open-w']),
                      'sticky': rng.random() < .5}
    return w


def gen(rng, tier):
    how = rng.choice(['built', 'full', 'incremental', 'incremental', 'transient'])
    narrow = rng.random() < .5
    kn = cg.Knobs(rng, names_ascii=narrow)
    src = gen_source(rng, encs=None if narrow else ['utf-8', 'utf-8-bom', 'utf-16'])
    if tier == 'thorough' and rng.random() < .1:
        kn.max_igts = 30
    if rng.random() < .05:
        kn.big = True
    spec = cg.gen_corpus(rng, kn)
    script = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        if rng.random() < .5 and how != 'built':
            script.append({'op': 'step', 'n': rng.choice([1, 1, 2, 3, 9])})
        elif how != 'transient':
            script.append(ed.gen_edit(rng, kn, cg.scope_of({}, spec), len(script)))
    script.append(gen_write(rng, narrow))
    if how != 'transient' and rng.random() < .35:
        script.append({'op': 'part', 'lvl': rng.choice(['igt', 'tier', 'item', 'md', 'meta', 'child']), 'a': rng.randrange(1000),
                       'enc': rng.choice(['unicode', 'utf-8', 'utf-16']) if rng.random() < .5 else None,
                       'indent': rng.choice([2, None, 0, 3])})
    for _ in range(rng.choice([0, 0, 1, 2])):
        if how != 'transient' and rng.random() < .6:
            script.append(ed.gen_edit(rng, kn, cg.scope_of({}, spec), 50 + len(script)))
        script.append(gen_write(rng, narrow))
    return {'spec': spec, 'how': how, 'src': src, 'script': script, 'cfg': fs_cfg(rng), 'fseed': rng.randrange(1 << 30)}


def destination(w, fs, ctx, size, name):
    """-> (argument for dump, finish(ok) -> bytes or text, fired())"""
    rng = random.Random(w['seed'])
    f = w.get('fault')
    to = w['to']
    room = exc = None
    if f:
        room = pos(size, f['at']) if f['how'] == 'quota' else None
        exc = ERRS[f['do']]
    if to in ('path', 'binary', 'unbuffered', 'text', 'text-unicode', 'rw'):
        p = fs.p(name)
        if to == 'path':
            if rng.random() < .5:
                fs.put(name, b'<old/>' * rng.choice([1, 5000]))
            fh = p
        elif to == 'binary':
            fh = open(p, 'wb')
        elif to == 'unbuffered':
            fh = open(p, 'wb', buffering=0)
        elif to == 'rw':
            fh = open(p, 'w+b')
        else:
            fh = open(p, 'w', encoding='utf-8')
        if f:
            if f['how'] == 'quota':
                fs.arm([], quota=room)
            else:
                fs.arm([{'op': f['on'], 'n': f['n'], 'do': f['do'], 'sticky': f['sticky']}])
        else:
            fs.arm()

        def finish():
            if to != 'path':
                fh.close()
            return fs.get(name)
        return fh, finish, lambda: bool(fs.fired)
    if to in ('pipe', 'pipe-raw', 'pipe-text', 'nonblock'):
        raw = streams.DstRaw(rng, w['short'], ctx, room, exc if to != 'nonblock' else None)
        if to == 'pipe':
            fh = io.BufferedWriter(raw, w['buf'])
        elif to == 'pipe-text':
            fh = io.TextIOWrapper(io.BufferedWriter(raw, w['buf']), encoding='utf-8')
        else:
            fh = raw

        def finish():
            fh.flush()
            return bytes(raw.data)
        return fh, finish, lambda: raw.failed
    if to in ('duck', 'duck-text'):
        d = streams.DuckDst('' if to == 'duck-text' else b'', room, exc, ctx)
        return d, lambda: d.data, lambda: d.failed
    b = io.BytesIO() if to == 'bytesio' else io.StringIO()
    return b, b.getvalue, lambda: False


TEXTUAL = ('stringio', 'duck-text', 'text-unicode')


def do_write(xigtxml, xc, w, fs, ctx, twin, name):
    """-> (outcome, data or None, fired)"""
    enc = w['enc']
    to = w['to']
    if to in TEXTUAL or (to == 'pipe-text' and enc == 'unicode'):
        enc = 'unicode'
    elif enc == 'unicode' and to not in ('path', 'str'):
        enc = 'utf-8'
    indent = w['indent']
    if to in ('str', 'bytes'):
        o = attempt(xigtxml.dumps, xc, encoding='unicode' if to == 'str' else enc, indent=indent)
        return o, o.value if o.ok else None, False
    size = 0
    if w.get('fault'):
        o = attempt(xigtxml.dumps, twin(), encoding=enc, indent=indent)
        size = len(o.value) if o.ok else 1000
    dst, finish, fired = destination(w, fs, ctx, size, name)
    o = attempt(xigtxml.dump, dst, xc, encoding=enc, indent=indent)
    data = None
    if o.ok:
        fin = attempt(finish)
        if fin.ok:
            data = fin.value
        else:
            o = fin
    hit = fired()
    fs.arm()
    del dst
    return o, data, hit


def parts(o, level, path=()):
    """All parts of one level with what a document has to put around them."""
    kind = cg.kind_of(o)
    if kind == level and (level != 'child' or path[-1] != 'child'):
        yield o, path
    path += (kind,)
    for name in ('metadata', 'igts', 'tiers', 'items', 'metas', 'children'):
        for x in getattr(o, name, None) or ():
            if kind != 'child':
                for y in parts(x, level, path):
                    yield y


TAG = {'corpus': 'xigt-corpus', 'igt': 'igt', 'tier': 'tier', 'item': 'item', 'md': 'metadata', 'meta': 'meta'}


def check_part(xigtxml, xc, op, ctx):
    """One part of the corpus is encoded, and means the same in a document."""
    todo = list(parts(xc, op['lvl']))
    if not todo:
        return
    o, path = todo[op['a'] % len(todo)]
    enc = {'igt': xigtxml.encode_igt, 'tier': xigtxml.encode_tier, 'item': xigtxml.encode_item, 'md': xigtxml.encode_metadata,
           'meta': xigtxml.encode_meta, 'child': xigtxml.encode_metachild}[op['lvl']]
    kw = {'indent': op['indent']}
    if op['enc']:
        kw['encoding'] = op['enc']
    exp = cg.canon(o)
    text = must('write-failed', enc, o, **kw)
    if op['enc'] in (None, 'unicode'):
        require(isinstance(text, str), 'part', 'an encoded {} is {!r}'.format(op['lvl'], type(text)))
        data = text
    else:
        require(isinstance(text, bytes), 'part', 'an encoded {} is {!r}'.format(op['lvl'], type(text)))
        data = text.decode(op['enc'])
        if data.startswith('<?'):
            data = data.split('?>', 1)[1]
    ctx.mark('part', op['lvl'], op['enc'], op['indent'])
    ctx.probe('part')
    doc = ''.join('<{}>'.format(TAG[k]) for k in path) + data + ''.join('</{}>'.format(TAG[k]) for k in reversed(path))
    back = read_xml(doc, 'part', 'an encoded {}'.format(op['lvl']))
    for k, _ in enumerate(path):
        sub = [x for name in ('metadata', 'igts', 'tiers', 'items', 'metas', 'children') for x in getattr(back, name, None) or ()]
        require(len(sub) == 1, 'part', 'an encoded {} is read as {} parts'.format(op['lvl'], len(sub)))
        back = sub[0]
    same(exp, cg.canon(back), 'part', 'the {} encoded alone, then read'.format(op['lvl']))


def layout(data, w):
    """An indented document has its records, tiers and items where the
    requested indentation puts them (so that line-based tools see them)."""
    ind = w['indent']

    def walk(e, depth):
        if depth > 3 or not len(e):
            return
        before = e.text
        for sub in e:
            want = None if ind is None else '\n' + ' ' * (ind * depth)
            require((before or None) == want, 'layout', 'with indent={}, there is {!r} before a {} element'.format(ind, before, sub.tag))
            before = sub.tail
            if sub.tag.split('}')[-1] in ('igt', 'tier'):
                walk(sub, depth + 1)
    walk(ET.fromstring(data), 1)


def run(plan, ctx):
    from xigt.codecs import xigtxml
    spec = copy.deepcopy(plan['spec'])
    how = plan['how']
    with Env(ctx, plan) as fs, fs:
        if how == 'built':
            xc = must('build', cg.build_corpus, spec)
        else:
            xc, _ = must('load', load_doc, xigtxml, spec, plan['src'], ctx, fs, how)
        igts = list(spec.get('igts', []))
        todo = []
        if how in ('incremental', 'transient'):
            igts, todo = [], igts
            ctx.nontrivial()
        for k, op in enumerate(plan['script']):
            if op['op'] == 'step':
                it = iter(xc)
                for j in range(op['n']):
                    g = must('step', next, it, None)
                    if g is None:
                        break
                if how == 'transient':
                    del todo[:op['n']]
                else:
                    while todo and len(igts) < op['n']:
                        igts.append(todo.pop(0))
                del it
                continue
            if op['op'] == 'part':
                if not todo:
                    check_part(xigtxml, xc, op, ctx)
                continue
            if op['op'] != 'write':
                if how == 'transient':
                    continue
                ed.apply_spec(spec, igts, op)
                must('edit', ed.apply_obj, xc, op, cg.scope_of({}, plan['spec']))
                ctx.nontrivial()
                continue
            now = dict(spec, igts=igts + todo)
            exp = cg.canon_spec(now)
            o, data, hit = do_write(xigtxml, xc, op, fs, ctx, lambda: cg.build_corpus(now), 'out{}.xml'.format(k))
            ctx.log('write', op['to'], op['enc'], o.name, hit, len(data) if data is not None else None)
            ctx.mark(how, op['to'], op['enc'], op['indent'], op.get('fault', {}).get('how'), o.name, hit, len(now['igts']),
                     len(todo))
            if o.ok:
                back = read_xml(data, 'bad-document', 'write to {} succeeded'.format(op['to']))
                if not hit and op['to'] in ('path', 'str', 'bytes', 'bytesio', 'binary'):
                    layout(data, op)
                same(exp, cg.canon(back), 'lost' if hit else 'changed', 'written to {} ({}), then read'.format(op['to'], op['enc']),
                     undeclared(now) or undeclared(plan['spec']))
                if hit:
                    ctx.probe('complete-despite-fault')
            else:
                require(hit, 'write-failed', 'writing to {} ({}) failed without a fault: {}'.format(op['to'], op['enc'], o))
                ctx.probe('failed-write-reported')
                break
            if how == 'transient':
                todo = []
            else:
                igts, todo = igts + todo, []
