"""C14: a refused or failing write spares the existing file, the corpus and the handle."""

import copy
import io
import json
import os
import random
import re

from .. import corpusgen as cg
from .. import streams
from ..core import attempt, must, require
from . import common
from .cliutil import arm, damage, files, gen_fault, usage
from .common import Env, frac, fs_cfg, pos, read_xml, same, spec_for, well_formed

ID = 'C14'
RUNS = {'quick': 14000, 'thorough': 300000}
RULE = ('One run: a random history of writes of one corpus in one format - refused ones (no corpus, a value the format cannot express at '
        'a random place, a lazy source that is damaged or fails at a random point), failing ones (open, write, close error, full disk) '
        'and good ones - to fresh, existing and linked files, to the file being lazily read, and to handles the caller also writes to. '
        'Destination bytes, corpus contents and later writes are compared with expectations. Non-trivial: a refusal, a fault or an interleaved handle; '
        'distinct by (corpus source, writes, outcomes).')
REAL = ['xigt.codecs.xigtxml', 'xigt.codecs.xigtjson', 'xigt.model', 'xigt.mixins']
STUB = ['file system (open, os.*)', 'pipes']
ASSUMPTIONS = ['a write that fails because the destination itself fails may leave a damaged destination file']
KEEP_KEYS = ('op', 'fmt', 'to', 'how', 'bad', 'where', 'id', 'src', 'do')

NOCORPUS = ['none', 'dict', 'igt', 'str', 'list', 'class']
XML_BAD = ['int-text', 'bytes-text', 'none-attr', 'int-attr', 'bytes-attr', 'int-type', 'obj-attr', 'obj-type']
# (JSON can express the last ones; a codec that cannot has to refuse them properly)
JSON_BAD = ['sur-text', 'sur-attr', 'sur-type', 'bytes-text', 'set-text', 'bytes-attr', 'obj-attr', 'tuple-key', 'obj-type', 'bytes-type']
HANDLES = ['text', 'binary', 'unbuffered', 'append', 'rw', 'bytesio', 'stringio', 'wrapped', 'pipe', 'pipe-text', 'duck', 'duck-text', 'text-line']
TEXTUAL = ('text', 'stringio', 'wrapped', 'pipe-text', 'duck-text', 'text-line')


def gen(rng, tier):
    fmt = rng.choice(['xml', 'xml', 'json'])
    narrow = rng.random() < .6
    kn = cg.Knobs(rng, names_ascii=narrow)
    if rng.random() < .1:
        kn.big = True
    spec = cg.gen_corpus(rng, kn)
    src = rng.choice(['built', 'built', 'full', 'incremental', 'incremental', 'transient', 'generator', 'generator'])
    plan = {'fmt': fmt, 'spec': spec, 'src': src, 'cfg': fs_cfg(rng), 'fseed': rng.randrange(1 << 30), 'docfmt': rng.randrange(1 << 30),
            'steps': rng.choice([0, 0, 1, 2, 5])}
    if src in ('incremental', 'transient'):
        x = rng.random()
        if x < .35:
            plan['damage'] = {'how': rng.choice(['truncate', 'truncate', 'junk', 'mismatch', 'nuls', 'zeros']), 'at': rng.choice([frac(rng), rng.randrange(500000, 1000000)])}
        elif x < .5:
            plan['readerr'] = frac(rng)
    if src == 'generator' and rng.random() < .7:
        plan['genfail'] = {'at': rng.randrange(6), 'exc': rng.choice(['OSError', 'ValueError', 'KeyboardInterrupt', 'XigtError', 'StopIteration']),
                           'mode': rng.choice(['incremental', 'transient'])}
    elif src == 'generator':
        plan['genfail'] = {'at': None, 'mode': rng.choice(['incremental', 'transient'])}
    writes = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        x = rng.random()
        w = {'indent': rng.choice([2, 2, None, 0, 4]), 'seed': rng.randrange(1 << 30)}
        if fmt == 'xml':
            w['enc'] = rng.choice(['utf-8', 'utf-8', 'unicode', 'utf-16'] + ['us-ascii', 'iso-8859-1'] * narrow)
        if x < .25:
            w['op'] = 'nocorpus'
            w['bad'] = rng.choice(NOCORPUS)
        elif x < .55:
            w['op'] = 'bad'
            w['bad'] = rng.choice(XML_BAD if fmt == 'xml' else JSON_BAD)
            w['where'] = rng.randrange(1000)
        elif x < .75:
            w['op'] = 'fail'
            w['fault'] = gen_fault(rng, ['write', 'write', 'quota', 'open-w', 'close', 'truncate'])
        else:
            w['op'] = 'good'
        w['to'] = rng.choice(['new', 'old', 'old', 'link', 'self', 'handle', 'handle', 'str', 'dir', 'nodir'])
        if w['op'] == 'fail' and w['to'] in ('str', 'dir', 'nodir', 'handle'):
            w['to'] = 'old'
        writes.append(w)
    plan['writes'] = writes
    plan['handle'] = rng.choice(HANDLES if fmt == 'xml' else list(TEXTUAL))
    return plan


class Handle(object):
    """One handle the caller and the library write to in turns."""

    def __init__(self, kind, fs, ctx, rng):
        self.kind = kind
        self.text = kind in TEXTUAL
        self.n = 0
        self.expect = []       # ('m', bytes) or ('d',)
        self.raw = None
        p = fs.p('handle.out')
        self.path = None
        if kind in ('text', 'text-line', 'binary', 'unbuffered', 'append', 'rw'):
            self.path = p
            if kind == 'append':
                fs.put('handle.out', b'before')
                self.expect.append(('m', b'before'))
            if kind == 'text':
                self.fh = open(p, 'w', encoding='utf-8')
            elif kind == 'text-line':
                self.fh = open(p, 'w', encoding='utf-8', buffering=1)
            else:
                self.fh = open(p, {'binary': 'wb', 'unbuffered': 'wb', 'append': 'ab', 'rw': 'w+b'}[kind],
                               buffering=0 if kind == 'unbuffered' else -1)
        elif kind in ('pipe', 'pipe-text'):
            self.raw = streams.DstRaw(rng, rng.choice([0, .3, .9]), ctx)
            self.fh = io.BufferedWriter(self.raw, rng.choice([1, 16, 100, 8192]))
            if kind == 'pipe-text':
                self.fh = io.TextIOWrapper(self.fh, encoding='utf-8')
        elif kind == 'wrapped':
            self.raw = io.BytesIO()
            self.fh = io.TextIOWrapper(self.raw, encoding='utf-8', write_through=rng.random() < .3)
        elif kind == 'bytesio':
            self.fh = io.BytesIO()
        elif kind == 'stringio':
            self.fh = io.StringIO()
        else:
            self.fh = streams.DuckDst('' if kind == 'duck-text' else b'')

    def mark(self):
        self.n += 1
        m = '@@{}@@'.format(self.n)
        self.expect.append(('m', m.encode()))
        data = m if self.text else m.encode()
        while data:
            k = self.fh.write(data)
            if self.kind != 'unbuffered':
                break
            data = data[k:]

    def contents(self, fs):
        k = self.kind
        if k in ('bytesio', 'stringio'):
            x = self.fh.getvalue()
        elif k in ('duck', 'duck-text'):
            x = self.fh.data
        else:
            self.fh.flush()
            x = fs.get('handle.out') if self.path else (bytes(self.raw.data) if k.startswith('pipe') else self.raw.getvalue())
        return x.encode('utf-8', 'surrogatepass') if isinstance(x, str) else x


def place_bad(xc, w, ctx):
    """Put a value the format cannot express somewhere; -> function that
    takes it out again, or None."""
    bad = w['bad']
    objs = [xc] + list(xc.metadata)
    items = []
    for g in xc:
        objs.append(g)
        objs += list(g.metadata)
        for t in g:
            objs.append(t)
            objs += list(t.metadata)
            for i in t:
                objs.append(i)
                items.append(i)
    metas = [m for d in objs if cg.kind_of(d) == 'md' for m in d]
    objs += metas
    kids = [c for m in metas for c in m]
    val = {'int': 5, 'bytes': b'x', 'none': None, 'obj': object(), 'set': set([1]), 'tuple': None, 'sur': 'a\ud800z'}[bad.split('-')[0]]
    what = bad.split('-')[1]
    if what == 'text':
        c = items + [m for m in metas if not len(m)]
        if not c:
            return None
        o = c[w['where'] % len(c)]
        old, o.text = o.text, val
        return lambda: setattr(o, 'text', old)
    o = objs[w['where'] % len(objs)]
    if what == 'type':
        old, o.type = o.type, val
        return lambda: setattr(o, 'type', old)
    k = ('a', 'b') if what == 'key' else 'bad'
    o.attributes[k] = 'x' if what == 'key' else val
    return lambda: o.attributes.pop(k)


def parse(plan, data, what):
    if plan['fmt'] == 'xml':
        return read_xml(data, 'bad-document', what)
    from xigt.codecs import xigtjson
    require(attempt(json.loads, data.decode('utf-8')).ok, 'bad-document', what + ': not a JSON document')
    return must('bad-document', xigtjson.loads, data.decode('utf-8'))


def shape(xc):
    """Identities of everything in a corpus."""
    out = [id(xc)]
    for g in list.__iter__(xc):
        out.append(id(g))
        for t in list.__iter__(g):
            out.append(id(t))
            out.extend(id(i) for i in list.__iter__(t))
    return out


EXC = {'OSError': lambda: OSError(5, 'Input/output error'), 'ValueError': lambda: ValueError('bad'), 'KeyboardInterrupt': KeyboardInterrupt,
       'StopIteration': lambda: RuntimeError('stopped')}


def run(plan, ctx):
    from xigt import XigtCorpus
    from xigt.codecs import xigtxml, xigtjson
    from xigt.errors import XigtError
    codec = xigtxml if plan['fmt'] == 'xml' else xigtjson
    spec = plan['spec']
    isxml = plan['fmt'] == 'xml'
    with Env(ctx, plan) as fs, fs:
        rng = random.Random(plan['fseed'] + 1)
        if isxml:
            doc = cg.xml_bytes(spec, random.Random(plan['docfmt']), 'utf-8')
        else:
            doc = json.dumps(cg.json_obj(spec)).encode()
        src = plan['src']
        broken = False
        if plan.get('damage'):
            if not isxml:
                return
            doc = damage(doc, plan['damage']['how'], plan['damage']['at'])
            if doc is None:
                return
            ctx.fault('damaged-source')
            broken = True
        path = fs.put('self.xml', doc)
        exp = cg.canon_spec(spec, xml=isxml)
        consumed = 0
        if src == 'built':
            xc = must('build', cg.build_corpus, spec)
        elif src == 'generator':
            gf = plan['genfail']
            whole = cg.build_corpus(spec)
            igts = list(whole)

            def gen_igts():
                for k, g in enumerate(igts):
                    if gf['at'] is not None and k == gf['at'] % (len(igts) + 1):
                        break
                    yield g
                if gf['at'] is not None:
                    raise (XigtError('bad') if gf['exc'] == 'XigtError' else EXC[gf['exc']]())
            xc = XigtCorpus(id=spec.get('id'), type=spec.get('type'), attributes=whole.attributes, metadata=list(whole.metadata),
                            igts=gen_igts(), mode=gf['mode'], namespace=None, nsmap=whole.nsmap)
            broken = gf['at'] is not None
            if broken:
                ctx.fault('failing-source')
        else:
            if plan.get('readerr') is not None and isxml:
                n = max(1, len(doc) // fs.bufsize + 2)
                fs.arm([{'op': 'read', 'n': pos(n, plan['readerr']), 'do': 'EIO', 'sticky': True, 'path': 'self.xml'}])
            o = attempt(codec.load, path, mode=src)
            if not o.ok:
                require(broken or fs.fired, 'load', 'loading failed without a fault: {}'.format(o))
                return
            xc = o.value
            fs.faults_keep = True
        mode = xc.mode
        lazy = mode in ('incremental', 'transient')
        transient = mode == 'transient'
        if lazy and not transient:
            it = iter(xc)
            for _ in range(plan['steps']):
                if not attempt(next, it, None).ok:
                    break
            del it
        elif transient and any(w['op'] == 'bad' for w in plan['writes']):
            return      # placing bad values takes a pass
        ctx.mark(plan['fmt'], src, broken)
        handle = None
        spent = False            # a transient corpus can be written once
        selfgone = False
        readfault = list(fs.faults)
        for k, w in enumerate(plan['writes']):
            to = w['to']
            if to == 'self' and selfgone:
                to = 'new'
            enc = w.get('enc')
            kw = {'indent': w['indent']}
            # the corpus must be refused if it is damaged and read by then
            obj = xc
            undo = None
            refuse = False
            odd = False      # may be refused
            want = exp
            if w['op'] == 'nocorpus':
                obj = {'none': None, 'dict': {'igts': []}, 'igt': xc[0] if len(xc) else None, 'str': '<xigt-corpus/>', 'list': [],
                       'class': XigtCorpus}[w['bad']]
                refuse = True
            elif w['op'] == 'bad':
                o = attempt(list, xc)
                if not o.ok:
                    require(broken or any(f['op'] == 'read' and f['done'] for f in fs.faults), 'load', 'iterating failed without a fault: {}'.format(o))
                else:
                    undo = place_bad(xc, w, ctx)
                    refuse = undo is not None and not w['bad'].startswith('sur-')
                    odd = undo is not None and not refuse
            elif transient and spent:
                continue
            before = files(fs)
            was = shape(xc) if xc.mode == 'full' else None
            name = {'new': 'new{}.xml'.format(k), 'old': 'old.xml', 'link': 'link.xml', 'self': 'self.xml', 'dir': 'd', 'nodir': 'no/x.xml'}.get(to)
            if to == 'old' or to == 'link':
                if 'old.xml' not in before:
                    fs.put('old.xml', b'<old>' + b'x' * rng.choice([0, 10, 30000]) + b'</old>')
                if to == 'link' and not os.path.islink(fs.p('link.xml')):
                    os.symlink('old.xml', fs.p('link.xml'))
            elif to == 'dir' and not os.path.isdir(fs.p('d')):
                os.mkdir(fs.p('d'))
            before = files(fs)
            fault = None
            if odd:
                want = cg.canon(xc, xml=False)
            if w['op'] == 'fail':
                fault = w['fault']
                size = len(doc) * 2
                base = {'counts': {'write': 2 + size // fs.bufsize if fs.bufsize < size else 1, 'open-w': 1, 'close': 1, 'truncate': 1}, 'nops': 3, 'written': size}
                keep = [f for f in fs.faults if f['op'] == 'read']
                arm(fs, fault, base)
                fs.faults = keep + fs.faults
            if to == 'str':
                if isxml and enc:
                    kw['encoding'] = enc
                o = attempt(codec.dumps, obj, **kw)
            elif to == 'handle':
                if handle is None:
                    handle = Handle(plan['handle'], fs, ctx, rng)
                    handle.mark()
                h = handle
                if isxml:
                    if h.kind in ('stringio', 'duck-text'):
                        enc = 'unicode'
                    elif not h.text and enc == 'unicode':
                        enc = 'utf-8'
                    elif h.text and enc == 'unicode' and h.kind not in ('text', 'pipe-text', 'wrapped', 'text-line'):
                        enc = 'utf-8'
                    kw['encoding'] = enc
                o = attempt(codec.dump, h.fh, obj, **kw)
                ctx.nontrivial()
            else:
                if isxml:
                    kw['encoding'] = enc
                o = attempt(codec.dump, fs.p(name), obj, **kw)
            fired = list(fs.fired)
            if w['op'] == 'fail':
                fs.faults = [f for f in fs.faults if f['op'] == 'read']
                fs.quota = None
            ctx.log('write', w['op'], w.get('bad'), to, enc, o.name, fired)
            ctx.mark(w['op'], w.get('bad'), to, o.name)
            what = '{} write{} to {}{}'.format(w['op'], ' ({})'.format(w['bad']) if w.get('bad') else '', to,
                                               ' ' + plan['handle'] if to == 'handle' else '')
            source_failed = broken or any(f['op'] == 'read' and f['done'] for f in fs.faults)
            if refuse:
                ctx.nontrivial()
                ctx.probe('refused')
                require(not o.ok, 'accepted', '{} was accepted'.format(what))
            elif source_failed and (obj is xc):
                require(not o.ok, 'accepted', '{} of a corpus whose source is damaged or fails was accepted'.format(what))
            elif to in ('dir', 'nodir'):
                require(not o.ok, 'accepted', '{} was accepted'.format(what))
            elif odd and not o.ok:
                refuse = True
                ctx.probe('refused')
            elif not fired or to in ('str', 'handle'):
                require(o.ok, 'failed', '{} failed without a fault: {}'.format(what, o))
            # destination
            now = files(fs)
            opened = not (refuse or source_failed or to in ('dir', 'nodir'))
            if to != 'handle':
                if not opened or to == 'str' or (fault and fault['op'] == 'open-w' and fault.get('do') in fired):
                    diffs = [x for x in sorted(set(now) | set(before)) if now.get(x, 0) != before.get(x, 0) and x != 'handle.out']
                    require(not diffs, 'destroyed', 'after a {}{} the files {} were created or changed'.format(
                        'refused ' if not o.ok else '', what, diffs))
                else:
                    target = {'link': 'old.xml'}.get(to, name)
                    diffs = [x for x in sorted(set(now) | set(before)) if now.get(x, 0) != before.get(x, 0) and x not in (target, 'handle.out')]
                    require(not diffs, 'destroyed', 'after a {} the files {} were created or changed'.format(what, diffs))
                    if to == 'link':
                        require(now.get('link.xml') == 'link:old.xml', 'destroyed', 'the link was replaced')
                    if o.ok:
                        got = parse(plan, now[target], what)
                        same(want, cg.canon(got, xml=isxml), 'lost', what)
                    if to == 'self':
                        selfgone = True
            else:
                require(not getattr(handle.fh, 'closed', False), 'closed', '{} closed the handle'.format(what))
                if o.ok:
                    handle.expect.append(('d', enc, want))
                handle.mark()
                check_handle(plan, handle, fs, exp, what)
            if to == 'str' and o.ok:
                x = o.value
                if isinstance(x, str):
                    x = x.encode('utf-8')
                same(want, cg.canon(parse(plan, x, what), xml=isxml), 'lost', what)
            if undo:
                undo()
            if transient and (w['op'] != 'nocorpus'):
                spent = True
            # the corpus
            if was is not None and not transient:
                require(shape(xc) == was, 'corpus-changed', '{} changed the corpus'.format(what))
                if src in ('built', 'full') or not source_failed:
                    same(exp, cg.canon(xc, xml=isxml), 'corpus-changed', 'corpus after ' + what)
        fs.faults = [f for f in fs.faults if f['op'] == 'read']
        if handle is not None:
            check_handle(plan, handle, fs, exp, 'at the end')
        if transient:
            return
        # a later write to an intact destination
        source_failed = broken or any(f['op'] == 'read' and f['done'] for f in fs.faults)
        o = attempt(codec.dump, fs.p('final.out'), xc)
        source_failed = source_failed or any(f['op'] == 'read' and f['done'] for f in fs.faults)
        if source_failed:
            require(not o.ok, 'accepted', 'a corpus whose source is damaged or fails was finally written')
            require(fs.get('final.out') is None, 'destroyed', 'a refused write created the file')
        else:
            require(o.ok, 'failed', 'the final write failed: {}'.format(o))
            same(exp, cg.canon(parse(plan, fs.get('final.out'), 'final write'), xml=isxml), 'lost', 'final write')


def check_handle(plan, h, fs, exp, what):
    data = h.contents(fs)
    rest = data
    for k, e in enumerate(h.expect):
        if e[0] == 'm':
            require(rest.startswith(e[1]), 'handle-order', '{}: at byte {} of the handle ({}) comes {!r} instead of {!r}'.format(
                what, len(data) - len(rest), h.kind, rest[:60], e[1]))
            rest = rest[len(e[1]):]
        else:
            nxt = next((x[1] for x in h.expect[k + 1:] if x[0] == 'm'), None)
            i = rest.find(nxt) if nxt is not None else len(rest)
            require(i >= 0, 'handle-order', '{}: what the caller wrote after the document is missing ({})'.format(what, h.kind))
            doc, rest = rest[:i], rest[i:]
            if e[1] == 'unicode':
                doc = doc
            same(e[2], cg.canon(parse(plan, doc, what + ' (handle)'), xml=plan['fmt'] == 'xml'), 'lost', what + ' (handle)')
    require(not rest, 'handle-order', '{}: the handle ({}) got {!r} too much'.format(what, h.kind, rest[:60]))
