"""C04: damaged or failing input never passes for a complete corpus."""

import copy
import io
import json
import random
from xml.parsers import expat

from .. import corpusgen as cg
from ..core import Out, attempt, must, require
from .c02 import json_doc
from .common import Env, fs_cfg, gen_source, document, open_doc, same, pos, frac, READERR, MODES

ID = 'C04'
RUNS = {'quick': 13000, 'thorough': 400000}
RULE = ('One run: a document of a random corpus is truncated, corrupted, replaced, or its source fails at a chosen byte with a chosen '
        'error; it is loaded in a random mode and a random script of passes, retries, copies, selections and writes follows; '
        'then the intact document is read. Non-trivial: the damage was effective (an independent parser rejects the document, or '
        'the fault fired); distinct by (damage, position, source, mode, operations and outcomes).')
REAL = ['xigt.codecs.xigtxml', 'xigt.codecs.xigtjson', 'xigt.model', 'xml.etree/expat', 'json', 'io buffering layers']
STUB = ['files, pipes and handles below the io layers (simfs, streams)']
ASSUMPTIONS = ['a document that an independent parser (expat, json) still accepts after the damage is not damaged',
               'an identifier that is not valid makes a document "no Xigt document"']
KEEP_KEYS = ('kind', 'enc', 'mode', 'cfg', 'fseed', 'src', 'fmt', 'seed', 'name', 'do', 'op', 'at', 'exc', 'spec', 'damage')

OPS = ['iter', 'iter', 'iter', 'list', 'igts', 'select', 'dumps', 'dump', 'json', 'copy', 'extend', 'next', 'next', 'next', 'findall',
       'count', 'held', 'held']
BYTE_ONLY = ['nul', 'bad-utf8']
DAMAGE = ['truncate', 'truncate', 'truncate', 'lt', 'amp', 'endtag', 'dup-attr', 'junk-after', 'second-root', 'not-xigt', 'empty',
          'readerr', 'readerr', 'readerr', 'nul', 'bad-utf8', 'missing', 'bad-id', 'prefix', 'enc', 'nuls', 'zeros']
JDAMAGE = ['truncate', 'truncate', 'truncate', 'readerr', 'junk-after', 'not-xigt', 'bad-id', 'lt', 'empty', 'bad-utf8', 'nuls', 'zeros']


def gen(rng, tier):
    fmt = 'json' if rng.random() < .2 else 'xml'
    kn = cg.Knobs(rng, max_igts=rng.choice([1, 2, 4, 6]))
    if fmt == 'xml' and rng.random() < .12:
        kn.big = True      # damage far beyond what has been handed over
        kn.max_igts = 12
    spec = cg.gen_corpus(rng, kn, n=rng.choice([None, None, kn.max_igts]))
    src = gen_source(rng, encs=['utf-8'])
    d = {'do': rng.choice(JDAMAGE if fmt == 'json' else DAMAGE), 'at': frac(rng), 'exc': rng.choice(sorted(READERR)),
         'sticky': rng.random() < .6, 'which': rng.randrange(50)}
    if d['do'] == 'readerr' and src['kind'] not in ('path', 'binary', 'unbuffered', 'text'):
        src['kind'] = rng.choice(['pipe', 'pipe-raw', 'pipe-text', 'duck', 'duck-text'])
    if d['do'] == 'missing':
        src['kind'] = 'path'
    if d['do'] in BYTE_ONLY or d['do'] == 'enc':
        src['kind'] = rng.choice(['path', 'binary', 'unbuffered', 'pipe', 'pipe-raw', 'duck', 'bytesio', 'bytes'])
    script = [rng.choice(OPS) for _ in range(rng.choice([1, 2, 3, 5]))]
    return {'spec': spec, 'fmt': fmt, 'src': src, 'damage': d, 'mode': rng.choice(MODES + ['incremental', 'transient']),
            'script': script, 'cfg': fs_cfg(rng), 'fseed': rng.randrange(1 << 30)}


def spoil_spec(spec, which):
    """Give one object an id that is no id."""
    s = copy.deepcopy(spec)
    objs = []
    for gi, g in enumerate(s.get('igts', [])):
        objs.append((gi, g))
        for t in g.get('tiers', []):
            objs.append((gi, t))
            for i in t.get('items', []):
                objs.append((gi, i))
    if not objs:
        return s, None
    gi, o = objs[which % len(objs)]
    o['id'] = ['9x', '', ' ', '-a'][which % 4]
    return s, gi


def damage_text(t, d):
    """Damage a document (str or bytes)."""
    is_b = isinstance(t, bytes)
    c = (lambda s: s.encode('ascii')) if is_b else (lambda s: s)
    k = pos(len(t), d['at'])
    do = d['do']
    if do == 'truncate':
        return t[:k]
    if do == 'lt':
        return t[:k] + c('<') + t[k:]
    if do == 'amp':
        return t[:k] + c('&') + t[k:]
    if do == 'nul':
        return t[:k] + b'\0' + t[k:]
    if do == 'bad-utf8':
        return t[:k] + b'\xff\xfe' + t[k:]
    if do == 'endtag':
        cuts = [i for i in range(len(t)) if t[i:i + 2] == c('</')]
        if not cuts:
            return t[:k]
        i = cuts[pos(len(cuts), d['at'])]
        j = t.find(c('>'), i)
        return t[:i] + (c('</zz>') if d['which'] & 1 else c('')) + t[j + 1:]
    if do == 'prefix':
        cuts = [i for i in range(len(t)) if t[i:i + 5] == c('<item') or t[i:i + 5] == c('<tier') or t[i:i + 4] == c('<igt')]
        if not cuts:
            return t[:k]
        i = cuts[pos(len(cuts), d['at'])]
        return t[:i + 1] + c('nope:') + t[i + 1:]
    if do == 'dup-attr':
        cuts = [i for i in range(len(t)) if t[i:i + 4] == c(' id=')]
        if not cuts:
            return t[:k]
        i = cuts[pos(len(cuts), d['at'])]
        return t[:i] + c(' id="q"') + t[i:]
    if do == 'junk-after':
        return t + c(['x', '<', '</xigt-corpus>', '&amp;', '}', ']'][d['which'] % 6])
    if do == 'second-root':
        return t + c('<xigt-corpus/>')
    if do == 'not-xigt':
        return c(['<html><igt id="i1"/></html>', '<a xmlns="urn:x"/>', '<igt id="i"/>', '<x:xigt-corpus xmlns:x="urn:y"/>'][d['which'] % 4])
    if do == 'empty':
        return c(['', ' ', '\n'][d['which'] % 3])
    if do == 'nuls':
        # the file was extended, but the data never arrived
        return t + c('\0') * (1 + d['which'] * [1, 97][d['which'] % 2])
    if do == 'zeros':
        k = pos(len(t.rstrip()) - 1, d['at'])
        return t[:k] + c('\0') * (len(t) - k)
    if do == 'enc':
        return b'<?xml version="1.0" encoding="x-none-%d"?>' % d['which'] + t
    return t


def parses(data):
    p = expat.ParserCreate(namespace_separator='}')
    try:
        p.Parse(data, True)
    except (expat.ExpatError, UnicodeError, LookupError, ValueError):
        return False
    return True


def run(plan, ctx):
    from xigt.codecs import xigtxml, xigtjson
    spec, src, d, mode = plan['spec'], dict(plan['src']), plan['damage'], plan['mode']
    xml = plan['fmt'] == 'xml'
    codec = xigtxml if xml else xigtjson
    src['enc'] = 'utf-8'
    doc_spec, bad_igt = (spec, None) if d['do'] != 'bad-id' else spoil_spec(spec, d['which'])
    if xml:
        if d['do'] in ('prefix', 'dup-attr', 'endtag', 'enc'):
            src['plain'] = True    # the positions are found by looking for tags
        text, data, _ = document(doc_spec, src)
    else:
        text, data = json_doc(doc_spec, src)
    do = d['do']
    text0, data0 = text, data if xml else text.encode('utf-8')
    dtext = text
    if do not in BYTE_ONLY and do != 'enc':
        dtext = damage_text(text, d)
        if not xml and do == 'not-xigt':
            dtext = ['[]', '"x"', '3', 'null', '[{"igts": []}]'][d['which'] % 5]
        data = damage_text(data, d) if (do in ('truncate', 'lt', 'amp', 'junk-after', 'second-root') and xml) else dtext.encode('utf-8')
    else:
        data = damage_text(data, d)
    as_text = src['kind'] in ('duck-text', 'str', 'stringio')
    intact = text0 if as_text else data0
    effective = judge(xml, do, dtext if as_text else data, bad_igt)
    if not effective and do not in ('readerr', 'missing') and (dtext if as_text else data).strip() != intact.strip():
        ctx.log('harmless')     # still a document, but another one
        return
    # reading errors
    fail_at = exc = None
    with Env(ctx, plan) as fs, fs:
        o = None
        if do == 'missing':
            arg, how = [fs.p('nothing.xml'), fs.root, fs.p('no/such.xml')][d['which'] % 3], 'load'
            effective = True
        elif do == 'readerr' and src['kind'] in ('path', 'binary', 'unbuffered', 'text'):
            # count the reads of an undisturbed pass, then fail one of them
            arg, how, _ = open_doc(None, src, ctx, fs, 'in', data=data, text=dtext)
            fs.arm()
            must('harness', lambda: list(codec.load(arg, mode='full')))
            n = fs.counts.get('read', 0)
            fs.rng.seed(plan['fseed'])
            arg, how, _ = open_doc(None, src, ctx, fs, 'in', data=data, text=dtext)
            fs.arm([{'op': 'read', 'n': pos(n, d['at']), 'do': 'EIO', 'sticky': d['sticky']}])
        else:
            if do == 'readerr':
                body = dtext if src['kind'] == 'duck-text' else data
                fail_at, exc = pos(len(body) + 1, d['at']), READERR[d['exc']]
            arg, how, _ = open_doc(None, src, ctx, fs, 'in', data=data, text=dtext, fail_at=fail_at, exc=exc)
        if how == 'loads':
            if mode == 'full':
                o = attempt(codec.loads, arg)
            else:
                arg = io.BytesIO(arg) if isinstance(arg, bytes) else io.StringIO(arg)
        if o is None:
            o = attempt(codec.load, arg, mode=mode)
        ctx.mark(plan['fmt'], do, src['kind'], mode, d['exc'] if do == 'readerr' else '', d['at'] // 50000)
        hist = History(ctx, plan, spec, doc_spec, xml, mode, bad_igt)

        def broken():
            return effective or bool(fs.fired) or bool(ctx.faults.get('read-error'))
        if mode == 'full':
            if broken():
                hist.failed(o, 'load')
                ctx.nontrivial()
            else:
                require(o.ok, 'intact-refused', 'undamaged input was refused: {}'.format(o))
                same(cg.canon_spec(spec, xml=xml), cg.canon(o.value, xml=xml), 'changed', 'undamaged input', True)
        elif not o.ok:
            require(broken(), 'intact-refused', 'undamaged input was refused: {}'.format(o))
            hist.failed(o, 'load')
            ctx.nontrivial()
        else:
            hist.play(o.value, codec, fs, broken, plan['script'])
        del o
        fs.arm()
        # the failure must not affect anything that comes later
        if do != 'missing':
            t, dt = (cg.xml_text(spec), None) if xml else (json.dumps(cg.json_obj(spec)), None)
            back = must('later-load', codec.load, io.StringIO(t), mode='incremental')
            ctx.log('later', len(must('later-load', list, back)))
            same(cg.canon_spec(spec, xml=xml), cg.canon(back, xml=xml), 'later-load', 'intact document read afterwards', True)


def judge(xml, do, doc, bad_igt):
    """Is the document damaged?  Decided without the code under test."""
    if bad_igt is not None:
        return True
    if do in ('not-xigt', 'empty'):
        return True
    if xml:
        return not parses(doc)
    try:
        json.loads(doc)
    except (ValueError, UnicodeError):
        return True
    return False


class History(object):
    def __init__(self, ctx, plan, spec, doc_spec, xml, mode, bad_igt):
        self.ctx = ctx
        self.spec = spec
        self.xml = xml
        self.mode = mode
        self.exp = [cg.canon_spec(g, 'igt', cg.scope_of({}, spec), xml=xml) for g in spec.get('igts', [])]
        if bad_igt is not None:
            self.exp = self.exp[:bad_igt]
        self.given = []          # transient: how many were delivered; incremental: the objects
        self.error = None

    def failed(self, o, what):
        require(not o.ok, 'passed-for-complete', '{} of damaged input ended normally'.format(what))
        require(not isinstance(o.exc, (StopIteration, GeneratorExit, StopAsyncIteration)), 'stop-signal',
                '{} of damaged input raised {}'.format(what, type(o.exc).__name__))
        self.ctx.log('error', what, type(o.exc).__name__)
        self.ctx.probe('error-reported')

    def check(self, igt, k):
        require(k < len(self.exp), 'extra', 'IGT {} was delivered, but only {} are intact'.format(k, len(self.exp)))
        same(self.exp[k], cg.canon(igt, xml=self.xml), 'changed', 'IGT {} delivered before the damage'.format(k), True)

    def one_pass(self, it, limit=None):
        """-> 'ended', 'more' or the failing Out"""
        k = 0
        while limit is None or k < limit:
            o = attempt(next, it)
            if not o.ok:
                if isinstance(o.exc, StopIteration):
                    return 'ended'
                return o
            self.take(o.value, k)
            k += 1
        return 'more'

    def take(self, g, k):
        if self.mode == 'transient':
            self.check(g, len(self.given))
            self.given.append(None)
        else:
            if k < len(self.given):
                require(g is self.given[k], 'repeated', 'IGT {} is not the object delivered before'.format(k))
            else:
                self.check(g, k)
                self.given.append(g)

    def play(self, xc, codec, fs, broken, script):
        from xigt import XigtCorpus, xigtpath
        failed = False
        held = iter(xc)
        held_pos = 0
        for op in list(script) + ['iter', 'list']:
            self.ctx.log('op', op)
            if op == 'next':
                r = self.one_pass(iter(xc), 1)
                if r == 'ended':
                    require(not broken(), 'passed-for-complete', 'a pass over damaged input ended normally')
                elif r != 'more':
                    require(broken(), 'intact-refused', 'undamaged input was refused: {}'.format(r))
                    self.failed(r, op)
                    failed = True
                continue
            if op == 'held':
                # one pass that is continued again and again, across other
                # operations and even after it failed
                o = attempt(next, held)
                if o.ok:
                    self.take(o.value, held_pos)
                    held_pos += 1
                elif isinstance(o.exc, StopIteration):
                    # a generator is over once it raised
                    require(not broken() or failed, 'passed-for-complete', 'a pass over damaged input ended normally')
                else:
                    require(broken(), 'intact-refused', 'undamaged input was refused: {}'.format(o))
                    self.failed(o, op)
                    failed = True
                    held = iter(xc)
                    held_pos = 0
                continue
            if op == 'iter':
                r = self.one_pass(iter(xc))
                o = r if r != 'ended' else Out(True)
            elif op == 'list':
                o = attempt(list, xc)
            elif op == 'igts':
                o = attempt(lambda: xc.igts)
            elif op == 'select':
                o = attempt(lambda: list(xc.select(type='nothing')))
            elif op == 'findall':
                o = attempt(xigtpath.findall, xc, 'igt/@id')
            elif op == 'count':
                o = attempt(lambda: sum(1 for g in xc))
            elif op == 'dumps':
                from xigt.codecs import xigtxml
                o = attempt(xigtxml.dumps, xc)
            elif op == 'dump':
                from xigt.codecs import xigtxml
                o = attempt(xigtxml.dump, fs.p('out.xml'), xc)
            elif op == 'json':
                from xigt.codecs import xigtjson
                o = attempt(xigtjson.dumps, xc)
            elif op == 'copy':
                o = attempt(lambda: XigtCorpus(igts=xc, nsmap=dict(xc.nsmap)))
            elif op == 'extend':
                o = attempt(lambda: XigtCorpus(nsmap=dict(xc.nsmap)).extend(xc))
            if broken():
                self.failed(o, op)
                self.ctx.nontrivial()
                failed = True
                if self.mode == 'transient':
                    # how many were taken by an operation that failed is its business
                    self.given = [None] * len(self.exp)
                else:
                    n = len(xc)
                    require(n <= len(self.exp), 'extra', '{} IGTs are kept, but only {} are intact'.format(n, len(self.exp)))
                    for k in range(n):
                        self.take(xc[k], k)
            else:
                require(o.ok, 'intact-refused', '{} of undamaged input failed: {}'.format(op, o))
                if self.mode == 'transient':
                    self.given = [None] * len(self.exp)
        self.ctx.mark(len(self.given), failed)
