"""Pieces shared by the property modules."""

import io
import json
import random
from xml.parsers import expat

from .. import corpusgen as cg
from .. import core, simfs, streams
from ..core import Violation, attempt, must, require

NARROW = ('us-ascii', 'iso-8859-1', 'windows-1252')
MODES = ['full', 'incremental', 'transient']
READERR = {'OSError': lambda: OSError(5, 'Input/output error'), 'ValueError': lambda: ValueError('decoder broke'),
           'Timeout': lambda: TimeoutError('timed out'), 'EOFError': lambda: EOFError('ended'),
           'KeyboardInterrupt': lambda: KeyboardInterrupt(), 'MemoryError': lambda: MemoryError('injected'),
           'ConnectionReset': lambda: ConnectionResetError(104, 'reset')}


def fs_cfg(rng, encodings=None):
    """Environment of one simulated process."""
    return {'short_r': rng.choice([0, 0, .05, .5]), 'short_w': rng.choice([0, 0, .05, .5]),
            'bufsize': rng.choice([16, 100, 512, 4096, 8192, 8192]),
            'encoding': rng.choice(encodings or ['utf-8', 'utf-8', 'us-ascii', 'iso-8859-1', 'cp1252']),
            'line_buffering': rng.random() < .2}


def gen_source(rng, kinds=None, encs=None):
    return {'kind': rng.choice(kinds or streams.SOURCES), 'enc': rng.choice(encs or cg.ENCODINGS),
            'short': rng.choice([0, 0, .02, .3, .9]), 'bufsize': rng.choice([1, 16, 100, 8192]),
            'fmt': rng.randrange(1 << 30), 'seed': rng.randrange(1 << 30),
            'plain': rng.random() < .15}


def spec_for(rng, encs, **over):
    """A corpus that every encoding in encs can name."""
    kn = cg.Knobs(rng, **over)
    if any(e in NARROW for e in encs):
        kn.names_ascii = True
    return cg.gen_corpus(rng, kn)


def document(spec, src):
    """-> (text, bytes, python codec) by the independent writer."""
    rng = None if src.get('plain') else random.Random(src.get('fmt', 0))
    enc = src.get('enc', 'utf-8')
    if src['kind'] in ('text', 'pipe-text') and enc in NARROW:
        # a decoded document must not lie about characters; plain utf-8 then
        enc = 'utf-8'
    if src['kind'] in ('text', 'pipe-text') and enc in ('utf-8-bom', 'utf-16'):
        enc = 'utf-8'
    data = cg.xml_bytes(spec, rng, enc)
    rng = None if src.get('plain') else random.Random(src.get('fmt', 0))
    text = cg.xml_text(spec, rng)
    return text, data, {'utf-8-bom': 'utf-8-sig'}.get(enc, enc)


def open_doc(spec, src, ctx, fs, name='in.xml', fail_at=None, exc=None, data=None, text=None):
    """-> (argument, 'load'|'loads', counter)"""
    if data is None:
        t, data, codec = document(spec, src)
        if text is None:
            text = t
    else:
        codec = 'utf-8'
    return streams.open_source(src['kind'], data, text, codec, random.Random(src.get('seed', 0)), src.get('short', 0),
                               ctx, fs, name, fail_at=fail_at, exc=exc, bufsize=src.get('bufsize'),
                               maxpiece=src.get('maxpiece'))


def load_doc(codec, spec, src, ctx, fs, mode, name='in.xml', **kw):
    arg, how, cnt = open_doc(spec, src, ctx, fs, name, **kw)
    if how == 'loads':
        return codec.load(io.BytesIO(arg) if isinstance(arg, bytes) else io.StringIO(arg), mode=mode), cnt
    return codec.load(arg, mode=mode), cnt


def well_formed(data):
    """Independent check: one complete XML document; -> error text or None"""
    p = expat.ParserCreate()
    try:
        if isinstance(data, str):
            p.Parse(data, True)
        else:
            p.Parse(bytes(data), True)
    except (expat.ExpatError, UnicodeError, LookupError, ValueError) as e:
        return str(e)
    return None


def read_xml(data, cls, what, mode='full'):
    """Read a document the code claims to be complete."""
    from xigt.codecs import xigtxml
    err = well_formed(data)
    require(err is None, cls, '{}: not a well-formed document: {}'.format(what, err))
    return must(cls, xigtxml.load, io.StringIO(data) if isinstance(data, str) else io.BytesIO(bytes(data)), mode)


def same(exp, got, cls, what, ns_superset=True):
    d = cg.diff(exp, got, '', ns_superset)
    require(d is None, cls, '{}: {}'.format(what, d))


class Env(object):
    """A simulated file system for the duration of a block."""

    def __init__(self, ctx, plan, key='cfg'):
        self.ctx = ctx
        cfg = dict(plan.get(key) or {})
        self.fs = simfs.FS(ctx, random.Random(plan.get('fseed', 0)), cfg)

    def __enter__(self):
        return self.fs

    def __exit__(self, *exc):
        self.fs.destroy()


def pos(n, frac):
    """A fraction (0..1000000) of n, as an index below n (0 if n is 0)."""
    if n <= 0:
        return 0
    return min(n - 1, int(n * frac // 1000000))


def frac(rng):
    """Fault position: uniform, or biased to the ends."""
    x = rng.random()
    if x < .12:
        return 0
    if x < .24:
        return 999999
    return rng.randrange(1000000)


def pick(seq, i):
    return seq[i % len(seq)] if seq else None


def jkey(x):
    return json.dumps(x, sort_keys=True, default=str)


def undeclared(spec, scope=None):
    """Does the spec use a namespace that is not declared where it is used
    (so that a writer has to invent a declaration)?"""
    scope = cg.scope_of(scope or {}, spec)
    uris = set(scope.values())
    for k in spec.get('attrs', {}):
        if k.startswith('{') and k[1:].split('}')[0] not in uris:
            return True
    if spec.get('uri') and spec['uri'] not in uris:
        return True
    for key in ('mds', 'metas', 'children', 'igts', 'tiers', 'items'):
        for x in spec.get(key, ()):
            if undeclared(x, scope):
                return True
    return False
