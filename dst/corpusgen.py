"""Corpora: random JSON specs, the model objects built from them, an
independent XigtXML/XigtJSON document writer with random formatting, and a
canonical form computed (a) from a spec and (b) from model objects through
the public API only.  (a) never runs code under test."""

import json

# ------------------------------------------------------------------ pools

WORDS = ['a', 'dog', 'inu=ga', 'hoe-ru', 'ngam', 'x', '1SG.NOM', 'CAUS', 'the', 'barks', 'I', 'go-PST',
         'kitab', 'lar', 'mi', 'kana', 'sha.ma', 'PL', 'run']
SPECIAL = ['<b>&amp;</b>', 'a & b', '"quoted"', "it's", ']]>', '{brace} {0}', '50% #1 $x_y ~^', '\\textbf', 'tab\there',
           'line\nbreak', '  lead', 'trail  ', ' ', '\t', 'a  b', '<!-- c -->', '<?pi?>', '&#65;', '{uri}x', '%s', ':', 'x:y',
           'http://x/', '[0:1]', '-1', '0', '007', '1,2+3', 'None']
UNI = ['\u00e9t\u00e9', '\u72ac\u304c', 'a\u0301', '\U0001F600', '\u00fc\u00df', '\u0416\u0443\u043a', '\u202eabc', '\u0085x', 'x\u2028y',
       '\u00a0', '\u0e01\u0e33', '\uFFFD', '\ufeffbom', '\U00020000\u4e00', '\u0130i']
LATIN = ['\u00e9t\u00e9', '\u00fc\u00df', '\u00f1', '\u00d8re']
ATTRS = ['doc-id', 'tag', 'state', 'line', 'x.y', 'judgment', 'source', 'n_1', 'speaker']
UNIATTRS = ['\u00e9tat', '\u8a9e']
NSPOOL = [('olac', 'http://www.language-archives.org/OLAC/1.1/'), ('dc', 'http://purl.org/dc/elements/1.1/'),
          ('xsi', 'http://www.w3.org/2001/XMLSchema-instance'), ('ex', 'http://example.org/a#b?c=1&d=2'),
          ('a.b', 'urn:x:y'), ('p', 'http://other/'), ('dc2', 'http://purl.org/dc/elements/1.1/'),
          ('olac', 'http://elsewhere/olac/'), ('ns0', 'http://example.org/zero'), ('ns1', 'http://other/')]
BUILTIN_NS = {'http://www.w3.org/XML/1998/namespace': 'xml'}
XMLNS = 'http://www.w3.org/XML/1998/namespace'
IGT_IDS = ['i', 'igt', 'a', 's.', 'x-', 'Igt_']
TIER_SETS = [
    ('p', 'phrases', None, None), ('w', 'words', 'segmentation', 'p'), ('m', 'morphemes', 'segmentation', 'w'),
    ('g', 'glosses', 'alignment', 'm'), ('pos', 'pos', 'alignment', 'm'), ('t', 'translations', 'alignment', 'p'),
    ('r', 'odin', None, None), ('n', None, 'content', 'w'), ('ps', 'phrase-structure', 'alignment', 'w'),
]
MC_NAMES = ['subject', 'language', 'title', 'creator', 'note', 'x', 'item', 'meta', 'tier', 'igt', 'metadata', 'xigt-corpus', 'a.b', 'n_1']


class Knobs(object):
    """Swarm toggles; everything random comes from the rng passed in."""

    def __init__(self, rng, **over):
        r = rng.random
        self.uni = r() < .5
        self.special = r() < .5
        self.latin_only = False
        self.ns = r() < .45
        self.low_ns = r() < .35          # declarations below the root
        self.rebind = r() < .3           # ... of prefixes that are bound already
        self.undeclared = r() < .15      # attribute/child namespaces without declaration
        self.meta = r() < .5
        self.children = r() < .6
        self.odd_children = r() < .3     # children called igt, item, ...
        self.types = r() < .8
        self.noids = r() < .2
        self.blank_items = r() < .4      # items without text
        self.empty_text = False          # '' text (JSON only)
        self.xml_attr = r() < .15
        self.el_ns = False               # element namespaces on igt/tier/item (JSON only)
        self.max_igts = rng.choice([1, 2, 3, 4, 6])
        self.max_tiers = rng.choice([0, 1, 3, 5])
        self.max_items = rng.choice([0, 1, 2, 4])
        self.big = False
        self.names_ascii = False
        for k, v in over.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


def text(rng, kn, blank_ok=True):
    x = rng.random()
    if kn.special and x < .25:
        s = rng.choice(SPECIAL)
    elif kn.uni and x < .5:
        s = rng.choice(LATIN if kn.latin_only else UNI)
    else:
        s = ' '.join(rng.choice(WORDS) for _ in range(rng.choice([1, 1, 1, 2, 4])))
    if not blank_ok and not s.strip():
        s = 'z' + s
    return s


def _strip_odd(s):
    # meta text is compared exactly, but must not be blank
    return s


def gen_attrs(rng, kn, scope, n=None):
    out = {}
    if n is None:
        n = rng.choice([0, 0, 1, 1, 2, 3])
    for _ in range(n):
        x = rng.random()
        if kn.xml_attr and x < .2:
            k = '{%s}%s' % (XMLNS, rng.choice(['lang', 'space']))
        elif kn.ns and x < .5 and scope:
            pre = rng.choice(sorted(scope))
            k = '{%s}%s' % (scope[pre], rng.choice(['code', 'view', 'x']))
        elif kn.undeclared and x < .7:
            k = '{%s}%s' % (rng.choice([u for _, u in NSPOOL] + ['http://nowhere/z', 'http://www.w3.org/2001/XMLSchema']),
                            rng.choice(['code', 'q']))
        else:
            k = rng.choice(ATTRS + (UNIATTRS if kn.uni and not kn.names_ascii and not kn.latin_only else []))
        out[k] = text(rng, kn)
    return out


def gen_ns(rng, kn, scope, root=False):
    """New declarations at this level -> (own, new scope)."""
    own = {}
    if kn.ns and (kn.low_ns and rng.random() < (.75 if root else .6 if kn.rebind else .3) or root and not kn.low_ns):
        for _ in range(rng.choice([1, 1, 2, 3])):
            pre, uri = rng.choice(NSPOOL)
            if kn.rebind and scope and rng.random() < .7:
                pre = rng.choice(sorted(scope))
                uri = rng.choice([u for p, u in NSPOOL if p == pre] + [uri])
            own[pre] = uri
    new = dict(scope)
    new.update(own)
    return own, new


def gen_child(rng, kn, scope, depth):
    own, scope = gen_ns(rng, kn, scope)
    c = {'name': rng.choice(MC_NAMES if kn.odd_children else MC_NAMES[:6])}
    if own:
        c['ns'] = own
    x = rng.random()
    if kn.ns and scope and x < .6:
        c['uri'] = scope[rng.choice(sorted(scope))]
    elif kn.undeclared and x < .8:
        c['uri'] = rng.choice(['http://nowhere/z', 'http://purl.org/dc/elements/1.1/', 'http://www.w3.org/2001/XMLSchema'])
    at = gen_attrs(rng, kn, scope)
    if rng.random() < .25:
        at['id'] = rng.choice(['c1', 'x y', '9'])
    if rng.random() < .25:
        at['type'] = rng.choice(['olac:language', 't'])
    if at:
        c['attrs'] = at
    if rng.random() < .6:
        c['text'] = text(rng, kn, False)
    if kn.empty_text and rng.random() < .2:
        c['text'] = ''
    if depth > 0 and rng.random() < .4:
        c['children'] = [gen_child(rng, kn, scope, depth - 1) for _ in range(rng.choice([1, 1, 2]))]
    return c


def gen_mds(rng, kn, scope, p=.5):
    if not kn.meta or rng.random() > p:
        return []
    out = []
    for i in range(rng.choice([1, 1, 2])):
        own, sc = gen_ns(rng, kn, scope)
        md = {}
        if own:
            md['ns'] = own
        if rng.random() < .6:
            md['id'] = 'md{}'.format(i)
        if rng.random() < .5:
            md['type'] = rng.choice(['xigt-meta', 'lrec', 'olac'])
        at = gen_attrs(rng, kn, sc, rng.choice([0, 0, 1]))
        if at:
            md['attrs'] = at
        metas = []
        for j in range(rng.choice([0, 1, 1, 2, 3])):
            own2, sc2 = gen_ns(rng, kn, sc)
            m = {}
            if own2:
                m['ns'] = own2
            if rng.random() < .6:
                m['id'] = 'meta{}'.format(j)
            if rng.random() < .6:
                m['type'] = rng.choice(['language', 'author', 'x'])
            at = gen_attrs(rng, kn, sc2, rng.choice([0, 0, 1, 2]))
            if at:
                m['attrs'] = at
            if rng.random() < .6:
                m['text'] = text(rng, kn, False)
            if kn.empty_text and rng.random() < .2:
                m['text'] = ''
            if kn.children and rng.random() < .5:
                m['children'] = [gen_child(rng, kn, sc2, 2) for _ in range(rng.choice([1, 2]))]
            if kn.el_ns and rng.random() < .2:
                m['uri'] = 'http://el/meta'
            metas.append(m)
        md['metas'] = metas
        if kn.el_ns and rng.random() < .2:
            md['uri'] = 'http://el/md'
        out.append(md)
    return out


def id_suffixes(rng, n):
    """What follows the tier id in item ids: mostly 1, 2, 3, ..., sometimes with one id inside of another."""
    out = list(range(1, n + 1))
    if rng.random() < .3:
        more = rng.sample([10, 11, '1.1', '1-1', '1b', 12, 21, 'b1'], min(n, rng.choice([1, 2, 3])))
        out[n - len(more):] = more
        if n > 1 and 1 not in out:
            out[0] = 1
    return [str(x) for x in out]


def gen_item(rng, kn, scope, iid, refattr=None, refids=None):
    own, sc = gen_ns(rng, kn, scope)
    it = {}
    if own:
        it['ns'] = own
    if iid is not None:
        it['id'] = iid
    if kn.types and rng.random() < .2:
        it['type'] = rng.choice(['root', 'affix'])
    at = gen_attrs(rng, kn, sc, rng.choice([0, 0, 0, 1, 2]))
    if refattr and refids and rng.random() < .9:
        ids = [rng.choice(refids) for _ in range(rng.choice([1, 1, 1, 2]))]
        parts = []
        for x in ids:
            if rng.random() < .3:
                a = rng.choice([0, 1, 2])
                x = '{}[{}:{}]'.format(x, a, a + rng.choice([0, 1, 2]))
            parts.append(x)
        at[refattr] = rng.choice(['+', ',']).join(parts)
    if at:
        it['attrs'] = at
    if kn.empty_text and rng.random() < .2:
        it['text'] = ''
    elif not (kn.blank_items and rng.random() < .4):
        it['text'] = text(rng, kn)
    if kn.el_ns and rng.random() < .1:
        it['uri'] = 'http://el/'
    return it


def gen_igt(rng, kn, scope, iid):
    own, sc = gen_ns(rng, kn, scope)
    g = {}
    if own:
        g['ns'] = own
    if iid is not None:
        g['id'] = iid
    if kn.types and rng.random() < .2:
        g['type'] = 'igt-t'
    at = gen_attrs(rng, kn, sc)
    if at:
        g['attrs'] = at
    mds = gen_mds(rng, kn, sc, .4)
    if mds:
        g['mds'] = mds
    tiers = []
    chosen = [t for t in TIER_SETS if rng.random() < .6][:kn.max_tiers]
    ids_of = {}
    for (tid, typ, refattr, ref) in chosen:
        own2, sc2 = gen_ns(rng, kn, sc)
        t = {'id': tid}
        if own2:
            t['ns'] = own2
        if kn.types and typ:
            t['type'] = typ
        at = gen_attrs(rng, kn, sc2, rng.choice([0, 0, 1]))
        refids = ids_of.get(ref) or []
        if refattr and ref in ids_of:
            at[refattr] = ref
        if at:
            t['attrs'] = at
        mds = gen_mds(rng, kn, sc2, .2)
        if mds:
            t['mds'] = mds
        n = rng.randint(0, kn.max_items)
        items = []
        sfx = id_suffixes(rng, n)
        for j in range(n):
            no = kn.noids and rng.random() < .3
            items.append(gen_item(rng, kn, sc2, None if no else tid + sfx[j],
                                  refattr if ref in ids_of else None, refids))
        ids_of[tid] = [x['id'] for x in items if 'id' in x]
        t['items'] = items
        if kn.noids and rng.random() < .1:
            del t['id']
        if kn.el_ns and rng.random() < .1:
            t['uri'] = 'http://el/'
        tiers.append(t)
    g['tiers'] = tiers
    if kn.el_ns and rng.random() < .1:
        g['uri'] = 'http://el/'
    return g


def gen_corpus(rng, kn=None, n=None):
    kn = kn or Knobs(rng)
    own, sc = gen_ns(rng, kn, {}, root=True)
    c = {}
    if own:
        c['ns'] = own
    if rng.random() < .6:
        c['id'] = rng.choice(['corp', 'xc-1', 'X.y'])
    if rng.random() < .4:
        c['type'] = rng.choice(['odin', 'xigt'])
    at = gen_attrs(rng, kn, sc)
    if at:
        c['attrs'] = at
    mds = gen_mds(rng, kn, sc, .6)
    if mds:
        c['mds'] = mds
    if kn.el_ns and rng.random() < .2:
        c['uri'] = 'http://el/'
    if n is None:
        n = rng.randint(0, kn.max_igts)
    pre = rng.choice(IGT_IDS)
    c['igts'] = [gen_igt(rng, kn, sc, None if kn.noids and rng.random() < .3 else '{}{}'.format(pre, i + 1))
                 for i in range(n)]
    if kn.big:
        # padding so that the document is larger than any read buffer
        for g in c['igts']:
            g.setdefault('tiers', [])
            ids = set(t.get('id') for t in g['tiers'])
            if 'pad' not in ids:
                g['tiers'].append({'id': 'pad', 'items': [{'id': 'pad1', 'text': 'padding ' * (20000 if rng.random() < .04 else rng.choice([50, 300, 1200]))}]})
    return c


# ------------------------------------------------------- building objects

def scope_of(scope, spec):
    if not spec.get('ns'):
        return scope
    new = dict(scope)
    new.update(spec['ns'])
    return new


def _nsarg(scope, spec, root=False):
    """What a caller passes as nsmap: nothing where nothing is declared, else
    everything in scope (XML cannot undeclare)."""
    if not spec.get('ns'):
        return None
    return dict(scope)


def build_child(s, scope):
    from xigt import MetaChild
    scope = scope_of(scope, s)
    return MetaChild(s['name'], attributes=dict(s.get('attrs', {})), text=s.get('text'),
                     children=[build_child(c, scope) for c in s.get('children', [])],
                     namespace=s.get('uri'), nsmap=_nsarg(scope, s))


def build_meta(s, scope):
    from xigt import Meta
    scope = scope_of(scope, s)
    return Meta(id=s.get('id'), type=s.get('type'), attributes=dict(s.get('attrs', {})), text=s.get('text'),
                children=[build_child(c, scope) for c in s.get('children', [])],
                namespace=s.get('uri'), nsmap=_nsarg(scope, s))


def build_md(s, scope):
    from xigt import Metadata
    scope = scope_of(scope, s)
    return Metadata(id=s.get('id'), type=s.get('type'), attributes=dict(s.get('attrs', {})),
                    metas=[build_meta(m, scope) for m in s.get('metas', [])],
                    namespace=s.get('uri'), nsmap=_nsarg(scope, s))


def build_item(s, scope):
    from xigt import Item
    scope = scope_of(scope, s)
    return Item(id=s.get('id'), type=s.get('type'), attributes=dict(s.get('attrs', {})), text=s.get('text'),
                namespace=s.get('uri'), nsmap=_nsarg(scope, s))


def build_tier(s, scope):
    from xigt import Tier
    scope = scope_of(scope, s)
    return Tier(id=s.get('id'), type=s.get('type'), attributes=dict(s.get('attrs', {})),
                metadata=[build_md(m, scope) for m in s.get('mds', [])],
                items=[build_item(i, scope) for i in s.get('items', [])],
                namespace=s.get('uri'), nsmap=_nsarg(scope, s))


def build_igt(s, scope):
    from xigt import Igt
    scope = scope_of(scope, s)
    return Igt(id=s.get('id'), type=s.get('type'), attributes=dict(s.get('attrs', {})),
               metadata=[build_md(m, scope) for m in s.get('mds', [])],
               tiers=[build_tier(t, scope) for t in s.get('tiers', [])],
               namespace=s.get('uri'), nsmap=_nsarg(scope, s))


def build_corpus(s, mode='full', igts=None):
    from xigt import XigtCorpus
    scope = scope_of({}, s)
    if igts is None:
        igts = [build_igt(g, scope) for g in s.get('igts', [])]
    return XigtCorpus(id=s.get('id'), type=s.get('type'), attributes=dict(s.get('attrs', {})),
                      metadata=[build_md(m, scope) for m in s.get('mds', [])], igts=igts,
                      namespace=s.get('uri'), nsmap=_nsarg(scope, s), mode=mode)


# --------------------------------------------------------- canonical form

def _ctext(t, blank_none, empty_none):
    if t is None:
        return None
    if blank_none and not t.strip():
        return None
    if empty_none and t == '':
        return None
    return t


def _cns(m):
    return {k: v for k, v in m.items() if k}


def canon_spec(s, kind='corpus', scope=None, xml=True, ns=True):
    """Canonical form of a spec; xml=True applies what XML cannot carry."""
    scope = scope_of(scope or {}, s)
    out = {'kind': kind, 'attrs': dict(s.get('attrs', {}))}
    if kind == 'child':
        out['name'] = s['name']
        out['uri'] = s.get('uri')
        out['text'] = _ctext(s.get('text'), xml, xml)
        out['sub'] = [canon_spec(c, 'child', scope, xml, ns) for c in s.get('children', [])]
    else:
        out['id'] = s.get('id')
        out['type'] = s.get('type')
        if not xml:
            out['uri'] = s.get('uri')
        if kind == 'item':
            out['text'] = _ctext(s.get('text'), False, xml)
        elif kind == 'meta':
            out['text'] = _ctext(s.get('text'), xml, xml)
            out['sub'] = [canon_spec(c, 'child', scope, xml, ns) for c in s.get('children', [])]
        elif kind == 'md':
            out['sub'] = [canon_spec(c, 'meta', scope, xml, ns) for c in s.get('metas', [])]
        else:
            out['mds'] = [canon_spec(c, 'md', scope, xml, ns) for c in s.get('mds', [])]
            sub, k = {'corpus': ('igts', 'igt'), 'igt': ('tiers', 'tier'), 'tier': ('items', 'item')}[kind]
            out['sub'] = [canon_spec(c, k, scope, xml, ns) for c in s.get(sub, [])]
    if ns:
        out['ns'] = _cns(scope)
    return out


def kind_of(obj):
    n = type(obj).__name__
    return {'XigtCorpus': 'corpus', 'Igt': 'igt', 'Tier': 'tier', 'Item': 'item', 'Metadata': 'md',
            'Meta': 'meta', 'MetaChild': 'child'}.get(n) or 'foreign:' + n


def canon(obj, xml=True, ns=True, sub=None):
    """Canonical form of a model object, through the public API."""
    kind = kind_of(obj)
    out = {'kind': kind, 'attrs': {str(k): v for k, v in obj.attributes.items()}}
    if kind == 'child':
        for k in ('id', 'type'):
            if getattr(obj, k, None) is not None and k not in out['attrs']:
                out['attrs'][k] = getattr(obj, k)
        out['name'] = obj.name
        out['uri'] = obj.namespace
        out['text'] = _ctext(obj.text, xml, xml)
        out['sub'] = [canon(c, xml, ns) for c in obj.children]
    else:
        out['id'] = obj.id
        out['type'] = obj.type
        if not xml:
            out['uri'] = obj.namespace
        if kind == 'item':
            out['text'] = _ctext(obj.text, False, xml)
        elif kind == 'meta':
            out['text'] = _ctext(obj.text, xml, xml)
            out['sub'] = [canon(c, xml, ns) for c in obj.children]
        elif kind == 'md':
            out['sub'] = [canon(c, xml, ns) for c in obj.metas]
        elif kind.startswith('foreign'):
            pass
        else:
            out['mds'] = [canon(c, xml, ns) for c in obj.metadata]
            if sub is None:
                sub = {'corpus': 'igts', 'igt': 'tiers', 'tier': 'items'}[kind]
                sub = getattr(obj, sub)
            out['sub'] = [canon(c, xml, ns) for c in sub]
    if ns:
        out['ns'] = _cns(obj.nsmap)
    return out


def diff(exp, got, path='', ns_superset=False):
    """First difference between two canonical forms, or None."""
    if type(exp) is dict and type(got) is dict:
        for k in sorted(set(exp) | set(got)):
            if k not in exp:
                return '{}.{}: unexpected {!r}'.format(path, k, got[k])
            if k not in got:
                return '{}.{}: missing (expected {!r})'.format(path, k, exp[k])
            if k == 'ns' and ns_superset:
                for p, u in exp[k].items():
                    if got[k].get(p) != u:
                        return '{}.ns: prefix {!r} is {!r}, expected {!r}'.format(path, p, got[k].get(p), u)
                continue
            d = diff(exp[k], got[k], '{}.{}'.format(path, k), ns_superset)
            if d:
                return d
        return None
    if type(exp) is list and type(got) is list:
        for i, (a, b) in enumerate(zip(exp, got)):
            d = diff(a, b, '{}[{}]'.format(path, i), ns_superset)
            if d:
                return d
        if len(exp) != len(got):
            return '{}: {} members, expected {}'.format(path, len(got), len(exp))
        return None
    if exp != got or type(exp) is not type(got):
        return '{}: {!r}, expected {!r}'.format(path, got, exp)
    return None


def dropns(c):
    if isinstance(c, dict):
        return {k: dropns(v) for k, v in c.items() if k != 'ns'}
    if isinstance(c, list):
        return [dropns(x) for x in c]
    return c


def key(c):
    return json.dumps(c, sort_keys=True, ensure_ascii=True)


# ----------------------------------------------- independent XML writer

def _esc(s, rng, attr=False, cdata_ok=True, quote='"'):
    if not attr and cdata_ok and rng is not None and s and rng.random() < .15 and ']]>' not in s:
        return '<![CDATA[' + s + ']]>'
    out = []
    for ch in s:
        o = ord(ch)
        if ch == '&':
            out.append('&amp;')
        elif ch == '<':
            out.append('&lt;')
        elif ch == '>':
            out.append('&gt;')
        elif attr and ch in '\n\t\r':
            out.append('&#{};'.format(o))
        elif ch == '\r':
            out.append('&#13;')
        elif attr and ch == quote:
            out.append('&quot;' if ch == '"' else '&apos;')
        elif rng is not None and rng.random() < .01:
            out.append('&#x{:X};'.format(o) if rng.random() < .5 else '&#{};'.format(o))
        else:
            out.append(ch)
    s = ''.join(out)
    if not attr and rng is not None and len(s) > 1 and rng.random() < .1 and '&' not in s:
        k = rng.randrange(len(s))
        s = s[:k] + rng.choice(['<!-- x -->', '<?p q?>', '<!---->']) + s[k:]
    return s


class DocWriter(object):
    """Writes a spec as XigtXML.  rng=None gives plain formatting."""

    def __init__(self, rng=None, late_decl=False):
        self.rng = rng
        self.gen = 0

    def ws(self):
        r = self.rng
        if r is None:
            return ''
        x = r.random()
        if x < .5:
            return r.choice(['\n', '\n  ', ' ', '', '\n\t', '\n\n'])
        if x < .58:
            return r.choice(['<!-- between -->', '<?pi data?>', '\n<!-- <igt id="no"/> -->\n', '<!-- </igt> -->'])
        return ''

    def prefix_for(self, uri, scope, decl, attr):
        if uri == XMLNS:
            return 'xml'
        cands = sorted(p for p, u in scope.items() if u == uri and p)
        if cands:
            return cands[0] if self.rng is None else self.rng.choice(cands)
        self.gen += 1
        p = 'gen{}'.format(self.gen)
        decl[p] = uri
        scope[p] = uri
        return p

    def elem(self, tag, s, scope, body, uri=None, text=None, leaf=False):
        r = self.rng
        decl = dict(s.get('ns', {}))
        scope = dict(scope)
        scope.update(decl)
        attrs = []
        if s.get('id') is not None:
            attrs.append(('id', s['id']))
        if s.get('type') is not None:
            attrs.append(('type', s['type']))
        for k, v in s.get('attrs', {}).items():
            if k.startswith('{'):
                u, n = k[1:].split('}', 1)
                k = self.prefix_for(u, scope, decl, True) + ':' + n
            attrs.append((k, v))
        if uri:
            tag = self.prefix_for(uri, scope, decl, False) + ':' + tag
        attrs = [('xmlns:' + p, u) for p, u in decl.items()] + attrs
        if r is not None and r.random() < .3:
            r.shuffle(attrs)
        parts = ['<', tag]
        for k, v in attrs:
            q = '"' if r is None or r.random() < .8 else "'"
            sp = ' ' if r is None else r.choice([' ', ' ', ' ', '\n    ', '  '])
            parts.append('{}{}={}{}{}'.format(sp, k, q, _esc(v, r, True, quote=q), q))
        inner = body(scope) if body else []
        t = _esc(text, r) if text is not None else ''
        if not t and not inner and (r is None or r.random() < .7):
            parts.append('/>' if r is None else r.choice(['/>', ' />']))
            return ''.join(parts)
        parts.append('>')
        parts.append(t)
        if not leaf:
            if not t or text is not None:
                parts.append(self.ws() if text is None else '')
            for x in inner:
                parts.append(x)
                parts.append(self.ws())
        parts.append('</' + tag + ('>' if r is None else r.choice(['>', '>', ' >'])))
        return ''.join(parts)

    def child(self, s, scope):
        return self.elem(s['name'], s, scope, lambda sc: [self.child(c, sc) for c in s.get('children', [])],
                         uri=s.get('uri'), text=s.get('text'))

    def meta(self, s, scope):
        return self.elem('meta', s, scope, lambda sc: [self.child(c, sc) for c in s.get('children', [])], text=s.get('text'))

    def md(self, s, scope):
        return self.elem('metadata', s, scope, lambda sc: [self.meta(c, sc) for c in s.get('metas', [])])

    def item(self, s, scope):
        return self.elem('item', s, scope, None, text=s.get('text'), leaf=True)

    def tier(self, s, scope):
        return self.elem('tier', s, scope, lambda sc: [self.md(m, sc) for m in s.get('mds', [])] +
                         [self.item(i, sc) for i in s.get('items', [])])

    def igt(self, s, scope):
        return self.elem('igt', s, scope, lambda sc: [self.md(m, sc) for m in s.get('mds', [])] +
                         [self.tier(i, sc) for i in s.get('tiers', [])])

    def corpus(self, s):
        return self.elem('xigt-corpus', s, {}, lambda sc: [self.md(m, sc) for m in s.get('mds', [])] +
                         [self.igt(i, sc) for i in s.get('igts', [])])


ENCODINGS = ['utf-8', 'utf-8', 'utf-8', 'utf-8-bom', 'utf-16', 'us-ascii', 'iso-8859-1', 'windows-1252']


def xml_text(spec, rng=None):
    return DocWriter(rng).corpus(spec)


def _charrefs(s, enc):
    """Replace what enc cannot hold by character references, but only where
    XML allows them: the caller makes sure names are encodable."""
    return s.encode(enc, 'xmlcharrefreplace')


def xml_bytes(spec, rng=None, enc='utf-8'):
    """A complete document in the given encoding.  CDATA sections cannot hold
    character references, so narrow encodings use plain formatting for text
    the encoding lacks."""
    if enc in ('utf-8', 'utf-8-bom', 'utf-16'):
        t = xml_text(spec, rng)
        if enc == 'utf-8':
            d = ''
            if rng is not None:
                d = rng.choice(['', '', '<?xml version="1.0"?>\n', '<?xml version="1.0" encoding="UTF-8"?>',
                                "<?xml version='1.0' encoding='utf-8' standalone='yes'?>\n", '<!-- c -->\n'])
            tail = '' if rng is None else rng.choice(['', '\n', '\n<!-- end -->\n', ' \n'])
            return (d + t + tail).encode('utf-8')
        if enc == 'utf-8-bom':
            return b'\xef\xbb\xbf' + t.encode('utf-8')
        return ('<?xml version="1.0" encoding="UTF-16"?>' + t).encode('utf-16')
    t = xml_text(spec, None)
    return ('<?xml version="1.0" encoding="%s"?>\n' % enc).encode('ascii') + _charrefs(t, enc)


# ---------------------------------------------- independent JSON writer

def json_obj(s, kind='corpus', scope=None):
    scope = scope_of(scope or {}, s)
    bare = len(s.get('id') or '') % 2 == 0      # empty lists may be left out
    o = {}
    inv = {}
    for p in sorted(scope):
        inv[scope[p]] = p
    if s.get('id') is not None:
        o['id'] = s['id']
    if s.get('type') is not None and kind != 'child':
        o['type'] = s['type']
    if s.get('attrs'):
        at = {}
        for k, v in s['attrs'].items():
            if k.startswith('{'):
                u, n = k[1:].split('}', 1)
                if u in inv:
                    k = inv[u] + ':' + n
            at[k] = v
        o['attributes'] = at
    if s.get('ns'):
        o['namespaces'] = dict(s['ns'])
    if kind == 'child':
        o['name'] = s['name']
        if s.get('uri'):
            if s['uri'] in inv:
                o['name'] = inv[s['uri']] + ':' + s['name']
            else:
                o['namespace'] = s['uri']
        if s.get('text') is not None:
            o['text'] = s['text']
        if s.get('children'):
            o['children'] = [json_obj(c, 'child', scope) for c in s['children']]
        return o
    if s.get('uri'):
        o['namespace'] = s['uri']
    if kind in ('item', 'meta') and s.get('text') is not None:
        o['text'] = s['text']
    if kind == 'meta':
        if s.get('children'):
            o['children'] = [json_obj(c, 'child', scope) for c in s['children']]
    elif kind == 'md':
        if s.get('metas') or not bare:
            o['metas'] = [json_obj(c, 'meta', scope) for c in s.get('metas', [])]
    elif kind != 'item':
        if s.get('mds'):
            o['metadata'] = [json_obj(c, 'md', scope) for c in s['mds']]
        sub, k = {'corpus': ('igts', 'igt'), 'igt': ('tiers', 'tier'), 'tier': ('items', 'item')}[kind]
        if s.get(sub) or not bare:
            o[sub] = [json_obj(c, k, scope) for c in s.get(sub, [])]
    return o
