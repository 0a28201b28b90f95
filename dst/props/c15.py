"""C15: importing gives one IGT per good record, in order, and reports lost input."""

import copy
import json
import random
import re

from .. import corpusgen as cg
from ..core import attempt, must, require
from .cliutil import arm, files, gen_fault, new_fs, run_cli, usage
from .common import frac, fs_cfg, pos, read_xml

ID = 'C15'
RUNS = {'quick': 5000, 'thorough': 250000}
STEP_LIMIT = 20000000
RULE = ('One run: random Toolbox or ODIN files of good, odd and defective records (also directories of them) are imported by the command line and by '
        'the library with random options and delivery sizes, fault-free and then with read, open, write and close errors, a full disk, undecodable or '
        'missing input; the output is compared record by record with an independent reading of the input text. '
        'Non-trivial: a defective record was present or a fault fired; distinct by (format, records, faults, outcomes).')
REAL = ['xigt.importers.toolbox', 'xigt.importers.odin', 'xigt.scripts.xigt_import', 'xigt.main', 'xigt.codecs.xigtxml', 'xigt.model']
STUB = ['file system', 'process (argv, standard streams, exit)', 'toolbox and odintxt parsing libraries (stubs with the parts the importers use)']
ASSUMPTIONS = ['the parsing libraries behave like the stubs', 'an import that fails may leave incomplete output']
KEEP_KEYS = ('kind', 'op', 'what', 'do', 'key', 'id', 'lines', 'mkr', 'config', 'k', 'tag', 'fault', 'eol')

TOK = ['inu', 'ga', 'dog', 'NOM', 'x', '50%', 'é', '日本', 'foo-bar', '-s', 'bark', 's', '<b>', '&amp;', '"q"', "it's", 'ß', '=', '3SG', 'Ünï', '𐐷', 'a']
CTRL = ['\x01', '\x0b', '\x1f', '\ufffe', '\x00', '\x08']


# -------------------------------------------------------------------- ODIN

def odin_line(rng, n):
    t = rng.choice([' '.join(rng.choice(TOK) for _ in range(rng.choice([0, 1, 3, 5]))), '  indented', 'tab\there', 'trail  ', '', 'a\x85b', 'x\u2028y',
                    '(1)  foo', 'tag=x:y', '\\', '%s {} %d', ']]>', '\xa0', '\ufeffbom', 'a' * 300])
    if rng.random() < .2:
        i = rng.randrange(len(t) + 1)
        t = t[:i] + rng.choice(CTRL) + t[i:]
    return {'n': str(n), 'tag': rng.choice(['L', 'G', 'T', 'L+CR', 'M', 'B', 'L-LN']), 'text': t}


def gen_odin(rng, k):
    r = {'kind': 'good', 'lang': rng.choice([None, 'japanese (jpn)', 'Old English (ang)', 'tok pisin', 'x (und)', 'ŋ\x02 (xx)', 'FRENCH ( fra )', ' (abc)']),
         'extra': rng.random() < .3,
         'lines': [odin_line(rng, 10 + j) for j in range(rng.choice([0, 1, 2, 3, 3, 6]))]}
    r['doc'] = rng.choice(['{}'.format(100 + k), '100', 'd-{}'.format(k), '7\x03{}'.format(k)])
    r['range'] = [str(rng.randrange(1, 99)), str(rng.randrange(99, 200))]
    r['types'] = rng.choice(['L G T', 'L+CR', 'L G\x04 T', 'B'])
    if rng.random() < .2:
        r['kind'] = rng.choice(['nodoc', 'onlylines', 'badid'])
    return r


def odin_text(recs):
    out = []
    for r in recs:
        b = []
        if r['kind'] == 'badid':
            b.append('doc_id=** 1 2 L')
            b[-1] = 'doc_id={} {} {} {}'.format(r['doc'], r['range'][0], r['range'][1], r['types'])
        elif r['kind'] == 'good':
            b.append('doc_id={} {} {} {}'.format(r['doc'], r['range'][0], r['range'][1], r['types']))
        if r['kind'] != 'onlylines':
            if r['lang'] is not None:
                b.append('language: ' + r['lang'])
            if r['extra']:
                b.append('citation: foo & <bar>')
        if r['kind'] == 'nodoc' and not b:
            b.append('note: nothing')
        for ln in r['lines']:
            b.append('line={} tag={}:{}'.format(ln['n'], ln['tag'], ln['text']))
        if r['kind'] == 'onlylines' and not r['lines']:
            continue
        out.append('\n'.join(b) + '\n')
    return '\n'.join(out)


INVALID = re.compile('[^\t\n\r\u0020-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]')


def odin_expected(recs, config):
    """-> (list of expected IGTs, ids of defective records)"""
    repl = config.get('replacement_char', '\ufffd')

    def c(s):
        return INVALID.sub(lambda m: repl, s)
    out, bad = [], []
    n = 0
    for r in recs:
        if r['kind'] == 'onlylines' and not r['lines']:
            continue
        n += 1
        if r['kind'] in ('nodoc', 'onlylines'):
            bad.append('igt{}'.format(n))
            continue
        lang, iso = None, None
        if r['lang'] is not None:
            # (as the header line says)
            m = re.match(r'^\s*(.*?)\s*(?:\(([^)]*)\))?\s*$', r['lang'])
            lang, iso = m.group(1), m.group(2)
        e = {'id': c('igt{}-{}'.format(r['doc'], n)),
             'attrs': {'doc-id': c(r['doc']), 'line-range': '-'.join(r['range']), 'tag-types': c(r['types'])},
             'lines': [(c(x['text']), {'line': x['n'], 'tag': x['tag']}) for x in r['lines']],
             'lang': c((lang or '').strip()).title(), 'iso': (iso if iso is not None else 'und').strip(), 'header': None}
        if config.get('keep_headers'):
            h = ['doc_id={} {} {} {}'.format(r['doc'], r['range'][0], r['range'][1], r['types'])]
            if r['lang'] is not None:
                h.append('language: ' + r['lang'])
            if r['extra']:
                h.append('citation: foo & <bar>')
            e['header'] = c('\n'.join(h))
        out.append(e)
    return out, bad


DC = 'http://purl.org/dc/elements/1.1/'
OLAC = '{http://www.language-archives.org/OLAC/1.1/}'
XSI = '{http://www.w3.org/2001/XMLSchema-instance}'


def odin_check(xc, exp, what):
    igts = list(xc)
    ids = [g.id for g in igts]
    require(ids == [e['id'] for e in exp], 'records', '{}: IGTs {} for records {}'.format(what, ids, [e['id'] for e in exp]))
    for g, e in zip(igts, exp):
        w = '{}, {}'.format(what, g.id)
        require(g.attributes == e['attrs'], 'attributes', '{}: attributes {}, expected {}'.format(w, g.attributes, e['attrs']))
        require(len(g) == 1 and g[0].id == 'r' and g[0].type == 'odin', 'lines', '{}: tiers {}'.format(w, [t.id for t in g]))
        require(g[0].attributes.get('state') == 'raw', 'lines', '{}: state {}'.format(w, g[0].attributes))
        got = [(i.text or '', dict(i.attributes)) for i in g[0]]
        require(got == e['lines'], 'lines', '{}: lines {!r}, expected {!r}'.format(w, got, e['lines']))
        metas = [m for md in g.metadata for m in md]
        hs = [m for m in metas if m.type == 'odin-header']
        require((hs[0].text if hs else None) == e['header'], 'header', '{}: header {!r}, expected {!r}'.format(w, hs and hs[0].text, e['header']))
        subj = [c for m in metas for c in m if c.name == 'subject']
        lang = [c for m in metas for c in m if c.name == 'language']
        require([(c.text, c.namespace, dict(c.attributes)) for c in lang] == [('English', DC, {XSI + 'type': 'olac:language', OLAC + 'code': 'en'})], 'language',
                '{}: the metadata language is {}'.format(w, [(c.text, c.namespace, dict(c.attributes)) for c in lang]))
        require(len(subj) == 1 and subj[0].namespace == DC and set(subj[0].attributes) == set([XSI + 'type', OLAC + 'code']) and
                subj[0].attributes[XSI + 'type'] == 'olac:language', 'language', '{}: the metadata subject is {}'.format(w, [(c.namespace, c.attributes) for c in subj]))
        require(len(subj) == 1 and (subj[0].text or '') == e['lang'] and
                subj[0].attributes.get('{http://www.language-archives.org/OLAC/1.1/}code') == e['iso'], 'language',
                '{}: language {!r} {}, expected {!r} {!r}'.format(w, subj and subj[0].text, subj and subj[0].attributes, e['lang'], e['iso']))


# ----------------------------------------------------------------- Toolbox

def gen_tb(rng, k):
    r = {'kind': 'good', 'key': rng.choice(['ex{}', 'ex{}', '{}', 'é{}', 'a.b-{}', '-{}', 'k {}', '{}x']).format(k), 'words': []}
    if rng.random() < .04:
        r['key'] = ''
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        ms = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ms.append([rng.choice(TOK), rng.choice(TOK), rng.choice(TOK)])
        w = ''.join(m[0] for m in ms) if rng.random() < .5 else rng.choice(TOK)
        r['words'].append([w, ms])
    r['lines'] = ['t'] + [x for x in ('m', 'g', 'p') if rng.random() < .8]
    if 'm' not in r['lines']:
        r['lines'] = ['t']
    r['free'] = rng.choice([None, 'A dog barks.', "it's ‘so’ <b>", '', '  x  y ', '日本語', 'Ein é Satz\nüber ß zwei  Zeilen',
                             '\nallein é auf der ü Zeile'])
    r['freepos'] = rng.choice(['last', 'last', 'first'])
    r['extra'] = rng.choice([None, '\\nt note', '\\rf Smith 1999', '\\x', '\\rf Ünï {}'.format(k), '\\nt see ex{}'.format(k)])
    r['tx'] = rng.choice([None, None, None, 'story {}'.format(k)])
    r['id'] = rng.choice([None, None, None, 'text{}'.format(k), 'Ünï {}'.format(k), ''])
    r['blocks'] = rng.choice([1, 1, 1, 2])
    x = rng.random()
    if x < .22:
        r['kind'] = rng.choice(['nomorph', 'notext', 'ctrl-free', 'ctrl-key', 'ctrl-word', 'noword'])
        if not r['words']:
            r['words'] = [['w', [['w', 'w', 'w']]]]
    return r


def lay(cols):
    """[(column tokens by line)] -> lines padded by bytes"""
    out = [''] * len(cols[0]) if cols else []
    for c in cols:
        wid = max(len(x.encode()) for x in c) + 1
        for j, x in enumerate(c):
            out[j] += x + ' ' * (wid - len(x.encode()))
    return out


def tb_lines(r):
    """Interlinear lines of one record: {'t': [...], 'm': [...], ...} by block"""
    words = r['words']
    half = (len(words) + 1) // 2 if r['blocks'] == 2 and len(words) > 1 else len(words)
    out = []
    for part in [words[:half], words[half:]]:
        if not part and out:
            continue
        rows = {'t': '', 'm': '', 'g': '', 'p': ''}
        # a word spans its morphemes
        for w, ms in part:
            mcols = lay([(m[0], m[1], m[2]) for m in ms]) or ['', '', '']
            wid = max(len(w.encode()) + 1, max(len(x.encode()) for x in mcols))
            for key, x in zip('tmgp', [w] + mcols):
                rows[key] += x + ' ' * (wid - len(x.encode()))
        out.append(rows)
    return out


DEFAULT_MAP = {'\\t': 'w', '\\m': 'm', '\\g': 'g', '\\p': 'pos', '\\f': 't'}
TYPES = {'p': 'phrases', 'w': 'words', 'm': 'morphemes', 'g': 'glosses', 'pos': 'pos', 't': 'translations', 'n': 'notes'}
NAMES = [dict((k, k) for k in TYPES), {'p': 'phr', 'w': 'wd', 'm': 'mb', 'g': 'gl', 'pos': 'ps', 't': 'ft', 'n': 'nt'},
         {'p': 't', 'w': 'm', 'm': 'w', 'g': 'pos', 'pos': 'g', 't': 'p', 'n': 'x'}]


def tb_config(rng):
    """A configuration that names everything itself."""
    nm = rng.choice(NAMES)
    c = {'record_markers': rng.choice([['\\id', '\\ref'], ['\\tx', '\\id', '\\ref']])}
    c['igt_attribute_map'] = {m: a for m, a in [('\\id', 'corpus-id'), ('\\rf', 'source'), ('\\x', 'ex'), ('\\tx', 'text')] if rng.random() < .7}
    c['tier_map'] = {m: nm[DEFAULT_MAP.get(m, 'n')] for m in ['\\t', '\\m', '\\g', '\\p', '\\f'] + ['\\nt'] * (rng.random() < .6)}
    if rng.random() < .8:
        c['make_phrase_tier'] = rng.choice([[nm['w'], nm['p']], [nm['w'], nm['p']], None])
    elif nm['w'] != 'w':
        c['make_phrase_tier'] = [nm['w'], nm['p']]
    c['tier_types'] = {nm[k]: dict({'type': rng.choice([TYPES[k], TYPES[k], 'x-' + k])}, **({'interlinear': True} if k in ('w', 'm', 'g', 'pos') else {}))
                       for k in TYPES}
    c['alignments'] = {nm['w']: ['segmentation', nm['p']], nm['m']: ['segmentation', nm['w']], nm['g']: ['alignment', nm['m']],
                       nm['pos']: ['alignment', nm[rng.choice(['m', 'm', 'w'])]]}
    if rng.random() < .8:
        c['alignments'][nm['t']] = ['alignment', nm['p']]
    if rng.random() < .3:
        c['error_recovery_method'] = 'strict'
    for k in rng.sample(['igt_attribute_map', 'record_markers'], rng.choice([0, 0, 1])):
        del c[k]
    return c


def tb_names(config):
    """What the tiers of the configuration stand for: name -> the usual name."""
    tm = (config or {}).get('tier_map', DEFAULT_MAP)
    out = {v: DEFAULT_MAP.get(k, 'n') for k, v in tm.items()}
    ph = (config or {}).get('make_phrase_tier', ['w', 'p'])
    if ph and out.get(ph[0]) == 'w':
        out[ph[1]] = 'p'
    return out


def usual(xc, config):
    """Name the tiers, items and references as usual."""
    nm = tb_names(config)

    def one(ref):
        m = re.fullmatch(r'([a-z]+)(\d*)(\[\d+:\d+\])?', ref or '')
        return ref if not m or m.group(1) not in nm else nm[m.group(1)] + m.group(2) + (m.group(3) or '')
    out = list(xc)
    for g in out:
        tiers = list(g)
        for t in tiers:
            for x in list(t) + [t]:
                for k in ('segmentation', 'alignment'):
                    if k in x.attributes:
                        x.attributes[k] = one(x.attributes[k])
        names = [one(t.id) for t in tiers]
        for t in tiers:
            for i in t:
                i.id = one(i.id)
            t.id = None
        for t, n in zip(tiers, names):
            t.id = n
    return out


def tb_text(recs, eol='\n', config=None):
    out = ['\\_sh v3.0  400  Text', '']
    levels = (config or {}).get('record_markers', [])
    for r in recs:
        if '\\tx' in levels and r.get('tx'):
            out.append('\\tx ' + r['tx'])
        if r['id'] is not None:
            out.append('\\id ' + r['id'])
        key = r['key'] + ('\x01' if r['kind'] == 'ctrl-key' else '')
        out.append('\\ref' + (' ' + key if key else ''))
        if r['extra']:
            out.append(r['extra'])
        free = None if r['free'] is None else r['free'] + ('\x02' if r['kind'] == 'ctrl-free' else '')
        if r['kind'] == 'ctrl-free' and free is None:
            free = 'x\x02'
        if free is not None and r['freepos'] == 'first':
            out.append('\\f ' + free)
        if r['kind'] == 'noword':
            out.append('\\t')
            out.append('\\m x')
        elif r['words']:
            for rows in tb_lines(r):
                for x in r['lines']:
                    if x == 'm' and r['kind'] == 'nomorph':
                        continue
                    if x == 't' and r['kind'] == 'notext':
                        continue
                    line = rows[x].rstrip()
                    if r['kind'] == 'ctrl-word' and x == 't':
                        line += ' \x03z'
                    out.append('\\{} {}'.format(x, line))
        if free is not None and r['freepos'] == 'last':
            out.append('\\f ' + free)
        out.append('')
    return eol.join(out) + eol


def tb_expected(recs, config=None):
    config = config or {}
    names = {v: k for k, v in tb_names(config).items()}
    attmap = config.get('igt_attribute_map', {'\\id': 'corpus-id'})
    phrase = config.get('make_phrase_tier', ['w', 'p'])
    alns = {tb_names(config).get(k): (a, tb_names(config).get(t, 'p')) for k, (a, t) in config['alignments'].items()} if 'alignments' in config else None
    pos_to = 'm' if alns is None else alns['pos'][1]
    types = {k: config['tier_types'][names[k]]['type'] if k in names and k != 'p' else TYPES[k] for k in TYPES} if 'tier_types' in config else TYPES
    out, bad = [], []
    tid, tx = None, None
    for r in recs:
        if '\\tx' in config.get('record_markers', []) and r.get('tx'):
            tx, tid = r['tx'], None
        if r['id'] is not None:
            tid = r['id'].strip() or None
        key = r['key'].strip()
        gid = key if re.match('[a-zA-Z]', key) else 'igt' + key
        kind = r['kind']
        has = {x: bool(r['words']) and x in r['lines'] for x in 'tmgp'}
        if kind == 'noword':
            has = {'t': True, 'm': True, 'g': False, 'p': False}
        if kind == 'nomorph':
            has['m'] = False
        if kind == 'notext':
            has['t'] = False
        defect = kind in ('ctrl-free', 'ctrl-key', 'ctrl-word', 'noword')
        if kind == 'ctrl-word' and not has['t']:
            defect = False
        if (has['m'] and not has['t']) or (has['g'] and not has['m']) or (has['p'] and not has['m' if pos_to == 'm' else 't']):
            defect = True
        free = r['free']
        if kind == 'ctrl-free' and free is None:
            free = 'x'
        # a record without any line is none
        nodata = not any(has.values()) and free is None and not r['extra']
        if nodata:
            continue
        if defect:
            bad.append(gid)
            continue
        e = {'id': gid, 'attrs': {}, 'tiers': {}, 'late': r['freepos'] == 'last', 'types': types, 'alns': alns}
        mine = {'\\id': tid, '\\tx': tx}
        if r['extra']:
            mkr, _, val = r['extra'].partition(' ')
            mine[mkr] = val
            if mkr in config.get('tier_map', {}):
                e['tiers']['n'] = [(val, None)] if val else []
        e['attrs'] = {attmap[k]: v for k, v in mine.items() if k in attmap and v is not None}
        ws = r['words']
        if has['t']:
            e['tiers']['w'] = [(w, None) for w, _ in ws]
            if phrase:
                e['tiers']['p'] = [(' '.join(w for w, _ in ws), None)]
        n = 0
        ml, gl, pl = [], [], []
        for k, (w, ms) in enumerate(ws):
            for m in ms:
                n += 1
                ml.append((m[0], 'w{}'.format(k + 1)))
                gl.append((m[1], 'm{}'.format(n)))
                pl.append((m[2], 'm{}'.format(n) if pos_to == 'm' else 'w{}'.format(k + 1)))
        for x, t, v in (('m', 'm', ml), ('g', 'g', gl), ('p', 'pos', pl)):
            if has[x]:
                e['tiers'][t] = v
        if free is not None:
            e['tiers']['t'] = [(free.strip(), None)] if free.strip() else []
        out.append(e)
    return out, bad


def links(tid, e):
    """The references of a tier of the record, to tiers of the same record only."""
    out = {'segmentation': None, 'alignment': None}
    alns = e['alns'] or {'w': ('segmentation', 'p'), 'm': ('segmentation', 'w'), 'g': ('alignment', 'm'), 'pos': ('alignment', 'm'), 't': ('alignment', 'p')}
    attr, to = alns.get(tid, (None, None))
    if to in e['tiers'] and (tid != 't' or e['late']):
        out[attr] = to
    return out


def check_segment(item, to, e, what):
    """The segment of its word that a morpheme refers to."""
    m = re.fullmatch(re.escape(to) + r'\[(\d+):(\d+)\]', item.attributes.get('segmentation') or '')
    if not m:
        return
    a, b = int(m.group(1)), int(m.group(2))
    word = e['tiers']['w'][int(to[1:]) - 1][0]
    who = '{}: morpheme {} {!r} is segment {} of {!r}'.format(what, item.id, item.text, m.group(), word)
    require(a <= b <= len(word), 'segment', who)
    bare = lambda s: s.strip('-=~.')
    ms = [t for t, k in e['tiers']['m'] if k == to]
    if ''.join(bare(x) for x in ms) == word:
        n = sum(k == to for _, k in e['tiers']['m'][:int(item.id[1:]) - 1])
        at = sum(len(bare(x)) for x in ms[:n])
        if len(ms) > 1:
            require((a, b) == (at, at + len(bare(ms[n]))), 'segment', who)
    elif len(ms) > 1:
        # what cannot be found is taken to be the rest
        require(b == len(word) or word[a:b].lower() == bare(item.text).lower(), 'segment', who)


def tb_check(xc, exp, what, config=None):
    igts = usual(xc, config)
    ids = [g.id for g in igts]
    require(ids == [e['id'] for e in exp], 'records', '{}: IGTs {} for records {}'.format(what, ids, [e['id'] for e in exp]))
    for g, e in zip(igts, exp):
        w = '{}, {}'.format(what, g.id)
        require({k: v.strip() for k, v in g.attributes.items()} == e['attrs'], 'attributes', '{}: attributes {}, expected {}'.format(w, g.attributes, e['attrs']))
        require(sorted(t.id for t in g) == sorted(e['tiers']), 'lines', '{}: tiers {}, expected {}'.format(w, [t.id for t in g], sorted(e['tiers'])))
        for t in g:
            got = [i.text or '' for i in t]
            want = [x[0] for x in e['tiers'][t.id]]
            require(t.type == e['types'][t.id], 'lines', '{}: tier {} has the type {}'.format(w, t.id, t.type))
            require(got == want, 'lines', '{}: tier {} is {!r}, expected {!r}'.format(w, t.id, got, want))
            if len(t):
                refs = {k: t.attributes.get(k) for k in ('segmentation', 'alignment')}
                require(refs == links(t.id, e), 'tier-reference', '{}: tier {} refers to {}, expected {}'.format(w, t.id, refs, links(t.id, e)))
            for i, (_, to) in zip(t, e['tiers'][t.id]):
                if t.id in ('w', 't') and 'p' in e['tiers']:
                    a = i.attributes.get('segmentation') or i.attributes.get('alignment')
                    if t.id == 'w':
                        if e['types']['w'] != 'words':
                            require(a == 'p1', 'alignment', '{}: {} refers to {!r}'.format(w, i.id, a))
                            continue
                        m = re.fullmatch(r'p1\[(\d+):(\d+)\]', a or '')
                        got = e['tiers']['p'][0][0][int(m.group(1)):int(m.group(2))] if m else None
                        require(m and got == (i.text or ''), 'alignment', '{}: {} is {!r} and refers to {!r}, which is {!r}'.format(w, i.id, i.text, a, got))
                    elif links('t', e)['alignment']:
                        require(a == 'p1', 'alignment', '{}: {} refers to {!r}'.format(w, i.id, a))
                if t.id == 'm' and e['types']['m'] == 'morphemes':
                    check_segment(i, to, e, w)
                if to is not None:
                    a = i.attributes.get('segmentation') or i.attributes.get('alignment') or ''
                    require(a == to or a.startswith(to + '['), 'alignment', '{}: {} stands under {} and refers to {!r}'.format(w, i.id, to, a))


# --------------------------------------------------------------------- run

def gen(rng, tier):
    kind = rng.choice(['odin', 'odin', 'toolbox', 'toolbox', 'odin-dir'])
    nfiles = 1 if kind != 'odin-dir' else rng.choice([0, 1, 2, 3])
    fs_ = []
    serial = 0
    for f in range(nfiles):
        recs = []
        for _ in range(rng.choice([0, 1, 2, 3, 5, 9])):
            serial += 1
            recs.append(gen_tb(rng, serial) if kind == 'toolbox' else gen_odin(rng, serial))
        if rng.random() < .04 and recs:
            recs = (recs * 30)[:90]
            if kind == 'toolbox':
                recs = [dict(copy.deepcopy(r), key='z{}'.format(j)) for j, r in enumerate(recs)]
        fs_.append({'name': rng.choice(['a', 'b[1]', 'c*', 'd e', 'ü', 'f.txt', '[ab]', 'x'][f:f + 6]) + str(f), 'recs': recs})
    plan = {'kind': kind, 'files': fs_, 'cfg': fs_cfg(rng), 'fseed': rng.randrange(1 << 30), 'eol': rng.choice(['\n', '\n', '\r\n']),
            'dirname': rng.choice(['in', 'in[1]', 'i n', '*']), 'outdir': rng.random() < .5, 'twice': rng.random() < .3}
    if kind == 'toolbox':
        plan['config'] = rng.choice([None, None, {}, {'error_recovery_method': 'strict'}, tb_config(rng), tb_config(rng), tb_config(rng)])
    else:
        plan['config'] = rng.choice([None, None, {}, {'keep_headers': True}, {'replacement_char': '?'}, {'replacement_char': '', 'keep_headers': True}])
        if kind == 'odin-dir' and rng.random() < .3:
            plan['config'] = dict(plan['config'] or {}, input_file_suffix=rng.choice(['.odin', '[1].txt', '.txt', '']))
    x = rng.random()
    if x < .45:
        plan['fail'] = {'what': 'fault', 'fault': gen_fault(rng, ['read', 'read', 'open-r', 'write', 'write', 'write', 'quota', 'quota', 'open-w', 'close', 'mkdir'])}
    elif x < .6:
        plan['fail'] = {'what': rng.choice(['undecodable', 'missing', 'config', 'kinds']), 'at': frac(rng)}
    return plan


def suffix(plan):
    return (plan['config'] or {}).get('input_file_suffix', '.txt')


def content(plan, f):
    if plan['kind'] == 'toolbox':
        return tb_text(f['recs'], plan['eol'], plan['config']).encode('utf-8')
    return odin_text(f['recs']).replace('\n', plan['eol']).encode('utf-8')


def prepare(ctx, plan):
    import os
    fs = new_fs(ctx, plan)
    if plan['kind'] == 'odin-dir':
        d = fs.p(plan['dirname'])
        os.mkdir(d)
        for f in plan['files']:
            fs.put('{}/{}{}'.format(plan['dirname'], f['name'], suffix(plan)), content(plan, f))
        if suffix(plan):
            fs.put(plan['dirname'] + '/readme.md', b'\xff\xfe not a corpus')
        inp, outp = d, fs.p('out')
        if plan['outdir']:
            os.mkdir(outp)
    else:
        inp, outp = fs.put('in.txt', content(plan, plan['files'][0])), fs.p('out.xml')
    args = ['import', '-i', inp, '-o', outp, '-f', 'toolbox' if plan['kind'] == 'toolbox' else 'odin']
    if plan['config'] is not None:
        fs.put('cfg.json', json.dumps(plan['config']).encode())
        args += ['-c', fs.p('cfg.json')]
    return fs, args, inp, outp


def expected(plan, f):
    if plan['kind'] == 'toolbox':
        return tb_expected(f['recs'], plan['config'])
    return odin_expected(f['recs'], plan['config'] or {})


def outname(plan, f):
    return 'out/{}.xml'.format(f['name']) if plan['kind'] == 'odin-dir' else 'out.xml'


def judge(plan, fs, err, what):
    if plan['kind'] == 'odin-dir':
        outs = sorted(k for k in files(fs) if k.startswith('out/'))
        exp = sorted(outname(plan, f) for f in plan['files'])
        require(outs == exp, 'outputs', '{}: the outputs are {}, expected {}'.format(what, outs, exp))
    for f in plan['files']:
        data = fs.get(outname(plan, f))
        require(data is not None, 'outputs', '{}: there is no output'.format(what))
        xc = read_xml(data, 'unreadable', what)
        exp, bad = expected(plan, f)
        if plan['kind'] == 'toolbox':
            tb_check(xc, exp, what, plan['config'])
        else:
            odin_check(xc, exp, what)
        if err is not None:
            for b in bad:
                # (control characters may be shown in another way)
                require(INVALID.sub('', b) in INVALID.sub('', err), 'unreported', '{}: nothing is said about the lost record {}'.format(what, b))


def run(plan, ctx):
    import importlib
    if plan['kind'] != 'odin-dir' and not plan['files']:
        return
    names = [f['name'] for f in plan['files']]
    if len(set(names)) != len(names):
        return
    if plan['kind'] == 'toolbox':
        # markers of one record stay together, so that keys tell records apart
        keys = [r['key'] for r in plan['files'][0]['recs']]
        if len(set(keys)) != len(keys):
            return
    elif plan['eol'] == '\r\n':
        pass
    bads = sum(len(expected(plan, f)[1]) for f in plan['files'])
    if bads:
        ctx.nontrivial()
        ctx.probe('defective-records', bads)
    ctx.mark(plan['kind'], plan['config'], [[(r['kind'], len(r['lines'])) for r in f['recs']] for f in plan['files']])
    fs, args, inp, outp = prepare(ctx, plan)
    try:
        before = files(fs)
        fs.arm()
        r = run_cli(ctx, fs, args)
        require(r.code == 0, 'failed', 'importing ended with {}: {}'.format(r.short(), r.err[-300:]))
        judge(plan, fs, r.err, 'command line')
        now = files(fs)
        diffs = [k for k in before if now.get(k, 0) != before[k]]
        require(not diffs, 'input-changed', 'importing changed {}'.format(diffs))
        base = usage(fs)
        good = {k: v for k, v in now.items() if k not in before}
        if plan['twice']:
            # the same options serve two imports
            with fs:
                imp = importlib.import_module('xigt.importers.' + ('toolbox' if plan['kind'] == 'toolbox' else 'odin'))
                opts = copy.deepcopy(plan['config'])
                was = copy.deepcopy(opts)
                for k in range(2):
                    o = attempt(imp.xigt_import, inp, outp, opts)
                    require(o.ok, 'failed', 'library import {}: {}'.format(k, o))
                    require(opts == was, 'options', 'importing changed the options to {}'.format(opts))
                    judge(plan, fs, None, 'library import {}'.format(k))
            now = files(fs)
            require({k: v for k, v in now.items() if k not in before} == good, 'differs', 'importing again gives other files')
    finally:
        fs.destroy()
    fail = plan.get('fail')
    if not fail:
        return
    fs, args, inp, outp = prepare(ctx, plan)
    try:
        if fail['what'] != 'fault':
            fs.arm()
            what = fail['what']
            if what == 'undecodable':
                if not plan['files']:
                    return
                f = plan['files'][0]
                name = 'in.txt' if plan['kind'] != 'odin-dir' else '{}/{}{}'.format(plan['dirname'], f['name'], suffix(plan))
                data = fs.get(name)
                # inside a record, where it cannot be skipped
                i = data.rfind(b'\\ref ') + 5 if plan['kind'] == 'toolbox' else pos(len(data), fail['at'])
                if (plan['kind'] == 'toolbox' and i == 4) or not data:
                    return
                fs.put(name, data[:i] + b'\xff\xfe' + data[i:])
            elif what == 'missing':
                args[2] = fs.p('nosuch')
            elif what == 'config':
                fs.put('bad.json', b'{"keep_headers": ')
                args = args[:7] + ['-c', fs.p('bad.json')]
            elif what == 'kinds':
                if plan['kind'] == 'odin-dir':
                    fs.put('file.xml', b'x')
                    args[4] = fs.p('file.xml')
                else:
                    import os
                    os.mkdir(fs.p('dir'))
                    args[4] = fs.p('dir')
            ctx.fault(what)
            ctx.nontrivial()
            r = run_cli(ctx, fs, args)
            ctx.mark(what, r.code)
            require(r.code != 0, 'accepted', 'importing with a bad input ({}) ended with success'.format(what))
            return
        if not arm(fs, fail['fault'], base):
            return
        r = run_cli(ctx, fs, args)
        what = '{} at {}'.format(fail['fault'].get('do', 'disk full'), fail['fault']['op'])
        ctx.mark(what, r.code, bool(fs.fired))
        if fs.fired:
            ctx.nontrivial()
        if r.code == 0:
            judge(plan, fs, None, 'success in spite of {}'.format(fs.fired))
            require(not fs.fired, 'accepted', 'success in spite of {}'.format(fs.fired))
        else:
            require(fs.fired, 'failed', 'no fault fired, but importing ended with {}: {}'.format(r.short(), r.err[-300:]))
        fs.arm()
        r = run_cli(ctx, fs, args)
        require(r.code == 0, 'no-recovery', 'importing again ended with {}: {}'.format(r.short(), r.err[-300:]))
        judge(plan, fs, r.err, 'importing again')
    finally:
        fs.destroy()
