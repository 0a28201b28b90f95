"""C19: results depend on the input only - not on hash seeds, listing order or what the process did before."""

import copy
import gc
import json
import os
import random
import re
import subprocess
import sys

from .. import corpusgen as cg
from .. import core, sched
from ..core import attempt, must, require
from . import c08, c17, c18, edits, readops
from .cliutil import run_cli
from .common import Env, fs_cfg

ID = 'C19'
RUNS = {'quick': 5000, 'thorough': 100000}
STEP_LIMIT = 60000000
RULE = ('One run: one piece of work (a program of the library API with loads, edits, queries, failing and refused writes; or a command line: sort, partition, '
        'validate, query, import, export) is done in a fresh process; then in a process that before did other work - some of it failing, some '
        'interrupted at a chosen line - or the same work, with memory reclaimed at other times and directories listed in another order; and in fresh processes '
        'with other hash seeds. All files, output, results and errors are compared. Non-trivial: there was earlier work, or another hash seed; '
        'distinct by (work, earlier work and its outcomes, environment).')
REAL = ['xigt.codecs', 'xigt.model', 'xigt.mixins', 'xigt.metadata', 'xigt.query', 'xigt.ref', 'xigt.xigtpath', 'xigt.exporters', 'xigt.importers',
        'xigt.scripts.*', 'xigt.main', 'string hashing of CPython']
STUB = ['file system, order of directory listings', 'process (argv, standard streams, exit)', 'interrupts (injected at a line of the code under test)',
        'toolbox and odintxt parsers, pyDelphin']
ASSUMPTIONS = ['memory addresses that representations show are not results']
KEEP_KEYS = tuple(c17.KEEP_KEYS) + tuple(c08.KEEP_KEYS) + ('t', 'gc', 'hs', 'listing', 'exc', 'line')

REFATTRS = ['alignment', 'content', 'segmentation']
HASHES = [0, 1, 20, 777777]
POOL = {}
EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}


class Server(object):
    """A process with another hash seed that runs plans, each in a process of its own."""

    def __init__(self, hs):
        env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
        env['PYTHONHASHSEED'] = str(hs)
        env['PYTHONUTF8'] = '1'
        here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        self.p = subprocess.Popen([sys.executable, '-B', os.path.join(here, 'check.py'), ID, '--serve'], env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, plan):
        self.p.stdin.write(json.dumps(plan).encode() + b'\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise core.HarnessError('the process with another hash seed ended')
        res = json.loads(line.decode())
        if res['status'] == 'err':
            raise core.HarnessError(res['msg'])
        return res


def setup():
    for hs in HASHES:
        if hs not in POOL:
            POOL[hs] = Server(hs)


def gen_job(rng, tier, faults=True):
    t = rng.choice(['lib', 'lib', 'lib', 'cli', 'cli', 'query'])
    if t == 'cli':
        p = c17.gen(rng, tier)
        p['encs'] = []
        for d in p.get('docs', ()):
            if rng.random() < .4:
                unspecify(rng, d['spec'])
        return {'t': 'cli', 'plan': p}
    if t == 'query':
        p = c18.gen(rng, tier)
        p.pop('fault', None)
        return {'t': 'query', 'plan': p}
    kn = cg.Knobs(rng, names_ascii=True)
    sp = readops.gen_spec(rng)
    steps = [c08.gen_step(rng, kn, False, sp, i) for i in range(rng.choice([1, 2, 3, 5]))]
    if rng.random() < .3:
        wild(rng, sp)
        steps.insert(rng.randrange(len(steps) + 1), {'do': 'op', 'op': readops.gen_op(rng, ['dumps', 'dump'])})
    return {'t': 'lib', 'spec': readops.gen_spec(rng), 'cfg': fs_cfg(rng), 'fseed': rng.randrange(1 << 30),
            'thread': {'own': True, 'spec': sp, 'steps': steps}}


URIS = ['http://nowhere/{}'.format(c) for c in 'abcd'] + ['urn:x', 'http://www.w3.org/2001/XMLSchema', 'http://purl.org/dc/elements/1.1/']


def wild(rng, spec):
    """Attributes in namespaces without a prefix, a few in all."""
    objs = [spec] + spec['igts'] + [t for g in spec['igts'] for t in g['tiers']] + [i for g in spec['igts'] for t in g['tiers'] for i in t['items']]
    for o in rng.sample(objs, min(len(objs), rng.choice([1, 1, 2, 4]))):
        o['attrs'] = dict(o.get('attrs') or {})
        for u in rng.sample(URIS, rng.choice([1, 1, 2, 3])):
            o['attrs']['{%s}%s' % (u, rng.choice(['k', 'a', 'z']))] = 'v'


def unspecify(rng, spec):
    """Several reference attributes, references, identifiers and types at a time are in need of complaint."""
    for g in spec['igts']:
        ids = [it['id'] for t in g['tiers'] for it in t['items'] if it.get('id')] or ['x']
        for t in g['tiers']:
            if rng.random() < .5:
                t['attrs'] = {k: v for k, v in (t.get('attrs') or {}).items() if k not in REFATTRS}
                for it in t['items']:
                    it['attrs'] = dict(it.get('attrs') or {})
                    for a in rng.sample(REFATTRS, rng.choice([1, 2, 3])):
                        it['attrs'][a] = rng.choice(',+ ').join(rng.choice(ids + ['y', 'z']) for _ in range(rng.choice([1, 2, 4])))


def gen(rng, tier):
    target = gen_job(rng, tier)
    before = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        # the same work on the same or similar input is the likeliest to be confused
        x = rng.random()
        j = copy.deepcopy(target) if x < .45 else gen_job(rng, tier)
        if x < .3:
            vary(rng, j, target)
        if rng.random() < .3:
            j['exc'] = rng.choice(sorted(EXC))
            j['line'] = int(10 ** rng.uniform(0, 4.3))
        before.append(j)
    plan = {'target': target, 'before': before, 'gc': rng.choice(['normal', 'off', 'eager']), 'hs': rng.sample(HASHES, rng.choice([0, 1, 1, 2])),
            'again': rng.random() < .3}
    if rng.random() < .5:
        plan['listing'] = rng.randrange(1 << 30)
    return plan


def vary(rng, j, target):
    """Make the earlier work like the target's, with other contents under the same names."""
    if j['t'] == 'lib':
        j['thread']['spec'] = readops.gen_spec(rng)
        wild(rng, j['thread']['spec'])
        if rng.random() < .5:
            other = copy.deepcopy(j['thread']['spec'])
            edits.gen_edits(rng, cg.Knobs(rng, names_ascii=True), other, 0)
    elif j['t'] == 'query':
        for f in j['plan']['files']:
            f['spec'] = c18.gen_spec(rng, 7)
        rng.shuffle(j['plan']['files'])
    elif 'docs' in j['plan']:
        for d in j['plan']['docs']:
            d['spec'] = cg.gen_corpus(rng, cg.Knobs(rng, names_ascii=True))
            d['enc'] = 'utf-8'


# ------------------------------------------------------------------ work

def plain(v):
    """v as JSON has it, without addresses."""
    if isinstance(v, bytes):
        v = v.decode('latin-1')
    if isinstance(v, str):
        return re.sub(r'\bat (0x[0-9a-f]{6,}|\d{6,})', 'at ADDR', v)
    if isinstance(v, dict):
        return sorted([[plain(str(k)), plain(x)] for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if v is None or isinstance(v, (int, float, bool)):
        return v
    return type(v).__name__


def work(job, ctx, listing=None):
    """Do a piece of work in this process -> what can be seen of it."""
    job = copy.deepcopy(job)
    p = job.get('plan', job)
    p['cfg']['listing'] = listing
    if job['t'] == 'cli':
        if p['op'] not in ('import', 'export') and not p.get('docs'):
            return None
        if p['op'] == 'import' and p['sub']['kind'] != 'odin-dir' and not p['sub']['files']:
            return None
        v = c17.once(p, 'utf-8', ctx)
        if v is not None and p['op'] == 'import' and p['sub']['kind'] == 'odin-dir':
            # the files of a directory are imported in any order; a failure may leave some undone
            v['err'] = sorted(v['err'].splitlines())
            if v['code'] != 0:
                v = {'code': v['code'] != 0}
        return v
    if job['t'] == 'query':
        datas = []
        for f in p['files']:
            d = cg.xml_bytes(f['spec'], random.Random(f['fmt']), f['enc'])
            if f['state'] == 'damage':
                d = c17.damage(d, f['how'], f['at'])
                if d is None:
                    return None
            elif f['state'] == 'json':
                d = b'{"igts": []}'
            datas.append(d)
        fs = c18.build(ctx, p, datas)
        try:
            r = run_cli(ctx, fs, c18.argv(p))
            return {'code': r.code, 'exc': type(r.exc).__name__, 'out': r.out, 'err': c17.neutral(r.err, fs)}
        finally:
            fs.destroy()
    with Env(ctx, p) as fs, fs:
        t = job['thread']
        fs.put('doc0.xml', cg.xml_bytes(t['spec'], None, 'utf-8'))
        fs.put('doc0.json', json.dumps(cg.json_obj(t['spec'])).encode())
        twin = cg.build_corpus(job['spec'])
        try:
            return c08.program(t, 0, fs, None, None, twin, 's')()
        finally:
            del twin


def apart(plan, ctx):
    """The work in a process of its own, with this one's hash seed."""
    res = core.run_isolated(sys.modules[__name__], {'work': plan['target']})
    if res['status'] == 'err':
        raise core.HarnessError(res['msg'])
    return res


def run(plan, ctx):
    if 'work' in plan:
        v = work(plan['work'], ctx, plan.get('listing'))
        ctx.value = [plain(v)]
        return
    if 'target' not in plan:
        return
    base = apart(plan, ctx)
    if base['status'] == 'viol':
        # (no progress is a matter of other properties)
        return
    base = base['value'][0]
    if base is None:
        return
    kind = plan['target']['t'] + ':' + (plan['target'].get('plan') or {}).get('op', '')
    ctx.probe(kind)
    ctx.log('base', kind, len(json.dumps(base)))
    for hs in plan['hs']:
        if hs not in POOL:
            POOL[hs] = Server(hs)
        ctx.fault('hash-seed')
        ctx.nontrivial()
        q = {'work': plan['target']}
        if 'listing' in plan:
            q['listing'] = plan['listing']
        got = POOL[hs].ask(q)
        require(got['status'] == 'ok', 'hash-seed', '{}: with another hash seed: {}'.format(kind, got.get('msg')))
        compare(base, got['value'][0], 'hash-seed', '{}: in a process with another hash seed{}'.format(
            kind, ' and listing order' if 'listing' in plan else ''))
    seen = []
    eager = {'off': gc.disable, 'eager': lambda: gc.set_threshold(3, 2, 2), 'normal': int}[plan['gc']]
    eager()
    try:
        for j in plan['before']:
            ctx.nontrivial()
            quiet = core.Ctx()
            if 'exc' in j:
                o, fired, where = sched.interrupt_at(lambda: work(j, quiet), j['line'], EXC[j['exc']])
                if fired:
                    ctx.fault('interrupt:' + j['exc'])
                seen.append([j['t'], (j.get('plan') or {}).get('op'), fired, where, o.name if not o.ok else 'ok'])
            else:
                o = attempt(work, j, quiet)
                seen.append([j['t'], (j.get('plan') or {}).get('op'), o.name if not o.ok else 'ok'])
        ctx.log('before', seen)
        ctx.mark(kind, seen, plan['gc'], plan['hs'], 'listing' in plan)
        for k in range(2 if plan.get('again') else 1):
            got = plain(must('again', work, plan['target'], ctx, plan.get('listing')))
            compare(base, got, 'history', '{}: after other work {}{}'.format(kind, json.dumps(seen), ' and itself' if k else ''))
    finally:
        gc.set_threshold(700, 10, 10)
        gc.enable()


def compare(base, got, cls, what):
    if base != got:
        a, b = c08.first_diff(got, base)
        require(False, cls, '{}: {!r} instead of {!r}'.format(what, a, b))
