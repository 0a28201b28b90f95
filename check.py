#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough]       run the check of one property
check.py --replay FILE [--log]               re-execute a recorded violation
check.py ID --show INDEX                     print the plan of a run and execute it

Exit status: 0 the property held in every run; 1 a violation (with a line
VIOLATION property=<id> replay=<path>); 2 the machinery itself failed."""

import argparse
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
SHARDS = 8
WALL = {'quick': 850, 'thorough': 850}
NEWRUNS = {'quick': 300, 'thorough': 700}    # no new run is started later than this
MINIMISE = 50


def setup_import():
    repo = os.environ.get('XIGT_DST_REPO', '/repo')
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(os.environ.get('XIGT_DST_SCRATCH', '/nonexistent'), 'nopyc')
    sys.path[:] = [p for p in sys.path if p not in ('', repo)]
    sys.path.insert(0, repo)
    if HERE not in sys.path:
        sys.path.insert(1, HERE)
    # stand-ins for libraries the importers and exporters need; the real ones,
    # should they ever be installed, are not used
    sys.path.insert(1, os.path.join(HERE, 'dst', 'stubs'))
    os.environ['LC_ALL'] = 'C.UTF-8'
    # import the code under test once; every run is forked from this state
    for m in ('xigt', 'xigt.main', 'xigt.codecs.xigtxml', 'xigt.codecs.xigtjson', 'xigt.query', 'xigt.xigtpath', 'xigt.ref',
              'xigt.exporters.latex', 'xigt.exporters.itsdb', 'xigt.importers.toolbox', 'xigt.importers.odin',
              'xigt.scripts.xigt_validate'):
        try:
            importlib.import_module(m)
        except Exception:
            pass


def load_prop(pid):
    setup_import()
    return importlib.import_module('dst.props.' + pid.lower())


def hashseed(seed, shard):
    h = hashlib.blake2b('{}/{}'.format(seed, shard).encode(), digest_size=4)
    return int.from_bytes(h.digest(), 'big')


def child_env(scratch, hs):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env['PYTHONHASHSEED'] = str(hs)
    env['PYTHONUTF8'] = '1'
    env['XIGT_DST_SCRATCH'] = scratch
    return env


# ------------------------------------------------------------------ shard

def shard_main(a):
    prop = load_prop(a.id)
    getattr(prop, 'setup', int)()
    from dst import core
    t0 = time.monotonic()
    n = a.runs
    out = {'runs': 0, 'nontrivial': 0, 'sigs': [], 'faults': {}, 'probes': {}, 'steps': 0, 'events': 0,
           'viol': [], 'errs': [], 'samples': [], 'digest': None, 'stopped_early': False}
    sigs = set()
    dig = hashlib.blake2b(digest_size=12)
    for i in range(a.shard, n, SHARDS):
        if time.monotonic() - t0 > NEWRUNS[a.tier]:
            out['stopped_early'] = True
            break
        try:
            plan = prop.gen(core.rng_for(prop.ID, a.seed, i), a.tier)
            # the plan must survive being written out
            plan = json.loads(json.dumps(plan))
        except Exception:
            import traceback
            out['errs'].append({'run': i, 'msg': 'gen: ' + traceback.format_exc()[-3000:]})
            if len(out['errs']) > 3:
                break
            continue
        res = core.run_isolated(prop, plan)
        out['runs'] += 1
        out['steps'] += res['steps']
        out['events'] += res['events']
        dig.update('{}:{}:{}\n'.format(i, res['status'], res['digest']).encode())
        for k, v in res['faults'].items():
            out['faults'][k] = out['faults'].get(k, 0) + v
        for k, v in res['probes'].items():
            out['probes'][k] = out['probes'].get(k, 0) + v
        if not res['trivial']:
            out['nontrivial'] += 1
            sigs.add(res['sig'])
        if len(out['samples']) < 1 and not res['trivial'] and res['status'] == 'ok':
            s = json.dumps(plan, sort_keys=True)
            out['samples'].append({'run': i, 'digest': res['digest'], 'events': res['events'],
                                   'faults': res['faults'], 'plan': plan if len(s) < 6000 else s[:6000] + '...'})
        if res['status'] == 'viol':
            if len(out['viol']) < 6 and not any(v['cls'] == res['cls'] for v in out['viol']):
                out['viol'].append({'run': i, 'cls': res['cls'], 'msg': res['msg'], 'plan': plan,
                                    'digest': res['digest'], 'tail': res.get('tail')})
            # one violation decides the verdict: look a little further for
            # other classes, then stop
            if len(out['viol']) >= 3 or i - out['viol'][0]['run'] > 40 * SHARDS:
                break
        elif res['status'] == 'err':
            out['errs'].append({'run': i, 'msg': res['msg']})
            if len(out['errs']) > 3:
                break
    out['sigs'] = sorted(sigs)
    out['digest'] = dig.hexdigest()
    out['wall'] = time.monotonic() - t0
    with open(a.out, 'w') as fh:
        json.dump(out, fh)
    return 0


def serve_main(a):
    """Run plans given on standard input, each in a process of its own, and give the results back: a pool of processes
    with other hash seeds."""
    prop = load_prop(a.id)
    from dst import core
    src = os.fdopen(os.dup(0), 'rb')
    dst = os.fdopen(os.dup(1), 'wb')
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    for line in src:
        res = core.run_isolated(prop, json.loads(line.decode()))
        dst.write(json.dumps(res).encode() + b'\n')
        dst.flush()
    return 0


def minimise_main(a):
    prop = load_prop(a.id)
    getattr(prop, 'setup', int)()
    from dst import core
    with open(a.out) as fh:
        v = json.load(fh)
    best, trials = core.minimise(prop, v['plan'], v, time.monotonic() + MINIMISE)
    res = core.run_isolated(prop, best)
    v['orig_plan'] = v['plan']
    if core.same_failure(res, v):
        v['plan'], v['msg'], v['digest'], v['tail'] = best, res['msg'], res['digest'], res.get('tail')
    v['trials'] = trials
    with open(a.out, 'w') as fh:
        json.dump(v, fh)
    return 0


# ----------------------------------------------------------------- replay

def replay_main(a):
    with open(a.replay) as fh:
        r = json.load(fh)
    want = str(r['hashseed'])
    if os.environ.get('PYTHONHASHSEED') != want:
        scratch = tempfile.mkdtemp(prefix='xigt-replay-', dir=scratch_root())
        try:
            cmd = [PY, '-B', os.path.abspath(__file__), '--replay', os.path.abspath(a.replay)]
            if a.log:
                cmd.append('--log')
            return subprocess.call(cmd, env=child_env(scratch, want))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    prop = load_prop(r['property'])
    from dst import core
    res = core.run_isolated(prop, r['plan'], keep_log=a.log)
    if a.log:
        for line in res.get('log', []):
            print(line)
    if res['status'] == 'err':
        print(res['msg'])
        return 2
    if res['status'] == 'ok':
        print('REPLAY-OK property={} digest={}'.format(r['property'], res['digest']))
        return 0
    print('{}: {}'.format(res['cls'], res['msg']))
    same = 'same' if res['digest'] == r.get('digest') and res['cls'] == r.get('class') else 'DIFFERENT'
    print('REPLAY property={} class={} digest={} ({} as recorded)'.format(
        r['property'], res['cls'], res['digest'], same))
    return 1


# ------------------------------------------------------------------- main

def scratch_root():
    return '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()


def known_findings(pid):
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as fh:
            k = json.load(fh)
    except OSError:
        return []
    return [x for x in k.get('findings', []) if x['property'] == pid]


def is_known(v, known):
    import re
    for k in known:
        if k['class'] == v['cls'] and re.search(k['message'], v['msg']):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--log', action='store_true')
    ap.add_argument('--shard', type=int)
    ap.add_argument('--minimise', action='store_true')
    ap.add_argument('--serve', action='store_true')
    ap.add_argument('--seed', type=int)
    ap.add_argument('--runs', type=int)
    ap.add_argument('--out')
    ap.add_argument('--show', type=int)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    if a.seed is None:
        try:
            a.seed = int(os.environ.get('VERIF_SEED') or 1)
        except ValueError:
            a.seed = 1
    if a.replay:
        return replay_main(a)
    if a.serve:
        return serve_main(a)
    if a.minimise:
        return minimise_main(a)
    if a.shard is not None:
        return shard_main(a)
    if a.show is not None:
        return show_main(a)
    return check_main(a)


def show_main(a):
    shard = a.show % SHARDS
    want = str(hashseed(a.seed, shard))
    if os.environ.get('PYTHONHASHSEED') != want:
        scratch = tempfile.mkdtemp(prefix='xigt-show-', dir=scratch_root())
        try:
            return subprocess.call([PY, '-B', os.path.abspath(__file__), a.id, '--tier', a.tier, '--seed', str(a.seed),
                                    '--show', str(a.show)] + (['--log'] if a.log else []), env=child_env(scratch, want))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    prop = load_prop(a.id)
    from dst import core
    plan = json.loads(json.dumps(prop.gen(core.rng_for(prop.ID, a.seed, a.show), a.tier)))
    print(json.dumps(plan, ensure_ascii=False)[:8000])
    res = core.run_isolated(prop, plan, keep_log=a.log)
    for line in res.pop('log', []):
        print(line)
    msg = res.pop('msg', '')
    print(json.dumps(res, ensure_ascii=False))
    print(msg)
    return 0 if res['status'] == 'ok' else 1


def check_main(a):
    t0 = time.monotonic()
    prop = load_prop(a.id)
    runs = a.runs or prop.RUNS[a.tier]
    scratch = tempfile.mkdtemp(prefix='xigt-check-', dir=scratch_root())
    procs = []
    code = 2

    def stop(*_):
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(2)
    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(WALL[a.tier])
    try:
        base = [PY, '-B', os.path.abspath(__file__), a.id, '--tier', a.tier, '--seed', str(a.seed)]
        outs = []
        for s in range(SHARDS):
            o = os.path.join(scratch, 'shard{}.json'.format(s))
            outs.append(o)
            procs.append(subprocess.Popen(base + ['--shard', str(s), '--runs', str(runs), '--out', o],
                                          env=child_env(scratch, hashseed(a.seed, s)), stdout=subprocess.DEVNULL,
                                          stderr=open(o + '.err', 'w'), start_new_session=True))
        results = []
        errs = []
        for s, p in enumerate(procs):
            p.wait()
            try:
                with open(outs[s]) as fh:
                    results.append(json.load(fh))
            except (OSError, ValueError):
                with open(outs[s] + '.err') as fh:
                    errs.append({'run': -1, 'msg': 'shard {} died ({}): {}'.format(s, p.returncode, fh.read()[-3000:])})
        for r in results:
            errs.extend(r['errs'])
        known = known_findings(a.id)
        viols, seen_known = [], {}
        for r in results:
            for v in r['viol']:
                k = is_known(v, known)
                if k is not None:
                    seen_known[k['what']] = 1
                else:
                    viols.append(v)
        viols.sort(key=lambda v: v['run'])
        for k in known:
            print('KNOWN-FINDING: property={} {}'.format(a.id, k['what']))
        reported = []
        if viols:
            v = viols[0]
            reported.append(report(a, v, scratch, base))
            others = {}
            for w in viols[1:]:
                if w['cls'] != v['cls']:
                    others.setdefault(w['cls'], w)
            for w in others.values():
                print('also: run {} {}: {}'.format(w['run'], w['cls'], w['msg'][:300]))
            code = 1
        elif errs:
            code = 2
        else:
            code = 0
        for e in errs[:4]:
            print('HARNESS-ERROR run={} {}'.format(e['run'], e['msg']), file=sys.stderr)
        evidence(a, prop, results, viols, errs, time.monotonic() - t0)
        tot = sum(r['runs'] for r in results)
        print('{} {} seed={} runs={} violations={} errors={} wall={:.1f}s'.format(
            a.id, a.tier, a.seed, tot, len(viols), len(errs), time.monotonic() - t0))
        return code
    finally:
        signal.alarm(0)
        shutil.rmtree(scratch, ignore_errors=True)


def report(a, v, scratch, base):
    hs = hashseed(a.seed, v['run'] % SHARDS)
    f = os.path.join(scratch, 'min.json')
    with open(f, 'w') as fh:
        json.dump(v, fh)
    if not os.environ.get('XIGT_DST_NOMIN'):
        try:
            subprocess.call(base + ['--minimise', '--out', f], env=child_env(scratch, hs), timeout=MINIMISE + 200,
                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            with open(f) as fh:
                v = json.load(fh)
        except (subprocess.TimeoutExpired, ValueError):
            pass
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '{}-{}-{}.json'.format(a.id, a.seed, v['run']))

    def write(plan):
        with open(path, 'w') as fh:
            json.dump({'property': a.id, 'class': v['cls'], 'msg': v['msg'], 'seed': a.seed, 'run': v['run'],
                       'hashseed': hs, 'digest': v['digest'], 'tail': v.get('tail'), 'plan': plan}, fh,
                      indent=1)

    def confirmed():
        try:
            return subprocess.call([PY, '-B', os.path.abspath(__file__), '--replay', path],
                                   env=child_env(scratch, hs), stdout=subprocess.DEVNULL,
                                   stderr=subprocess.DEVNULL, timeout=200) == 1
        except subprocess.TimeoutExpired:
            return False
    write(v['plan'])
    ok = confirmed()
    if not ok and 'orig_plan' in v:
        write(v['orig_plan'])
        ok = confirmed()
    print('{}: {}'.format(v['cls'], v['msg'][:1500]))
    if not ok:
        print('(the replay in a fresh process did not show the violation again)')
    print('VIOLATION property={} replay={}'.format(a.id, path), flush=True)
    return path


def evidence(a, prop, results, viols, errs, wall):
    if a.no_evidence:
        return
    faults, probes, sigs = {}, {}, set()
    tot = {k: 0 for k in ('runs', 'nontrivial', 'steps', 'events')}
    samples = []
    dig = hashlib.blake2b(digest_size=12)
    for r in results:
        for k in tot:
            tot[k] += r[k]
        for src, dst in ((r['faults'], faults), (r['probes'], probes)):
            for k, n in src.items():
                dst[k] = dst.get(k, 0) + n
        sigs.update(r['sigs'])
        if len(samples) < 3:
            samples.extend(r['samples'])
        dig.update(r['digest'].encode())
    ev = {
        'property': a.id, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': tot['runs'],
            'distinct_nontrivial': len(sigs),
            'rule': prop.RULE,
            'samples': samples or ['no run completed'],
            'nontrivial_runs': tot['nontrivial'],
            'runs_per_hour': int(tot['runs'] / wall * 3600) if wall else 0,
            'seeds_per_hour': int(tot['runs'] / wall * 3600) if wall else 0,
            'simulated_time': '{} logical steps (loop iterations and calls inside xigt), {} recorded events; xigt has '
                              'no clock or timers, so simulated time is counted in steps'.format(tot['steps'], tot['events']),
            'faults_injected': faults,
            'situations_reached': probes,
            'components_real': prop.REAL,
            'components_stubbed': prop.STUB,
            'history_digest': dig.hexdigest(),
            'stopped_early': any(r['stopped_early'] for r in results),
            'harness_errors': len(errs),
        },
        'assumptions': getattr(prop, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': len(viols),
    }
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, a.id + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, ensure_ascii=True)


if __name__ == '__main__':
    sys.exit(main())
