#!/opt/venv/bin/python
"""Self-test of the simulator: the same seed gives the same execution.

For every check, N runs are executed twice: in ascending order in one process,
and in descending order in another with its own memory layout, while all cores
are busy with other checks. The digest of a run - over every event the run
logs: system calls, faults, schedule decisions, outcomes - has to be the same.

selftest.py [N] [ID ...]"""
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

if sys.argv[1:2] == ['--one']:
    sys.path.insert(0, HERE)
    import check
    pid, n, order = sys.argv[2], int(sys.argv[3]), sys.argv[4]
    prop = check.load_prop(pid)
    from dst import core
    if hasattr(prop, 'setup'):
        prop.setup()
    out = {}
    for i in sorted(range(n), reverse=order == 'down'):
        plan = json.loads(json.dumps(prop.gen(core.rng_for(pid, 7, i), 'quick')))
        r = core.run_isolated(prop, plan)
        out[i] = [r['digest'], r['status'], r.get('msg')]
    print(json.dumps(out))
    sys.stdout.flush()
    os._exit(0)


def one(pid, n, order):
    env = dict(os.environ, PYTHONHASHSEED='5', SOME_PADDING='x' * (4096 if order == 'down' else 1))
    p = subprocess.run([PY, '-B', os.path.abspath(__file__), '--one', pid, str(n), order], capture_output=True, env=env)
    if p.returncode:
        raise SystemExit(p.stderr.decode())
    return json.loads(p.stdout.decode().splitlines()[-1])


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    ids = sys.argv[2:] or ['C%02d' % k for k in range(1, 100) if os.path.exists(os.path.join(HERE, 'dst', 'props', 'c%02d.py' % k))]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        jobs = {p: (ex.submit(one, p, n, 'up'), ex.submit(one, p, n, 'down')) for p in ids}
        for p, (a, b) in jobs.items():
            a, b = a.result(), b.result()
            diff = [i for i in a if a[i] != b[i]]
            bad += bool(diff)
            print(p, 'the same' if not diff else 'DIFFERENT in runs {}'.format(diff[:10]), '({} runs twice)'.format(len(a)), flush=True)
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
