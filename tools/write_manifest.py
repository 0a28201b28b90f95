#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.json."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NOTE = {
 'C01': 'seeded search; corpora up to 6 IGTs (some padded past the read buffers), 1 fault per write',
 'C02': 'seeded search; chains of up to 5 conversions, 1 fault per write',
 'C03': 'seeded search over delivery patterns and document spellings; look-ahead bound 2 read blocks',
 'C04': 'seeded search over truncations, corruptions and read failures',
 'C05': 'seeded search over schedules of up to some 25 steps of interleaved passes',
 'C06': 'seeded search over edit histories against a list-plus-dict reference model',
 'C07': 'seeded search over edit/rename/refresh histories; interrupts at any executed line',
 'C08': 'seeded search over interleavings of 2-4 threads at lines, calls and returns; bytecode-level interleavings within a line not explored',
 'C09': 'seeded search over operation sequences with interrupts at any executed line of the library',
 'C10': 'seeded search over schedules of several open traversals on acyclic and cyclic reference graphs',
 'C11': 'seeded search; crash, power loss or error at any file operation; at most 2 faults per run',
 'C12': 'seeded search; at most 2 faults per run',
 'C13': 'seeded search over batches of up to 4 files',
 'C14': 'seeded search over refusals, failures and handle histories',
 'C15': 'seeded search; the parsing libraries toolbox and odintxt are not installed and are stubbed',
 'C16': 'seeded search; the delphin library is not installed and is stubbed',
 'C17': 'seeded search; the default encoding is simulated at the open() seam and the standard streams',
 'C18': 'seeded search over batches of files and actions',
 'C19': 'seeded search over pieces of work, up to 3 earlier pieces of work, 4 other hash seeds besides the one of the shard',
 'C21': 'seeded search; corpora that differ in at most a few places plus histories of up to 10 edits, comparisons and loading steps',
 'C20': 'seeded search over histories of up to 30 edits, lookups and loading steps',
}
TECH = {
 'C08': 'deterministic simulation: real threads under a seeded line-granular scheduler, compared with solo runs',
}
NA = {
 'C30': 'alignment-expression functions are pure functions of one string: no scheduling, I/O, fault, crash, clock or history for a simulator to decide; simulating them would be plain input generation',
 'C31': 'resolving an expression is a pure function of a tier and a string; its dependence on histories and schedules is decided under C07, C08 and C10',
 'C32': 'the denotation of a path query is a pure function of corpus and query; its dependence on schedules, lazy loading and other queries is decided under C05, C09, C10 and C18',
 'C33': 'advisory findings are a pure function of the corpus; what depends on I/O, batches and damage is decided under C13',
}
man = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]}
for pid in sorted(NOTE):
    if not os.path.exists(os.path.join(HERE, 'dst', 'props', pid.lower() + '.py')):
        continue
    man['checks'].append({
        'property': pid,
        'quick_cmd': '{} -B check.py {} --tier quick'.format(PY, pid),
        'thorough_cmd': '{} -B check.py {} --tier thorough'.format(PY, pid),
        'technique': TECH.get(pid, 'deterministic simulation with seeded schedules and fault injection, checked against a reference model'),
        'level': 'exploration', 'level_note': NOTE[pid]})
have = set(c['property'] for c in man['checks'])
for pid in sorted(NOTE):
    if pid not in have:
        man['not_applicable'].append({'property': pid, 'reason': 'check not built yet'})
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

MAP = open(os.path.join(HERE, 'tools', 'fixes.txt')).read().splitlines()
log = dict((l.split(' ', 1)[1], l.split(' ', 1)[0]) for l in subprocess.run(
    ['git', '-C', '/repo', 'log', '--format=%h %s', '--abbrev=10'], capture_output=True, text=True).stdout.splitlines())
fixed = []
for l in MAP:
    if not l.strip():
        continue
    props, subj = l.split(' ', 1)
    h = log.pop('fix: ' + subj)
    for q in props.split('/'):
        fixed.append('fixed: property={} {} {}'.format(q, h, subj))
rest = [s for s in log if s.startswith('fix:')]
assert not rest, rest
json.dump({'findings': [], 'fixed': fixed}, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
print(len(man['checks']), 'checks', len(fixed), 'fixed entries')
