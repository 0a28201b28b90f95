"""Stand-in for odin-utils' odintxt module (not installed here)."""

import re

_doc = re.compile(r'^doc_id=(\S+)\s+(\d+)\s+(\d+)\s+(.*)$')
_lang = re.compile(r'^language:\s*(.*?)\s*(?:\(([^)]*)\))?\s*$')
_line = re.compile(r'^line=(\d+)\s+tag=([^:]*):(.*)$', re.S)


def odin_blocks(lines):
    block = None
    n = 0
    for line in lines:
        line = line.rstrip('\n')
        if not line.strip():
            if block is not None and (block['lines'] or block['header_lines']):
                yield block
            block = None
            continue
        if block is None:
            n += 1
            block = {'igt_id': 'igt{}'.format(n), 'header_lines': [], 'lines': [], 'language': None, 'iso-639-3': None}
        m = _line.match(line)
        if m:
            block['lines'].append({'content': m.group(3), 'tag': m.group(2), 'line': m.group(1)})
            continue
        block['header_lines'].append(line)
        m = _doc.match(line)
        if m:
            block['doc_id'] = m.group(1)
            block['line_range'] = m.group(2) + ' ' + m.group(3)
            block['line_types'] = m.group(4)
            block['igt_id'] = 'igt{}-{}'.format(m.group(1), n)
            continue
        m = _lang.match(line)
        if m:
            block['language'] = m.group(1)
            block['iso-639-3'] = m.group(2)
    if block is not None and (block['lines'] or block['header_lines']):
        yield block
