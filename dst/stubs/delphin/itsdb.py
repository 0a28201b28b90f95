"""Stand-in for pyDelphin's itsdb module, as far as the exporter needs it: a
skeleton is a directory with the relations file and the item file."""

import os

FIELDS = ['i-id', 'i-origin', 'i-register', 'i-format', 'i-difficulty', 'i-category', 'i-input', 'i-wf', 'i-length', 'i-comment',
          'i-author', 'i-date']
DEFAULTS = {'i-wf': '1', 'i-length': '0', 'i-difficulty': '1'}


def escape(s):
    return str(s).replace('\\', '\\\\').replace('@', '\\s').replace('\n', '\\n')


def make_skeleton(path, relations, item_rows, gzip=False):
    if not item_rows:
        raise ValueError('No items')
    if not os.path.isdir(path):
        os.mkdir(path)
    with open(relations, 'rb') as fh:
        rel = fh.read()
    with open(os.path.join(path, 'relations'), 'wb') as fh:
        fh.write(rel)
    with open(os.path.join(path, 'item'), 'w', encoding='utf-8') as fh:
        for row in item_rows:
            fh.write('@'.join(escape(row.get(f, DEFAULTS.get(f, ''))) for f in FIELDS) + '\n')
