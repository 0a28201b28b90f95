"""Stand-in for goodmami/toolbox (not installed here), as far as the importer
needs it."""

import re
import warnings


class ToolboxError(Exception):
    pass


class ToolboxAlignmentError(ToolboxError):
    pass


class ToolboxWarning(Warning):
    pass


class ToolboxAlignmentWarning(ToolboxWarning):
    pass


def read_toolbox_file(lines, strip=True):
    mkr, parts = None, []
    for line in lines:
        line = line.rstrip('\n')
        if line.startswith('\\'):
            if mkr is not None:
                yield (mkr, '\n'.join(parts))
            m = re.match(r'(\\\S*)\s?(.*)$', line, re.S)
            mkr, parts = m.group(1), [m.group(2)]
        elif mkr is not None:
            if line.strip():
                parts.append(line)
    if mkr is not None:
        yield (mkr, '\n'.join(parts))


def records(pairs, record_markers):
    context = dict((m, None) for m in record_markers)
    data = []
    for mkr, val in pairs:
        if mkr in context:
            if data:
                yield (dict(context), data)
            data = []
            context[mkr] = val.strip() or ('' if mkr == record_markers[-1] else None)
            i = record_markers.index(mkr)
            for m in record_markers[i + 1:]:
                context[m] = None
        else:
            data.append((mkr, val))
    if data:
        yield (dict(context), data)


def normalize_record(pairs, markers, strip=True):
    order, lines = [], {}
    for mkr, val in pairs:
        if mkr not in lines:
            lines[mkr] = []
            order.append(mkr)
        lines[mkr].append(val)
    blocks = max([len(lines[m]) for m in order if m in markers] or [0])
    widths = []
    for k in range(blocks):
        widths.append(max([len(lines[m][k]) for m in order if m in markers and k < len(lines[m])] or [0]))
    for mkr in order:
        if mkr in markers:
            parts = [(lines[mkr][k] if k < len(lines[mkr]) else '').ljust(widths[k]) for k in range(blocks)]
            s = ' '.join(parts)
            yield (mkr, s.strip() if strip else s)
        else:
            yield (mkr, ' '.join(x.strip() for x in lines[mkr]) or None)


def align_fields(pairs, alignments=None, errors='strict'):
    alignments = alignments or {}
    aligned = set(alignments) | set(alignments.values())
    prev = {}
    for mkr, line in pairs:
        if line is None:
            yield (mkr, [(None, None)])
            continue
        if mkr not in aligned:
            yield (mkr, [(line, [line])])
            continue
        toks = [(m.start(), m.end(), m.group()) for m in re.finditer(r'\S+', line)]
        prev[mkr] = toks
        tgt = alignments.get(mkr)
        if tgt is None:
            yield (mkr, [(line.strip(), [t[2] for t in toks])])
            continue
        if tgt not in prev:
            raise ToolboxAlignmentError('Marker {} is not found before {}'.format(tgt, mkr))
        cols = prev[tgt]
        out = [(c[2], []) for c in cols]
        for a, b, t in toks:
            k = None
            for n, c in enumerate(cols):
                end = cols[n + 1][0] if n + 1 < len(cols) else 1 << 30
                if c[0] <= a < end:
                    k = n
                    if b > end:
                        if errors == 'strict':
                            raise ToolboxAlignmentError('Misaligned token {}'.format(t))
                        warnings.warn('Misaligned token', ToolboxAlignmentWarning)
                        if errors == 'ratio' and (end - a) * 2 < b - a:
                            k = n + 1
                    break
            if k is None:
                if errors == 'strict' or not cols:
                    raise ToolboxAlignmentError('Token {} precedes everything'.format(t))
                k = 0
            out[k][1].append(t)
        yield (mkr, out)
