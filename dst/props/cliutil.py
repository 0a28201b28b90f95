"""Command-line runs with faults placed relative to a fault-free run."""

import random

from .. import corpusgen as cg
from .. import proc, simfs
from ..core import attempt, must, require
from .common import fs_cfg, frac, pos, well_formed

ERRS = ['EIO', 'ENOSPC', 'EACCES', 'EDQUOT', 'EPIPE']


def gen_fault(rng, ops, crash=False):
    """ops: which operations may fail"""
    op = rng.choice(ops)
    if op == 'quota':
        return {'op': 'quota', 'at': frac(rng)}
    do = rng.choice(ERRS)
    if op == 'read':
        do = 'EIO'
    f = {'op': op, 'at': frac(rng), 'do': do, 'sticky': rng.random() < .6}
    if crash:
        f['do'] = rng.choice(['crash', 'crash', 'crash-part'])
        f['part'] = rng.choice([0, 1, 50, 99])
        f['sticky'] = False
        if f['do'] == 'crash-part':
            f['op'] = 'out'
    return f


def arm(fs, fault, base):
    """base: the finished fault-free file system of the same run"""
    if not fault:
        fs.arm()
        return False
    if fault['op'] == 'quota':
        fs.arm(quota=pos(base['written'] + 1, fault['at']))
        return True
    op = fault['op']
    counts = base['counts']
    if op == 'any':
        n = base['nops']
    elif op == 'out':
        n = counts.get('write', 0) + counts.get('stdout', 0)
    else:
        n = counts.get(op, 0)
    if not n:
        fs.arm()
        return False
    f = dict(fault, n=pos(n, fault['at']))
    fs.arm([f])
    return True


def usage(fs):
    return {'counts': dict(fs.counts), 'nops': fs.nops, 'written': fs.written}


def files(fs):
    """Contents of the simulated directory, without the temporary directory
    of the process."""
    return {k: v for k, v in fs.snapshot().items() if k != '.tmp' and not k.startswith('.tmp/')}


def new_fs(ctx, plan):
    return simfs.FS(ctx, random.Random(plan.get('fseed', 0)), plan.get('cfg') or {})


def damage(data, how, at):
    bad = _damage(data, how, at)
    if bad is None or (how != 'html' and well_formed(bad) is None):
        return None
    return bad


def _damage(data, how, at):
    """Make a document unreadable; None if this kind of damage does not
    apply."""
    n = len(data)
    if how == 'truncate':
        # losing only white space after the root is no damage
        end = len(data.rstrip(b'\0 \t\r\n'))
        return data[:pos(end - 1, at)]
    if how == 'junk':
        return data + b'<oops/>'
    if how == 'empty':
        return b''
    if how == 'nuls':
        # the file was extended, but the data never arrived
        return data + b'\0' * (1 + pos(600, at))
    if how == 'zeros':
        # the same length, the last blocks lost
        k = pos(len(data.rstrip(b'\0 \t\r\n')) - 1, at)
        return data[:k] + b'\0' * (n - k)
    if how == 'html':
        return b'<html><body/></html>'
    if how == 'mismatch':
        i = data.rfind(b'</')
        if i < 0:
            return None
        return data[:i] + b'</x>' + data[i:]
    if how == 'badbyte':
        i = pos(n, at)
        return data[:i] + b'\x00\xff' + data[i:]
    raise AssertionError(how)


def argv_log(argv, fs):
    # the directory of the simulated file system has another name in every process
    argv = [a.replace(fs.root, '/sim') for a in argv]
    return [a if len(a) < 60 else a[:60] for a in argv]


def run_cli(ctx, fs, argv):
    r = proc.cli(fs, argv)
    ctx.log('cli', argv_log(argv, fs), r.short(), len(r.out))
    require(not fs.escapes, 'escaped', 'xigt touched {} outside of its directory'.format(fs.escapes[:3]))
    return r
