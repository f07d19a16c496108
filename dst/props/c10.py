"""C10: loading gives the stored network or an error."""
import bz2
import errno
import gzip
import io
import json
import os
import pickle
import sys

from .. import core, fs, gen
from ..core import Violation
from . import app

NAMES = [['T%d'], ['t%d'], ['%d'], ['tensor-%d'], ['Γ%d', 'é%d', '張%d']]
ERRNOS = [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOMEM, errno.EISDIR]


def prepare():
    import cirq  # noqa
    import tnco.utils.circuit  # noqa
    from cirq.contrib.qasm_import import circuit_from_qasm  # noqa


def index_rows(ch):
    """Rows of a list of indices and the network they stand for."""
    net = gen.network(ch, min_tensors=1, max_tensors=8, names=['int'],
                      sparse=ch.chance('sparse', 1, 4), hyper=True)
    fmt = ch.pick('tnames', NAMES)
    rows, i = [], 0
    where = {}
    for t, xs in enumerate(net.ts):
        for x in xs:
            where.setdefault(x, []).append(fmt[t % len(fmt)] % t)
    for x in ch.shuffle('rows', net.inds()):
        row = [net.dims[x], *where[x]]
        if x in net.out:
            row.insert(1 + ch.draw('star', len(row)), '*')
        if x in net.sparse:
            row.insert(1 + ch.draw('slash', len(row)), '/')
        rows.append(row)
        i += 1
    return net, rows


def model_of(rows):
    ts, dims, out, sparse = {}, {}, set(), set()
    for i, (d, *names) in enumerate(rows):
        dims[i] = d
        for n in names:
            if n == '*':
                out.add(i)
            elif n == '/':
                sparse.add(i)
            else:
                ts.setdefault(n, []).append(i)
    return ([tuple(xs) for xs in ts.values()], dims, frozenset(out),
            frozenset(sparse), list(ts))


def index_text(ch, rows, big=0):
    nl = ch.pick('nl', ['\n', '\n', '\r\n'])
    out = []
    for r in rows:
        if ch.chance('comment', 1, 8):
            out.append(ch.pick('c', ['# a comment', '', '#2 a b', '#é']))
        sep = ch.pick('sep', [' ', ' ', '\t', '  '])
        out.append(sep.join(map(str, r)))
    if big:
        out.insert(ch.draw('where', len(out) + 1), '#' + 'x' * big)
    return nl.join(out) + (nl if ch.chance('final', 3, 4) else '')


ONEQ = ['h', 'x', 'y', 'z', 's', 't']


def qasm(ch):
    n = ch.int('qn', 1, 4)
    ls = ['// a circuit'] if ch.chance('qc', 1, 3) else []
    ls += ['OPENQASM 2.0;', 'include "qelib1.inc";', 'qreg q[%d];' % n]
    for _ in range(ch.int('qg', 1, 8)):
        if n > 1 and ch.chance('q2', 1, 2):
            a, b = ch.shuffle('qq', range(n))[:2]
            ls.append('%s q[%d],q[%d];' % (ch.pick('g2', ['cx', 'cz', 'swap']),
                                           a, b))
        else:
            ls.append('%s q[%d];' % (ch.pick('g1', ONEQ), ch.draw('q', n)))
    return '\n'.join(ls) + '\n'


def cirq_json(ch):
    import cirq
    n = ch.int('qn', 1, 4)
    qs = ch.pick('kind', [cirq.LineQubit.range(n),
                          [cirq.NamedQubit('é%d' % i) for i in range(n)],
                          cirq.GridQubit.rect(1, n)])
    c = cirq.Circuit()
    for _ in range(ch.int('qg', 1, 8)):
        if n > 1 and ch.chance('q2', 1, 2):
            a, b = ch.shuffle('qq', range(n))[:2]
            c.append(ch.pick('g2', [cirq.CX, cirq.CZ, cirq.SWAP])(qs[a],
                                                                 qs[b]))
        else:
            c.append(ch.pick('g1', [cirq.H, cirq.X, cirq.Y, cirq.S, cirq.T])(
                qs[ch.draw('q', n)]))
    return cirq.to_json(c, indent=ch.pick('ind', [2, None, 0]))


def compress(ch, how, data):
    for h in how.split('+'):
        if h == 'gzip':
            if ch.chance('gzname', 1, 3):
                b = io.BytesIO()
                with gzip.GzipFile('net.txt', 'wb', ch.int('lvl', 0, 9), b,
                                   mtime=ch.draw('mtime', 1000)) as f:
                    f.write(data)
                data = b.getvalue()
            else:
                data = gzip.compress(data, ch.int('lvl', 0, 9), mtime=0)
        elif h == 'bz2':
            data = bz2.compress(data, ch.int('lvl', 1, 9))
        elif h in ('mgzip', 'mbz2'):
            k = ch.draw('split', len(data) + 1)
            f = (lambda d: gzip.compress(d, mtime=0)) if h == 'mgzip' else \
                bz2.compress
            data = f(data[:k]) + f(data[k:])
    return data


def decoded(data):
    """What load_file stands for (after decompression)."""
    try:
        t = data.decode('utf-8')
    except UnicodeDecodeError:
        return data
    try:
        return json.loads(t)
    except json.JSONDecodeError:
        return t


def same(a, b):
    return type(a) is type(b) and (a == b or repr(a) == repr(b))


def tn_key(tn):
    return (app.result_key(tn, ()), repr(sorted(map(repr, tn.sparse_inds or
                                                    ()))),
            [repr(t.tags) for t in tn.tensors], repr(tn.tags))


def run(ctx):
    from tnco.app.app import load_file, load_tn
    ch = ctx.ch
    kind = ch.pick('kind', ['index', 'index', 'json-index', 'cirq', 'qasm',
                            'result-json', 'result-raw', 'binary', 'text',
                            'index'])
    big = ch.pick('big', [0, 0, 0, 300, 9000, 70000])
    loadable = kind in ('index', 'json-index', 'cirq', 'qasm')
    jsonlike = kind in ('json-index', 'cirq', 'result-json')
    rows = None
    if kind in ('index', 'json-index'):
        net, rows = index_rows(ch)
        if kind == 'index':
            text = index_text(ch, rows, big)
        else:
            text = json.dumps(rows, indent=ch.pick('ind', [None, 2, 0]),
                              ensure_ascii=ch.chance('ascii', 1, 2))
        data = text.encode()
    elif kind == 'cirq':
        text = cirq_json(ch)
        data = text.encode()
    elif kind == 'qasm':
        text = qasm(ch)
        data = text.encode()
    elif kind.startswith('result'):
        net, tn0 = app.net_and_tn(ch, max_tensors=6, names=['str', 'int'])
        ctor = dict(n_jobs=1, seed=ch.draw('seed', 99), max_width=ch.pick(
            'mw', [None, 3]), output_format=kind.split('-')[1])
        _, r = ctx.sim(lambda: app.optimize(tn0, ctor, dict(
            betas=(0, 10), n_steps=2, n_runs=2)))
        data = r.encode() if isinstance(r, str) else pickle.dumps(r)
    elif kind == 'text':
        data = (ch.pick('txt', ['hello', 'Γαμμα ', '{"a": ', '[1, 2', 'NaNo',
                                ' \n', '"abc', 'nul', '']) +
                'é' * ch.draw('é', 3) + 'x' * big).encode()
        if ch.chance('jsonvalue', 1, 4):
            data = json.dumps(ch.pick('v', [{'a': [1, 2.5, None]}, 'a string',
                                            [], True])).encode()
            jsonlike = True
    else:
        data = ch.pick('head', [b'\x80\x04\x95', b'\xff\xfe', b'\x00\x01\xfe',
                                b'caf\xe9', b'{"a": "\xff"}', b'\xc3', b'\x89']
                       ) + bytes(ch.draw('byte', 256) for _ in range(
                           ch.draw('nb', 20))) + b'\xfe' * big
    how = ch.pick('compr', ['none', 'gzip', 'bz2', 'none', 'gzip', 'bz2',
                            'gzip+bz2', 'bz2+gzip', 'gzip+gzip', 'mgzip',
                            'mbz2'])
    if kind in ('text', 'binary') and data[:2] in (b'\x1f\x8b', b'BZ'):
        data = b'\xff' + data
    stored = compress(ch, how, data)
    fault = ch.pick('fault', ['none', 'none', 'none', 'eio', 'open', 'trunc',
                              'trunc', 'flip', 'flip', 'missing'])
    how_ld = 'load_file'
    if loadable:
        how_ld = ch.pick('access', ['load_tn', 'load_tn', 'stdin', 'load_file',
                                    'optimize', 'load_tn'])
    if how_ld == 'stdin':
        stored, how = data, 'none'
        if fault in ('open', 'missing'):
            fault = 'none'
    cut = None
    if fault == 'trunc':
        if how == 'none' and not jsonlike or how.startswith('m') or \
                len(stored) < 3:
            fault = 'none'
        else:
            # nothing but the magic number tells that a file is compressed
            lo = 0 if how == 'none' else 2
            cut = lo + ch.draw('cut', len(stored) - lo) if \
                ch.chance('anycut', 3, 4) else \
                len(stored) - 1 - ch.draw('tailcut', min(len(stored) - lo, 12))
            if how == 'none' and data[:cut].strip() == data.strip():
                fault = 'none'
    magic = False
    if fault == 'flip' and how == 'none':
        fault = 'none'
    if fault == 'flip':
        b = bytearray(stored)
        for _ in range(ch.pick('nflip', [1, 1, 2, 5])):
            k = ch.draw('flip', len(b))
            b[k] ^= 1 + ch.draw('bits', 255)
            magic |= k < 2
        magic |= bytes(b[:2]) != stored[:2]
        changed = bytes(b) != stored
        stored = bytes(b)
        ctx.counters['fault:damaged-bytes'] += 1
    elif fault == 'trunc':
        stored = stored[:cut]
        ctx.counters['fault:truncated'] += 1
    kw = dict(fuse=ch.pick('fuse', [4, 0, 2, None]), seed=ch.draw('s', 99),
              decompose_hyper_inds=not ch.chance('nodec', 1, 3))
    name = ch.pick('fname', ['net.txt', 'net.json', 'net.gzip', 'n.bz2', 'net',
                             'a b.gz', 'é.txt', 'x.tar.bz2'])
    short = ch.chance('short', 1, 2)
    eio = ch.draw('eio', len(stored) + 1) if fault == 'eio' else None
    oerr = ch.pick('oerr', ERRNOS) if fault == 'open' else None
    earlier = None
    if how_ld != 'stdin' and ch.chance('earlier', 1, 3):
        # the same file held something else when it was loaded before
        old = ch.pick('old', [b'2 a b\n3 b c\n', b'"old"', b'', b'4 a x y\n#'])
        earlier = old + b' ' * max(0, len(stored) - len(old))
        ctx.counters['fault:replaced-file'] += 1
    ctx.note(kind, how, how_ld, 'fault', fault, 'cut', cut, 'eio', eio, kw,
             'earlier', None if earlier is None else earlier[:20],
             'name', name)
    ctx.note('content', data[:1500])
    octor = dict(n_jobs=1, seed=kw['seed'])
    oopt = dict(betas=(0, 10), n_steps=2, n_runs=2, fuse=kw['fuse'],
                decompose_hyper_inds=kw['decompose_hyper_inds'])

    if rows is not None and any('/' in r for r in rows):
        oopt['n_projs'] = 3

    def build(obj):
        if how_ld == 'optimize':
            return app.optimize(obj, octor, oopt)
        return load_tn(obj, **kw)

    def key(x):
        if how_ld == 'optimize':
            return tn_key(x[0]), app.result_key(*x)
        return tn_key(x)

    # from memory
    ref = None
    if how_ld != 'load_file':
        _, ref = ctx.sim(lambda: build(text.strip() if how_ld == 'stdin' else
                                       text))
        ref = key(ref)
    if rows is not None:
        want = model_of(rows)
        _, m = ctx.sim(lambda: load_tn(text, fuse=0,
                                       decompose_hyper_inds=False))
        got = ([tuple(t.inds) for t in m.tensors], dict(m.dims),
               frozenset(m.output_inds), frozenset(m.sparse_inds or ()),
               [t.tags['name'] for t in m.tensors])
        if got != want:
            raise Violation('parsed-differently', '%r instead of %r' % (got,
                                                                       want))

    def setup(s):
        s.fs = f = fs.SimFS(s)
        f.short_reads = short
        f.short_max = 64 if len(stored) < 3000 else 8192
        f.read_fail_at = eio
        if oerr is not None:
            f.open_fail = {1: oerr}

    def main():
        s = core.current()
        path = s.fs.path(name)
        if earlier is not None:
            f = s.fs
            keep = f.read_fail_at, f.open_fail
            f.read_fail_at, f.open_fail = None, {}
            f.put(path, earlier)
            os.utime(path, (10**9, 10**9))
            try:
                load_file(path)
            except Exception as e:
                raise Violation('load-failed', 'load_file of %r raised %r' % (
                    earlier[:50], e))
            f.read_fail_at, f.open_fail = keep
            f.nopen = f.nread = 0
            os.unlink(path)
        if fault != 'missing':
            s.fs.put(path, stored)
            if earlier is not None:
                os.utime(path, (10**9, 10**9))
        else:
            s.count('fault:missing-file')
        before = s.fs.get(path)
        try:
            if how_ld == 'load_file':
                return 'ok', load_file(path), before
            if how_ld == 'stdin':
                old = sys.stdin
                sys.stdin = fs.stdin(s.fs, stored)
                try:
                    return 'ok', build('stdin'), None
                finally:
                    sys.stdin = old
            return 'ok', build(path), before
        except Exception as e:
            return 'err', e, before
        finally:
            if how_ld != 'stdin' and s.fs.get(path) != before:
                raise Violation('file-changed', 'loading changed the file')

    s, (res, val, _) = ctx.sim(main, setup=setup)
    fired = s.counters
    hit = (fired['fault:read-error'] or fired['fault:open-error'] or
           fault == 'missing')
    if res == 'err':
        ctx.probe('raised-' + type(val).__name__)
        if not hit and fault not in ('trunc', 'flip'):
            raise Violation('load-failed', '%s of a %s file (%s) raised %r' % (
                how_ld, kind, how, val))
    elif hit:
        raise Violation('error-swallowed', '%s returned %r although reading '
                        'failed' % (how_ld, val))
    elif how_ld == 'load_file':
        want = decoded(data)
        ok = same(val, want)
        if fault == 'trunc' and how == 'none':
            ok = same(val, decoded(stored))
        elif fault == 'flip' and magic:
            # no longer a compressed file
            ok = ok or same(val, decoded(stored))
        elif fault == 'trunc':
            ok = False
        if not ok:
            raise Violation('wrong-content', 'load_file of %s (%s, %s) gives '
                            '%.300r instead of %.300r' % (kind, how, fault,
                                                          val, want))
    else:
        if fault == 'trunc' or fault == 'flip' and magic and changed:
            raise Violation('damage-unnoticed', '%s of a %s file (%s, %s) '
                            'returned %r' % (how_ld, kind, how, fault, val))
        if key(val) != ref:
            raise Violation('wrong-network', '%s of a %s file (%s, %s) gives '
                            '%.600r instead of %.600r' % (
                                how_ld, kind, how, fault, key(val), ref))
    ctx.nontrivial = len(stored) > 4
    ctx.state(kind, how, how_ld, fault, res,
              type(val).__name__ if res == 'err' else '', len(stored))
