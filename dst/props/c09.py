"""C09: results are saved completely or an error is raised."""
import bz2
import errno
import gzip
import json
import pickle
import threading
from decimal import Decimal

from .. import core, fs, gen
from ..core import Violation
from . import app

ERR = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG]
OPEN_ERR = [errno.EACCES, errno.EMFILE, errno.EROFS, errno.ENOSPC,
            errno.ENOMEM, errno.EIO]
FOREIGN = b'somebody else wrote this'


def prepare():
    import tnco.app.cli  # noqa


def plain(x):
    """JSON form of an index, a set of indices, a path ..."""
    if isinstance(x, frozenset):
        return ['set'] + sorted((plain(y) for y in x), key=repr)
    if isinstance(x, (tuple, list)):
        return [plain(y) for y in x]
    return x


def number(x):
    if isinstance(x, list):
        return [number(y) for y in x]
    if isinstance(x, str):
        re, im = x.split(' + ')
        return [float(re), float(im[:-1])]
    if isinstance(x, complex):
        return [x.real, x.imag]
    return float(x)


def jset(xs):
    return ['set'] + sorted(xs, key=repr)


def check_json(got, tn, res):
    if not isinstance(got, dict) or set(got) != {'tn', 'res'}:
        raise Violation('saved-differently', 'keys %r' % (list(got),))
    t = got['tn']
    want = [(plain(x.inds), list(x.dims),
             None if x.array is None else number(x.array.tolist()))
            for x in tn.tensors]
    have = [(x['inds'], x['dims'], None if x['array'] is None else
             number(x['array'])) for x in t['tensors']]
    if have != want:
        raise Violation('saved-differently', 'tensors %r instead of %r' %
                        (have, want))
    for k in ('output_inds', 'sparse_inds'):
        w = plain(frozenset(getattr(tn, k) or ()))
        if jset(t[k] or ()) != w:
            raise Violation('saved-differently', '%s %r instead of %r' %
                            (k, t[k], w))
    if len(got['res']) != len(res):
        raise Violation('saved-differently', '%d results instead of %d' %
                        (len(got['res']), len(res)))
    for g, r in zip(got['res'], res):
        if Decimal(str(g['cost'])) != Decimal(str(r.cost)):
            raise Violation('saved-differently', 'cost %r instead of %r' %
                            (g['cost'], r.cost))
        if float(g['runtime_s']) < 0:
            raise Violation('saved-differently', 'runtime %r' % g['runtime_s'])
        if g['path'] != plain(r.path) or \
                g['disconnected_paths'] != plain(r.disconnected_paths):
            raise Violation('saved-differently', 'paths %r instead of %r' %
                            (g['path'], r.path))
        if hasattr(r, 'slices'):
            if jset(g['slices']) != plain(r.slices) or \
                    [jset(x) for x in g['disconnected_slices']] != \
                    plain(r.disconnected_slices):
                raise Violation('saved-differently', 'slices %r instead of %r'
                                % (g['slices'], r.slices))


def unpack(data, how):
    """Undo exactly the requested compression."""
    if how == 'gzip':
        return gzip.decompress(data)
    if how == 'bz2':
        return bz2.decompress(data)
    return data


def run(ctx):
    from tnco.app.app import Optimizer, load_file
    from tnco.app.cli import Main
    ch = ctx.ch
    arrays = ch.chance('arrays', 1, 3)
    if arrays:
        net = gen.network(ch, max_tensors=5, max_size=200, min_tensors=1)
        gen.arrays(ch, net)
        tn = gen.tensor_network(net, arrays=True)
    else:
        net, tn = app.net_and_tn(ch, max_tensors=7, min_tensors=1,
                                 sparse=ch.chance('sparse', 1, 5))
    ctor, opt = app.draw_opts(ch, net, n_jobs=[1, 2, 3], steps=(1, 4),
                              runs=(1, 3), cost_types=('float64', 'float32',
                                                       'float1024'))
    if not arrays and ctor['cost_type'] != 'float32' and \
            ch.chance('huge', 1, 3):
        # costs which need more than the precision of a float
        net.dims = {x: ch.pick('huge-dim', [1000003, 99991, 2**20 + 7, 3])
                    for x in net.inds()}
        tn = gen.tensor_network(net)
    fmt = ch.pick('fmt', ['raw', 'json', 'json', None, 'JSON', 'raw'])
    ext = ch.pick('ext', ['.gzip', '.bz2', '.json', '', '.gz', '.pkl', '.GZIP',
                          '.tar.bz2'])
    comp = ch.pick('comp', ['auto', 'auto', 'none', 'gzip', 'bz2', 'GZIP'])
    overwrite = ch.chance('overwrite', 1, 3)
    cli = ch.chance('cli', 1, 5)
    how = comp.lower()
    if how == 'auto':
        how = {'.gzip': 'gzip', '.bz2': 'bz2', '.tar.bz2': 'bz2'}.get(ext, '')
    eff = (fmt or ('json' if cli else 'raw')).lower()
    pre = ch.pick('pre', [None, None, None, 'short', 'long', 'empty',
                          'result'])
    adv = None
    if pre is None:
        adv = ch.pick('adversary', [None, None, 'before-ctor', 'between',
                                    'thread', 'before-open', 'rival',
                                    'before-open'])
    fault = ch.pick('fault', ['none', 'none', 'write', 'short', 'close', 'open',
                              'write'])
    missing = ch.chance('nojoblib', 1, 6)

    # the reference execution, in memory
    _, (tn0, res0) = ctx.sim(lambda: app.optimize(tn, ctor, opt))
    want = app.result_key(tn0, res0)
    blob = pickle.dumps((tn0, res0))
    body = blob if eff == 'raw' else (
        '{"tn" : %s, "res" : [%s]}' % (tn0.to_json(), ', '.join(
            r.to_json() for r in res0))).encode()
    size = len({'gzip': gzip.compress, 'bz2': bz2.compress}.get(
        how, lambda b: b)(body))
    at = None
    if fault == 'write':
        at = ch.draw('wfail', size + 1) if ch.chance('anywhere', 2, 3) else \
            max(0, size - 1 - ch.draw('wtail', 40))
    werr = ch.pick('werr', ERR)
    operr = ch.pick('operr', OPEN_ERR)
    opn = 1 + ch.draw('opn', 2) if adv == 'rival' else 1
    old = {None: None, 'short': b'old', 'long': b'old content ' * 2000,
           'empty': b'', 'result': body}[pre]
    ctx.note(net.describe())
    ctx.note(ctor, opt, 'format', fmt, 'ext', ext, 'compression', comp,
             'overwrite', overwrite, 'cli', cli, 'pre-existing', pre,
             'adversary', adv, 'fault', fault, at, werr)
    state = dict(foreign=False, late=False)

    def setup(s):
        s.fs = f = fs.SimFS(s)
        f.write_fail_at = at
        f.write_errno = werr
        f.short_writes = fault == 'short' or (fault == 'write' and
                                              ch.chance('both', 1, 3))
        f.short_max = 64 if size < 3000 else 4096
        f.close_fail = fault == 'close'
        if fault == 'open':
            f.open_fail = {opn: operr}

    def checkable(outs):
        # two programs overwriting the same file are on their own
        return any(o[0] == 'ok' for o in outs) and (
            not overwrite or len(outs) == 1) and (
                overwrite or not state['foreign'])

    def intrude(s, path):
        """Another program creates the file (if it is not there)."""
        if s.fs.get(path) is None:
            s.fs.put(path, FOREIGN)
            state['foreign'] = True
            s.count('fault:file-created-by-others')

    def make(path):
        kw = dict(ctor, output_format=fmt, output_filename=path,
                  output_compression=comp, overwrite_output_file=overwrite)
        if cli:
            from inspect import signature
            args = [kw.get(k, p.default)
                    for k, p in signature(Optimizer).parameters.items()]
            return Main(*args)
        return Optimizer(**kw)

    def main():
        s = core.current()
        path = s.fs.path('out' + ext)
        if old is not None:
            s.fs.put(path, old)
        if adv == 'before-open':
            # a program which creates the file right before it is opened
            s.fs.pre_open = lambda f, p, mode: p == path and intrude(s, path)
        th = None
        if adv == 'thread':
            steps = ch.draw('advsteps', 60)

            def other():
                for _ in range(steps):
                    s.yield_('adversary')
                intrude(s, path)

            th = threading.Thread(target=other)
            th.start()
        if adv == 'before-ctor':
            intrude(s, path)

        def attempt():
            try:
                o = make(path)
                if adv == 'between':
                    intrude(s, path)
                return 'ok', o.optimize(tn, **opt)
            except Exception as e:
                return 'err', e

        outs = []
        if adv == 'rival':

            def rival():
                outs.append(attempt())

            th = threading.Thread(target=rival)
            th.start()
        outs.append(attempt())
        if th is not None:
            th.join()
        s.fs.pre_open = None
        s.fs.close_fail = False
        s.fs.open_fail = {}
        got = s.fs.get(path)
        back = None
        if got is not None and checkable(outs):
            s.fs.short_reads = True
            s.fs.short_max = 4096
            back = load_file(path)
        return outs, got, back, list(s.fs.fired)

    _, (outs, got, back, fired) = ctx.sim(main, setup=setup,
                                          joblib_missing=missing)
    hit = [f for f in fired if f in ('disk-full', 'write-error', 'close-error',
                                     'open-error')]
    oks = [o for o in outs if o[0] == 'ok']
    for o in outs:
        ctx.probe('%s-%s' % (o[0], type(o[1]).__name__))
    # returned value
    for o in oks:
        if o[1] is not None:
            raise Violation('returned-something', repr(o[1])[:500])
    # somebody else's file
    if not overwrite:
        if old is not None:
            if got != old:
                raise Violation('clobbered', 'the existing file has been '
                                'changed')
            if oks:
                raise Violation('not-saved', 'the call returned although the '
                                'file existed')
        if state['foreign']:
            if got != FOREIGN:
                raise Violation('clobbered', 'a file created by somebody else '
                                '(%s) has been changed' % adv)
            if oks:
                raise Violation('not-saved', 'the call returned although the '
                                'file is somebody else\'s')
        if len(oks) > 1:
            raise Violation('clobbered', 'two optimizers saved to the same '
                            'file')
    if len(outs) == 1:
        if hit and oks:
            raise Violation('error-swallowed', 'the call returned although '
                            'writing failed (%s)' % ', '.join(hit))
        conflict = not overwrite and (old is not None or state['foreign'])
        if not hit and not conflict and not oks:
            raise Violation('save-failed', '%r without any fault' %
                            (outs[0][1],))
        if not hit and conflict and not isinstance(outs[0][1],
                                                   FileExistsError):
            raise Violation('wrong-error', '%r instead of FileExistsError' %
                            (outs[0][1],))
    elif not hit and not oks:
        raise Violation('save-failed', '%r' % (outs,))
    # the content
    if checkable(outs):
        try:
            data = unpack(got, how)
            if eff == 'raw':
                t, r = pickle.loads(data)
                if app.result_key(t, r) != want:
                    raise Violation('saved-differently', '%r instead of %r' % (
                        app.result_key(t, r), want))
                if back != data:
                    raise Violation('read-back', 'load_file gives something '
                                    'else')
            else:
                obj = json.loads(data.decode())
                check_json(obj, tn0, res0)
                if repr(back) != repr(obj):
                    raise Violation('read-back', 'load_file gives something '
                                    'else')
        except (ValueError, EOFError, OSError, pickle.PickleError,
                AttributeError, TypeError, KeyError) as e:
            raise Violation('incomplete-file', 'the call returned, reading '
                            'the file gives %r (%d bytes: %.60r)' % (
                                e, len(got or b''), got))
    ctx.nontrivial = bool(oks) or bool(hit) or state['foreign'] or \
        pre is not None
    ctx.state(eff, how, overwrite, cli, pre, adv, fault, at,
              [o[0] for o in outs], state['foreign'])
