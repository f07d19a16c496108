"""C05: checkpoint and restore is transparent at any point."""
import copy
import pickle

from .. import core, gen, model, peer
from ..core import Violation
from . import app, search


def same(what, a, b):
    d = search.differ(a, b)
    if d:
        raise Violation('restored-differs', '%s: %s\n%r\n%r' % (
            what, ', '.join(d), {k: a.get(k) for k in d},
            {k: b.get(k) for k in d}))


def run_search(ctx):
    ch = ctx.ch
    ctypes = ('float64', 'float64', 'float32', 'float1024')
    sr = search.draw(ctx, cost_types=ctypes,
                     width_types=('float32', 'float64'),
                     dims=ch.pick('dims', [None, 'any']))
    if sr is None:
        return
    sr.start()
    for _ in range(ch.int('crashes', 1, 3)):
        for _ in range(ch.int('steps', 0, 25)):
            sr.step()
        how = ch.pick('how', ['pickle', 'pickle', 'deepcopy', 'copy', 'peer',
                              'pickle2'])
        cmds = [sr.draw_cmd() for _ in range(ch.int('more', 1, 12))]
        o, W = sr.opt, sr.W
        before = search.snap(o, W)
        data = pickle.dumps(o, protocol=ch.pick('protocol', [2, 4, 5, 5])) \
            if how != 'pickle2' else pickle.dumps(
                pickle.loads(pickle.dumps(o)))
        same('serializing changed the object', before, search.snap(o, W))
        ctx.counters['fault:process-crash'] += 1
        # the original goes on
        if how in ('copy', 'deepcopy'):
            c = getattr(copy, how)(o)
            if not (c == o):
                raise Violation('restored-not-equal', how)
            data = None
        elif how != 'peer':
            r = pickle.loads(data)
            if not (r == o):
                raise Violation('restored-not-equal', how)
        want = [before]
        for k, cmd in enumerate(cmds):
            sr.apply(o, cmd)
            sr.nstep += 1
            want.append(search.snap(o, W))
        if data is None:
            got = [search.snap(c, W)]
            valid = [c.is_valid(return_message=True)]
            for cmd in cmds:
                sr.apply(c, cmd)
                got.append(search.snap(c, W))
            valid.append(c.is_valid(return_message=True))
            back = None
        elif how == 'peer':
            valid, got, back = peer.call('search:advance', data, W, cmds,
                                         sr.cost_type)
            ctx.counters['fault:restored-in-another-process'] += 1
        else:
            valid, got, back = search.advance(data, W, cmds, sr.cost_type)
        for ok, msg in valid:
            if not ok:
                raise Violation('restored-not-valid', msg)
        for k, (a, b) in enumerate(zip(want, got)):
            same('%s after %d steps, %d steps later' %
                 (how, sr.nstep - len(cmds), k), a, b)
        if want[0]['ctree'] != want[-1]['ctree']:
            ctx.nontrivial = True
        ctx.state(how, want[-1]['total'], sr.nstep)
        if back is not None:
            sr.opt = pickle.loads(back)  # the restored one takes over
            if not (sr.opt == o):
                raise Violation('restored-not-equal', how + ' (continued)')
    # parts
    o = sr.opt
    for x in (o.ctree, o.min_ctree):
        y = pickle.loads(pickle.dumps(x)) if ch.chance('p', 1, 2) else \
            copy.deepcopy(x)
        if not (x == y) or search.tree_key(x) != search.tree_key(y) or \
                x.output_inds() != y.output_inds():
            raise Violation('restored-tree-differs', repr(x.path()))
    m = o.cmodel
    y = pickle.loads(pickle.dumps(m))
    if not (m == y) or any(
            getattr(m, a, None) != getattr(y, a, None)
            for a in ('cost_type', 'max_width', 'width_type', 'sparse_inds',
                      'n_projs')):
        raise Violation('restored-cost-model-differs', '%r %r' % (m, y))
    for beta in sr.betas:
        p = sr.prob(beta)
        q = pickle.loads(pickle.dumps(p)) if ch.chance('q', 1, 2) else \
            copy.copy(p)
        if not (p == q) or getattr(p, 'beta', None) != getattr(
                q, 'beta', None) or p.cost_type != q.cost_type:
            raise Violation('restored-rule-differs', '%r %r' % (p, q))
        d, c = ch.int('d', -3, 9), ch.int('c', 4, 20)
        if sr.cost_type != 'float1024' and p(d, c) != q(d, c):
            raise Violation('restored-rule-differs', '%r(%d, %d): %r %r' %
                            (p, d, c, p(d, c), q(d, c)))


def app_advance(data, jobs):
    """Restore an optimizer in this process and run further calls."""
    from .. import ctx as ctxm
    from ..choice import Choices
    o = pickle.loads(data)
    out = []
    for tn, opt in jobs:
        c = ctxm.Ctx(Choices(('peer', 1)))
        _, (t2, res) = c.sim(lambda: o.optimize(tn, **opt))
        out.append(app.result_key(t2, res))
    return out


def run_app(ctx):
    """An application-level optimizer, serialized between calls."""
    from tnco.app import Optimizer
    ch = ctx.ch
    jobs = []
    ctor = None
    net = None
    for _ in range(ch.int('calls', 2, 4)):
        net, tn = app.net_and_tn(ch, max_tensors=8)
        c, opt = app.draw_opts(ch, net, steps=(1, 6), runs=(1, 3),
                               n_jobs=[1, 2], fuse=(0, 2, 4))
        ctor = ctor or c
        if ctor.get('max_width') in (None, float('inf')):
            opt.pop('update_slices', None)
        jobs.append((tn, opt))
    cut = ch.draw('cut', len(jobs))
    ctx.note(ctor, [o for _, o in jobs], 'crash before call', cut)
    o = Optimizer(**ctor)
    want = []
    data = None
    for i, (tn, opt) in enumerate(jobs):
        if i == cut:
            data = pickle.dumps(o)
            ctx.counters['fault:process-crash'] += 1
        _, (t2, res) = ctx.sim(lambda: o.optimize(tn, **opt),
                               profile=ctx.profile())
        want.append(app.result_key(t2, res))
    if ch.chance('peer', 1, 2):
        got = peer.call('c05:app_advance', data, jobs[cut:])
        ctx.counters['fault:restored-in-another-process'] += 1
    else:
        got = app_advance(data, jobs[cut:])
    for i, (a, b) in enumerate(zip(want[cut:], got)):
        if a != b:
            raise Violation('restored-optimizer-differs', 'call %d after the '
                            'restore (optimizer serialized before call %d)\n'
                            '%r\n%r' % (i, cut, a[2:], b[2:]))
    ctx.nontrivial = True


def run(ctx):
    if ctx.ch.chance('app', 1, 6):
        return run_app(ctx)
    run_search(ctx)
