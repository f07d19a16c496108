"""C02: the best result is the minimum over the whole search history."""
import math

from .. import core, gen, model
from ..core import Violation
from . import app, search


def check(ctx, sr):
    o = sr.opt
    tot, best = o.total_cost, o.min_total_cost
    if sr.low is None or o.log2_total_cost < sr.low[1]:
        sr.low = (tot, o.log2_total_cost, sr.nstep)
        sr.lows += 1
    if best != sr.low[0] or o.log2_min_total_cost != sr.low[1]:
        raise Violation(
            'not-the-minimum', 'after %d steps the best cost is %s (2^%r), the '
            'smallest cost seen is %s (2^%r) after %d steps' %
            (sr.nstep, best, o.log2_min_total_cost, sr.low[0], sr.low[1],
             sr.low[2]))
    if sr.prev is not None and o.log2_min_total_cost > sr.prev:
        raise Violation('best-increased', 'step %d' % sr.nstep)
    sr.prev = o.log2_min_total_cost
    # the best tree attains it
    sl = o.min_slices if sr.W is not None else frozenset()
    stps, _ = sr.steps(o.min_ctree.path())
    c = model.path_cost(sr.net, stps, sl, sr.merger)
    rel = 1e-4 if sr.cost_type == 'float32' else 1e-9
    if not model.close(best, c) or \
            abs(o.log2_min_total_cost - math.log2(c)) > 2 * rel:
        raise Violation('best-not-attained', 'after %d steps the best cost is '
                        '%s, its tree %r with slices %r costs %d' %
                        (sr.nstep, best, o.min_ctree.path(),
                         sorted(sl, key=repr), c))
    ctx.state(sr.nstep, str(best), str(tot))


def run_app(ctx):
    """A larger budget is never worse; a stopped search is a shorter one."""
    ch = ctx.ch
    net, tn = app.net_and_tn(ch, max_tensors=10,
                             sparse=ch.chance('sparse', 1, 5))
    ctor, opt = app.draw_opts(ch, net, steps=(1, 1), runs=(1, 3),
                              n_jobs=[1, 2, 3], fuse=(0, None, 0, 2))
    k = ch.int('budget', 2, 16)
    betas = [ch.pick('beta', [0.0, 0.0, 0.1, 1.0, 10.0]) for _ in range(k)]
    if len(betas) == 2:
        betas = list(betas)
    cuts = sorted({ch.int('cut', 1, k), ch.int('cut', 1, k), k})
    ctx.note(net.describe())
    ctx.note(ctor, opt, betas, cuts)
    prev = None
    for cut in cuts:
        how = ch.pick('how', ['steps', 'list'])
        o = dict(opt, betas=betas, n_steps=cut)
        if how == 'list':
            o = dict(opt, betas=betas[:cut])
            o.pop('n_steps', None)
        prof = ctx.profile()
        _, (t2, res) = ctx.sim(lambda: app.optimize(tn, ctor, o), profile=prof)
        costs = [r.cost for r in res]
        if costs != sorted(costs):
            raise Violation('not-sorted', repr(costs))
        if prev is not None:
            for i, (a, b) in enumerate(zip(prev, costs)):
                if b > a:
                    raise Violation(
                        'larger-budget-worse', 'result %d costs %s with %d '
                        'steps and %s with %d' % (i, a, prevcut, b, cut))
                if b < a:
                    ctx.nontrivial = True
        prev, prevcut = costs, cut
    # stopped anywhere, a search is a prefix of the full one
    if ch.chance('stop', 1, 2):
        o = dict(opt, betas=betas, timeout=ch.pick('tmo', [0.0, 0.01, 0.05,
                                                           0.2]))
        _, (t2, res) = ctx.sim(lambda: app.optimize(tn, ctor, o),
                               profile=ctx.profile())
        for i, (a, b) in enumerate(zip([r.cost for r in res], prev)):
            if b > a:
                raise Violation('larger-budget-worse', 'result %d costs %s if '
                                'stopped and %s if not' % (i, a, b))
            if b < a:
                ctx.counters['fault:early-stop'] += 1


def run(ctx):
    ch = ctx.ch
    if ch.chance('app', 1, 4):
        return run_app(ctx)
    sr = search.draw(ctx, cost_types=('float64', 'float64', 'float32',
                                      'float1024'),
                     width_types=('float32', 'float64'))
    if sr is None:
        return
    sr.merger = model.Merger(sr.net)
    sr.low = sr.prev = None
    sr.lows = 0
    sr.start()
    check(ctx, sr)
    for k in range(ch.int('steps', 1, 50)):
        sr.step()
        check(ctx, sr)
        if sr.maybe_restore():
            check(ctx, sr)
    ctx.nontrivial |= sr.lows > 1
