"""C01: every returned result is a complete path with its true cost."""
from .. import core, gen, oracle
from ..core import Violation
from . import app
from . import common as cm

# costs are printed with six digits, those in extended precision with all
REL = {'float32': 1e-4, 'float64': 6e-6, 'float1024': 1e-20}


def observed(ctx, ch, tn, ctor, opt, prof, missing, setup=None):
    """One optimization under simulation."""
    def main():
        return app.optimize(tn, ctor, opt)
    return ctx.sim(main, profile=prof, joblib_missing=missing, setup=setup)


def run(ctx):
    ch = ctx.ch
    prof = ctx.profile()
    sparse = ch.chance('sparse', 1, 4)
    big = ch.chance('big', 1, 6)
    large = big and ch.chance('large', 1, 4)
    net, tn = app.net_and_tn(
        ch, min_tensors=40 if large else 1,
        max_tensors=80 if large else 24 if big else 9, sparse=sparse,
        scalars=True)
    ctor, opt = app.draw_opts(
        ch, net, verbose=(0, 0, 0, 2), steps=(1, 15), runs=(1, 4),
        timeouts=(None, None, 0.0, 1e-3, 0.05, 0.3, 5.0),
        cost_types=('float64', 'float64', 'float32', 'float1024'))
    if large:
        ctx.probe('large-network')
        opt['n_runs'] = min(opt['n_runs'], 2)
    if big:
        ctor['cost_type'] = ch.pick('bigcost', ['float64', 'float1024'])
    if ctor['cost_type'] == 'float1024' and ch.chance('huge', 1, 2):
        # costs which differ beyond the precision of a double
        net.dims = {x: ch.pick('huge-dim', [2, 3, 2**40 + 15, 2**61 - 1, 1])
                    for x in net.inds()}
        tn = gen.tensor_network(net)
        ctx.probe('huge-dimensions')
    if not big and ch.chance('many-runs', 1, 25):
        opt['n_runs'] = ch.pick('runs', [11, 16, 33, 40])
        ctx.probe('many-runs')
    missing = ch.chance('no-joblib', 1, 8)
    ctx.note(net.describe())
    ctx.note(ctor, opt, prof)
    calls = ch.pick('calls', [1, 1, 2])

    def main():
        from tnco.app import Optimizer
        o = Optimizer(**ctor)
        return [o.optimize(tn, **opt) for _ in range(calls)]

    s, out = ctx.sim(main, profile=prof, joblib_missing=missing)
    for t2, res in out:
        n2 = gen.from_tn(t2, net.n_projs)
        oracle.check_order(res, opt['n_runs'])
        for r in res:
            per, merged = oracle.check_paths(n2, r)
            oracle.check_costs(n2, r, per, rel=REL[ctor['cost_type']])
            ctx.state(ctor.get('max_width'), opt['n_runs'],
                      tuple(map(tuple, r.path)))
            if len(per) > 1:
                ctx.probe('several-components')
            if getattr(r, 'slices', None):
                ctx.probe('sliced')
            if r.path:
                ctx.nontrivial = True
        if s.counters.get('timer-fired'):
            ctx.probe('stopped-by-timeout')
