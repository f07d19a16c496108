"""C03: the memory limit holds at every step and in every result."""
import math

from .. import core, gen, model, oracle
from ..core import Violation
from . import app, search
from . import common as cm


def run_app(ctx):
    ch = ctx.ch
    prof = ctx.profile()
    large = ch.chance('large', 1, 16)
    net, tn = app.net_and_tn(ch, min_tensors=30 if large else 2,
                             max_tensors=70 if large else 12, sparse=ch.chance(
        'sparse', 1, 4))
    ctor, opt = app.draw_opts(
        ch, net, width=True, steps=(1, 15), runs=(1, 3),
        timeouts=(None, None, 0.0, 0.05), fuse=(0, None, 0, 1, 2, 4))
    ctor['max_width'] = search.draw_width(ch, net)
    if large:
        ctx.probe('large-network')
    ctx.note(net.describe())
    ctx.note(ctor, opt, prof)

    def main():
        return app.optimize(tn, ctor, opt)

    s, (t2, res) = ctx.sim(main, profile=prof)
    n2 = gen.from_tn(t2, net.n_projs)
    for r in res:
        per, merged = oracle.check_paths(n2, r)
        oracle.check_widths(n2, r, per, merged, ctor['max_width'])
        if r.slices:
            ctx.nontrivial = True
        ctx.state('app', len(r.slices), ctor['max_width'])


def run(ctx):
    if ctx.ch.chance('app', 1, 3):
        return run_app(ctx)
    ch = ctx.ch
    sr = search.draw(ctx, width=True)
    if sr is None:
        return
    sr.start()
    check(ctx, sr)
    for k in range(ch.int('steps', 1, 40)):
        sr.step()
        if sr.maybe_restore():
            check(ctx, sr)
        check(ctx, sr)


def check(ctx, sr):
    o = sr.opt
    skip = sr.skip
    for what, tree, sl in (('current', o.ctree, o.slices),
                           ('best', o.min_ctree, o.min_slices)):
        if not sl <= set(sr.net.inds()):
            raise Violation('slices-not-indices', '%s slices %r' % (what, sl))
        if sl & skip:
            raise Violation('kept-index-sliced', '%s slices %r, to keep %r' %
                            (what, sl, skip))
        for i, xs in enumerate(tree.inds[:]):
            w = model.log2_width(xs - sl, sr.net)
            if w > sr.W + 1e-4:
                raise Violation('too-wide', 'after %d steps the %s tree has a '
                                'tensor of width %.6f, the limit is %r (slices'
                                ' %r)' % (sr.nstep, what, w, sr.W,
                                          sorted(sl, key=repr)))
        if sl:
            ctx.nontrivial = True
    ctx.state(len(o.slices), sr.nstep and repr(o.total_cost))
