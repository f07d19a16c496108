"""C14: the search always represents a contraction of the same network."""
import math

from .. import core, gen, model
from ..core import Violation
from . import search


def check_tree(ctx, sr, tree, what, slices):
    net, m = sr.net, sr.merger
    n = net.n

    def bad(kind, msg):
        raise Violation(kind, 'after %d steps, %s tree: %s' %
                        (sr.nstep, what, msg))

    nodes = list(tree.nodes)
    if len(nodes) != 2 * n - 1:
        bad('not-a-binary-tree', '%d nodes for %d tensors' % (len(nodes), n))
    inds = tree.inds[:]
    dims = dict(tree.dims)
    if dims != {x: net.dims[x] for x in net.inds()}:
        bad('dimensions-changed', repr(dims))
    # the contraction in linear order
    try:
        stps, pool = sr.steps(tree.path())
    except model.PathError as e:
        bad('not-a-contraction', str(e))
    if len(pool) != 1 or len(pool[0]) != n:
        bad('not-a-contraction', 'path leaves %r' % (pool,))
    for a, b in stps:
        if not sr.no_shared and not m.inds(a) & m.inds(b):
            bad('no-shared-index', 'tensors %r and %r are contracted' %
                (sorted(a), sorted(b)))
    # the tree itself
    kids = {}
    roots = []
    leaves = []
    for i, nd in enumerate(nodes):
        c = [x for x in nd.children if x is not None and x >= 0]
        p = nd.parent if nd.parent is not None and nd.parent >= 0 else None
        if len(c) not in (0, 2) or len(set(c)) != len(c):
            bad('not-a-binary-tree', 'node %d has children %r' % (i, c))
        if not c:
            leaves.append(i)
        if p is None:
            roots.append(i)
        elif i not in nodes[p].children:
            bad('not-a-binary-tree', 'node %d is no child of %d' % (i, p))
        for x in c:
            if nodes[x].parent != i:
                bad('not-a-binary-tree', 'node %d has parent %r, not %d' %
                    (x, nodes[x].parent, i))
        kids[i] = c
    if len(roots) != 1 or len(leaves) != n:
        bad('not-a-binary-tree', 'roots %r leaves %r' % (roots, leaves))
    group = {}
    for k, i in enumerate(leaves):
        if inds[i] != frozenset(net.ts[k]):
            bad('leaf-changed', 'leaf %d carries %r, the tensor has %r' %
                (k, sorted(inds[i], key=repr), net.ts[k]))
        group[i] = frozenset([k])
    order = []
    stack = [roots[0]]
    while stack:
        i = stack.pop()
        order.append(i)
        stack.extend(kids[i])
        if len(order) > len(nodes):
            bad('not-a-binary-tree', 'the nodes form a cycle')
    if len(order) != len(nodes):
        bad('not-a-binary-tree', 'unreachable nodes')
    for i in reversed(order):
        if kids[i]:
            a, b = kids[i]
            if group[a] & group[b]:
                bad('not-a-binary-tree', 'a tensor appears twice')
            group[i] = group[a] | group[b]
            if inds[i] != m.inds(group[i]):
                bad('wrong-indices', 'tensors %r contracted carry %r, must '
                    'carry %r' % (sorted(group[i]),
                                  sorted(inds[i], key=repr),
                                  sorted(m.inds(group[i]), key=repr)))
    if {frozenset((group[i], )) for i in group} != {
            frozenset((g, )) for g in model.path_groups(stps)}:
        bad('path-is-another-tree', repr(tree.path()))
    if inds[roots[0]] != net.out:
        bad('wrong-outputs', '%r instead of %r' % (inds[roots[0]], net.out))
    return model.path_cost(net, stps, slices, m)


def check(ctx, sr):
    o = sr.opt
    ok, msg = o.is_valid(return_message=True)
    if not ok:
        raise Violation('not-valid', 'after %d steps: %s' % (sr.nstep, msg))
    rel = {'float32': 1e-4, 'float64': 1e-9, 'float1024': 1e-9}[sr.cost_type]
    for what, tree, total, log2, sl in (
        ('current', o.ctree, o.total_cost, o.log2_total_cost,
         o.slices if sr.W is not None else frozenset()),
        ('best', o.min_ctree, o.min_total_cost, o.log2_min_total_cost,
         o.min_slices if sr.W is not None else frozenset())):
        c = check_tree(ctx, sr, tree, what, sl)
        if not model.close(total, c) or abs(float(log2) - math.log2(c)) > rel * 2:
            raise Violation('wrong-cost', 'after %d steps the %s tree is said '
                            'to cost %s (2^%r), it costs %d' %
                            (sr.nstep, what, total, log2, c))
    ctx.state(o.ctree.path(), sr.nstep and str(o.total_cost))


def run(ctx):
    ch = ctx.ch
    sr = search.draw(ctx, cost_types=('float64', 'float64', 'float32',
                                      'float1024'),
                     width_types=('float32', 'float64'))
    if sr is None:
        return
    sr.merger = model.Merger(sr.net)
    sr.start()
    check(ctx, sr)
    ini = sr.opt.ctree.path()
    for k in range(ch.int('steps', 1, 40)):
        sr.step()
        sr.maybe_restore()
        check(ctx, sr)
    if sr.opt.ctree.path() != ini:
        ctx.nontrivial = True
