"""Checks of returned results against the reference model."""
from decimal import Decimal

from . import model
from .core import Violation


def components_of(net):
    return model.components(net)


def check_paths(net, r):
    """Completeness and validity; returns one list of steps per component."""
    n = net.n
    comps = model.components(net)
    paths = r.disconnected_paths
    if not comps:
        if any(len(p) for p in paths):
            raise Violation('path-invalid', 'network without indices: paths %r'
                            % (paths,))
        per = []
    else:
        if len(paths) != len(comps):
            raise Violation('path-count', '%d connected components, %d paths: '
                            '%r' % (len(comps), len(paths), paths))
        per = []
        left = list(comps)
        for p in paths:
            try:
                st, pool = model.steps(n, p)
            except model.PathError as e:
                raise Violation('path-invalid', 'component path %r: %s' %
                                (p, e)) from None
            if not st:
                per.append((st, None))
                continue
            groups = [g for g in pool if len(g) > 1]
            if len(groups) != 1 or groups[0] not in left:
                raise Violation(
                    'path-incomplete', 'path %r leaves %r of the components '
                    '%r' % (p, [sorted(g) for g in groups],
                            [sorted(c) for c in comps]))
            left.remove(groups[0])
            per.append((st, groups[0]))
        if any(len(c) > 1 for c in left):
            raise Violation('path-incomplete', 'components %r are not '
                            'contracted' % ([sorted(c) for c in left],))
    # the merged path
    try:
        st, pool = model.steps(n, r.path)
    except model.PathError as e:
        raise Violation('merged-invalid', 'path %r: %s' % (r.path, e)) from None
    if len(pool) != 1:
        raise Violation('merged-incomplete', 'path %r leaves %d tensors' %
                        (r.path, len(pool)))
    want = {}
    for s, _ in per:
        for a, b in s:
            k = frozenset((a, b))
            want[k] = want.get(k, 0) + 1
    rest = []
    for a, b in st:
        k = frozenset((a, b))
        if want.get(k):
            want[k] -= 1
        else:
            rest.append((a, b))
    if any(want.values()):
        raise Violation('merged-differs', 'the merged path %r does not '
                        'perform the contractions %r' %
                        (r.path, [[sorted(x) for x in k] for k, v in
                                  want.items() if v]))
    whole = [g for _, g in per if g] + [
        frozenset([i]) for i in range(n)
        if not any(g and i in g for _, g in per)]
    for a, b in rest:
        for x in (a, b):
            if not all(w <= x or not (w & x) for w in whole):
                raise Violation('merged-differs', 'the merged path %r has the '
                                'extra contraction %r, %r' %
                                (r.path, sorted(a), sorted(b)))
    return per, st


def slices_of(r, i):
    s = getattr(r, 'disconnected_slices', None)
    return frozenset() if s is None or i >= len(s) else frozenset(s[i])


def check_costs(net, r, per, rel=1e-4):
    m = model.Merger(net)
    costs = list(r.disconnected_costs)
    if len(costs) != len(r.disconnected_paths) and per:
        raise Violation('cost-count', '%d costs for %d paths' %
                        (len(costs), len(r.disconnected_paths)))
    tot = sum((Decimal(str(c)) for c in costs), Decimal(0))
    if not model.close(Decimal(str(r.cost)), tot, 1e-12):
        raise Violation('total-cost', 'total cost %s, components %r' %
                        (r.cost, costs))
    for i, (st, g) in enumerate(per):
        want = model.path_cost(net, st, slices_of(r, i), m) if st else 0
        if not model.close(costs[i], want, rel):
            raise Violation('component-cost', 'component %d: reported cost '
                            '%s, replayed cost %s (slices %r)' %
                            (i, costs[i], want,
                             sorted(slices_of(r, i), key=repr)))


def check_order(res, n_runs):
    if len(res) != n_runs:
        raise Violation('result-count', '%d results for %d runs' %
                        (len(res), n_runs))
    cs = [Decimal(str(r.cost)) for r in res]
    if cs != sorted(cs):
        raise Violation('result-order', 'costs are not increasing: %r' % (cs,))


def check_widths(net, r, per, merged, W, tol=1e-4):
    m = model.Merger(net)
    inds = set(net.inds())
    union = frozenset()
    for i, (st, g) in enumerate(per):
        sl = slices_of(r, i)
        union |= sl
        if not sl <= inds:
            raise Violation('slices-not-indices', '%r' % (sl - inds,))
        if not st:
            continue
        w = model.max_width(net, model.path_groups(st), sl, m)
        if w > W + tol:
            raise Violation('too-wide', 'component %d has a tensor of width '
                            '%.6f, the limit is %r (slices %r)' %
                            (i, w, W, sorted(sl, key=repr)))
    if frozenset(r.slices) != union:
        raise Violation('slices-union', 'merged slices %r, components %r' %
                        (r.slices, r.disconnected_slices))
    whole = [g for _, g in per if g]
    groups = [x for x in model.path_groups(merged)
              if any(x <= w for w in whole)]
    w = model.max_width(net, groups, frozenset(r.slices), m)
    if w > W + tol:
        raise Violation('too-wide', 'the merged path has a tensor of width '
                        '%.6f, the limit is %r' % (w, W))
