"""Reference model: independent replay of contraction paths, costs, widths
and values (no code of the library is used)."""
import math
from fractions import Fraction


class PathError(Exception):
    pass


def components(net):
    """Connected components (sets of tensors joined by indices)."""
    comp = list(range(net.n))

    def find(i):
        while comp[i] != i:
            comp[i] = comp[comp[i]]
            i = comp[i]
        return i

    owner = {}
    for i, xs in enumerate(net.ts):
        for x in xs:
            if x in owner:
                comp[find(i)] = find(owner[x])
            else:
                owner[x] = i
    out = {}
    for i, xs in enumerate(net.ts):
        out.setdefault(find(i), []).append(i)
    cc = [frozenset(v) for v in out.values()]
    return [c for c in cc if net.ts[min(c)] or len(c) > 1]


def steps(n, path):
    """Contractions of a linear path as pairs of sets of original tensors."""
    pool = [frozenset([i]) for i in range(n)]
    out = []
    for xy in path:
        xy = tuple(xy)
        if len(xy) != 2:
            raise PathError('%r is not a pair' % (xy,))
        x, y = sorted(xy)
        if not all(isinstance(v, int) or hasattr(v, '__index__')
                   for v in (x, y)):
            raise PathError('%r is not a pair of integers' % (xy,))
        if x == y or x < 0 or y >= len(pool):
            raise PathError('%r is out of range (%d tensors left)' %
                            (xy, len(pool)))
        b = pool.pop(y)
        a = pool.pop(x)
        out.append((a, b))
        pool.append(a | b)
    return out, pool


class Merger:
    """Indices of a union of tensors of the network."""

    def __init__(self, net):
        self.net = net
        self.where = {}
        for i, xs in enumerate(net.ts):
            for x in xs:
                self.where.setdefault(x, set()).add(i)
        self.memo = {}

    def inds(self, group):
        """Indices carried by the contraction of the tensors in ``group``."""
        r = self.memo.get(group)
        if r is None:
            net = self.net
            r = set()
            for i in group:
                r.update(net.ts[i])
            if len(group) > 1:
                r = {x for x in r if x in net.out or
                     not self.where[x] <= group or
                     len(self.where[x]) == 1}
            r = self.memo[group] = frozenset(r)
        return r


def log2_width(inds, net):
    w = sum(math.log2(net.dims[x]) for x in inds if x not in net.sparse)
    sp = [x for x in inds if x in net.sparse]
    if sp:
        ws = sum(math.log2(net.dims[x]) for x in sp)
        if net.n_projs is not None:
            ws = min(ws, math.log2(net.n_projs))
        w += ws
    return w


def step_cost(inds, net):
    c = 1
    s = 1
    for x in inds:
        if x in net.sparse:
            s *= net.dims[x]
        else:
            c *= net.dims[x]
    if net.sparse and net.n_projs is not None:
        s = min(s, net.n_projs)
    return c * s


def path_cost(net, stps, slices=frozenset(), merger=None):
    m = merger or Merger(net)
    tot = 0
    for a, b in stps:
        tot += step_cost(m.inds(a) | m.inds(b) | slices, net)
    return tot


def path_groups(stps):
    g = []
    for a, b in stps:
        for x in (a, b):
            if len(x) == 1:
                g.append(x)
        g.append(a | b)
    return g


def max_width(net, groups, slices=frozenset(), merger=None):
    m = merger or Merger(net)
    return max((log2_width(m.inds(g) - slices, net) for g in groups),
               default=0.0)


def exact(a):
    """The number (or its printed form) as a fraction, None if not finite."""
    try:
        return Fraction(a if isinstance(a, (int, float, Fraction)) else str(a))
    except (ValueError, OverflowError):
        return None


def close(a, b, rel=1e-4):
    a, b = exact(a), exact(b)
    if a is None or b is None:
        return False
    return abs(a - b) <= Fraction(rel) * max(abs(a), abs(b)) + Fraction(
        1, 10**9)


def value(net, arrays=None, out=None, fixed=None):
    """Exact sum over all non-output indices; axes in the order of ``out``."""
    import numpy as np
    arrays = net.arrays if arrays is None else arrays
    out = sorted(net.out, key=repr) if out is None else list(out)
    fixed = fixed or {}
    names = net.inds()
    ids = {x: i for i, x in enumerate(names)}
    # pairwise in the given order, keeping what is still needed
    last = {}
    for t, xs in enumerate(net.ts):
        for x in xs:
            last[x] = t
    acc, axs = np.asarray(1.0), []
    for t, (xs, a) in enumerate(zip(net.ts, arrays)):
        a = np.asarray(a)
        keep = []
        for x in list(xs):
            if x in fixed:
                a = np.take(a, [fixed[x]], axis=list(xs).index(x))
        for x in list(axs) + [y for y in xs if y not in axs]:
            if x in out or last[x] > t:
                keep.append(x)
        loc = {}
        for x in list(axs) + list(xs):
            loc.setdefault(x, len(loc))
        acc = np.einsum(acc, [loc[x] for x in axs], a, [loc[x] for x in xs],
                        [loc[x] for x in keep])
        axs = keep
    loc = {x: i for i, x in enumerate(axs)}
    return np.einsum(acc, [loc[x] for x in axs], [loc[x] for x in out])
