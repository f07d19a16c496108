"""Workload generator: tensor networks drawn from the choice sequence."""
import math
from dataclasses import dataclass, field


@dataclass
class Net:
    """A tensor network as plain data (independent of the code under test)."""
    ts: list  # list of tuples of indices
    dims: dict
    out: frozenset
    sparse: frozenset = frozenset()
    n_projs: object = None
    explicit_out: bool = True
    notes: str = ''
    arrays: object = field(default=None, repr=False)

    @property
    def n(self):
        return len(self.ts)

    def inds(self):
        seen = {}
        for xs in self.ts:
            for x in xs:
                seen.setdefault(x)
        return list(seen)

    def describe(self):
        return 'ts=%r dims=%r out=%r sparse=%r n_projs=%r' % (
            self.ts, self.dims, sorted(self.out, key=repr),
            sorted(self.sparse, key=repr), self.n_projs)


NAMES = ['str', 'int', 'tuple', 'mixed', 'word']


def _name(kind, i):
    if kind == 'int':
        return i
    if kind == 'tuple':
        return ('x', i)
    if kind == 'mixed':
        return [i, 'i%d' % i, (i, 'q')][i % 3]
    if kind == 'word':
        return ['alpha', 'b', 'Γ', 'delta', 'e5', 'z z'][i % 6] + str(i)
    return 'i%d' % i


def network(ch, *, min_tensors=2, max_tensors=9, connected=None, dims=None,
            sparse=False, hyper=True, max_size=None, names=NAMES,
            scalars=False, max_rank=8, outputs=True):
    """A random network.

    connected: True (always), False (always several pieces), None (drawn).
    max_size: bound on the product of all dimensions (for exact evaluation).
    """
    n = ch.int('gen.n', min_tensors, max_tensors)
    if connected is None:
        pieces = 1 + ch.weighted('gen.pieces', [(0, 5), (1, 2), (2, 1)])
    else:
        pieces = 1 if connected else 1 + ch.int('gen.pieces', 1, 2)
    pieces = min(pieces, n)
    dmode = dims or ch.pick('gen.dims', ['two', 'pow2', 'any', 'two', 'ones'])

    def dim():
        if dmode == 'two':
            return 2
        if dmode == 'pow2':
            return ch.pick('gen.dim', [2, 4, 2, 8])
        if dmode == 'ones':
            return ch.pick('gen.dim', [2, 1, 3])
        return ch.pick('gen.dim', [2, 3, 4, 5, 6, 7])

    kind = ch.pick('gen.names', names)
    hmode = hyper and ch.chance('gen.hyper', 1, 2)
    piece = [i % pieces for i in range(n)]
    groups = [[i for i in range(n) if piece[i] == p] for p in range(pieces)]
    inds = []  # list of (tensors)
    shape = ch.pick('gen.shape', ['tree', 'chain', 'star', 'ring'])
    for g in groups:
        for k in range(1, len(g)):
            if shape == 'chain' or shape == 'ring':
                j = k - 1
            elif shape == 'star':
                j = 0
            else:
                j = k - 1 - ch.draw('gen.parent', k)
            inds.append([g[j], g[k]])
        if shape == 'ring' and len(g) > 2:
            inds.append([g[0], g[-1]])
        if len(g) == 1 or ch.chance('gen.dangling', 1, 3):
            inds.append([g[ch.draw('gen.t', len(g))]])
    for _ in range(ch.int('gen.extra', 0, n)):
        g = groups[ch.draw('gen.piece', pieces)]
        k = 2
        if hmode:
            k = ch.pick('gen.k', [2, 3, 2, 4, 1])
        elif ch.chance('gen.k1', 1, 5):
            k = 1
        k = min(k, len(g))
        inds.append(ch.shuffle('gen.sel', g)[:k])
    # bounded rank
    rank = [0] * n
    kept = []
    for i, xs in enumerate(inds):
        if all(rank[t] < max_rank for t in xs):
            kept.append(xs)
            for t in xs:
                rank[t] += 1
    inds = kept
    perm = ch.shuffle('gen.perm', range(n)) if ch.chance('gen.p', 1, 2) else \
        list(range(n))
    ts = [[] for _ in range(n)]
    dd, out = {}, []
    omode = outputs and ch.pick('gen.outmode', [0, 0, 1, 2])
    size = 1
    hyper_present = False
    for i, xs in enumerate(inds):
        name = _name(kind, i)
        d = dim()
        if max_size is not None and size * d > max_size:
            d = 1 if size * 2 > max_size else 2
        size *= d
        dd[name] = d
        for t in xs:
            ts[perm[t]].append(name)
        hyper_present |= len(xs) > 2
        if len(xs) == 1:
            out.append(name)
        elif omode and ch.chance('gen.out', 1, 5 if omode == 1 else 2):
            out.append(name)
            hyper_present = True  # needs explicit output indices
    if ch.chance('gen.order', 1, 2):
        ts = [ch.shuffle('gen.inds', xs) for xs in ts]
    if scalars and ch.chance('gen.scalar', 1, 6):
        ts.insert(ch.draw('gen.spos', n + 1), [])
    net = Net([tuple(xs) for xs in ts], dd, frozenset(out))
    net.explicit_out = hyper_present or ch.chance('gen.explicit', 1, 2)
    if sparse and dd:
        names_ = list(dd)
        net.sparse = frozenset(ch.subset('gen.sparse', names_, 1, 3))
        if not net.sparse:
            net.sparse = frozenset(
                [names_[ch.draw('gen.sparse1', len(names_))]])
        net.n_projs = ch.pick('gen.n_projs', [1, 2, 3, 5, 8, 20, 1000,
                                                2**32 + 3])
    return net


def arrays(ch, net, kind=None, dtype=None):
    """Random arrays; small integers are exactly representable."""
    import numpy as np
    seed = ch.draw('gen.arrays', 2**16)
    rng = np.random.Generator(np.random.PCG64(seed))
    kind = kind or ch.pick('gen.akind', ['int', 'complex', 'diag', 'gauss'])
    out = []
    for xs in net.ts:
        shp = tuple(net.dims[x] for x in xs)
        if kind == 'int':
            a = rng.integers(-2, 3, shp).astype('float64')
        elif kind == 'complex':
            a = rng.normal(size=shp) + 1j * rng.normal(size=shp)
        elif kind == 'diag' and len(shp) >= 2 and shp[0] == shp[1] and \
                rng.integers(2):
            a = np.zeros(shp)
            for k in range(shp[0]):
                a[k, k] = rng.integers(-2, 3, shp[2:])
        else:
            a = rng.normal(size=shp)
        out.append(np.asarray(a))
    net.arrays = out
    return out


def tensor_network(net, arrays=False, ts_tags=()):
    """The network as the library's own object."""
    from tnco.app import Tensor, TensorNetwork
    tens = []
    for i, xs in enumerate(net.ts):
        kw = {}
        if arrays and net.arrays is not None and net.arrays[i] is not None:
            kw['array'] = net.arrays[i]
        else:
            kw['dims'] = [net.dims[x] for x in xs]
        if i in ts_tags:
            kw['tags'] = {'t': i}
        tens.append(Tensor(xs, **kw))
    return TensorNetwork(tens, output_inds=net.out if net.explicit_out else
                         None, sparse_inds=net.sparse)


def from_tn(tn, n_projs=None):
    """Plain data from the library's object."""
    return Net([tuple(t.inds) for t in tn.tensors], dict(tn.dims),
               frozenset(tn.output_inds), frozenset(tn.sparse_inds or ()),
               n_projs, arrays=[t.array for t in tn.tensors])


def total_size(net):
    return math.prod(net.dims.values())
