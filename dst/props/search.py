"""A single search (optimizer-level workload)."""
import math
import pickle
from collections import Counter

from .. import core, gen, model


def draw_width(ch, net):
    """A memory limit: round numbers, and limits hit exactly."""
    kind = ch.pick('wkind', ['int', 'int', 'half', 'exact'])
    if kind == 'int':
        return ch.int('W', 0, 8)
    if kind == 'half':
        return ch.int('W', 0, 14) / 2
    names = net.inds()
    sub = ch.subset('wsub', names, 1, 3)[:5]
    if not sub:
        return 3
    return math.log2(math.prod(net.dims[x] for x in sub))


class Search:
    """A search on one connected network, with its own replayable history."""

    def __init__(self):
        self.nstep = 0
        self.used = False
        self.restores = 0
        self.history = []

    def tree(self, seed=None):
        from tnco.ctree import ContractionTree
        return ContractionTree(self.path, self.full.ts, self.dims_arg,
                               output_inds=self.out_arg,
                               check_shared_inds=True)

    def steps(self, path):
        """Contractions of the component (in its own positions)."""
        stps, pool = model.steps(self.full.n, path)
        loc = {x: i for i, x in enumerate(self.pos)}
        out = []
        for ab in stps:
            if not all(x in loc for g in ab for x in g):
                raise model.PathError('%r contracts tensors of another '
                                      'component' % (path, ))
            out.append(tuple(frozenset(loc[x] for x in g) for g in ab))
        left = [frozenset(loc[x] for x in g) for g in pool
                if all(x in loc for x in g)]
        return out, left

    def cmodel(self):
        if self.W is None:
            from tnco.optimize.infinite_memory.cost_model import \
                SimpleCostModel
            kw = {}
        else:
            from tnco.optimize.finite_width.cost_model import SimpleCostModel
            kw = dict(max_width=self.W, width_type=self.width_type)
        if self.net.sparse:
            kw.update(sparse_inds=self.net.sparse, n_projs=self.net.n_projs)
        cm = SimpleCostModel(cost_type=self.cost_type, **kw)
        if self.used:
            self.use(cm)
        return cm

    def use(self, cm):
        """The model was used before, for tensors in another order."""
        if self.W is None:
            from tnco.optimize.infinite_memory import Optimizer
        else:
            from tnco.optimize.finite_width import Optimizer
        from tnco.ctree import ContractionTree
        ts, path = self.full.ts[::-1], [(0, 1)] * (self.full.n - 1)
        Optimizer(ContractionTree(path, ts, self.dims_arg,
                                  output_inds=self.full.out),
                  cm, seed=1, disable_shared_inds=True)

    def create(self, seed=None):
        if self.W is None:
            from tnco.optimize.infinite_memory import Optimizer
            return Optimizer(self.tree(), self.cmodel(),
                             seed=self.seed if seed is None else seed,
                             disable_shared_inds=self.no_shared)
        from tnco.optimize.finite_width import Optimizer
        return Optimizer(self.tree(), self.cmodel(),
                         seed=self.seed if seed is None else seed,
                         disable_shared_inds=self.no_shared,
                         skip_slices=self.skip or None,
                         max_number_new_slices=self.new_slices)

    def prob(self, beta):
        from tnco.optimize.prob import Greedy, MetropolisHastings
        from tnco.optimize import prob as P
        if beta == 'greedy':
            return Greedy(cost_type=self.cost_type)
        if beta == 'base':
            return P.BaseProbability(cost_type=self.cost_type) if hasattr(
                P, 'BaseProbability') and self.base_ok else \
                MetropolisHastings(0, cost_type=self.cost_type)
        return MetropolisHastings(beta, cost_type=self.cost_type)

    base_ok = False

    def start(self):
        self.opt = self.create()

    def apply(self, opt, cmd):
        beta, upd = cmd
        p = self.prob(beta)
        if self.W is None:
            opt.update(p)
        else:
            opt.update(p, update_slices=upd)

    def draw_cmd(self):
        ch = self.ch
        beta = self.betas[ch.draw('beta', len(self.betas))]
        upd = self.W is not None and not ch.chance('noupd', 1, 3)
        return beta, upd

    def step(self):
        cmd = self.draw_cmd()
        self.history.append(cmd)
        self.apply(self.opt, cmd)
        self.nstep += 1

    def maybe_restore(self, num=1, den=12):
        """Lose the process and restore the search from its pickle."""
        if self.ch.chance('restore', num, den):
            self.opt = pickle.loads(pickle.dumps(self.opt))
            self.restores += 1
            self.ctx.counters['fault:process-crash'] += 1
            return True
        return False


def component(ch, net):
    """One of the connected components, as a network of its own."""
    cc = [c for c in model.components(net) if len(c) > 1]
    if not cc:
        return None, None
    pos = sorted(cc[ch.draw('component', len(cc))])
    sub = gen.Net([net.ts[i] for i in pos], {}, net.out, net.sparse,
                  net.n_projs)
    inds = sub.inds()
    sub.dims = {x: net.dims[x] for x in inds}
    sub.out = frozenset(x for x in net.out if x in sub.dims)
    sub.sparse = net.sparse
    return pos, sub


def build(ctx, ch, net, *, width=None, cost_types=('float64',),
          width_types=('float32',), new_slices=True, skip=True,
          connected=True):
    """Draw the options of a search on (a component of) a network."""
    from tnco.utils.tn import get_random_contraction_path
    sr = Search()
    sr.full = net
    if connected:
        sr.pos = list(range(net.n))
    else:
        sr.pos, net = component(ch, net)
        if net is None:
            return None
    sr.ctx, sr.ch, sr.net = ctx, ch, net
    # dimensions may be given as a number, and output indices may be implied
    sr.dims_arg, sr.out_arg = sr.full.dims, sr.full.out
    if len(set(sr.full.dims.values())) == 1 and ch.chance('dims-number', 1, 3):
        sr.dims_arg = next(iter(sr.full.dims.values()))
        ctx.probe('dims-as-number')
    count = Counter(x for xs in sr.full.ts for x in xs)
    if sr.out_arg == frozenset(x for x in count if count[x] == 1) and \
            max(count.values()) <= 2 and ch.chance('implied-outputs', 1, 3):
        sr.out_arg = None
        ctx.probe('implied-outputs')
    sr.seed = ch.seed('sseed')
    finite = ch.chance('finite', 1, 2) if width is None else width
    keep_some = False
    sr.W = draw_width(ch, net) if finite else None
    sr.cost_type = ch.pick('ctype', cost_types)
    sr.width_type = 'float32' if sr.cost_type != 'float64' else ch.pick(
        'wtype', width_types)
    sr.no_shared = ch.chance('no-shared', 1, 5)
    sr.used = ch.chance('used-model', 1, 5 if net.sparse else 20)
    if sr.used:
        ctx.probe('used-model')
    sr.skip = frozenset()
    sr.new_slices = 0
    if finite:
        if new_slices and ch.chance('new-slices', 1, 2):
            sr.new_slices = ch.pick('n-new', [1, 2, 3, 50])
        keep_some = skip and ch.chance('skip', 1, 3)
    mode = ch.pick('betamode', ['mixed', 'hot', 'greedy', 'cold'])
    sr.betas = {'mixed': [0.0, 1.0, 10.0, 'greedy', 1e6],
                'hot': [0.0, 0.1, 1e-9, 2 / 3], 'greedy': ['greedy'],
                'cold': [5.0, 100.0, 12345.678901234]}[mode]
    pseed = ch.draw('pseed', 2**16)
    paths = []
    for p in get_random_contraction_path(sr.full.ts, merge_paths=False,
                                         seed=pseed):
        if p and any(sr.pos[0] in g and len(g) == net.n
                     for g in model.steps(sr.full.n, p)[1]):
            paths.append(p)
    if len(paths) != 1 or \
            model.components(net) != [frozenset(range(net.n))]:
        return None
    sr.path = paths[0]
    if keep_some:
        # keep some indices, as far as they fit in all tensors of the first
        # tree (exactly only where the limit has no rounding)
        keep = set()
        tol = 0 if all(d & (d - 1) == 0 for d in net.dims.values()
                       ) and sr.W * 2 % 1 == 0 else -1e-3
        if ch.chance('skip-most', 1, 3):
            mg = model.Merger(net)
            groups = [mg.inds(g) for g in
                      model.path_groups(sr.steps(sr.path)[0])]
            cand = ch.shuffle('skip-order', net.inds())
        else:
            groups = [frozenset(net.inds())]
            cand = ch.subset('skip-inds', net.inds(), 1, 3)
        for x in cand:
            if all(model.log2_width(g & keep | {x}, net) <= sr.W + tol
                   for g in groups if x in g):
                keep.add(x)
        sr.skip = frozenset(keep)
    ctx.note(sr.full.describe())
    if sr.full is not net:
        ctx.note('tensors', sr.pos)
        ctx.probe('one-of-several-components')
    ctx.note('W', sr.W, 'cost', sr.cost_type, 'new slices', sr.new_slices,
             'skip', sorted(sr.skip, key=repr), 'no shared', sr.no_shared,
             'seed', sr.seed, 'path', sr.path, 'betas', sr.betas)
    return sr


def draw(ctx, *, width=None, max_tensors=12, sparse=None, connected=None,
         dims=None, large=True, **kw):
    ch = ctx.ch
    if sparse is None:
        sparse = ch.chance('sparse', 1, 4)
    lo = 2
    if large and ch.chance('large', 1, 24):
        # more indices than one or two machine words
        lo, max_tensors = ch.pick('large-n', [(30, 50), (50, 90)])
        kw['cost_types'] = [c for c in kw.get('cost_types', ('float64', ))
                            if c != 'float32']
    wide = dims is None and lo == 2 and ch.chance('wide', 1, 12)
    if wide:
        # costs which differ by many orders of magnitude (the differences are
        # accumulated, so that double precision is too low)
        kw['cost_types'] = ('float1024', )
    if connected is None:
        connected = not ch.chance('parts', 1, 4)
    net = gen.network(ch, min_tensors=lo if connected else max(lo, 5),
                      max_tensors=max_tensors, connected=connected,
                      sparse=sparse, dims=dims)
    if lo > 2:
        ctx.probe('large-network')
    if wide:
        net.dims = {x: ch.pick('wide-dim', [2, 1009, 10**6, 99991, 2**20, 3])
                    for x in net.inds()}
        ctx.probe('large-dimensions')
    return build(ctx, ch, net, width=width, connected=connected, **kw)


def tree_key(tree):
    return (tuple((tuple(n.children), n.parent) for n in tree.nodes),
            tuple(tree.inds[:]), dict(tree.dims), tuple(map(tuple,
                                                            tree.path())))


def snap(o, W):
    """Everything a user can see of a search."""
    r = dict(ctree=tree_key(o.ctree), min_ctree=tree_key(o.min_ctree),
             total=str(o.total_cost), min_total=str(o.min_total_cost),
             log2=o.log2_total_cost, log2_min=o.log2_min_total_cost,
             prng=o.prng_state, no_shared=o.disable_shared_inds)
    if W is not None:
        r.update(slices=o.slices, min_slices=o.min_slices, skip=o.skip_slices)
    return r


def differ(a, b):
    return sorted(k for k in a if a[k] != b.get(k)) + sorted(set(b) - set(a))


def advance(data, W, cmds, cost_type):
    """Restore a search, run it, return what it shows (also in a peer)."""
    sr = Search()
    sr.W, sr.cost_type = W, cost_type
    o = pickle.loads(data)
    out = [snap(o, W)]
    valid = [o.is_valid(return_message=True)]
    for c in cmds:
        sr.apply(o, c)
        out.append(snap(o, W))
    valid.append(o.is_valid(return_message=True))
    return valid, out, pickle.dumps(o)
