"""Application-level workloads: an optimizer on a drawn network."""
from .. import core, gen


def draw_opts(ch, net, *, width=None, verbose=(0,), n_jobs=None, steps=(1, 12),
              runs=(1, 4), timeouts=(None,), cost_types=('float64',),
              fuse=(0, None, 4, 2, 6), seeds=True):
    """Arguments of ``Optimizer(...)`` and ``.optimize(...)``."""
    finite = ch.chance('finite', 1, 2) if width is None else width
    ctor = dict(method='sa', n_jobs=ch.pick('n_jobs', n_jobs or
                                            [1, 2, 3, -1, 8, -2]),
                verbose=ch.pick('verbose', verbose),
                cost_type=ch.pick('cost_type', cost_types))
    if seeds:
        ctor['seed'] = ch.seed()
    if finite:
        ctor['max_width'] = ch.pick('max_width', [3, 2, 4, 1, 5, 2.5, 6, 8, 0])
    elif ch.chance('inf', 1, 3):
        ctor['max_width'] = float('inf')
    n_steps = ch.int('n_steps', *steps)
    kind = ch.pick('betas', ['tuple', 'list', 'list+steps', 'tuple'])
    if kind == 'tuple':
        b0 = ch.pick('b0', [0.0, 0, 1.0, 5.0])
        b1 = ch.pick('b1', [10.0, 2, 100.0, 0.5])
        opt = dict(betas=(b0, b1), n_steps=n_steps)
    else:
        betas = [ch.pick('beta', [0.0, 0.1, 1.0, 3.0, 10.0, 100.0])
                 for _ in range(n_steps)]
        if kind == 'list+steps' and len(betas) > 2:
            opt = dict(betas=betas, n_steps=ch.int('cut', 1, len(betas)))
        else:
            opt = dict(betas=betas)
            if len(betas) == 2 and ch.chance('astuple', 1, 2):
                opt['betas'] = list(betas)
    opt['n_runs'] = ch.int('n_runs', *runs)
    if net.sparse:
        opt['n_projs'] = net.n_projs
    if finite and ch.chance('upd', 1, 2):
        opt['update_slices'] = ch.pick('update_slices', [1, 2, 3, 10])
    t = ch.pick('timeout', timeouts)
    if t is not None:
        opt['timeout'] = t
    opt['fuse'] = ch.pick('fuse', fuse)
    if ch.chance('no-hyper', 1, 4):
        opt['decompose_hyper_inds'] = False
    return ctor, opt


def optimize(tn, ctor, opt):
    from tnco.app import Optimizer
    return Optimizer(**ctor).optimize(tn, **opt)


def result_key(tn, res, *, runtime=False):
    """What must be reproducible of a result."""
    out = [tuple((tuple(t.inds), tuple(t.dims),
                  None if t.array is None else
                  (t.array.shape, t.array.tobytes())) for t in tn.tensors),
           tuple(sorted(tn.output_inds, key=repr))]
    for r in res:
        k = [repr(r.cost), tuple(map(tuple, r.path)),
             tuple(map(repr, r.disconnected_costs)),
             tuple(tuple(map(tuple, p)) for p in r.disconnected_paths)]
        if hasattr(r, 'slices'):
            k += [tuple(sorted(r.slices, key=repr)),
                  tuple(tuple(sorted(x, key=repr))
                        for x in r.disconnected_slices)]
        out.append(tuple(k))
    return out


def net_and_tn(ch, **kw):
    net = gen.network(ch, **kw)
    return net, gen.tensor_network(net)
