"""C04: the seed alone determines the outcome.

A workload is a value (``spec``); it is executed once as a base and again
under other schedules, clocks, numbers of jobs, verbosities, entropies, next to
other callers, without the parallel backend, and in another real process with
another hash seed.  Everything it returns must be the same.
"""
import contextlib
import pickle
import random

import numpy as np

from .. import circuits, core, gen, peer
from ..choice import Choices
from ..core import Violation
from . import app, search
from . import common as cm


def prepare():
    import tnco.app.circuit.sampling  # noqa
    import tnco.utils.circuit  # noqa
    import tnco.testing.utils  # noqa
    import cirq  # noqa


# ---------------------------------------------------------------- values
class Arr:
    """An array compared up to rounding (never by its memory layout)."""

    def __init__(self, a):
        self.a = np.asarray(a)

    def __eq__(self, other):
        a, b = self.a, other.a
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return bool(np.all(a == b))
        s = max(1.0, float(abs(b).max()) if b.size else 1.0)
        return bool(np.all(abs(a - b) <= 1e-9 * s))

    def __repr__(self):
        return 'Arr%r' % (self.a.shape, )


def arrays(xs):
    return None if xs is None else [None if x is None else Arr(x) for x in xs]


def tn_value(tn):
    tags = [{k: t.tags[k] for k in t.tags} for t in tn.tensors]
    return [[tuple(t.inds) for t in tn.tensors],
            [tuple(t.dims) for t in tn.tensors],
            tn.output_inds if isinstance(tn.output_inds, frozenset) else
            frozenset(tn.output_inds),
            arrays([t.array for t in tn.tensors]),
            repr(tags), dict(tn.tags.get('hyper_inds_map') or {})]


def res_value(tn, res):
    key = app.result_key(tn, res)
    return [tn_value(tn), key[2:]]


def state_value(st):
    return [(None if tn is None else tn_value(tn),
             None if r is None else [tuple(map(tuple, r.path)), repr(r.cost)],
             arrays(a) if tn is not None else Arr(a),
             None if oi is None else tuple(oi), tuple(q))
            for tn, r, a, oi, q in st] + [tuple(st.qubits)]


# ------------------------------------------------------------- workloads
def w_optimize(spec, env):
    """Several calls of one optimizer."""
    from tnco.app import Optimizer
    o = Optimizer(**dict(spec['ctor'], n_jobs=env['n_jobs'],
                         verbose=env['verbose']))
    out = []
    for obj, opt in spec['calls']:
        r = o.optimize(obj, **dict(opt, **env['extra']))
        if spec['ctor'].get('output_format', 'raw') != 'raw':
            out.append(text_value(r))
        else:
            out.append(res_value(*r))
    return out


def text_value(r):
    """A formatted result without the run times."""
    import json

    def order(k, v):
        # lists that stand for sets
        if k == 'disconnected_slices':
            return [sorted(x, key=repr) for x in v]
        if k in ('output_inds', 'sparse_inds', 'slices') and v is not None:
            return sorted(v, key=repr)
        return v

    d = json.loads(r) if isinstance(r, (str, bytes)) else r

    def strip(x):
        if isinstance(x, dict):
            return {k: order(k, strip(v)) for k, v in x.items()
                    if 'runtime' not in str(k)}
        if isinstance(x, list):
            return [strip(v) for v in x]
        return x

    return strip(d)


def w_load(spec, env):
    from tnco.app import load_tn
    return tn_value(load_tn(spec['obj'], verbose=env['verbose'],
                            **spec['opt']))


def w_circuit(spec, env):
    from tnco.utils.circuit import load
    a, ts, out = load(spec['obj'], verbose=env['verbose'], **spec['opt'])
    return [arrays(a), list(map(tuple, ts)), frozenset(out)]


def w_fuse(spec, env):
    from tnco.utils import tn as tu
    net = spec['net']
    p, f = tu.fuse(net.ts, net.dims, spec['width'],
                   net.out if net.explicit_out else None,
                   exclude_inds=spec['excl'], seed=spec['seed'],
                   return_fused_inds=True, verbose=env['verbose'])
    return [list(map(tuple, p)), list(map(frozenset, f))]


def w_path(spec, env):
    from tnco.ctree import ContractionTree, traverse_tree
    from tnco.utils import tn as tu
    net, v = spec['net'], env['verbose']
    opt = spec['opt']
    r = tu.get_random_contraction_path(net.ts, verbose=v, **opt)
    out = [repr(r)]
    path = r if opt['merge_paths'] else tu.merge_contraction_paths(
        net.n, r, verbose=v)
    out.append(repr(tu.split_contraction_path(
        net.n, path, return_connected_components=True, verbose=v)))
    ts, o = tu.contract(path, net.ts, net.out, dims=net.dims, verbose=v)
    out += [list(map(tuple, ts)), frozenset(o)]
    for p in [r] if opt['merge_paths'] else r:
        if p and spec['tree']:
            t = ContractionTree(p, net.ts, net.dims, output_inds=net.out,
                                verbose=v)
            nodes = []
            traverse_tree(t, nodes.append, verbose=v)
            out += [search.tree_key(t), nodes]
    return out


def w_sampler(spec, env):
    from tnco.app.circuit.sampling import Sampler
    s = Sampler(**dict(spec['ctor'], n_jobs=env['n_jobs'],
                       verbose=env['verbose']))
    out = []
    st = None
    for how, n, kw in spec['calls']:
        if how == 'again' and st is not None:
            out.append(s.sample(st, n, **kw))
            continue
        r = s.sample(spec['obj'], n, return_intermediate_state_only=how ==
                     'state', **spec['kw'], **kw, **dict(spec['opt'],
                                                         **env['extra']))
        if how == 'state':
            st = r
            out.append(state_value(r))
        else:
            out.append(r)
    return out


def w_search(spec, env):
    """A search created from scratch, all of its states."""
    from .. import ctx as ctxm
    ctx = ctxm.Ctx(Choices(None, spec['choices']))
    sr = search.draw(ctx, max_tensors=9)
    if sr is None:
        return None
    sr.start()
    out = [search.snap(sr.opt, sr.W)]
    for c in spec['cmds']:
        beta = sr.betas[c % len(sr.betas)]
        sr.apply(sr.opt, (beta, sr.W is not None and c % 3 > 0))
        out.append(search.snap(sr.opt, sr.W))
    return out


def w_random(spec, env):
    from tnco.testing.utils import (generate_random_inds,
                                    generate_random_tensors)
    if spec['what'] == 'inds':
        return list(generate_random_inds(spec['n'], seed=spec['seed']))
    r = generate_random_tensors(spec['n'], spec['k'], seed=spec['seed'],
                                verbose=env['verbose'], **spec['kw'])
    return [frozenset(x) if isinstance(x, (set, frozenset)) else
            repr(x) for x in r]


WORK = dict(optimize=w_optimize, load=w_load, circuit=w_circuit, fuse=w_fuse,
            path=w_path, sampler=w_sampler, search=w_search, random=w_random)


def draw_obj(ctx, kinds=('tn', 'tn', 'arrays', 'arrays', 'sparse', 'circuit',
                         'cirq')):
    """(object to load, plain network, options of its loading)."""
    ch = ctx.ch
    k = ch.pick('obj', kinds)
    if k == 'circuit':
        gates, qubits, names = circuits.circuit(ch, max_qubits=4,
                                                max_gates=10)
        obj = [(np.array(m), q) for m, q in gates]
        ctx.note(names)
    elif k == 'cirq':
        from . import c11
        obj, gates, qubits, names = c11.draw_cirq(ctx)
        ctx.note('cirq', names)
    else:
        net = gen.network(ch, max_tensors=9, sparse=k == 'sparse',
                          max_size=20000 if k == 'arrays' else None,
                          scalars=k == 'arrays')
        if k == 'arrays':
            if ch.chance('struct', 1, 2):
                from . import c15
                c15.structured(ch, net)
            else:
                gen.arrays(ch, net)
        ctx.note(net.describe())
        return gen.tensor_network(net, arrays=k == 'arrays'), net, {}
    ini, _ = circuits.draw_state(ch, qubits, 'initial')
    fin, _ = circuits.draw_state(ch, qubits, 'final')
    opt = dict(initial_state=ini, final_state=fin)
    return obj, gen.Net([], {}, frozenset()), opt


def draw(ctx, kinds=None):
    ch = ctx.ch
    kind = ch.weighted('work', kinds or [('optimize', 8), ('load', 3), ('circuit', 3),
                                ('fuse', 2), ('path', 2), ('sampler', 3),
                                ('search', 3), ('random', 1)])
    spec = dict(kind=kind)
    if kind == 'optimize':
        calls = []
        for _ in range(ch.int('calls', 1, 2)):
            obj, net, extra = draw_obj(ctx)
            c, opt = app.draw_opts(ch, net, steps=(1, 8), runs=(1, 5),
                                   n_jobs=[1])
            spec.setdefault('ctor', c)
            c = spec['ctor']
            if c.get('max_width') in (None, float('inf')):
                opt.pop('update_slices', None)
            opt.update(extra)
            calls.append((obj, opt))
        c.pop('n_jobs')
        c.pop('verbose')
        if ch.chance('json', 1, 6):
            c['output_format'] = 'json'
        spec['calls'] = calls
    elif kind == 'load':
        obj, net, extra = draw_obj(ctx, ('tn', 'arrays', 'arrays', 'circuit',
                                         'cirq'))
        spec.update(obj=obj, opt=dict(
            fuse=ch.pick('fuse', [4, 0, None, 2, 3, 50]),
            decompose_hyper_inds=not ch.chance('nodec', 1, 4),
            seed=ch.seed(), **extra))
    elif kind == 'circuit':
        gates, qubits, names = circuits.circuit(ch)
        ctx.note(names)
        ini, _ = circuits.draw_state(ch, qubits, 'initial')
        fin, _ = circuits.draw_state(ch, qubits, 'final')
        spec.update(obj=[(np.array(m), q) for m, q in gates], opt=dict(
            initial_state=ini, final_state=fin,
            fuse=ch.pick('fuse', [4, 0, None, 2, 3, 6]),
            decompose_hyper_inds=not ch.chance('nodec', 1, 4),
            simplify=not ch.chance('nosimp', 1, 4),
            use_matrix_commutation=not ch.chance('nomat', 1, 3),
            seed=ch.seed()))
    elif kind in ('fuse', 'path'):
        net = gen.network(ch, min_tensors=1, max_tensors=12, scalars=True)
        ctx.note(net.describe())
        spec['net'] = net
        if kind == 'fuse':
            spec.update(width=ch.pick('w', [4, 1, 2, 3, 6, 2.5, 100]),
                        excl=ch.subset('excl', net.inds(), 1, 8),
                        seed=ch.seed())
        else:
            spec['opt'] = dict(seed=ch.seed(),
                               merge_paths=ch.chance('merge', 1, 2))
            spec['tree'] = not spec['opt']['merge_paths'] and \
                ch.chance('tree', 1, 2)
    elif kind == 'sampler':
        from . import c11
        if ch.chance('cirq', 1, 4):
            obj, gates, qubits, names = c11.draw_cirq(ctx)
        else:
            gates, qubits, names = c11.draw_circuit(ctx)
            obj = [(np.array(m), q) for m, q in gates]
        ctor, kw, opt = c11.draw_opts(ch, qubits)
        ctor.pop('n_jobs')
        ctx.note(names)
        calls = []
        for _ in range(ch.int('calls', 1, 4)):
            how = ch.pick('how', ['sample', 'state', 'again'])
            calls.append((how, ch.int('n', 1, 40), {}))
        spec.update(obj=obj, ctor=ctor, kw=kw, opt=opt, calls=calls)
    elif kind == 'search':
        from .. import ctx as ctxm
        a = len(ch.values)
        search.draw(ctx, max_tensors=9)
        spec.update(choices=list(ch.values[a:]),
                    cmds=[ch.draw('cmd', 60) for _ in range(
                        ch.int('steps', 1, 30))])
    else:
        spec.update(what=ch.pick('what', ['tensors', 'inds']),
                    seed=ch.seed())
        if spec['what'] == 'inds':
            spec['n'] = ch.int('n', 0, 6)
        else:
            n = spec['n'] = ch.int('n', 3, 12)
            spec['k'] = n + 4 + ch.int('k', 0, 20)
            spec['kw'] = dict(n_output_inds=ch.int('o', 0, 3))
            if ch.chance('cc', 1, 3):
                spec['kw']['n_cc'] = ch.int('ncc', 1, 2)
            if ch.chance('rn', 1, 2):
                spec['kw']['randomize_names'] = ch.chance('rn1', 1, 2)
    return spec


# ------------------------------------------------------------ executions
BASE = dict(n_jobs=1, verbose=0, extra={})


def execute(ctx, spec, env=BASE, **sim):
    _, r = ctx.sim(lambda: WORK[spec['kind']](spec, env), **sim)
    return r


def remote(spec, seed, env):
    """Execute in this (other) process under its own schedule."""
    from .. import ctx as ctxm
    c = ctxm.Ctx(Choices(('peer', seed)))
    return pickle.dumps(execute(c, spec, env, ambient=seed + 1,
                                profile='wild'))


def other(ctx, ch):
    """Something else running in the same process at the same time."""
    net, tn = app.net_and_tn(ch, max_tensors=6)
    ctor, opt = app.draw_opts(ch, net, steps=(1, 4), runs=(1, 3))
    what = ch.pick('other', ['optimize', 'random', 'path'])

    def run():
        from tnco.utils.tn import get_random_contraction_path
        s = core.current()
        for k in range(3):
            if what == 'optimize':
                app.optimize(tn, ctor, opt)
            elif what == 'random':
                random.seed(k)
                np.random.seed(k)
                random.random()
            else:
                get_random_contraction_path(net.ts)
            s.sleep(0.01, 'other')

    return run


def fresh(spec):
    return pickle.loads(pickle.dumps(spec))


def run(ctx):
    ch = ctx.ch
    spec = draw(ctx)
    ctx.note({k: v for k, v in spec.items() if k not in ('net', 'choices')})
    env0 = dict(BASE, n_jobs=ch.pick('jobs0', [1, 2]))
    base = execute(ctx, spec, env0)
    parallel = spec['kind'] in ('optimize', 'sampler')
    for v in range(ch.int('variants', 1, 3)):
        names = ['peer', 'again', 'entropy', 'clock', 'verbose']
        if parallel:
            names += ['jobs', 'schedule', 'no-joblib', 'others',
                      'everything', 'timeout']
        name = ch.pick('variant', names)
        env = dict(env0)
        sim = {}
        wrap = None
        every = name == 'everything'
        if name == 'jobs' or every or ch.chance('alsojobs', 1, 3):
            env['n_jobs'] = ch.pick('jobs', [2, 3, -1, 8, 1, -2])
        if name == 'schedule' or every:
            sim['profile'] = ctx.profile()
        if name == 'no-joblib' or (every and ch.chance('nj', 1, 3)):
            sim['joblib_missing'] = True
            ctx.counters['fault:no-parallel-backend'] += 1
        if name == 'verbose' or every:
            env['verbose'] = ch.pick('verb', [1, 2, 3, 10])
        if name == 'timeout' or (every and ch.chance('to', 1, 2)):
            env['extra'] = dict(timeout=1e9)
        if name == 'clock' or every:
            sim['start'] = ch.pick('start', [0.0, -5.0, 1e9, 1e12, 12345.678])
            ctx.counters['fault:clock-offset'] += 1
        if name == 'entropy' or every:
            sim['ambient'] = 1 + ch.draw('ambient', 1000)
            ctx.counters['fault:other-entropy'] += 1
        with cm.muted() if env['verbose'] else contextlib.nullcontext():
            if name == 'peer':
                ctx.counters['fault:another-process-and-hash-seed'] += 1
                got = pickle.loads(peer.call('c04:remote', spec,
                                             ch.draw('peerseed', 1000), env))
            elif name == 'others':
                rival = other(ctx, ch)

                def main():
                    import threading
                    t = threading.Thread(target=rival)
                    t.start()
                    try:
                        return WORK[spec['kind']](spec, env)
                    finally:
                        t.join()

                _, got = ctx.sim(main, profile=ctx.profile())
            else:
                got = execute(ctx, fresh(spec) if ch.chance('fresh', 1, 2)
                              else spec, env, **sim)
        if got != base:
            raise Violation('outcome-differs', '%s: %s\n%r\n%r' % (
                spec['kind'], name, *difference(base, got)))
        ctx.probe(spec['kind'] + '/' + name)
    ctx.nontrivial = base is not None
    ctx.state(spec['kind'], repr(base))


def difference(a, b, n=0):
    """The first differing parts."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
            len(a) == len(b) and n < 12:
        for x, y in zip(a, b):
            if x != y:
                return difference(x, y, n + 1)
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        for k in a:
            if a[k] != b[k]:
                return difference(a[k], b[k], n + 1)
    return a, b
