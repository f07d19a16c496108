"""C15: randomized network preparation is valid and keeps the value."""
import math
import warnings

import numpy as np

from .. import circuits, core, gen, model
from ..core import Violation


def prepare():
    import tnco.utils.circuit  # noqa
    import cirq  # noqa
    import qiskit  # noqa
    from cirq.contrib.qasm_import import circuit_from_qasm  # noqa


class Dictated:
    """A random stream chosen by the simulator draw by draw."""

    def __init__(self, ch, mode):
        self.ch, self.mode = ch, mode

    def below(self, n):
        if self.mode == 'low':
            return 0
        if self.mode == 'high':
            return n - 1
        return self.ch.draw('rng', n)

    def random(self):
        return self.below(1 << 20) / (1 << 20)


def stream(ctx):
    """Setup of a simulation with a drawn kind of random stream."""
    mode = ctx.ch.pick('stream', ['seed', 'drawn', 'low', 'high', 'drawn'])

    def setup(s):
        if mode != 'seed':
            s.rng_policy = lambda r: Dictated(ctx.ch, mode)
            ctx.counters['fault:dictated-random-stream'] += 1

    return mode, setup


def close(a, b, tol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    scale = max(1.0, float(np.abs(b).max()) if b.size else 1.0)
    return bool(np.all(np.abs(a - b) <= tol * scale))


def expand(v2, outs2, outs, mapping, dims):
    """Value over ``outs`` from the value over the merged indices."""
    shape = tuple(dims[o] for o in outs)
    grid = np.indices(shape) if shape else None
    first = {}
    mask = np.ones(shape, dtype=bool)
    for k, o in enumerate(outs):
        x = mapping[o]
        if x in first:
            mask &= grid[k] == grid[first[x]]
        else:
            first[x] = k
    if set(first) != set(outs2):
        raise Violation('open-indices-changed', '%r instead of %r' % (
            sorted(outs2, key=repr), sorted(first, key=repr)))
    v = v2[tuple(np.where(mask, grid[first[x]], 0) for x in outs2)] \
        if shape else v2
    return np.where(mask, v, 0)


def run_path(ctx):
    from tnco.utils.tn import get_random_contraction_path
    ch = ctx.ch
    net = gen.network(ch, min_tensors=1, max_tensors=12, scalars=True,
                      hyper=True)
    ctx.note(net.describe())
    merge = ch.chance('merge', 1, 2)
    auto = ch.chance('auto', 1, 2)
    mode, setup = stream(ctx)
    seed = ch.seed()
    kw = dict(merge_paths=merge, seed=seed)
    if merge:
        kw['autocomplete'] = auto
    ctx.note(kw, mode)
    _, r = ctx.sim(lambda: get_random_contraction_path(net.ts, **kw),
                   setup=setup)
    comps = model.components(net)
    paths = [r] if merge else r
    done = set()
    m = model.Merger(net)
    for p in paths:
        try:
            stps, pool = model.steps(net.n, p)
        except model.PathError as e:
            raise Violation('path-invalid', str(e))
        for a, b in stps:
            if not any(a | b <= c for c in comps):
                if merge and auto:
                    if a in map(frozenset, comps) or len(a) >= 1:
                        continue
                raise Violation('components-mixed', '%r %r' % (a, b))
            if not m.inds(a) & m.inds(b):
                raise Violation('no-shared-index', 'tensors %r and %r are '
                                'contracted' % (sorted(a), sorted(b)))
        done |= {g for g in pool if len(g) > 1}
        if merge and auto and len(pool) != 1:
            raise Violation('path-incomplete', '%d tensors left' % len(pool))
        if merge and auto:
            # every component is finished before it meets another one
            got = set()
            for a, b in stps:
                got |= {a, b, a | b}
            for c in comps:
                if frozenset(c) not in got and len(comps) + sum(
                        not xs for xs in net.ts) > 1:
                    raise Violation('component-incomplete', repr(sorted(c)))
    if not (merge and auto):
        want = {frozenset(c) for c in comps if len(c) > 1}
        if done != want:
            raise Violation('component-incomplete', 'contracted %r instead of '
                            '%r' % (sorted(map(sorted, done)),
                                    sorted(map(sorted, want))))
    if not merge and len(paths) != len([c for c in comps]):
        raise Violation('paths-per-component', '%d paths, %d components' %
                        (len(paths), len(comps)))
    ctx.nontrivial = any(len(c) > 2 for c in comps)
    ctx.state(repr(r))


def run_fuse(ctx):
    from tnco.utils import tn as tu
    ch = ctx.ch
    net = gen.network(ch, min_tensors=1, max_tensors=9, max_size=20000,
                      hyper=True)
    gen.arrays(ch, net, ch.pick('akind', ['int', 'complex']))
    W = ch.pick('fusew', [4, 0, 1, 2, 3, 6, 2.5, 100, math.log2(3),
                          math.log2(6)])
    excl = ch.subset('excl', net.inds(), 1, 5) if ch.chance('ex', 1, 3) else []
    mode, setup = stream(ctx)
    seed = ch.seed()
    ctx.note(net.describe(), 'width', W, 'exclude', excl, mode, 'seed', seed)

    def main():
        return tu.fuse(net.ts, net.dims, W,
                       net.out if net.explicit_out else None,
                       exclude_inds=excl, seed=seed, return_fused_inds=True)

    _, (path, fused) = ctx.sim(main, setup=setup)
    try:
        stps, pool = model.steps(net.n, path)
    except model.PathError as e:
        raise Violation('path-invalid', str(e))
    m = model.Merger(net)
    if len(fused) != len(path):
        raise Violation('fused-indices', 'one per contraction expected')
    for (a, b), f in zip(stps, fused):
        g = m.inds(a | b)
        if not m.inds(a) & m.inds(b):
            raise Violation('no-shared-index', '%r %r' % (a, b))
        if frozenset(f) != g or len(set(f)) != len(f):
            raise Violation('fused-indices', 'tensors %r fused have %r, not '
                            '%r' % (sorted(a | b), f, sorted(g, key=repr)))
        w = model.log2_width(g, net)
        if w > W + 1e-6:
            raise Violation('fused-too-wide', 'tensors %r fused have width %r '
                            '> %r' % (sorted(a | b), w, W))
        if (m.inds(a) | m.inds(b)) & set(excl):
            raise Violation('excluded-index-fused', '%r' % (excl,))
    # value
    ts2, out2, arr2 = tu.contract(path, net.ts, net.out, net.arrays)
    n2 = gen.Net([tuple(x) for x in ts2], net.dims, frozenset(out2))
    if n2.out != net.out:
        raise Violation('open-indices-changed', '%r instead of %r' %
                        (n2.out, net.out))
    if len(ts2) != len(pool):
        raise Violation('tensors-lost', '%d instead of %d' % (len(ts2),
                                                              len(pool)))
    for xs, a, g in zip(ts2, arr2, pool):
        if frozenset(xs) != m.inds(g) or tuple(np.shape(a)) != tuple(
                net.dims[x] for x in xs):
            raise Violation('fused-indices', '%r %r %r' % (xs, g, np.shape(a)))
    ts3, out3 = tu.contract(path, net.ts, net.out, dims=net.dims)
    if list(map(tuple, ts3)) != list(map(tuple, ts2)) or \
            frozenset(out3) != n2.out:
        raise Violation('fused-indices', 'with and without arrays: %r %r' %
                        (ts2, ts3))
    outs = sorted(net.out, key=repr)
    a, b = model.value(n2, arr2, outs), model.value(net, net.arrays, outs)
    if not close(a, b):
        raise Violation('value-changed', 'by fusing: %r instead of %r' %
                        (a, b))
    ctx.nontrivial = len(path) > 1
    ctx.state(repr(path))


def run_load_tn(ctx):
    from tnco.app import load_tn
    ch = ctx.ch
    kind = ch.weighted('arrays', [('all', 4), ('none', 2), ('some', 1)])
    net = gen.network(ch, min_tensors=1, max_tensors=8 if kind == 'all' else
                      ch.pick('max', [8, 20]),
                      max_size=20000 if kind != 'none' else None,
                      hyper=True, scalars=True,
                      sparse=ch.chance('sparse', 1, 8))
    if kind != 'none':
        structured(ch, net)
    if kind == 'some':
        for i in ch.subset('without', range(net.n), 1, 2) or [0]:
            net.arrays[i] = None
        if all(a is None for a in net.arrays):
            kind = 'none'
    tagged = ch.pick('tags', [(), range(net.n), None])
    if tagged is None:
        tagged = ch.subset('tagged', range(net.n), 1, 2)
    tn = gen.tensor_network(net, arrays=True, ts_tags=tagged)
    opt = dict(fuse=ch.pick('fuse', [4, 0, None, 2, 3, 1, 50]),
               decompose_hyper_inds=not ch.chance('nodec', 1, 4),
               seed=ch.seed())
    mode, setup = stream(ctx)
    ctx.note(net.describe(), opt, mode)
    ctx.note([a if a is None else a.tolist() for a in net.arrays or []])

    def main():
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return load_tn(tn, **opt)

    _, t2 = ctx.sim(main, setup=setup)
    if kind == 'all':
        check_tn(ctx, net, t2, opt)
    if kind != 'all' or net.sparse or not opt['decompose_hyper_inds']:
        check_provenance(ctx, net, t2, opt, tagged, kind)
    ctx.nontrivial |= t2.n_tensors < net.n
    ctx.state(repr(t2.ts_inds))


def check_provenance(ctx, net, t2, opt, tagged, kind):
    """Every returned tensor is what the recorded path says it is."""
    path = t2.tags.get('fuse_path', [])
    try:
        stps, pool = model.steps(net.n, path)
    except model.PathError as e:
        raise Violation('fuse-path-invalid', '%r: %s' % (path, e))
    if path and (net.sparse or kind == 'some' or not opt['fuse']):
        raise Violation('fused-anyway', 'path %r' % (path,))
    if frozenset(t2.output_inds) != net.out or \
            frozenset(t2.sparse_inds or ()) != net.sparse:
        raise Violation('open-indices-changed', 'outputs %r, sparse indices '
                        '%r' % (t2.output_inds, t2.sparse_inds))
    if len(pool) != t2.n_tensors:
        raise Violation('fuse-path-differs', 'path %r gives %d tensors, %d '
                        'are returned' % (path, len(pool), t2.n_tensors))
    m = model.Merger(net)
    for g, t in zip(pool, t2.tensors):
        want = m.inds(g) if len(g) > 1 else frozenset(
            net.ts[next(iter(g))])
        if frozenset(t.inds) != want or len(t.inds) != len(want) or \
                tuple(t.dims) != tuple(net.dims[x] for x in t.inds):
            raise Violation('fuse-path-differs', 'tensors %r fused by the '
                            'path %r carry %r, the returned tensor %r (%r)' %
                            (sorted(g), path, sorted(want, key=repr), t.inds,
                             t.dims))
        found = []

        def walk(x):
            if isinstance(x, dict) or hasattr(x, 'items'):
                for k, v in x.items():
                    if k == 't':
                        found.append(v)
                    walk(v)

        walk(t.tags)
        if sorted(found) != sorted(g & set(tagged)):
            raise Violation('tags-misplaced', 'a tensor made of %r carries the '
                            'tags %r' % (sorted(g), t.tags))
        if kind == 'some' and len(g) == 1:
            a, b = t.array, net.arrays[next(iter(g))]
            if (a is None) != (b is None) or a is not None and \
                    not np.array_equal(a, b):
                raise Violation('value-changed', 'of tensor %r' % sorted(g))
    for a, b in stps:
        w = model.log2_width(m.inds(a | b), net)
        if w > opt['fuse'] + 1e-6:
            raise Violation('fused-too-wide', 'tensors %r fused have width %r '
                            '> %r' % (sorted(a | b), w, opt['fuse']))
    if path:
        ctx.probe('fuse-path-replayed')


def structured(ch, net):
    """Arrays with diagonal and permutation structure."""
    seed = ch.draw('arr', 2**16)
    rng = np.random.Generator(np.random.PCG64(seed))
    out = []
    for xs in net.ts:
        shp = tuple(net.dims[x] for x in xs)
        a = rng.integers(-2, 3, shp).astype('float64')
        k = ch.pick('struct', ['int', 'diag', 'delta', 'complex', 'const',
                               'diag2', 'zero'])
        if k == 'complex':
            a = a + 1j * rng.integers(-2, 3, shp)
        elif k == 'const':
            a = np.full(shp, 2.0)
        elif k == 'zero':
            a = np.zeros(shp)
        elif k in ('diag', 'delta', 'diag2') and len(shp) > 1:
            axes = list(rng.permutation(len(shp)))
            g = np.indices(shp)
            n = 2 if k == 'diag' else int(rng.integers(2, len(shp) + 1))
            if k == 'delta':
                a = np.full(shp, float(rng.integers(1, 3)))
            for x in axes[1:n]:
                if shp[x] == shp[axes[0]]:
                    a = np.where(g[x] == g[axes[0]], a, 0)
            if k == 'diag2' and len(axes) >= 4:
                a = np.where(g[axes[-1]] == g[axes[-2]], a, 0)
        out.append(np.asarray(a))
    net.arrays = out


def check_tn(ctx, net, t2, opt):
    n2 = gen.from_tn(t2)
    mapping = t2.tags.get('hyper_inds_map') or {}
    mp = {o: mapping.get(o, o) for o in net.out}
    W = opt.get('fuse')
    outs = sorted(net.out, key=repr)
    outs2 = sorted(n2.out, key=repr)
    for xs, a in zip(n2.ts, n2.arrays):
        if len(set(xs)) != len(xs):
            raise Violation('repeated-index', repr(xs))
        if tuple(np.shape(a)) != tuple(n2.dims[x] for x in xs):
            raise Violation('shape', '%r %r' % (xs, np.shape(a)))
    # an index left on one tensor only must be open
    v2 = model.value(n2, n2.arrays, outs2)
    got = expand(v2, outs2, outs, mp, net.dims)
    want = model.value(net, net.arrays, outs)
    if not close(got, want):
        raise Violation('value-changed', 'by loading: %r instead of %r\n%r' %
                        (got.tolist(), want.tolist(), n2.ts))
    cnt = {}
    for xs in n2.ts:
        for x in xs:
            cnt[x] = cnt.get(x, 0) + 1
    for x, c in cnt.items():
        if c == 1 and x not in n2.out:
            raise Violation('dangling-index', 'index %r is left on a single '
                            'tensor and is not open: %r' % (x, n2.ts))


def run_circuit(ctx):
    from tnco.app import load_tn
    from tnco.utils.circuit import load
    ch = ctx.ch
    gates, qubits, names = circuits.circuit(ch, phases=True)
    ini, inis = circuits.draw_state(ch, qubits, 'initial')
    fin, fins = circuits.draw_state(ch, qubits, 'final')
    opt = dict(initial_state=ini, final_state=fin,
               fuse=ch.pick('fuse', [4, 0, None, 2, 3, 6, 1]),
               decompose_hyper_inds=not ch.chance('nodec', 1, 4),
               seed=ch.seed())
    simp = not ch.chance('nosimp', 1, 4)
    api = ch.pick('api', ['load', 'load', 'load_tn'])
    if api == 'load':
        opt['simplify'] = simp
        opt['use_matrix_commutation'] = not ch.chance('nomat', 1, 3)
    else:
        opt['simplify_circuit'] = simp
    dt = ch.pick('dtype', [None, None, None, 'complex128', 'complex64'])
    if dt:
        opt['dtype'] = dt
    mode, setup = stream(ctx)
    ctx.note(names, 'qubits', qubits, opt, api, mode)
    arg = [(m.copy(), q) for m, q in gates]
    if api == 'load':
        _, (arrays, ts, out) = ctx.sim(lambda: load(arg, **opt), setup=setup)
        net = gen.Net([tuple(x) for x in ts], {}, frozenset(out))
        mp = {}
    else:
        _, t = ctx.sim(lambda: load_tn(arg, **opt), setup=setup)
        net = gen.from_tn(t)
        arrays = net.arrays
        mp = t.tags.get('hyper_inds_map') or {}
    tol = 1e-6
    if dt == 'complex64':
        tol = 1e-4
        if not all(np.asarray(a).dtype == np.dtype(dt) for a in arrays):
            raise Violation('wrong-type', repr([np.asarray(a).dtype
                                                for a in arrays]))
    bad = compare(net, arrays, mp, gates, qubits, inis, fins, tol,
                  phase=simp and any(n == 'phase' for n, _ in names))
    if bad:
        raise Violation('amplitudes-changed', bad)
    ctx.nontrivial = len(gates) > 2
    ctx.state(repr(net.ts))


def run_library(ctx):
    """Circuits of other libraries, or their text."""
    from tnco.app import load_tn
    from tnco.utils.circuit import load
    from . import c11
    ch = ctx.ch
    lib = ch.pick('lib', ['cirq', 'cirq', 'json', 'qasm', 'qiskit'])
    wrong = None
    if lib == 'qiskit':
        c, gates, qubits, names = c11.draw_qiskit(ch)
        wrong = [(m, q[::-1]) for m, q in gates]
    else:
        c, gates, qubits, names = c11.draw_cirq(ctx)
        import cirq
        if lib == 'qasm':
            if any(cirq.is_measurement(o) for o in c.all_operations()):
                c = cirq.Circuit(o for o in c.all_operations()
                                 if not cirq.is_measurement(o))
            qs = sorted(c.all_qubits())
            c = c.transform_qubits({q: cirq.NamedQubit('q_%d' % i)
                                    for i, q in enumerate(qs)})
            c = c.to_qasm(header='', precision=12)
            # (the text does not carry the global phase)
            from cirq.contrib.qasm_import import circuit_from_qasm
            want = cirq.unitary(circuit_from_qasm(c))
            qubits = [cirq.NamedQubit('q_%d' % i) for i in range(len(qs))]
            gates = [(want, tuple(qubits))]
        elif lib == 'json':
            c = cirq.to_json(c)
            if ch.chance('dict', 1, 2):
                import json
                c = json.loads(c)
    ini, inis = circuits.draw_state(ch, qubits, 'initial')
    fin, fins = circuits.draw_state(ch, qubits, 'final')
    opt = dict(initial_state=ini, final_state=fin,
               fuse=ch.pick('fuse', [4, 0, None, 2, 6]),
               decompose_hyper_inds=not ch.chance('nodec', 1, 4),
               seed=ch.seed())
    simp = not ch.chance('nosimp', 1, 4)
    if lib in ('cirq', 'qiskit') and ch.chance('api', 1, 2):
        opt['simplify'] = simp
        api = load
    else:
        opt['simplify_circuit'] = simp
        api = load_tn
    mode, setup = stream(ctx)
    ctx.note(lib, names, opt, api.__name__, mode)
    _, r = ctx.sim(lambda: api(c, **opt), setup=setup)
    if api is load:
        arrays, ts, out = r
        net = gen.Net([tuple(x) for x in ts], {}, frozenset(out))
        mp = {}
    else:
        net = gen.from_tn(r)
        arrays = net.arrays
        mp = r.tags.get('hyper_inds_map') or {}
    tol = 1e-5 if lib == 'qasm' else 1e-6
    bad = compare(net, arrays, mp, gates, qubits, inis, fins, tol)
    if bad and wrong and not compare(net, arrays, mp, wrong, qubits, inis,
                                     fins, tol):
        ctx.finding('qiskit-qubit-order', bad)
    elif bad:
        raise Violation('amplitudes-changed', bad)
    ctx.nontrivial = len(gates) > 1 or lib == 'qasm'
    ctx.state(repr(net.ts))


def same_phase(got, want):
    """``got`` times the global phase that brings it next to ``want``."""
    w = np.vdot(got, want)
    return got * (w / abs(w)) if abs(w) > 1e-12 else got


def compare(net, arrays, mp, gates, qubits, inis, fins, tol=1e-6,
            phase=False):
    """None, or how the network differs from the circuit."""
    for xs, a in zip(net.ts, arrays):
        if len(set(xs)) != len(xs) or np.shape(a) != (2, ) * len(xs):
            raise Violation('shape', '%r %r' % (xs, np.shape(a)))
        for x in xs:
            net.dims[x] = 2
    want, axes = circuits.amplitudes(gates, qubits, inis, fins)
    outs2 = sorted(net.out, key=repr)
    v2 = model.value(net, arrays, outs2)
    got = expand(v2, outs2, axes, {x: mp.get(x, x) for x in axes},
                 {x: 2 for x in axes})
    if phase:
        got = same_phase(got, want)
    if not close(got, want, tol):
        return '%r instead of %r' % (np.round(got, 6).ravel().tolist(),
                                     np.round(want, 6).ravel().tolist())


def run(ctx):
    kind = ctx.ch.pick('kind', ['path', 'fuse', 'tn', 'circuit', 'circuit',
                                'library'])
    {'path': run_path, 'fuse': run_fuse, 'tn': run_load_tn,
     'circuit': run_circuit, 'library': run_library}[kind](ctx)
