"""C16: contracting along a returned path gives the network's value."""
import itertools
import math

import numpy as np

from .. import circuits, gen, model
from ..core import Violation
from . import app, c15

MAX_SLICES = 96
MAX_SIZE = 2**16


def prepare():
    c15.prepare()


def pairwise(net, path, arrays, out):
    """Contraction in linear order by plain summation (no library code)."""
    ts = list(map(tuple, net.ts))
    ar = list(map(np.asarray, arrays))
    left = {}
    for xs in ts:
        for x in xs:
            left[x] = left.get(x, 0) + 1
    for x, y in map(sorted, path):
        ys, b = ts.pop(y), ar.pop(y)
        xs, a = ts.pop(x), ar.pop(x)
        for z in ys:
            left[z] -= 1
        for z in xs:
            left[z] -= 1
        zs = [z for z in dict.fromkeys(xs + ys) if z in out or left[z]]
        for z in zs:
            left[z] += 1
        ids = {z: i for i, z in enumerate(dict.fromkeys(xs + ys))}
        ar.append(np.einsum(a, [ids[z] for z in xs], b, [ids[z] for z in ys],
                            [ids[z] for z in zs]))
        ts.append(tuple(zs))
    return ts, ar


def library(net, path, arrays, out):
    from tnco.utils.tn import contract
    ts, o2, ar = contract(path, net.ts, out, arrays)
    if frozenset(o2) != frozenset(out):
        raise Violation('open-indices-changed', 'contracting: %r instead of %r'
                        % (o2, out))
    return list(map(tuple, ts)), ar


def too_big(net, path):
    ts = list(map(set, net.ts))
    try:
        stps, _ = model.steps(net.n, path)
    except model.PathError as e:
        raise Violation('path-invalid', str(e))
    m = model.Merger(net)
    return any(math.prod(net.dims[x] for x in m.inds(a) | m.inds(b)) > MAX_SIZE
               for a, b in stps)


def along(net, path, slices, how):
    """Tensor over the open indices, in sorted order, along ``path``."""
    slices = sorted(slices, key=repr)
    outs = sorted(net.out, key=repr)
    total = None
    n = math.prod(net.dims[x] for x in slices)
    if n > MAX_SLICES:
        return None
    res = np.zeros(tuple(net.dims[o] for o in outs), dtype=complex)
    for vals in itertools.product(*(range(net.dims[x]) for x in slices)):
        fix = dict(zip(slices, vals))
        arrs, ts = [], []
        for xs, a in zip(net.ts, net.arrays):
            a = np.asarray(a)
            arrs.append(a[tuple(fix.get(x, slice(None)) for x in xs)])
            ts.append(tuple(x for x in xs if x not in fix))
        sub = gen.Net(ts, net.dims, frozenset(o for o in outs
                                              if o not in fix))
        t2, a2 = how(sub, path, arrs, sub.out)
        if len(t2) != 1:
            raise Violation('path-incomplete', '%d tensors are left' % len(t2))
        want = [o for o in outs if o not in fix]
        if sorted(t2[0], key=repr) != want:
            raise Violation('open-indices-changed', 'contracting leaves %r '
                            'instead of %r' % (t2[0], want))
        v = np.transpose(a2[0], [list(t2[0]).index(o) for o in want])
        key = tuple(fix.get(o, slice(None)) for o in outs)
        res[key] += v
    del total
    return res


def check(ctx, net, res, truth):
    """All results against the value of the optimized network."""
    for k, r in enumerate(res):
        if too_big(net, r.path):
            ctx.probe('too-big')
            continue
        sets = [frozenset()]
        sl = frozenset(getattr(r, 'slices', ()))
        if sl:
            sets = [sl] if ctx.ch.chance('onlysliced', 1, 2) else sets + [sl]
            if not sl <= set(net.inds()):
                raise Violation('slices-not-indices', repr(sl))
            ctx.probe('sliced')
            if sl & net.out:
                ctx.probe('sliced-output')
        for s in sets:
            how = library if ctx.ch.chance('lib', 2, 3) else pairwise
            v = along(net, r.path, s, how)
            if v is None:
                ctx.probe('too-many-slices')
                continue
            bad = truth(v)
            if bad:
                raise Violation('wrong-value', 'result %d, path %r, slices %r:'
                                ' %s' % (k, r.path, sorted(s, key=repr), bad))
            if r.path:
                ctx.nontrivial = True
        # one component at a time
        ds = getattr(r, 'disconnected_slices', None)
        for j, p in enumerate(r.disconnected_paths):
            if not p or not ctx.ch.chance('comp', 1, 3):
                continue
            g = max(model.steps(net.n, p)[1], key=len)
            order = sorted(g)
            sub = gen.Net([net.ts[i] for i in order], net.dims, net.out &
                          {x for i in order for x in net.ts[i]})
            sub.arrays = [net.arrays[i] for i in order]
            outs = sorted(sub.out, key=repr)
            s = frozenset(ds[j]) if ds else frozenset()
            n = math.prod(net.dims[x] for x in s)
            if n > MAX_SLICES:
                continue
            if not s <= set(sub.inds()):
                raise Violation('slices-of-another-component', repr(s))
            # the tensors of the others are left alone
            v = np.zeros(tuple(net.dims[o] for o in outs), dtype=complex)
            sl = sorted(s, key=repr)
            for vals in itertools.product(*(range(net.dims[x]) for x in sl)):
                fix = dict(zip(sl, vals))
                a = [np.asarray(a)[tuple(fix.get(x, slice(None)) for x in xs)]
                     for xs, a in zip(net.ts, net.arrays)]
                ts = [tuple(x for x in xs if x not in fix) for xs in net.ts]
                t2, a2 = library(gen.Net(ts, net.dims, net.out), p, a,
                                 frozenset(net.out) - set(fix))
                want = [o for o in outs if o not in fix]
                if sorted(t2[-1], key=repr) != want:
                    raise Violation('open-indices-changed', 'component %d: %r '
                                    'instead of %r' % (j, t2[-1], want))
                v[tuple(fix.get(o, slice(None)) for o in outs)] += \
                    np.transpose(a2[-1], [list(t2[-1]).index(o)
                                          for o in want])
            w = model.value(sub, sub.arrays, outs)
            if not c15.close(v, w):
                raise Violation('wrong-value', 'result %d, component %d, '
                                'slices %r: %r instead of %r' % (
                                    k, j, sl, v.tolist(), w.tolist()))


def run(ctx):
    ch = ctx.ch
    kind = ch.pick('kind', ['tn', 'tn', 'circuit', 'library'])
    final = {}
    if kind == 'tn':
        net = gen.network(ch, min_tensors=1, max_tensors=10, max_size=50000,
                          scalars=True)
        if ch.chance('struct', 1, 2):
            c15.structured(ch, net)
        else:
            gen.arrays(ch, net)
        obj = gen.tensor_network(net, arrays=True)
        ctx.note(net.describe())
        ctx.note([np.asarray(a).tolist() for a in net.arrays])
        outs = sorted(net.out, key=repr)
        want = model.value(net, net.arrays, outs)
        wrong = None
    else:
        net = gen.Net([], {}, frozenset())
        wrong = None
        if kind == 'circuit':
            gates, qubits, names = circuits.circuit(ch, max_qubits=4,
                                                    max_gates=14,
                                                    phases=True)
            obj = [(m.copy(), q) for m, q in gates]
        else:
            from . import c11
            if ch.chance('qiskit', 1, 4):
                obj, gates, qubits, names = c11.draw_qiskit(ch)
                wrong = [(m, q[::-1]) for m, q in gates]
            else:
                obj, gates, qubits, names = c11.draw_cirq(ctx)
        ini, inis = circuits.draw_state(ch, qubits, 'initial')
        fin, fins = circuits.draw_state(ch, qubits, 'final')
        final = dict(initial_state=ini, final_state=fin,
                     simplify_circuit=not ch.chance('nosimp', 1, 4))
        phase = kind == 'circuit' and final['simplify_circuit'] and any(
            x == 'phase' for x, _ in names)
        ctx.note(names, 'initial', ini, 'final', fin)
    ctor, opt = app.draw_opts(ch, net, steps=(1, 10), runs=(1, 3),
                              timeouts=(None, None, 0.0, 1e-3, 0.3))
    opt.update(final)
    prof = ctx.profile()
    mode, setup = c15.stream(ctx) if ch.chance('dictate', 1, 3) else (None,
                                                                     None)
    ctx.note(ctor, opt, prof, mode)
    missing = ch.chance('no-joblib', 1, 6)
    _, (t2, res) = ctx.sim(lambda: app.optimize(obj, ctor, opt), profile=prof,
                           setup=setup, joblib_missing=missing)
    n2 = gen.from_tn(t2)
    mp = t2.tags.get('hyper_inds_map') or {}
    if any(a is None for a in n2.arrays):
        raise Violation('arrays-lost', 'the optimized network has no arrays')
    outs2 = sorted(n2.out, key=repr)

    if kind == 'tn':

        def truth(v):
            got = c15.expand(v, outs2, outs, {o: mp.get(o, o) for o in outs},
                             net.dims)
            if not c15.close(got, want):
                return '%r instead of %r' % (got.tolist(), want.tolist())
    else:
        amps, axes = circuits.amplitudes(gates, qubits, inis, fins)

        def truth(v):
            got = c15.expand(v, outs2, axes, {x: mp.get(x, x) for x in axes},
                             {x: 2 for x in axes})
            if phase:
                got = c15.same_phase(got, amps)
            if c15.close(got, amps):
                return None
            if wrong:
                a2, _ = circuits.amplitudes(wrong, qubits, inis, fins)
                if c15.close(got, a2):
                    ctx.finding('qiskit-qubit-order', 'amplitudes of the '
                                'circuit with reversed qubits')
                    return None
            return '%r instead of %r' % (np.round(got, 6).ravel().tolist(),
                                         np.round(amps, 6).ravel().tolist())

    check(ctx, n2, res, truth)
    if len(res) != opt['n_runs']:
        raise Violation('result-count', '%d instead of %d' % (len(res),
                                                              opt['n_runs']))
    ctx.state(kind, [tuple(map(tuple, r.path)) for r in res])
