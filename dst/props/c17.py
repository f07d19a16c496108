"""C17: calls change neither their arguments, nor earlier results, nor the
settings of the process.

A workload is a list of calls on shared arguments.  Everything handed to the
library and everything it returned is recorded (bytes of arrays, contents of
containers) and compared after every call, also after calls which were ended
by an exception at a drawn point.
"""
import dataclasses
import os
import pickle
import random
import signal
import sys
import warnings

import numpy as np

from .. import build, circuits, core, fs, gen, model
from ..core import Violation
from . import app, c04, search
from . import common as cm


def prepare():
    c04.prepare()
    import tnco.optimize.prob  # noqa
    from . import c15
    c15.prepare()
    START.update(
        cwd=os.getcwd(), env=dict(os.environ), limit=sys.getrecursionlimit(),
        err=np.geterr(), print=np.get_printoptions(),
        filters=list(warnings.filters),
        signals={k: signal.getsignal(k) for k in SIGNALS})


SIGNALS = (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP)
START = {}


# ------------------------------------------------------------ observation
def shot(x, depth=0):
    """The contents of a value, comparable with ``==``."""
    if isinstance(x, np.ndarray):
        data = tuple(map(repr, x.ravel().tolist())) if x.dtype == object \
            else x.tobytes()
        return ('array', x.dtype.str, x.shape, x.strides, x.flags.writeable,
                data)
    if isinstance(x, dict):
        return (type(x).__name__,
                tuple((repr(k), shot(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, tuple(sorted(map(repr, x))))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(shot(v, depth + 1) for v in x))
    t = type(x)
    name = t.__name__
    if name == 'SamplingIntermediateState':
        return (name, shot([tuple(s) for s in x]), shot(x.qubits))
    if name == 'ContractionTree':
        return (name, repr(search.tree_key(x)))
    if isinstance(x, gen.Net):
        return (name, shot([x.ts, x.dims, x.out, x.sparse, x.n_projs]))
    if dataclasses.is_dataclass(x) and t.__module__.startswith('tnco'):
        return (name, tuple((f.name, shot(getattr(x, f.name), depth + 1))
                            for f in dataclasses.fields(x)
                            if not f.name.startswith('_')))
    if t.__module__.startswith('qiskit'):
        return (name, tuple((i.operation.name, repr(i.operation.params),
                             repr(i.qubits)) for i in x.data))
    return (name, repr(x))


def where(a, b, path=''):
    """Description of the first difference."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) \
            and a and a[0] != 'array':
        for k, (p, q) in enumerate(zip(a, b)):
            if p != q:
                return where(p, q, '%s.%s' % (path, k))
    return '%s: %.300r, now %.300r' % (path, a, b)


def digest(x):
    import zlib
    return zlib.crc32(repr(x).encode())


def settings():
    """Process-wide state which belongs to the caller."""
    return {
        'random': digest(random.getstate()),
        'numpy.random': digest([x if not isinstance(x, np.ndarray) else
                                x.tobytes() for x in np.random.get_state()]),
        'numpy error handling': repr(sorted(np.geterr().items())),
        'numpy printing': repr(sorted(np.get_printoptions().items())),
        'working directory': os.getcwd(),
        'environment': dict(os.environ),
        'standard streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        'signal handlers': [repr(signal.getsignal(k)) for k in SIGNALS],
        'recursion limit': sys.getrecursionlimit(),
        'warning filters': list(warnings.filters),
        'exception hook': id(sys.excepthook),
    }


def reset():
    """Undo what an earlier run has changed."""
    if not START:
        return
    os.chdir(START['cwd'])
    if dict(os.environ) != START['env']:
        os.environ.clear()
        os.environ.update(START['env'])
    sys.setrecursionlimit(START['limit'])
    np.seterr(**START['err'])
    np.set_printoptions(**START['print'])
    if list(warnings.filters) != START['filters']:
        warnings.filters[:] = START['filters']
        warnings._filters_mutated()
    for k, h in START['signals'].items():
        if signal.getsignal(k) != h:
            signal.signal(k, h)


# ------------------------------------------------------------------ faults
class Cut:
    """Ends a call at its k-th executed line of tnco (not of its parallel
    layer, whose interruption is simulated elsewhere)."""

    def __init__(self, k, exc):
        self.k, self.exc, self.fired = k, exc, False
        self.root = os.path.join(os.path.abspath(build.REPO), 'tnco') + os.sep

    def mine(self, frame):
        f = frame.f_code.co_filename
        return f.startswith(self.root) and not f.endswith('parallel.py')

    def enter(self, frame, event, arg):
        return self.line if self.mine(frame) else None

    def line(self, frame, event, arg):
        if event == 'line':
            self.k -= 1
            if self.k == 0:
                self.fired = True
                sys.settrace(None)
                raise self.exc
        return self.line

    def __enter__(self):
        sys.settrace(self.enter)

    def __exit__(self, *a):
        sys.settrace(None)


# --------------------------------------------------------------- arguments
def own(ch, a, held, noise=False):
    """The same array in memory of the caller: a view, read-only, ..."""
    a = np.asarray(a)
    if noise and a.ndim and a.dtype.kind in 'fc' and ch.chance(
            'noise', 1, 4):
        # rounding errors below the tolerances
        a = a + 1e-11 * np.cos(np.arange(a.size)).reshape(a.shape)
    k = ch.pick('memory', ['plain', 'view', 'fortran', 'readonly', 'plain'])
    if k == 'view' and a.ndim:
        big = np.full(tuple(2 * n for n in a.shape), 7, dtype=a.dtype)
        v = big[tuple(slice(0, 2 * n, 2) for n in a.shape)]
        v[...] = a
        held.append(big)
        return v
    if k == 'fortran' and a.ndim:
        return np.asfortranarray(a)
    a = a.copy()
    if k == 'readonly':
        a.flags.writeable = False
    return a


def draw_net(ctx, **kw):
    ch = ctx.ch
    net = gen.network(ch, scalars=True, **kw)
    if ch.chance('struct', 1, 2):
        from . import c15
        c15.structured(ch, net)
    else:
        gen.arrays(ch, net)
    ctx.note(net.describe())
    return net


def loose(ch, net, held):
    """A network as plain mutable containers."""
    args = dict(ts=[list(xs) for xs in net.ts], dims=dict(net.dims),
                out=set(net.out), out_list=sorted(net.out, key=repr))
    if net.arrays is not None:
        args['arrays'] = [own(ch, a, held, True) for a in net.arrays]
    held.append(args)
    return args


def gates_obj(ctx, held, **kw):
    ch = ctx.ch
    gates, qubits, names = circuits.circuit(ch, **kw)
    ctx.note(names)
    obj = [(own(ch, m, held), tuple(q)) for m, q in gates]
    ini, _ = circuits.draw_state(ch, qubits, 'initial')
    fin, _ = circuits.draw_state(ch, qubits, 'final')
    for st in (ini, fin):
        if isinstance(st, dict) and ch.chance('foreign-qubit', 1, 3):
            # states of qubits which are not part of the circuit are allowed
            st[('not', 'there')] = '0'
            items = ch.shuffle('state-order', list(st.items()))
            st.clear()
            st.update(items)
            ctx.probe('foreign-qubits')
    return obj, qubits, dict(initial_state=ini, final_state=fin)


def draw_loadable(ctx, held, small=False):
    """(object for ``load_tn``, plain network, further options)."""
    from tnco.app import Tensor, TensorNetwork
    ch = ctx.ch
    k = ch.pick('obj', ['arrays', 'tn', 'gates', 'cirq', 'rows', 'arrays'])
    if k == 'gates':
        obj, _, opt = gates_obj(ctx, held, max_qubits=4, max_gates=8)
        return obj, gen.Net([], {}, frozenset()), opt
    if k == 'cirq':
        from . import c11
        obj, gates, qubits, names = c11.draw_cirq(ctx)
        ctx.note('cirq', names)
        return obj, gen.Net([], {}, frozenset()), {}
    if k == 'rows':
        from . import c10
        net, rows = c10.index_rows(ch)
        ctx.note(rows)
        if net.sparse:
            net.n_projs = net.n_projs or 2
        return rows, net, {}
    net = gen.network(ch, max_tensors=8, scalars=k == 'arrays',
                      max_size=20000 if k == 'arrays' else None,
                      sparse=k == 'tn' and ch.chance('sparse', 1, 4))
    if k == 'arrays':
        gen.arrays(ch, net)
        if ch.chance('struct', 1, 2):
            from . import c15
            c15.structured(ch, net)
    ctx.note(net.describe())
    tags = {'note': ['mine', {'a': 1}]} if ch.chance('tags', 1, 2) else None
    ts = []
    for i, xs in enumerate(net.ts):
        t = {'t': [i]} if ch.chance('ttags', 1, 3) else None
        a = own(ch, net.arrays[i], held, True) if k == 'arrays' else None
        ts.append(Tensor(list(xs), array=a, tags=t, dims=None if a is not None
                         else [net.dims[x] for x in xs]))
    tn = TensorNetwork(ts, output_inds=set(net.out) if net.explicit_out else
                       None, sparse_inds=net.sparse, tags=tags)
    return tn, net, {}


# ---------------------------------------------------------------- workloads
def w_optimize(ctx, held):
    from tnco.app import Optimizer
    from tnco.app.app import dump_results
    ch = ctx.ch
    obj, net, extra = draw_loadable(ctx, held)
    ctor, opt = app.draw_opts(ch, net, steps=(1, 6), runs=(1, 3),
                              n_jobs=[1, 1, 2], timeouts=(None, None, 50.0,
                                                          0.05))
    if ctor.get('max_width') in (None, float('inf')):
        opt.pop('update_slices', None)
    opt.update(extra)
    if ch.chance('tags', 1, 3) and 'initial_state' in opt:
        opt['decompose_hyper_inds'] = True
    held.extend([obj, ctor, opt])
    ctx.note(ctor, opt)
    o = []
    last = []

    def go(**kw):
        if not o or ch.chance('new-optimizer', 1, 4):
            o[:] = [Optimizer(**ctor)]
        r = o[0].optimize(obj, **dict(opt, **kw))
        last[:] = [r]
        return r

    def again():
        if not last:
            return go()
        # optimize what was returned
        kw = {k: v for k, v in opt.items()
              if k not in ('initial_state', 'final_state')}
        kw['decompose_hyper_inds'] = False
        kw['fuse'] = 0
        return Optimizer(**ctor).optimize(last[0][0], **kw)

    def save():
        if not last:
            return go()
        how = ch.pick('save', ['json', 'file', 'raw', 'sort', 'to_json'])
        tn, res = last[0]
        if ch.chance('reorder', 1, 2):
            res = list(res)[::-1]
            held.append(res)
        if how == 'sort':
            return sorted(res)
        if how == 'to_json':
            return tn.to_json(), [r.to_json() for r in res]
        if how == 'file':
            f = core.current().fs
            return dump_results(
                tn, res, output_format=ch.pick('ff', ['json', 'raw']),
                output_filename=f.path('o' + ch.pick('fe', [
                    '', '.gz', '.bz2', '.json'])), overwrite_output_file=True)
        return dump_results(tn, res, output_format=how)

    return [('optimize', go), ('again', again), ('save', save)]


def w_load(ctx, held):
    from tnco.app import load_tn
    ch = ctx.ch
    obj, net, extra = draw_loadable(ctx, held)
    opt = dict(fuse=ch.pick('fuse', [4, 0, None, 2, 3, 50]),
               decompose_hyper_inds=not ch.chance('nodec', 1, 4),
               seed=ch.seed(), **extra)
    held.extend([obj, opt])
    ctx.note(opt)
    last = []

    def go():
        r = load_tn(obj, **opt)
        last[:] = [r]
        return r

    def again():
        if not last:
            return go()
        kw = {k: v for k, v in opt.items()
              if k not in ('initial_state', 'final_state')}
        # (a prepared network is not prepared again)
        kw['decompose_hyper_inds'] = False
        kw['fuse'] = 0
        return load_tn(last[0], **kw)

    return [('load_tn', go), ('again', again)]


def w_circuit(ctx, held):
    from tnco.utils.circuit import commute, load, same
    ch = ctx.ch
    obj, qubits, st = gates_obj(ctx, held)
    opt = dict(fuse=ch.pick('fuse', [4, 0, None, 2, 3, 6]),
               decompose_hyper_inds=not ch.chance('nodec', 1, 4),
               simplify=not ch.chance('nosimp', 1, 4),
               use_matrix_commutation=not ch.chance('nomat', 1, 3),
               seed=ch.seed(), **st)
    held.extend([obj, opt])
    ctx.note(opt)

    def pair():
        i, j = ch.draw('gi', len(obj)), ch.draw('gj', len(obj))
        return (commute(obj[i], obj[j], use_matrix_commutation=ch.chance(
            'um', 2, 3)), same(obj[i], obj[j])) if obj else None

    return [('load', lambda: load(obj, **opt)), ('pair', pair)]


def w_tn(ctx, held):
    from tnco.ctree import ContractionTree, traverse_tree
    from tnco.utils import tn as tu
    ch = ctx.ch
    if ch.chance('large', 1, 10):
        net = gen.network(ch, min_tensors=30, max_tensors=70)
        ctx.note(net.describe())
        ctx.probe('large-network')
    else:
        net = draw_net(ctx, min_tensors=1, max_tensors=8, max_size=20000)
    a = loose(ch, net, held)
    seed = ch.seed()
    paths = []
    out = a['out'] if ch.chance('outset', 1, 2) else a['out_list']

    def path():
        merge = ch.chance('merge', 1, 2)
        r = tu.get_random_contraction_path(a['ts'], merge_paths=merge,
                                           seed=seed)
        paths[:] = [(merge, [list(x) for x in r] if merge else
                     [[list(x) for x in p] for p in r])]
        held.append(paths[0][1])
        return r

    def merged():
        if not paths:
            path()
        m, p = paths[0]
        return p if m else tu.merge_contraction_paths(net.n, p)

    def split():
        p = merged()
        return tu.split_contraction_path(net.n, p, return_connected_components=
                                         ch.chance('cc', 1, 2))

    def contract():
        p = merged()
        return tu.contract(p, a['ts'], out, a.get('arrays') if ch.chance(
            'with-arrays', 3, 4) else None, a['dims'])

    def hyper():
        if 'arrays' not in a:
            return None
        return tu.decompose_hyper_inds(a['arrays'], a['ts'], output_inds=out)

    def fuse():
        return tu.fuse(a['ts'], a['dims'], ch.pick('w', [4, 1, 2, 3, 6, 2.5]),
                       out, exclude_inds=set(ch.subset('excl', net.inds(), 1,
                                                       8)),
                       seed=seed, return_fused_inds=True)

    def tree():
        if not paths or paths[0][0]:
            r = tu.get_random_contraction_path(a['ts'], merge_paths=False,
                                               seed=seed)
        else:
            r = paths[0][1]
        # a tree stands for one component
        r = [list(map(list, p)) for p in r if p]
        res = []
        for p in r:
            held_p = [p]
            held.append(held_p)
            t = ContractionTree(p, a['ts'], a['dims'], output_inds=out)
            nodes = []
            traverse_tree(t, nodes.append)
            res.append((t, nodes, t.path(), t.max_width()))
        return res

    return [('path', path), ('contract', contract), ('hyper', hyper),
            ('fuse', fuse), ('split', split), ('tree', tree),
            ('contract', contract)]


def w_tensor(ctx, held):
    from tnco.utils import tensor as te
    ch = ctx.ch
    net = draw_net(ctx, min_tensors=2, max_tensors=4, max_size=4000)
    a = loose(ch, net, held)

    def one():
        return ch.draw('tensor', net.n)

    def hyper():
        i = one()
        if len(set(a['ts'][i])) != len(a['ts'][i]):
            return None
        return te.decompose_hyper_inds(a['arrays'][i], a['ts'][i])

    def diag():
        i = one()
        return te.is_diagonal(a['arrays'][i]) if len(a['ts'][i]) > 1 else None

    def dot():
        i, j = one(), one()
        if i == j:
            return None
        x, y = (a['arrays'][i], a['ts'][i]), (a['arrays'][j], a['ts'][j])
        both = [k for k in a['ts'][i] if k in a['ts'][j]]
        h = ch.subset('hyper', both, 1, 3)
        return te.tensordot(x, y, hyper_inds=h)

    def svd():
        i = one()
        xs = a['ts'][i]
        if len(xs) < 2:
            return None
        left = xs[:1 + ch.draw('left', len(xs) - 1)]
        held.append(left)
        return te.svd(a['arrays'][i], xs, left, seed=3)

    return [('dot', dot), ('hyper', hyper), ('svd', svd), ('diag', diag)]


def w_sampler(ctx, held):
    from tnco.app.circuit.sampling import Sampler
    from . import c11
    ch = ctx.ch
    if ch.chance('cirq', 1, 4):
        obj, gates, qubits, names = c11.draw_cirq(ctx)
    else:
        gates, qubits, names = c11.draw_circuit(ctx)
        obj = [(own(ch, m, held), q) for m, q in gates]
    ctor, kw, opt = c11.draw_opts(ch, qubits)
    ctor['n_jobs'] = ch.pick('sjobs', [1, 1, 2])
    if 'qubit_order' in kw:
        kw['qubit_order'] = list(kw['qubit_order'])
    opt['betas'] = list(opt['betas'])
    opt['betas'] = tuple(opt['betas'])
    held.extend([obj, ctor, kw, opt])
    ctx.note(names, ctor, kw, opt)
    st = []
    s = []

    def sampler():
        if not s:
            s.append(Sampler(**ctor))
        return s[0]

    def state():
        r = sampler().sample(obj, return_intermediate_state_only=True, **kw,
                             **opt)
        st[:] = [r]
        return r

    def again():
        if not st:
            return state()
        return sampler().sample(st[0], ch.int('n', 1, 20))

    def direct():
        return sampler().sample(obj, ch.int('n', 1, 20), **kw, **opt)

    return [('state', state), ('again', again), ('direct', direct),
            ('again', again)]


def w_search(ctx, held):
    ch = ctx.ch
    sr = search.draw(ctx, max_tensors=9, large=False)
    if sr is None:
        return None
    tree = sr.tree()
    held.extend([tree, sr.path, sr.full.ts, sr.full.dims, sr.skip])
    sr.tree = lambda seed=None: tree
    cm_ = sr.cmodel()
    sr.cmodel = lambda: cm_
    held.append(Fields(cm_, ['cost_type', 'max_width', 'width_type',
                             'sparse_inds', 'n_projs']))
    opts = []

    def start():
        opts.append(sr.create())
        return None

    def step():
        if not opts:
            start()
        o = opts[-1]
        p = sr.prob(sr.betas[ch.draw('beta', len(sr.betas))])
        for _ in range(ch.int('many', 1, 8)):
            if sr.W is None:
                o.update(p)
            else:
                o.update(p, update_slices=not ch.chance('noupd', 1, 3))
        return None

    def keep():
        # a copy does not follow the original, nor the reverse
        import copy
        if not opts:
            start()
        o = opts[-1]
        c = copy.copy(o) if ch.chance('copy', 1, 2) else \
            copy.deepcopy(o) if ch.chance('deep', 1, 2) else \
            pickle.loads(pickle.dumps(o))
        first, second = (o, c) if ch.chance('which', 1, 2) else (c, o)
        opts[-1] = first
        return Copy(second, sr.W)

    def look():
        if not opts:
            start()
        o = opts[-1]
        o.is_valid()
        return o.ctree.path(), search.snap(o, sr.W)

    return [('start', start), ('step', step), ('keep', keep), ('step', step),
            ('look', look)]


class Fields:
    """Some attributes of an object."""

    def __init__(self, obj, names):
        self.obj, self.names = obj, names

    def __repr__(self):
        return repr([(n, getattr(self.obj, n, None) if not isinstance(
            getattr(self.obj, n, None), (set, frozenset)) else
            sorted(map(repr, getattr(self.obj, n)))) for n in self.names])


class Copy:

    def __init__(self, o, W):
        self.o, self.W = o, W

    def __repr__(self):
        s = search.snap(self.o, self.W)
        return repr([(k, sorted(map(repr, v)) if isinstance(
            v, (set, frozenset)) else repr(v)) for k, v in sorted(s.items())])


def w_parallel(ctx, held):
    import tnco.parallel as tp
    ch = ctx.ch
    n = ch.int('n', 1, 5)
    plans = [cm.draw_plan(ch, i) for i in range(n)]
    rest = [None] * n
    bufs = cm.draw_buffers(ch)
    n_jobs = ch.pick('n_jobs', [1, 2, 8, -1])
    held.extend([plans, rest, bufs])

    def go():
        tp.Parallel(cm.body, plans, rest, n_jobs=n_jobs, buffers=bufs,
                    timeout=ch.pick('timeout', [None, 0.05, 50.0]))

    return [('parallel', go), ('parallel', go)]


WORK = [(w_optimize, 6), (w_load, 4), (w_circuit, 3), (w_tn, 5), (w_tensor, 2),
        (w_sampler, 3), (w_search, 4), (w_parallel, 1)]


class Held(list):
    """What the library gets, with its contents at that time."""

    def append(self, x):
        super().append((x, shot(x)))

    def extend(self, xs):
        for x in xs:
            self.append(x)



def run(ctx):
    ch = ctx.ch
    reset()
    w = ch.weighted('workload', WORK)
    held = Held()
    calls = w(ctx, held)
    if calls is None:
        return
    n = ch.int('calls', 1, 5)
    todo = [calls[0 if k == 0 else ch.draw('call', len(calls))]
            for k in range(n)]
    faulty = ch.chance('faulty', 1, 2)
    sim_fault = faulty and w in (w_optimize, w_sampler, w_parallel) and \
        ch.pick('sim-fault', ['cut', 'interrupt', 'shm', 'thread', 'death'])
    deaths = [(ch.pick('death-at', [1e-6, 1e-4, 1e-3, 1e-2, 0.1]),
               ch.draw('who', 4))] if sim_fault == 'death' else []
    names = []
    failures = []

    def setup(s):
        s.fs = fs.SimFS(s)
        s.worker_deaths = deaths
        if sim_fault == 'shm':
            s.shm_fault = lambda s, create: refuse(s) if create else None
        if sim_fault == 'thread':
            s.thread_fault = refuse

    armed = [0]

    def refuse(s):
        armed[0] -= 1
        if armed[0] == 0:
            s.count('fault:allocation')
            raise OSError(28, 'injected')

    def main():
        s = core.current()
        base = [(*x, 'argument %d' % i) for i, x in enumerate(held)]
        known = len(held)
        amb = settings()
        for i, (name, call) in enumerate(todo):
            bad = faulty and ch.chance('this', 2, 3)
            cut = None
            if bad and sim_fault in (False, 'cut'):
                hi = ch.pick('cut-range', [30, 300, 3000, 30000])
                exc = KeyboardInterrupt() if ch.chance('cut-kind', 1, 2) else \
                    MemoryError('injected')
                cut = Cut(ch.int('cut-at', 1, hi), exc)
            elif bad and sim_fault == 'interrupt':
                s.interrupt_at = ch.int('steps-in', 1, 60)
            elif bad:
                armed[0] = ch.int('refuse-at', 1, 6)
            done, r = False, None
            try:
                if cut is not None:
                    with cut:
                        r = call()
                else:
                    r = call()
                done = True
            except (Exception, KeyboardInterrupt) as e:
                if isinstance(e, Violation) or not faulty:
                    raise
                failures.append(type(e).__name__)
                if cut is not None and cut.fired:
                    s.count('fault:cut-' + type(e).__name__)
            s.interrupt_at = None
            armed[0] = 0
            names.append((name, done))
            for x in held[known:]:
                base.append((*x, 'an argument of call %d' % i))
            known = len(held)
            for x, was, what in base:
                now = shot(x)
                if now != was:
                    raise Violation('modified', '%s (%s) changed %s at %s' % (
                        name, 'returned' if done else 'raised ' + failures[-1],
                        what, where(was, now)))
            now = settings()
            for k in amb:
                if now[k] != amb[k]:
                    raise Violation('setting-changed', '%s (%s) changed the %s'
                                    ': %.300r, now %.300r' % (
                                        name, 'returned' if done else
                                        'raised ' + failures[-1], k, amb[k],
                                        now[k]))
            if done and r is not None:
                base.append((r, shot(r), 'the result of call %d (%s)' %
                             (i, name)))
                ctx.nontrivial = True

        ctx.mix(names, failures)

    ctx.sim(main, setup=setup, profile=ctx.profile() if ch.chance(
        'wild', 1, 2) else None)
    ctx.probe(w.__name__)
    ctx.state(w.__name__, names, repr(failures))
