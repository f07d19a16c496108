"""C11: the circuit sampler draws from the exact output distribution."""
import collections
import math
import os
import pickle
import sys

import numpy as np

from .. import circuits, core, peer
from ..core import Violation


def prepare():
    import tnco.app.circuit.sampling  # noqa
    import cirq  # noqa
    import qiskit  # noqa


def is_classical(m):
    m = np.asarray(m)
    r, c = np.nonzero(m)
    n = m.shape[0]
    return sorted(r) == sorted(c) == list(range(n)) and all(
        abs(m)[m != 0] == 1)


class Reference:
    """The exact chain: state after every operation, one bit string."""

    def __init__(self, gates, qubits):
        self.gates, self.qubits = gates, list(qubits)
        self.pos = {q: i for i, q in enumerate(self.qubits)}
        n = len(self.qubits)
        psi = np.zeros((2, ) * n, dtype=complex)
        psi[(0, ) * n] = 1
        sup = psi != 0
        self.psi, self.sup = [], []
        self.classical = []
        for m, qs in gates:
            psi = self.apply(psi, np.asarray(m, dtype=complex), qs)
            sup = self.apply(sup.astype(float),
                             (np.asarray(m) != 0).astype(float), qs) != 0
            self.psi.append(psi)
            self.sup.append(sup)
            self.classical.append(is_classical(m))
        self.probs = abs(psi)**2

    def apply(self, psi, m, qs):
        k = len(qs)
        ax = [self.pos[q] for q in qs]
        g = m.reshape((2, ) * (2 * k))
        t = np.tensordot(g, psi, axes=(list(range(k, 2 * k)), ax))
        rest = [a for a in range(psi.ndim) if a not in ax]
        src = ax + rest
        return t.transpose(np.argsort(src))

    def permute(self, bits, m, qs):
        ax = [self.pos[q] for q in qs]
        k = int(''.join(str(bits[a]) for a in ax), 2)
        [j] = np.nonzero(np.asarray(m)[:, k])[0]
        for a, b in zip(ax, bin(j)[2:].zfill(len(ax))):
            bits[a] = int(b)

    @property
    def draws(self):
        return sum(not c for c in self.classical)

    def walk(self, conv):
        """Generator of one sample: yields (f, sure), receives u."""
        bits = [0] * len(self.qubits)
        for t, (m, qs) in enumerate(self.gates):
            if self.classical[t]:
                self.permute(bits, m, qs)
                continue
            a = self.pos[qs[0]]
            flip = list(bits)
            flip[a] ^= 1
            p0 = abs(self.psi[t][tuple(bits)])**2
            p1 = abs(self.psi[t][tuple(flip)])**2
            f = p1 / (p0 + p1) if p0 + p1 > 1e-200 else float('nan')
            never = not self.sup[t][tuple(flip)]
            always = not self.sup[t][tuple(bits)]
            u = yield f, never, always
            if (u < f) if conv == 1 else (u >= 1 - f):
                bits = flip
        return tuple(bits)


class Stream:
    """Dictates ``random()`` next to the decision thresholds."""

    def __init__(self, ref, ch, n_samples, conv, script=None):
        self.ref, self.ch, self.conv = ref, ch, conv
        self.left = n_samples
        self.counts = collections.Counter()
        self.calls = 0
        self.script = script
        self.used = []
        self.near = 0
        self.cur = None
        self.next_sample()

    def next_sample(self):
        while self.left > 0:
            self.cur = self.ref.walk(self.conv)
            try:
                self.want = next(self.cur)
                return
            except StopIteration as e:
                self.done(e.value)
        self.cur = None

    def done(self, bits):
        self.counts[bits] += 1
        self.left -= 1

    def choose(self, f, never, always):
        if not 0 <= f <= 1:
            return 0.5
        k = self.ch.draw('u', 8)
        eps = 1e-7
        c = [f - eps, f + eps, 1 - f - eps, 1 - f + eps, 0.0, 1 - 2.0**-53]
        if k < 6:
            u = c[k]
            edge = k >= 4
        else:
            u = self.ch.draw('u20', 1 << 20) / (1 << 20)
            edge = u == 0.0
        u = min(max(u, 0.0), 1 - 2.0**-53)
        # keep away from the thresholds by more than the rounding errors,
        # unless the outcome is exactly impossible or certain
        if not (never or always):
            for t in (f, 1 - f):
                if abs(u - t) < eps / 2:
                    u = t + eps if t < 0.5 else t - eps
        del edge
        return u

    def random(self):
        self.calls += 1
        if self.cur is None:
            return 0.5
        if self.script is not None and len(self.used) < len(self.script):
            u = self.script[len(self.used)]
        else:
            u = self.choose(*self.want)
        self.used.append(u)
        try:
            self.want = self.cur.send(u)
        except StopIteration as e:
            self.done(e.value)
            self.next_sample()
        return u


class Policy:

    def __init__(self, rnd, stream):
        self.rnd, self.stream = rnd, stream

    def below(self, n):
        R = core.REAL['Random']
        k = n.bit_length()
        r = R.getrandbits(self.rnd, k)
        while r >= n:
            r = R.getrandbits(self.rnd, k)
        return r

    def random(self):
        return self.stream.random()


def draw_circuit(ctx):
    ch = ctx.ch
    gates, qubits, names = circuits.circuit(ch, max_qubits=4, max_gates=8,
                                            classical=True)
    if ch.chance('phase', 1, 3):
        # a diagonal gate whose entries have modulus one up to rounding
        q = qubits[ch.draw('pq', len(qubits))]
        i = ch.draw('pi', len(gates) + 1)
        th = [0.3, 0.7, 1.1, 2.3, 2.9][ch.draw('pth', 5)]
        gates.insert(i, (np.diag([1, np.exp(1j * th)]), (q, )))
        names.insert(i, ('phase%r' % th, (q, )))
    return gates, qubits, names


def draw_opts(ch, qubits):
    opt = dict(betas=(0, ch.pick('b1', [10.0, 100.0])),
               n_steps=ch.int('n_steps', 1, 6),
               n_runs=ch.int('n_runs', 1, 3))
    kw = dict(fuse=ch.pick('fuse', [4, 0, 2, 3, 100]),
              simplify=not ch.chance('nosimp', 1, 4),
              use_matrix_commutation=not ch.chance('nomat', 1, 4),
              decompose_hyper_inds=not ch.chance('nodec', 1, 4))
    if ch.chance('order', 1, 2):
        kw['qubit_order'] = tuple(ch.shuffle('qorder', qubits))
    ctor = dict(n_jobs=ch.pick('n_jobs', [1, 2, -1]),
                seed=ch.seed())
    return ctor, kw, opt


def counts_of(result, qubits, n_samples, normalize, kw):
    """{bits in the order of ``qubits``: hits} of a returned value."""
    hits, order = result
    order = tuple(order)
    if 'qubit_order' in kw and order != tuple(kw['qubit_order']):
        raise Violation('qubit-order', '%r instead of %r' % (
            order, kw['qubit_order']))
    if len(order) != len(qubits) or set(order) != set(qubits):
        raise Violation('qubit-order', '%r for qubits %r' % (order, qubits))
    out = collections.Counter()
    vals = list(hits.values())
    for b, v in hits.items():
        if len(b) != len(order) or set(b) - {'0', '1'}:
            raise Violation('bitstring', repr(b))
        n = v * n_samples if normalize else v
        if abs(n - round(n)) > 1e-9 or round(n) < 1:
            raise Violation('hits', '%r: %r' % (b, v))
        d = dict(zip(order, b))
        out[tuple(int(d[q]) for q in qubits)] += round(n)
    if sum(out.values()) != n_samples:
        raise Violation('hits', '%d samples instead of %d' %
                        (sum(out.values()), n_samples))
    del vals
    return out


class Case:
    """One way to sample a circuit, repeatable with other streams."""

    def __init__(self, ctx, circuit, qubits, ctor, kw, opt, via):
        self.ctx, self.circuit, self.qubits = ctx, circuit, qubits
        self.ctor, self.kw, self.opt, self.via = ctor, kw, opt, via

    def sample(self, n_samples, policy, normalize=True):
        from tnco.app.circuit.sampling import Sampler

        def main():
            s = Sampler(**self.ctor)
            c = self.circuit() if callable(self.circuit) else self.circuit
            arg = c
            kw = dict(self.kw)
            opt = dict(self.opt)
            if self.via != 'direct':
                arg = s.sample(c, return_intermediate_state_only=True, **kw,
                               **opt)
                opt = {}
                if 'used' in self.via:
                    s.sample(arg, n_samples=2)
                if 'pickle' in self.via:
                    arg = pickle.loads(pickle.dumps(arg))
                kw = {k: v for k, v in kw.items() if k == 'qubit_order'}
            core.active().dictate = True
            return s.sample(arg, n_samples=n_samples, normalize=normalize,
                            **kw, **opt)

        def setup(s):
            s.dictate = False
            if policy is not None:
                s.rng_policy = lambda r: Policy(r, Gate(s, policy, r))

        _, r = self.ctx.sim(main, setup=setup)
        return counts_of(r, self.qubits, n_samples, normalize, self.kw)


class Gate:
    """Applies the dictated stream to the last sampling only, and not to the
    optimizations that precede it."""

    def __init__(self, s, stream, rnd):
        self.s, self.stream, self.rnd = s, stream, rnd

    def random(self):
        if self.s.dictate:
            f = sys._getframe(1)
            while f is not None and os.sep + 'tnco' + os.sep not in \
                    f.f_code.co_filename:
                f = f.f_back
            if f is not None and f.f_code.co_filename.endswith('sampling.py'):
                return self.stream.random()
        return core.REAL['Random'].random(self.rnd)


def check_exact(ctx, case, ref, n_samples, normalize=True):
    """Returns None, or what is wrong."""
    ch = ctx.ch
    st = Stream(ref, ch, n_samples, 1)
    got = case.sample(n_samples, st, normalize)
    ctx.counters['fault:dictated-random-numbers'] += len(st.used)
    ctx.state(sorted(got.items()))
    if st.calls == ref.draws * n_samples and got == st.counts:
        return None
    # Another way to use the random numbers?  One sample, one bit at a time.
    first = 'samples %r instead of %r, random numbers %r' % (
        dict(got), dict(st.counts), st.used)
    lock = True
    bad = {}
    for conv in (1, 2):
        for k in range(6):
            st = Stream(ref, ch, 1, conv)
            got = case.sample(1, st)
            if st.calls != ref.draws:
                lock = False
                break
            if got != st.counts:
                bad[conv] = 'sample %r instead of %r, random numbers %r' % (
                    dict(got), dict(st.counts), st.used)
                break
    if lock and len(bad) == 2:
        return bad[1]
    return first if statistics(ctx, case, ref, 500) else None


def statistics(ctx, case, ref, n):
    """Whether the hits of ``n`` samples contradict the distribution."""
    ctx.counters['statistical-fallback'] += 1
    got = case.sample(n, None)
    for bits in np.ndindex(*ref.probs.shape):
        p, k = ref.probs[bits], got[tuple(bits)]
        if p < 1e-12 and k:
            return True
        if abs(k - n * p) > 7 * math.sqrt(n * p * (1 - p)) + 4:
            return True
    return False


def run_exact(ctx):
    ch = ctx.ch
    gates, qubits, names = draw_circuit(ctx)
    ctor, kw, opt = draw_opts(ch, qubits)
    via = ch.pick('via', ['direct', 'direct', 'state', 'state-used',
                          'state-pickle', 'state-used-pickle'])
    n_samples = ch.int('n_samples', 1, 5)
    norm = ch.chance('norm', 1, 2)
    ctx.note(names, ctor, kw, opt, via, n_samples)
    ref = Reference(gates, qubits)
    case = Case(ctx, lambda: [(np.array(m), q) for m, q in gates], qubits,
                ctor, kw, opt, via)
    bad = check_exact(ctx, case, ref, n_samples, norm)
    if bad:
        raise Violation('distribution', bad)
    ctx.nontrivial = ref.draws > 0


def snapshot(state):
    out = []
    for tn, res, arrays, oi, oq in state:
        out.append((None if tn is None else tuple(map(tuple, tn.ts_inds)),
                    None if res is None else tuple(map(tuple, res.path)),
                    [np.asarray(a).tobytes() for a in
                     (arrays if tn is not None else [arrays])],
                    None if oi is None else tuple(oi), tuple(oq)))
    return out, tuple(state.qubits)


def resample(data, jobs):
    """In another process: sample from a serialized state."""
    from tnco.app.circuit.sampling import sample
    st = pickle.loads(data)
    return [sample(st, None, n_samples=n, seed=seed, **kw)
            for seed, n, kw in jobs]


def run_reuse(ctx):
    from tnco.app.circuit.sampling import Sampler, sample
    ch = ctx.ch
    gates, qubits, names = draw_circuit(ctx)
    ctor, kw, opt = draw_opts(ch, qubits)
    ctx.note(names, ctor, kw, opt)
    jobs = []
    for _ in range(ch.int('jobs', 2, 4)):
        k = {}
        if ch.chance('o', 1, 2):
            k['qubit_order'] = tuple(ch.shuffle('jo', qubits))
        jobs.append((ch.draw('js', 2**16), ch.int('jn', 1, 6), k))
    jobs.append(jobs[0])
    keep = {}

    def main():
        s = Sampler(**ctor)
        st = s.sample([(np.array(m), q) for m, q in gates],
                      return_intermediate_state_only=True, **kw, **opt)
        keep['before'] = snapshot(st)
        data = pickle.dumps(st)
        r = [sample(st, None, n_samples=n, seed=seed, **k)
             for seed, n, k in jobs]
        keep['after'] = snapshot(st)
        r2 = resample(data, jobs[::-1])[::-1]
        return data, r, r2

    _, (data, r, r2) = ctx.sim(main)
    if keep['before'] != keep['after']:
        raise Violation('state-changed', 'sampling from an intermediate state '
                        'changed it')
    if r[0] != r[-1]:
        raise Violation('reuse-differs', 'the same seed gives %r, later %r' %
                        (r[0], r[-1]))
    if r != r2:
        raise Violation('restored-differs', '%r and, from the restored state, '
                        '%r' % (r, r2))
    if ch.chance('peer', 1, 2):
        ctx.counters['fault:restored-in-another-process'] += 1
        r3 = peer.call('c11:resample', data, jobs)
        if r != r3:
            raise Violation('restored-differs', '%r and, in another process, '
                            '%r' % (r, r3))
    ctx.nontrivial = len(gates) > 1
    ctx.state(repr(r))


CIRQ = ['H', 'X', 'Y', 'Z', 'S', 'T', 'CNOT', 'CZ', 'SWAP', 'ISWAP', 'CCX',
        'CSWAP', 'M']


def draw_cirq(ctx):
    import cirq
    ch = ctx.ch
    n = ch.int('cq.n', 1, 4)
    kind = ch.pick('cq.kind', ['line', 'named', 'grid'])
    qs = [dict(line=cirq.LineQubit(i), named=cirq.NamedQubit('q%d' % i),
               grid=cirq.GridQubit(0, i))[kind] for i in range(n)]
    ops = []
    for _ in range(ch.int('cq.gates', 1, 8)):
        g = ch.pick('cq.g', CIRQ + ['H', 'U', 'U'])
        if g == 'U':
            gate = cirq.MatrixGate(circuits.unitary(ch, 2))
        elif g == 'M':
            gate = cirq.MeasurementGate(1, key='m%d' % len(ops))
        else:
            gate = getattr(cirq, g)
        k = cirq.num_qubits(gate)
        if k > n:
            continue
        ops.append(gate.on(*ch.shuffle('cq.q', qs)[:k]))
    if not [o for o in ops if not cirq.is_measurement(o)]:
        ops.append(cirq.H(qs[0]))
    c = cirq.Circuit(ops)
    gates = [(cirq.unitary(o), o.qubits) for o in c.all_operations()
             if not cirq.is_measurement(o)]
    used = {q for _, q2 in gates for q in q2}
    return c, gates, [q for q in qs if q in used], c.to_text_diagram() \
        if False else [str(o) for o in c.all_operations()]


def run_cirq(ctx):
    import cirq
    ch = ctx.ch
    c, gates, qubits, names = draw_cirq(ctx)
    frozen = ch.pick('cirq.type', ['circuit', 'frozen', 'moment'])
    if frozen == 'frozen':
        c = c.freeze()
    elif frozen == 'moment':
        m = ch.pick('moment', [m for m in c.moments])
        g2 = [(cirq.unitary(o), o.qubits) for o in m
              if not cirq.is_measurement(o)]
        if g2:
            c, gates = m, g2
            used = {q for _, q2 in gates for q in q2}
            qubits = [q for q in qubits if q in used]
    ctor, kw, opt = draw_opts(ch, qubits)
    via = ch.pick('via', ['direct', 'state-used'])
    ctx.note('cirq', frozen, names, ctor, kw, opt, via)
    ref = Reference(gates, qubits)
    case = Case(ctx, c, qubits, ctor, kw, opt, via)
    bad = check_exact(ctx, case, ref, ch.int('n_samples', 1, 3))
    if bad:
        raise Violation('distribution', bad)
    ctx.nontrivial = ref.draws > 0


def draw_qiskit(ch):
    """(circuit, gates in the documented meaning, qubits, names)."""
    import qiskit
    n = ch.int('qk.n', 1, 4)
    c = qiskit.QuantumCircuit(n)
    names = []
    for _ in range(ch.int('qk.gates', 1, 8)):
        g = ch.pick('qk.g', ['h', 'h', 'x', 'y', 'z', 's', 't', 'sx', 'cx',
                             'cz', 'swap', 'ccx', 'cswap'])
        k = dict(cx=2, cz=2, swap=2, ccx=3, cswap=3).get(g, 1)
        if k > n:
            continue
        q = ch.shuffle('qk.q', list(range(n)))[:k]
        getattr(c, g)(*q)
        names.append((g, q))
    if not names:
        c.h(0)
        names.append(('h', [0]))
    # the matrix of a qiskit gate has its first qubit as the least significant
    gates = [(np.asarray(g.matrix), tuple(g.qubits)[::-1]) for g in c]
    used = {q for _, q2 in gates for q in q2}
    return c, gates, [q for q in c.qubits if q in used], names


def run_qiskit(ctx):
    ch = ctx.ch
    c, gates, qubits, names = draw_qiskit(ch)
    ctor, kw, opt = draw_opts(ch, qubits)
    ctx.note('qiskit', names, ctor, opt)
    case = Case(ctx, c, qubits, ctor, kw, opt, 'direct')
    n = ch.int('n_samples', 1, 3)
    bad = check_exact(ctx, case, Reference(gates, qubits), n)
    if bad:
        # known: the qubits of every gate taken in the wrong order
        wrong = [(m, q[::-1]) for m, q in gates]
        if check_exact(ctx, case, Reference(wrong, qubits), n) is None:
            ctx.finding('qiskit-qubit-order', bad)
        else:
            raise Violation('distribution', bad)
    ctx.nontrivial = True


def run(ctx):
    k = ctx.ch.weighted('kind', [('exact', 6), ('reuse', 2), ('cirq', 2),
                                 ('qiskit', 1)])
    {'exact': run_exact, 'reuse': run_reuse, 'cirq': run_cirq,
     'qiskit': run_qiskit}[k](ctx)
