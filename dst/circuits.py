"""Drawn circuits and their exact state (independent of the library)."""
import math

import numpy as np

S2 = 1 / math.sqrt(2)
ONE = {
    'H': np.array([[S2, S2], [S2, -S2]]),
    'X': np.array([[0., 1.], [1., 0.]]),
    'Y': np.array([[0., -1j], [1j, 0.]]),
    'Z': np.array([[1., 0.], [0., -1.]]),
    'S': np.array([[1., 0.], [0., 1j]]),
    'T': np.array([[1., 0.], [0., np.exp(0.25j * math.pi)]]),
    'SX': 0.5 * np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]),
    'I': np.eye(2),
}
TWO = {
    'CX': np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0.]]),
    'CZ': np.diag([1., 1., 1., -1.]),
    'SWAP': np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1.]]),
    'ISWAP': np.array([[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0],
                       [0, 0, 0, 1]]),
    'XC': np.array([[1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0], [0, 1, 0, 0.]]),
}
TWO_MORE = {
    'ISQ': np.array([[1, 0, 0, 0], [0, S2, 1j * S2, 0], [0, 1j * S2, S2, 0],
                     [0, 0, 0, 1]]),
    'CV': np.block([[np.eye(2), np.zeros((2, 2))],
                    [np.zeros((2, 2)), ONE['SX']]]),
}
CCX = np.eye(8)[[0, 1, 2, 3, 4, 5, 7, 6]]
CCZ = np.diag([1.] * 7 + [-1.])
CSWAP = np.eye(8)[[0, 1, 2, 3, 4, 6, 5, 7]]
CYC = np.eye(8)[[0, 4, 1, 5, 2, 6, 3, 7]]  # cyclic shift of three bits
THREE = {'CCX': CCX, 'CCZ': CCZ, 'CSWAP': CSWAP, 'CYC': CYC}
for _d in (ONE, TWO, TWO_MORE, THREE):
    for _k in _d:
        _d[_k].setflags(write=False)


def unitary(ch, d):
    seed = ch.draw('c.unitary', 2**16)
    rng = np.random.Generator(np.random.PCG64(seed))
    m = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    q, r = np.linalg.qr(m)
    return q * (np.diag(r) / abs(np.diag(r)))


def qubit_names(ch, n):
    kind = ch.pick('c.names', ['int', 'str', 'tuple', 'mixed', 'gap'])
    return [{'int': i, 'str': 'q%d' % i, 'tuple': (i, 'x'), 'gap': 7 * i + 3,
             'mixed': [i, 'q%d' % i, ('m', i)][i % 3]}[kind]
            for i in range(n)]


def circuit(ch, *, max_qubits=4, max_gates=12, classical=False, three=True,
            identity_pairs=True, phases=False):
    """List of (matrix, qubits); ``classical``: multi-qubit gates permute.

    ``phases``: gates may undo others up to a global phase ('phase' in names).
    """
    n = ch.int('c.n', 1, max_qubits)
    qs = qubit_names(ch, n)
    out = []
    names = []
    # few different gates and their inverses
    few = []
    if not classical and n > 1 and ch.chance('c.few', 1, 3):
        if ch.chance('c.two-qubits', 2, 3):
            n = 2
            qs = qs[:2]
        kinds = {2: ['CV', 'ISQ', 'CX', 'ISWAP', 'U'], 1: ['SX', 'S', 'H'],
                 3: ['CYC', 'CCX', 'U']}
        for j in range(ch.int('c.kinds', 1, 2)):
            k = 2 if j == 0 else ch.weighted('c.k', [
                (1, 2), (2, 2), (3, 1 if three and n > 2 else 0)])
            nm = ch.pick('c.kind', kinds[k])
            few.append((nm, k, unitary(ch, 2**k) if nm == 'U' else
                        TWO_MORE[nm] if nm in TWO_MORE else
                        [ONE, TWO, THREE][k - 1][nm]))
    for _ in range(ch.int('c.gates', 1, max_gates)):
        if few and not ch.chance('c.other', 1, 6):
            nm, k, m = few[ch.draw('c.few-which', len(few))]
            if ch.chance('c.adj', 1, 2):
                nm, m = nm + "'", m.conj().T
            out.append((m, tuple(ch.shuffle('c.q', qs)[:k])))
            names.append(nm)
            continue
        if out and identity_pairs and ch.chance('c.undo', 1, 6):
            m, q = out[-1 - ch.draw('c.which', min(len(out), 4))]
            m, nm = m.conj().T, 'adj'
            if len(q) > 1 and ch.chance('c.perm', 1, 2):
                # the same operator, its qubits in another order
                p = ch.shuffle('c.order', range(len(q)))
                m = np.asarray(m).reshape((2, ) * 2 * len(q)).transpose(
                    p + [len(q) + x for x in p]).reshape(m.shape)
                nm = 'adj-perm'
                if len(q) > 2 and ch.chance('c.relabel', 1, 2):
                    # (another operator with the same entries)
                    p = ch.shuffle('c.order2', p)
                    nm = 'relabel'
                q = tuple(q[x] for x in p)
            if phases and ch.chance('c.phase', 1, 4):
                m = m * ch.pick('c.ph', [1j, -1, np.exp(0.3j)])
                nm = 'phase'
            out.append((m, q))
            names.append(nm)
            continue
        k = ch.weighted('c.k', [(1, 4), (2, 3), (3, 1 if three else 0)])
        k = min(k, n)
        q = tuple(ch.shuffle('c.q', qs)[:k])
        if k == 1:
            nm = ch.pick('c.one', list(ONE) + ['U', 'U'])
            m = unitary(ch, 2) if nm == 'U' else ONE[nm]
        elif k == 2:
            nm = ch.pick('c.two', list(TWO) + ([] if classical else
                                               ['U', 'ISQ']))
            if nm == 'U':
                m = unitary(ch, 4)
            elif nm in TWO_MORE:
                m = TWO_MORE[nm]
            else:
                m = TWO[nm]
        else:
            nm = ch.pick('c.three', list(THREE) + ([] if classical else ['U']))
            m = unitary(ch, 8) if nm == 'U' else THREE[nm]
        out.append((m, q))
        names.append(nm)
    used = {x for _, q in out for x in q}
    return out, [q for q in qs if q in used], list(zip(names,
                                                       [q for _, q in out]))


def operator(gates, qubits):
    """Tensor of the whole circuit: axes (f_0 .. f_n-1, i_0 .. i_n-1)."""
    n = len(qubits)
    t = np.eye(2**n, dtype=complex).reshape((2, ) * (2 * n))
    pos = {q: i for i, q in enumerate(qubits)}
    for m, qs in gates:
        k = len(qs)
        ax = [pos[q] for q in qs]
        g = np.asarray(m, dtype=complex).reshape((2, ) * (2 * k))
        t = np.tensordot(g, t, axes=(list(range(k, 2 * k)), ax))
        # the new axes are in front
        rest = [a for a in range(2 * n) if a not in ax]
        order = [None] * (2 * n)
        for j, a in enumerate(ax):
            order[a] = j
        for j, a in enumerate(rest):
            order[a] = k + j
        t = t.transpose(order)
    return t


STATES = {'0': np.array([1., 0.]), '1': np.array([0., 1.]),
          '+': np.array([S2, S2]), '-': np.array([S2, -S2])}


def draw_state(ch, qubits, label):
    """(argument for the library, {qubit: vector})."""
    k = ch.pick(label, ['0', 'dict', None, '1', '+', '-', 'dict'])
    if k is None:
        return None, {}
    if k != 'dict':
        return k, {q: STATES[k] for q in qubits}
    arg, val = {}, {}
    for q in qubits:
        s = ch.pick(label + '.s', ['0', '1', '+', '-', None, 'vec'])
        if s is None:
            continue
        if s == 'vec':
            v = unitary(ch, 2)[0]
            arg[q], val[q] = v, v
        else:
            arg[q], val[q] = s, STATES[s]
    return arg, val


def amplitudes(gates, qubits, initial, final):
    """(tensor, open indices as (qubit, 'f'|'i') in axis order)."""
    n = len(qubits)
    t = operator(gates, qubits)
    axes = [(q, 'f') for q in qubits] + [(q, 'i') for q in qubits]
    for q, v in initial.items():
        a = axes.index((q, 'i'))
        t = np.tensordot(t, np.asarray(v, dtype=complex), axes=([a], [0]))
        axes.pop(a)
    for q, v in final.items():
        a = axes.index((q, 'f'))
        t = np.tensordot(t, np.asarray(v, dtype=complex).conj(),
                         axes=([a], [0]))
        axes.pop(a)
    return t, axes
