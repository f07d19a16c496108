"""C13: moves are accepted exactly as the acceptance rule prescribes.

The random stream of a search is dictated: the state of its generator is
crafted so that every random number lies in a chosen, very small interval
while its lowest bits (which select the tensors to move) stay arbitrary.
"""
import math

from .. import gen, model
from ..core import Violation
from . import search

BITS = 20


def untemper(y):
    """State word of the Mersenne twister whose output is ``y``."""
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def crafted(seed, u):
    """A generator whose next 624 outputs are words in [u, u + 2^-BITS)."""
    hi = min(int(u * 2**BITS), 2**BITS - 1) << (32 - BITS)
    out = []
    x = (seed * 2654435761 + 12345) & 0xffffffffffffffff
    for _ in range(624):
        x = (x * 6364136223846793005 + 1442695040888963407) % 2**64
        out.append(untemper(hi | (x >> 40) & (2**(32 - BITS) - 1)))
    lo = (hi >> (32 - BITS)) / 2**BITS
    return ' '.join(map(str, out)) + ' 0', lo, lo + 2.0**-BITS


class Tree:
    """A contraction tree as {group: pair of groups}."""

    def __init__(self, kids):
        self.kids = kids
        self.parent = {c: g for g, cc in kids.items() for c in cc}

    @classmethod
    def of(cls, sr, path):
        stps, pool = sr.steps(path)
        return cls({a | b: (a, b) for a, b in stps})

    def key(self):
        return frozenset(self.kids)

    def swap(self, A, B, C, D, E):
        k = dict(self.kids)
        del k[B]
        nb = D | C
        k[nb] = (D, C)
        k[A] = (nb, E)
        return Tree(k), nb


class Rule:
    """Acceptance rule with what is known about the random numbers."""

    def __init__(self, beta, lo, hi, rel):
        self.beta, self.lo, self.hi, self.rel = beta, lo, hi, rel

    def prob(self, delta, total):
        if delta <= 0 or self.beta == 'base':
            return 1.0
        if self.beta == 'greedy':
            return 0.0
        return math.exp(-self.beta * math.log1p(delta / total))

    def decide(self, delta, total):
        """Set of possible decisions."""
        p = self.prob(delta, total)
        if p == 1.0:
            return (True,)
        if p == 0.0 and self.beta == 'greedy':
            return (False,)
        tol = p * (self.rel * (1 + abs(self.beta)) + 1e-6) + 1e-300
        if self.hi <= p - tol:
            return (True,)
        if self.lo > p + tol:
            return (False,)
        return (True, False)


class TooMany(Exception):
    pass


class Walks:
    """Everything one update may do, by the documented procedure."""

    def __init__(self, sr):
        self.sr, self.net = sr, sr.net
        self.m = model.Merger(sr.net)
        self.costs = {}

    def cost(self, tree, slices):
        k = (tree.key(), slices)
        if k not in self.costs:
            net, m = self.net, self.m
            self.costs[k] = sum(
                model.step_cost(m.inds(a) | m.inds(b) | slices, net)
                for a, b in tree.kids.values())
        return self.costs[k]

    def fits(self, xs):
        """(surely, possibly) within the memory limit."""
        if self.sr.W is None:
            return True, True
        w = model.log2_width(xs, self.net)
        return w <= self.sr.W - 1e-5, w <= self.sr.W + 1e-5

    def moves(self, tree, B):
        """(A, B, C, D, E, weight) at B."""
        A = tree.parent.get(B)
        if A is None:
            return None, []
        x, y = tree.kids[A]
        C = y if x == B else x
        D, E = tree.kids[B]
        m = self.m
        out = []
        for d, e in ((D, E), (E, D)):
            if self.sr.no_shared or m.inds(d) & m.inds(C):
                out.append((C, d, e))
        return A, out

    def new_slices(self, xs, slices):
        """Sets of slices which may be added to make ``xs`` fit."""
        pool = xs - slices - self.sr.skip
        seen, todo, out = set(), [(slices, 0)], set()
        while todo:
            sl, n = todo.pop()
            if (sl, n) in seen:
                continue
            seen.add((sl, n))
            if len(seen) > 300:
                raise TooMany()
            sure, maybe = self.fits(xs - sl)
            if maybe and sl != slices:
                out.add(sl)
            if not sure and n < self.sr.new_slices:
                for x in pool - sl:
                    todo.append((sl | {x}, n + 1))
        return out

    def outcomes(self, tree, slices, rule, limit=2500):
        """All states after one update (before refreshing the slices)."""
        res = set()
        todo = []
        for i in range(self.net.n):
            p = tree.parent.get(frozenset([i]))
            if p is None:
                res.add((tree.key(), slices))
            else:
                todo.append((tree, slices, p))
        seen = set()
        while todo:
            t, sl, B = todo.pop()
            k = (t.key(), sl, B)
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > limit:
                raise TooMany()
            A, mv = self.moves(t, B)
            if A is None:
                res.add((t.key(), sl))
                continue
            for C, D, E in mv:
                new, nb = t.swap(A, B, C, D, E)
                xs = self.m.inds(nb)
                sure, maybe = self.fits(xs - sl)
                total = self.cost(t, sl)
                if maybe:
                    for acc in rule.decide(self.cost(new, sl) - total, total):
                        todo.append((new if acc else t, sl, A))
                if not sure:
                    # sets of new slices are random, so is finding one
                    got = self.new_slices(xs, sl) if self.sr.new_slices else ()
                    todo.append((t, sl, A))
                    for s2 in got:
                        for acc in rule.decide(self.cost(new, s2) - total,
                                               total):
                            if acc:
                                todo.append((new, s2, A))
        return res

    def distribution(self, tree, beta):
        """Exact distribution of one update without slices."""
        rule = Rule(beta, 0, 1, 0)
        out = {}
        n = self.net.n
        cur = {}
        for i in range(n):
            p = tree.parent.get(frozenset([i]))
            cur.setdefault((tree.key(), p), [tree, 0.0])[1] += 1 / n
        none = frozenset()
        while cur:
            nxt = {}
            for (key, B), (t, w) in cur.items():
                A, mv = self.moves(t, B) if B is not None else (None, [])
                if A is None:
                    out[key] = out.get(key, 0.0) + w
                    continue
                for C, D, E in mv:
                    q = w / len(mv)
                    new, nb = t.swap(A, B, C, D, E)
                    total = self.cost(t, none)
                    sure, maybe = self.fits(self.m.inds(nb))
                    if sure != maybe:
                        return None
                    p = rule.prob(self.cost(new, none) - total, total) \
                        if sure else 0.0
                    for t2, f in ((new, p), (t, 1 - p)):
                        if f:
                            nxt.setdefault((t2.key(), A), [t2, 0.0])[1] += \
                                q * f
            cur = nxt
        return out


def thresholds(ws, tree, slices, beta):
    """Acceptance probabilities met while walking from ``tree``."""
    rule = Rule(beta, 0, 1, 0)
    out = set()
    todo = [(tree, g) for g in tree.kids]
    for t, B in todo[:60]:
        A, mv = ws.moves(t, B)
        for C, D, E in mv:
            new, nb = t.swap(A, B, C, D, E)
            total = ws.cost(t, slices)
            p = rule.prob(ws.cost(new, slices) - total, total)
            if 0 < p < 1:
                out.add(p)
            if len(todo) < 60 and tree is t:
                todo.append((new, A))
    return sorted(out)


def describe(key):
    return sorted(sorted(g) for g in key)


def draw(ctx, ch, small=False, finite=None, pair=False):
    from . import search as S
    conn = pair or not ch.chance('parts', 1, 6)
    wide = not small and ch.chance('wide', 1, 5)
    net = gen.network(ch, min_tensors=(5 if wide else 3) if conn else 6,
                      max_tensors=(3 if small else 7) if conn else 9,
                      connected=conn, sparse=ch.chance('sparse', 1, 5),
                      outputs=True)
    ctypes = ('float64', 'float64', 'float32', 'float1024')
    if wide:
        # costs which differ by many orders of magnitude (the differences are
        # accumulated, so that double precision is too low)
        net.dims = {x: ch.pick('wide-dim', [2, 2**40 + 15, 10**6, 3, 1, 2**30])
                    for x in net.inds()}
        ctypes = ('float1024', )
        ctx.probe('large-dimensions')
    sr = S.build(ctx, ch, net, width=finite, connected=conn,
                 cost_types=ctypes, width_types=('float32', 'float64'))
    if sr is not None:
        sr.wide = wide
    return sr


REL = {'float32': 3e-7, 'float64': 1e-12, 'float1024': 1e-12}


def state(sr, o):
    sl = frozenset(o.slices) if sr.W is not None else frozenset()
    return Tree.of(sr, o.ctree.path()), sl


def prob(sr, beta):
    if beta == 'base':
        from tnco.optimize.prob import BaseProbability
        return BaseProbability(cost_type=sr.cost_type)
    return sr.prob(beta)


def update(sr, o, beta, upd):
    p = prob(sr, beta)
    if sr.W is None:
        o.update(p)
    else:
        o.update(p, update_slices=upd)


def draw_beta(ch, sr=None):
    if sr is not None and sr.wide and ch.chance('small-beta', 2, 3):
        # so that large steps are not hopeless
        return ch.pick('beta', [0.01, 0.0, 0.1, 0.001, 0.03, 0.3])
    return ch.pick('beta', [1.0, 0.0, 'greedy', 'base', 0.3, 3.0, 10.0, 1e6,
                            100.0, 0.01, 2.75, 80.6])


def run_history(ctx):
    """A search with a dictated stream at every step."""
    ch = ctx.ch
    sr = draw(ctx, ch, small=ch.chance('small', 1, 3))
    if sr is None:
        return
    sr.betas = [1.0]
    ws = Walks(sr)
    sr.start()
    exact = {'float32': 2**23, 'float64': 2**50, 'float1024': 2**900}[
        sr.cost_type]
    for k in range(ch.int('steps', 1, 8)):
        tree, sl = state(sr, sr.opt)
        total = ws.cost(tree, sl)
        beta = draw_beta(ch, sr)
        if ch.chance('fit-beta', 1, 4):
            # a temperature at which one of the moves is a matter of chance
            ps = thresholds(ws, tree, sl, 1.0)
            if ps:
                p = ps[ch.draw('fit-move', len(ps))]
                beta = math.log(ch.pick('fit-p', [0.5, 0.1, 0.9])) / math.log(
                    p)
        mode = ch.pick('u', ['near', 'near', 'zero', 'one', 'any', 'keep',
                             'near'])
        u = None
        if mode == 'near':
            ps = thresholds(ws, tree, sl, beta) if isinstance(
                beta, float) else []
            if ps:
                if ch.chance('likely', 3, 4):
                    ps = [p for p in ps if p > 1e-5] or ps
                p = ps[ch.draw('which', len(ps))]
                u = p * (1 + ch.pick('off', [1, -1]) * ch.pick(
                    'eps', [1e-4, 1e-2, 0.1, 0.3])) + ch.pick(
                        'ulp', [0, 2**-19, -2**-19])
                u = min(max(u, 0.0), 1 - 2.0**-BITS)
            else:
                mode = 'any'
        if mode == 'any':
            u = ch.draw('uu', 1024) / 1024
        elif mode == 'zero':
            u = 0.0
        elif mode == 'one':
            u = 1 - 2.0**-BITS
        lo, hi = 0.0, 1.0
        if u is not None:
            st, lo, hi = crafted(ch.draw('words', 2**16), u)
            if mode in ('zero', 'one') and ch.chance('all', 1, 2):
                w = 0 if mode == 'zero' else 0xffffffff
                # (a state of only zeros is no state of the generator)
                st = ' '.join([str(untemper(w))] * 600 + st.split()[600:])
            o2 = with_stream(sr, sr.opt, st)
            if o2 is None:
                lo, hi = 0.0, 1.0
            else:
                sr.opt = o2
                ctx.counters['fault:dictated-random-stream'] += 1
                if state(sr, o2)[0].key() != tree.key() or \
                        state(sr, o2)[1] != sl:
                    raise Violation('restored-differently', 'a search built '
                                    'from a tree holds another tree')
        rule = Rule(beta, lo, hi, REL[sr.cost_type])
        upd = sr.W is not None and ch.chance('upd', 1, 2)
        before = search.snap(sr.opt, sr.W)
        plain = None
        if upd:
            plain = clone(sr.opt)
        update(sr, sr.opt, beta, upd)
        o = sr.opt
        if upd:
            # the same moves without refreshing the slices
            update(sr, plain, beta, False)
            tp, sp = state(sr, plain)
            t2, s2 = state(sr, o)
            if tp.key() != t2.key():
                raise Violation('refresh-changes-tree', 'refreshing the slices'
                                ' changed the tree')
            a, b = ws.cost(t2, s2), ws.cost(tp, sp)
            if a > b and max(a, b) <= exact:
                raise Violation('refresh-raises-cost', 'refreshing the slices '
                                'raises the cost from %d to %d' % (b, a))
            if s2 != sp:
                ctx.probe('slices-refreshed')
            o, t2, s2 = plain, tp, sp
        else:
            t2, s2 = state(sr, o)
        new = ws.cost(t2, s2)
        ctx.note('step', k, 'beta', beta, 'u', mode, lo, 'cost', total, '->',
                 new)
        if beta == 'greedy' and new > total and new <= exact:
            raise Violation('greedy-raises-cost', 'step %d: from %d to %d' %
                            (k, total, new))
        if max(total, new) <= exact:
            try:
                res = ws.outcomes(tree, sl, rule)
            except TooMany:
                ctx.counters['probe:too-many-outcomes'] += 1
                res = None
            if res is not None and (t2.key(), s2) not in res:
                raise Violation('not-by-the-rule', 'step %d: beta %r, random '
                                'numbers in [%r, %r): the tree %r (slices %r, '
                                'cost %d) became %r (slices %r, cost %d); %d '
                                'other outcomes are possible' % (
                                    k, beta, lo, hi, describe(tree.key()),
                                    sorted(sl, key=repr), total,
                                    describe(t2.key()), sorted(s2, key=repr),
                                    new, len(res)))
            if res is not None:
                ctx.counters['probe:outcomes'] += len(res)
                if len(res) == 1:
                    ctx.probe('only-one-outcome')
            if (t2.key(), s2) == (tree.key(), sl) and not upd:
                after = search.snap(o, sr.W)
                for key in ('total', 'log2', 'min_total', 'log2_min',
                            'slices', 'skip'):
                    if key in before and before[key] != after[key]:
                        raise Violation('rejected-move-changes', '%s from %r '
                                        'to %r' % (key, before[key],
                                                   after[key]))
        if (t2.key(), s2) != (tree.key(), sl):
            ctx.nontrivial = True
        # the cost reported is the one of the tree
        if not model.close(o.total_cost, new):
            raise Violation('wrong-cost', '%s instead of %d' % (o.total_cost,
                                                               new))
        ctx.state(t2.key(), s2, beta, mode)


def clone(o):
    import pickle
    return pickle.loads(pickle.dumps(o))


def with_stream(sr, o, st):
    """The same search going on with the random stream ``st``."""
    build, args = o.__reduce__()[:2]
    old = o.prng_state
    if not any(isinstance(x, str) and x == old for x in args):
        return None
    n = build(*(st if isinstance(x, str) and x == old else x for x in args))
    if n.prng_state.split()[:624] != st.split()[:624]:
        return None
    return n


def run_pair(ctx):
    """Three tensors, one possible move: decisions next to the threshold."""
    ch = ctx.ch
    sr = draw(ctx, ch, small=True, finite=False, pair=True)
    if sr is None or sr.W is not None:
        return
    ws = Walks(sr)
    sr.start()
    tree, sl = state(sr, sr.opt)
    total = ws.cost(tree, sl)
    beta = ch.pick('b', [1.0, 0.5, 0.1, 2.0, 5.0, 30.0])
    hits = 0
    for _ in range(12):
        # a proposal: what the rule which accepts everything does
        words = ch.draw('words', 2**16)
        u0 = ch.draw('u0', 512) / 512
        st, *_ = crafted(words, u0)
        o = with_stream(sr, sr.opt, st)
        if o is None:
            return
        update(sr, o, 'base', False)
        t1, _ = state(sr, o)
        o = with_stream(sr, sr.opt, st)
        update(sr, o, 0.0, False)
        if state(sr, o)[0].key() != t1.key():
            raise Violation('beta-zero', 'beta = 0 rejects a move')
        if t1.key() == tree.key():
            continue
        d = ws.cost(t1, sl) - total
        # the same proposal (lowest bits), other random numbers
        if d <= 0:
            for u in (0.0, 0.5, 1 - 2.0**-BITS):
                for b in ('greedy', beta, 1e6):
                    st, *_ = crafted(words, u)
                    o = with_stream(sr, sr.opt, st)
                    update(sr, o, b, False)
                    t2, _ = state(sr, o)
                    if t2.key() != t1.key() and same_proposal(sr, st, t1):
                        raise Violation('downhill-rejected', 'beta %r, u %r: '
                                        'cost %d + %d' % (b, u, total, d))
            hits += 1
            continue
        p = math.exp(-beta * math.log1p(d / total))
        for f in (1 - 1e-3, 1 + 1e-3, 0.9, 1.1, 0.5, 2.0):
            u = p * f + (2**-BITS if f > 1 else -2**-BITS)
            if not 0 <= u < 1:
                continue
            st, lo, hi = crafted(words, u)
            if not same_proposal(sr, st, t1):
                continue
            o = with_stream(sr, sr.opt, st)
            update(sr, o, beta, False)
            t2, _ = state(sr, o)
            acc = t2.key() == t1.key()
            dec = Rule(beta, lo, hi, REL[sr.cost_type]).decide(d, total)
            if acc not in dec:
                raise Violation('wrong-probability', 'cost %d + %d, beta %r: '
                                'random number %r is %s, the probability is '
                                '%r' % (total, d, beta, lo, 'accepted' if acc
                                        else 'rejected', p))
            if not acc:
                a, b = search.snap(sr.opt, sr.W), search.snap(o, sr.W)
                a.pop('prng'), b.pop('prng')
                if a != b:
                    raise Violation('rejected-move-changes', '%r' %
                                    search.differ(a, b))
            hits += 1
        for b in ('greedy', 1e9):
            st, *_ = crafted(words, 0.0)
            o = with_stream(sr, sr.opt, st)
            update(sr, o, b, False)
            if state(sr, o)[0].key() != tree.key() and (
                    b == 'greedy' or (1 + d / total)**-1e9 == 0):
                raise Violation('greedy-raises-cost', 'beta %r: %d + %d' %
                                (b, total, d))
    ctx.nontrivial = hits > 0
    ctx.counters['probe:threshold-decisions'] += hits
    ctx.state(total, beta, hits, tree.key())


def same_proposal(sr, st, t1):
    o = with_stream(sr, sr.opt, st)
    update(sr, o, 'base', False)
    return state(sr, o)[0].key() == t1.key()


def run_frequency(ctx):
    """Frequencies of all outcomes over many seeds."""
    ch = ctx.ch
    sr = draw(ctx, ch, small=ch.chance('small', 1, 3))
    if sr is None or sr.net.n > 5:
        return
    ws = Walks(sr)
    sr.start()
    tree, sl = state(sr, sr.opt)
    if sl:
        return
    sr.new_slices = 0
    beta = draw_beta(ch, sr)
    want = ws.distribution(tree, beta)
    if want is None:
        return
    N = 500
    got = {}
    base = ch.draw('base', 2**20)
    for k in range(N):
        o = sr.create(seed=base + k)
        update(sr, o, beta, False)
        t, s = state(sr, o)
        got[t.key()] = got.get(t.key(), 0) + 1
    for key in set(want) | set(got):
        p = min(want.get(key, 0.0), 1.0)
        x = got.get(key, 0)
        if abs(x - N * p) > 6.5 * math.sqrt(N * p * (1 - p)) + 2 or \
                (x and p == 0.0):
            raise Violation('wrong-frequency', 'beta %r: %r becomes %r %d times'
                            ' out of %d, the probability is %.4f' % (
                                beta, describe(tree.key()), describe(key), x,
                                N, p))
    ctx.nontrivial = len(want) > 1
    ctx.probe('distribution')
    ctx.state(tree.key(), beta, sorted(want.values()))


def run(ctx):
    w = ctx.ch.weighted('level', [('history', 12), ('pair', 6), ('freq', 1)])
    {'history': run_history, 'pair': run_pair, 'freq': run_frequency}[w](ctx)
