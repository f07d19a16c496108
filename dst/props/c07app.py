"""C07, second part: the timeout of an optimization.

Every step of a search takes simulated time: the public ``update`` of the two
optimizer classes is wrapped while the simulation runs.
"""
import contextlib

from .. import core, gen, oracle
from ..core import Violation
from . import app
from . import common as cm


@contextlib.contextmanager
def slow_steps(dur, log):
    """Searches whose steps take ``dur`` simulated seconds each."""
    from tnco.optimize.finite_width import Optimizer as F
    from tnco.optimize.infinite_memory import Optimizer as I
    saved = []
    for cls in (F, I):
        init, update = cls.__init__, cls.update

        def new_init(self, *a, _f=init, **k):
            _f(self, *a, **k)
            log.append([self, core.current().now, [], []])

        def new_update(self, *a, _f=update, **k):
            s = core.current()
            e = next(e for e in reversed(log) if e[0] is self)
            e[2].append(s.now)
            r = _f(self, *a, **k)
            s.sleep(dur, 'search.step')
            e[3].append(s.now)
            return r

        saved.append((cls, init, update))
        cls.__init__, cls.update = new_init, new_update
    try:
        yield
    finally:
        for cls, init, update in saved:
            cls.__init__, cls.update = init, update


def run(ctx, DMAX):
    ch = ctx.ch
    prof = ch.weighted('profile', [('fifo', 2), ('calm', 4), ('wild', 1)])
    net, tn = app.net_and_tn(ch, max_tensors=8, scalars=True,
                             sparse=ch.chance('sparse', 1, 5))
    ctor, opt = app.draw_opts(ch, net, steps=(1, 8), runs=(1, 5),
                              fuse=(0, 0, 2, None))
    ctor['verbose'] = ch.pick('verbose', [0, 1, 2, 3])
    dur = ch.pick('dur', [0.01, 0.1, 0.3, 1.0])
    T = ch.pick('timeout', [0.0, None, 0.01, 0.05, 0.3, 0.35, 1.0, 2, 5.5,
                            1e7])
    missing = ch.chance('no-joblib', 1, 8)
    jump = ch.pick('clock-jump', [0, 0, 3600.0, -3600.0, 1e6])
    ctx.note(net.describe(), ctor, opt, 'T', T, 'step takes', dur, prof,
             'no joblib', missing, 'clock jump', jump)

    def setup(s):
        s.no_slow = True
        if jump:
            def f():
                s.wall_off += jump
                s.count('fault:clock-jump')
            s.push_call(ch.pick('jump-at', [0.0, 0.01, 0.5]), f)

    def execute(timeout, prof, setup):
        log, times = [], {}

        def main():
            from tnco.app import Optimizer
            o = Optimizer(**ctor)
            s = core.current()
            times['t0'] = s.now
            k = dict(opt)
            if timeout is not None:
                k['timeout'] = timeout
            r = o.optimize(tn, **k)
            times['t1'] = s.now
            return r

        with cm.muted() if ctor['verbose'] else contextlib.nullcontext():
            with slow_steps(dur, log):
                s, r = ctx.sim(main, profile=prof, setup=setup,
                               joblib_missing=missing, max_steps=300_000)
        return s, r, log, times['t0'], times['t1']

    _, (t0n, plain), full, _, _ = execute(None, 'fifo', None)
    steps = {len(e[2]) for e in full}
    if len(steps) > 1:
        raise Violation('stopped-without-timeout', 'without timeout, some '
                        'searches did %r steps' % sorted(steps))
    N = max(steps, default=0)
    _, (t2, res), log, t0, t1 = execute(T, prof, setup)
    n = opt['n_runs']
    D = DMAX[prof]
    slack = D * (3 * n + 60) + 1e-6
    if len(res) != n:
        raise Violation('wrong-results', '%d results of %d runs' % (len(res),
                                                                    n))
    n2 = gen.from_tn(t2, net.n_projs)
    oracle.check_order(res, n)
    for r in res:
        per, merged = oracle.check_paths(n2, r)
        oracle.check_costs(n2, r, per)
    short = [e for e in log if len(e[2]) < N]
    if len(log) != len(full):
        raise Violation('wrong-results', '%d searches instead of %d' %
                        (len(log), len(full)))
    if T is None or T == 1e7:
        if short:
            raise Violation(
                'stopped-without-timeout' if T is None else 'stopped-early',
                'a search did %d steps of %d, timeout %r' %
                (len(short[0][2]), N, T))
        if app.result_key(t2, res) != app.result_key(t0n, plain):
            raise Violation('unreached-timeout-changes-result', '%r\n%r' % (
                app.result_key(t2, res)[2:], app.result_key(t0n, plain)[2:]))
    else:
        for e in short:
            end = (e[3] or [e[1]])[-1]
            if end + slack < t0 + T:
                raise Violation('stopped-early', 'a search was stopped after '
                                '%d of %d steps %.6g s after the call, before '
                                'the timeout of %r s' % (len(e[2]), N,
                                                         end - t0, T))
            ctx.probe('search-stopped')
            ctx.nontrivial = True
            if not e[2]:
                ctx.probe('stopped-before-first-step')
        for e in log:
            late = [t for t in e[2] if t > t0 + T + slack]
            if len(late) > 1:
                raise Violation('not-stopped', 'a search did %d steps later '
                                'than %.3g s after the timeout of %r s' %
                                (len(late), slack, T))
        inflight = max([t for e in log for t in e[3] + [e[1]]] + [t0])
        back = D * (100 + 40 * n) + (4 / 0.5 + 2 * D if ctor['verbose'] > 2
                                     else 0) + 1e-6
        if t1 > inflight + back:
            raise Violation('late-return', 'the last step ended %.6g s after '
                            'the call, which returned %.6g s later' %
                            (inflight - t0, t1 - inflight))
    ctx.state(T, [len(e[2]) for e in log])
