"""C07: timeouts stop every task, never early, with bounded delay."""
from .. import core
from ..core import Violation
from . import common as cm

DMAX = {'fifo': 1e-6, 'calm': 2e-3, 'wild': 0.3, 'burst': 0.5}


def task(plan, *, idx, status, stop, **bufs):
    """Works until told to stop (or until its steps are done)."""
    s = core.current()
    s.event('start', idx)
    if plan['before'] and stop[idx]:
        s.event('poll', idx, True)
        s.event('end', idx)
        return ('stopped', idx)
    for k in range(plan['steps']):
        s.sleep(plan['dur'], 'task.work')
        if plan['report']:
            status[idx] = k / plan['steps']
        v = bool(stop[idx])
        s.event('poll', idx, v)
        if v:
            break
    s.event('end', idx)
    return ('done', idx)


def run_parallel(ctx):
    import tnco.parallel as tp
    ch = ctx.ch
    prof = ch.weighted('profile', [('fifo', 2), ('calm', 6), ('wild', 1)])
    T = ch.pick('timeout', [None, 0.0, 0.01, 0.05, 0.3, 1.0, 1.5, 2, 3.7, 0.9,
                            7200.0])
    n = ch.int('n', 1, 8)
    if ch.chance('many', 1, 40):
        n = ch.pick('n-many', [40, 17, 70])
        ctx.probe('many-tasks')
    long = T is not None and ch.chance('unbounded', 1, 2)
    plans = [dict(steps=ch.int('steps', 1, 12) if not long else 60,
                  dur=ch.pick('dur', [0.01, 0.1, 0.3, 1.0]) if
                  T != 7200.0 or not long else 400.0,
                  before=ch.chance('before', 1, 2),
                  report=ch.chance('report', 1, 2)) for _ in range(n)]
    n_jobs = ch.pick('n_jobs', cm.N_JOBS)
    verbose = ch.pick('verbose', [0, 1, 2, 3] if T != 7200.0 else [0, 1])
    refresh = ch.pick('refresh', [0.5, None, 5])
    bufs = cm.draw_buffers(ch)[:2]
    jump = ch.pick('clock-jump', [0, 0, 3600.0, -3600.0, 1e6])
    jump_at = ch.pick('jump-at', [0.0, 0.01, 0.5, 3.0])
    missing = ch.chance('no-joblib', 1, 8)
    ctx.note('T', T, 'n', n, 'n_jobs', n_jobs, 'profile', prof, 'plans',
             [(p['steps'], p['dur']) for p in plans], 'jump', jump)
    times = {}

    def main():
        s = core.current()
        s.sleep(ch.pick('start', [0.0, 0.0, 5.0]), 'before')
        times['t0'] = s.now
        r = tp.Parallel(task, plans, n_jobs=n_jobs, verbose=verbose,
                        timeout=T, refresh_per_second=refresh, buffers=bufs)
        times['t1'] = s.now
        times['leave'] = cm.leftovers(s)
        return r

    def setup(s):
        s.no_slow = True
        if jump:
            def f():
                s.wall_off += jump
                s.count('fault:clock-jump')
            s.push_call(jump_at, f)

    s, r = ctx.sim(main, profile=prof, setup=setup, joblib_missing=missing,
                   max_steps=200_000)
    D = DMAX[prof]
    t0, t1 = times['t0'], times['t1']
    # delay of the seams passed between the deadline and the last stop flag,
    # and between the call and the start of the clock
    slack = D * (3 * n + len(bufs) + 40) + 1e-6
    polls = [(e[0], e[3], e[4]) for e in s.log if e[2] == 'poll']
    ends = [e[0] for e in s.log if e[2] == 'end']
    if len(r) != n or [x[1] for x in r] != list(range(n)):
        raise Violation('wrong-results', 'expected one result per task, got %r'
                        % (r,))
    if T is None:
        for t, i, v in polls:
            if v:
                raise Violation('stopped-without-timeout', 'task %d was asked '
                                'to stop %.6g s after the call although no '
                                'timeout was given' % (i, t - t0))
    else:
        for t, i, v in polls:
            if v and t < t0 + T - 1e-9:
                raise Violation('stopped-early', 'task %d was asked to stop '
                                '%.6g s after the call, before the timeout of '
                                '%r s' % (i, t - t0, T))
            if not v and t > t0 + T + slack:
                raise Violation('not-stopped', 'task %d is not asked to stop '
                                '%.6g s after the call, the timeout is %r s '
                                '(allowed delay %.3g s)' % (i, t - t0, T,
                                                            slack))
        if any(v for _, _, v in polls):
            ctx.probe('stopped-by-timeout')
        if any(x[0] == 'stopped' for x in r):
            ctx.probe('stopped-before-first-step')
    # the call comes back promptly after the last task
    last = max(ends + [t0])
    back = D * (60 + 12 * n * (4 + len(bufs))) + (
        (1 / (refresh or 0.5) + D) * 2 if verbose >= 2 else 0)
    if t1 > last + back + 1e-6:
        raise Violation('late-return', 'the last task ended %.6g s after the '
                        'call, the call returned %.6g s later (allowed %.3g s)'
                        % (last - t0, t1 - last, back))
    ctx.nontrivial = T is not None and any(v for _, _, v in polls)
    ctx.state(T, tuple((i, v) for _, i, v in polls))


def run(ctx):
    if ctx.ch.chance('level', 1, 4):
        from . import c07app
        c07app.run(ctx, DMAX)
    else:
        run_parallel(ctx)
