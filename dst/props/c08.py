"""C08: no resource outlives a call, even a failed one."""
import errno
import struct

from .. import core
from ..core import SimThread, Violation
from . import app
from . import common as cm


def run(ctx):
    import tnco.parallel as tp
    ch = ctx.ch
    level = ch.weighted('level', [('parallel', 3), ('app', 1)])
    prof = ctx.profile()
    modes = [('clean', 1), ('fail', 3), ('death', 2), ('interrupt', 3),
             ('interrupt-at', 2), ('shm', 3), ('thread', 1), ('buffer', 1)]
    if level == 'app':
        modes = [m for m in modes if m[0] not in ('fail', 'buffer')]
    mode = ch.weighted('mode', modes)
    ncalls = ch.int('calls', 1, 2)
    missing = ch.chance('no-joblib', 1, 8)
    verbose = ch.pick('verbose', [0, 2, 3, 1])
    n_jobs = ch.pick('n_jobs', cm.N_JOBS)
    timeout = ch.pick('timeout', [None, 50.0, None, 0.05])
    refresh = ch.pick('refresh', [None, 5, 2])
    fault = dict(fired=False)
    deaths = []
    if mode == 'death':
        deaths = [(ch.pick('death-at', [1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1,
                                        1.0]), ch.draw('who', 4))]
    when = ch.pick('when', [1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.5, 2.0])
    steps_in = ch.int('steps-in', 0, 25)
    shm_k = ch.int('shm-k', 1, 6)
    shm_err = ch.pick('shm-err', [errno.ENOSPC, errno.EMFILE, errno.ENOMEM])
    attach = ch.chance('attach', 1, 4)
    thr_k = ch.int('thr-k', 1, 2)

    if level == 'parallel':
        n = ch.int('n', 1, 6)
        bufs = cm.draw_buffers(ch)
        plans = [cm.draw_plan(ch, i, fail=False) for i in range(n)]
        if mode == 'buffer':
            # a type which zeros cannot initialize, or which is not a type
            bufs = list(bufs)
            bufs.insert(ch.draw('bad-at', len(bufs) + 1),
                        ('bad', ch.pick('bad', ['s', 'p', 'c', 'x', '', 'ii',
                                                '%', 'e!'])))
        if mode == 'fail':
            p = plans[ch.draw('failer', n)]
            p['steps'] = max(1, p['steps'])
            p['fail_at'] = ch.draw('fail-at', p['steps'])
            p['poll'] = False

        def call():
            return tp.Parallel(cm.body, plans, [None] * n, n_jobs=n_jobs,
                               verbose=verbose, timeout=timeout,
                               refresh_per_second=refresh, buffers=bufs)
    else:
        net, tn = app.net_and_tn(ch, max_tensors=6)
        ctor, opt = app.draw_opts(ch, net, steps=(1, 6), runs=(1, 3))
        ctor.update(n_jobs=n_jobs, verbose=verbose)
        if timeout is not None:
            opt['timeout'] = timeout

        def call():
            return app.optimize(tn, ctor, opt)

    ctx.note('level', level, 'mode', mode, 'n_jobs', n_jobs, 'verbose',
             verbose, 'timeout', timeout, 'no joblib', missing)
    outcome = []

    def setup(s):
        s.worker_deaths = deaths
        if mode == 'shm':
            cnt = [0]

            def f(s, create):
                # attaching happens in the workers when arguments are received
                if create and not attach:
                    cnt[0] += 1
                    if cnt[0] == shm_k:
                        s.count('fault:shm-allocation')
                        fault['fired'] = True
                        raise OSError(shm_err, 'injected')

            s.shm_fault = f
        if mode == 'thread':
            cnt2 = [0]

            def g(s):
                cnt2[0] += 1
                if cnt2[0] == thr_k:
                    s.count('fault:thread-start')
                    fault['fired'] = True
                    raise RuntimeError("can't start new thread")

            s.thread_fault = g

    def main():
        s = core.current()
        if mode == 'interrupt':
            s.schedule_interrupt(when)
        elif mode == 'interrupt-at':
            s.interrupt_at = steps_in
        for c in range(ncalls):
            try:
                r = call()
                outcome.append(('ok', None))
            except (Exception, KeyboardInterrupt) as e:
                if isinstance(e, Violation):
                    raise
                outcome.append(('err', e))
            e = None
            s.interrupt_at = None
            left = cm.leftovers(s)
            if left:
                raise Violation(
                    'leak:' + left[0].split()[0], 'after a call which %s: %s' %
                    ('returned' if outcome[-1][0] == 'ok' else 'raised %r' %
                     (outcome[-1][1],), '; '.join(left)))

    s, _ = ctx.sim(main, profile=prof, setup=setup, joblib_missing=missing)
    for kind, e in outcome:
        if kind == 'ok':
            continue
        ctx.nontrivial = True
        ctx.probe('raised-' + type(e).__name__)
        good = {
            'fail': (cm.TaskError,),
            'death': (RuntimeError,),
            'interrupt': (KeyboardInterrupt,),
            'interrupt-at': (KeyboardInterrupt,),
            'shm': (OSError,),
            'thread': (RuntimeError,),
            'buffer': (ValueError, struct.error),
            'clean': (),
        }[mode]
        if not isinstance(e, good):
            raise Violation('wrong-error', 'the call was ended by %s and '
                            'raised %r' % (mode, e))
        if mode == 'shm' and (e.errno != shm_err or not fault['fired']):
            raise Violation('wrong-error', 'allocation failed with %s, the '
                            'call raised %r' % (errno.errorcode[shm_err], e))
    if mode == 'buffer' and any(k == 'ok' for k, _ in outcome):
        raise Violation('error-swallowed', 'buffers cannot be initialized and '
                        'the call returned')
    if mode == 'shm' and fault['fired'] and all(k == 'ok' for k, _ in outcome):
        raise Violation('error-swallowed', 'allocating shared memory failed '
                        'and every call returned')
    ctx.state(level, mode, verbose, tuple(k for k, _ in outcome),
              [type(e).__name__ for _, e in outcome])
    if any(k == 'ok' for k, _ in outcome):
        ctx.nontrivial = True
