"""C12: progress reporting is passive and never fails."""
import ctypes
import io
import os
import sys

from .. import core
from ..core import Violation
from . import app, c04
from . import common as cm


_libc = ctypes.CDLL(None)


def prepare():
    """First use of the library while standard error is redirected."""
    e = sys.stderr
    with open(os.devnull, 'w') as f:
        sys.stderr = f
        try:
            from tnco.app import Optimizer
            Optimizer(method='sa')
            Optimizer(method='sa', max_width=4)
            c04.prepare()
        finally:
            sys.stderr = e


def task(plan, *, idx, status, stop, **bufs):
    """A task reporting its progress in any fashion (or not at all)."""
    s = core.current()
    acc = plan['id']
    for k, (dur, rep, back) in enumerate(plan['script']):
        if dur:
            s.sleep(dur, 'task.work')
        else:
            s.yield_('task.work')
        if plan['poll'] and stop[idx]:
            break
        acc = (acc * 31 + k) % 10007
        if rep is not None:
            status[idx] = rep
        for b in bufs.values():
            b[idx] = back
    s.event('end', idx)
    return (idx, acc)


class Out(io.TextIOBase):
    """Stands for a terminal or pipe; records what is written."""

    def __init__(self):
        self.data = []

    def writable(self):
        return True

    def write(self, x):
        self.data.append(x)
        return len(x)

    def flush(self):
        pass

    def isatty(self):
        return False


def capture(fn):
    o, e = sys.stdout, sys.stderr
    out, err = Out(), Out()
    # what bypasses the objects of sys: compiled code, sys.__stdout__
    low = os.memfd_create('stdout')
    sys.__stdout__.flush()
    keep = os.dup(1)
    os.dup2(low, 1)
    sys.stdout, sys.stderr = out, err
    try:
        r = fn()
    finally:
        sys.stdout, sys.stderr = o, e
        sys.__stdout__.flush()
        _libc.fflush(None)
        os.dup2(keep, 1)
        os.close(keep)
        rest = os.pread(low, 1 << 20, 0).decode('utf-8', 'replace')
        os.close(low)
    return r, ''.join(out.data) + rest, ''.join(err.data)


def run(ctx):
    import tnco.parallel as tp
    ch = ctx.ch
    level = ch.weighted('level', [('parallel', 6), ('app', 2),
                                  ('library', 1)])
    prof = ctx.profile()
    verbose = ch.pick('verbose', [2, 3, 1, 4, 2])
    n_jobs = ch.pick('n_jobs', cm.N_JOBS)
    timeout = ch.pick('timeout', [None, None, None, 0.0, 0.3, 2.0, 100.0])
    missing = ch.chance('no-joblib', 1, 8)
    failing = level == 'parallel' and ch.chance('failing', 1, 6)
    if level == 'parallel':
        n = ch.int('n', 1, 7)
        if ch.chance('many', 1, 40):
            n = ch.pick('n-many', [30, 17, 60])
            ctx.probe('many-tasks')
        polls = timeout is None or ch.chance('polls', 1, 2)
        vals = [0.5, None, 0.0, 0.1, 0.9, 1.0, 2.0, -1.0, float('nan'),
                float('inf'), 1e-6]
        plans = []
        for i in range(n):
            quiet = ch.chance('quiet', 1, 4)
            plans.append(dict(
                id=i, poll=polls and ch.chance('poll', 3, 4), script=[
                    (ch.pick('dur', [0, 1e-3, 0.1, 0.7]),
                     None if quiet else ch.pick('rep', vals),
                     ch.pick('buf', [1, 0, 3])) for _ in range(
                         ch.int('len', 0, 5))]))
        bufs = [b for b in cm.draw_buffers(ch)]
        refresh = ch.pick('refresh', [None, 0.5, 5, 10, 1])
        leave = ch.chance('leave', 1, 4)
        text = ''.join('[red]%s={task.fields[%s]:1.2f}' % (b, b)
                       for b, _ in bufs[:1])
        deterministic = timeout is None or not any(p['poll'] for p in plans)
        if failing:
            f = ch.draw('failer', n)

        def target(v):
            def go():
                if failing:
                    return tp.Parallel(
                        cm.body, [dict(id=i, steps=3, poll=False, dur=0.1,
                                       recheck=False, report=1, status0=1,
                                       fail_at=1 if i == f else None)
                                  for i in range(n)], [None] * n,
                        n_jobs=n_jobs, verbose=v, timeout=timeout,
                        refresh_per_second=refresh, leave=leave, text=text,
                        buffers=bufs)
                return tp.Parallel(task, plans, n_jobs=n_jobs, verbose=v,
                                   timeout=timeout, refresh_per_second=refresh,
                                   leave=leave, buffers=bufs, text=text)
            return go
    elif level == 'library':
        # loading, path generation, fusing, sampling ... with ``verbose``
        spec = c04.draw(ctx, [('load', 3), ('circuit', 3), ('fuse', 2),
                              ('path', 3), ('sampler', 3), ('random', 1)])
        deterministic, verbose = True, ch.pick('verb', [1, 2, 3, 6, 7, 10])
        if spec['kind'] == 'sampler':
            spec['calls'] = spec['calls'][:2]

        def target(v):
            return lambda: c04.WORK[spec['kind']](spec, dict(
                n_jobs=n_jobs, verbose=v, extra={}))
    else:
        net, tn = app.net_and_tn(ch, max_tensors=7)
        ctor, opt = app.draw_opts(ch, net, steps=(1, 8), runs=(1, 4))
        ctor['n_jobs'] = n_jobs
        if timeout is not None:
            opt['timeout'] = timeout
        deterministic = timeout in (None, 100.0)

        def target(v):
            def go():
                t, r = app.optimize(tn, dict(ctor, verbose=v), opt)
                return app.result_key(t, r)
            return go
    ctx.note('level', level, 'verbose', verbose, 'n_jobs', n_jobs, 'timeout',
             timeout, 'failing', failing)
    res = []
    for v in (0, verbose):
        times = {}

        def main():
            s = core.current()
            try:
                r = capture(target(v))
            except cm.TaskError as e:
                r = (('raised', repr(e)), '', '')
            times['end'] = s.now
            times['left'] = cm.leftovers(s)
            return r

        def setup(s):
            s.no_slow = True

        s, r = ctx.sim(main, profile=prof, joblib_missing=missing, setup=setup)
        cm.check_unhandled(s, 'progress-thread-failed')
        if r[1]:
            raise Violation('stdout-written', 'verbosity %d writes %r on the '
                            'standard output' % (v, r[1][:200]))
        if v == 0 and r[2]:
            raise Violation('not-silent', 'verbosity 0 writes %r on the '
                            'standard error' % (r[2][:200],))
        if times['left']:
            raise Violation('progress-left', '; '.join(times['left']))
        res.append(r[0])
        if v >= 2 or (v and level == 'library'):
            ctx.nontrivial = True
            if r[2]:
                ctx.probe('progress-shown')
        ctx.state(level, v, tuple(e[3] for e in s.log if e[2] == 'end'))
    if deterministic and res[0] != res[1]:
        raise Violation('result-changed', 'verbosity 0 gives %r, verbosity %d '
                        'gives %r' % (res[0], verbose, res[1]))
