"""Workloads shared by the properties of parallel execution."""
import contextlib
import os
import struct
import sys

from .. import core
from ..core import SimKilled, Violation

N_JOBS = [1, 2, 3, 4, 8, -1, -2, -6, -7, -8, -100, 20]


class TaskError(Exception):
    """Raised by a simulated task."""


class TaskInterrupt(KeyboardInterrupt):
    pass


# What a task raises, and what it returns
ERRORS = dict(own=TaskError, stop=StopIteration, key=KeyError,
              index=IndexError, timeout=TimeoutError, value=ValueError,
              type=TypeError, attr=AttributeError, assertion=AssertionError,
              os=OSError, runtime=RuntimeError, missing=FileNotFoundError,
              imp=ImportError, memory=MemoryError, eof=EOFError)


def returned(plan, idx):
    """What the task returns."""
    r = ('res', plan['id'], idx)
    return {None: r, 'none': None, 'zero': 0, 'false': False, 'empty': '',
            'list': [], 'error': plan['id'] * (1 + 0j), 'dict': {'stop': r},
            'nested': [r, [r]], 'class': TaskError}[plan.get('ret')]


def value_for(dtype, ch, label='val'):
    if dtype in 'fd':
        return float(ch.int(label, 1, 1000)) / 8
    if dtype == '?':
        return True
    if dtype == 'b':
        return ch.int(label, 1, 127)
    return ch.int(label, 1, 10000)


def values_for(dtype, seedval, k):
    """k-th distinct value of a task (deterministic)."""
    v = (seedval * 7919 + k * 104729) % 100 + 1
    if dtype in 'fd':
        return v / 4
    if dtype == '?':
        return bool(v % 2)
    return v


def body(plan, shared, *, idx, status, stop, **bufs):
    """The simulated task: follows ``plan`` (drawn by the workload)."""
    s = core.current()
    me = s.running
    in_main = me.is_main
    if in_main:
        s.interrupt_window += 1
    try:
        s.event('start', plan['id'], idx, me.proc)
        for k in range(plan['steps']):
            if plan['poll'] and stop[idx]:
                s.event('stopped', plan['id'], idx, k)
                break
            if plan['dur']:
                s.sleep(plan['dur'], 'task.work')
            else:
                s.yield_('task.work')
            s.event('step', plan['id'], idx, k)
            for name in bufs:
                b = bufs[name]
                v = values_for(b.dtype, plan['id'], k)
                b[idx] = v
                if plan['recheck']:
                    s.yield_('task.recheck')
                    got = b[idx]
                    s.event('buf', plan['id'], name, v, got)
            if plan['report'] and k % plan['report'] == 0:
                status[idx] = (k + plan['status0']) / max(1, plan['steps'])
            if shared is not None:
                shared[idx] = plan['id'] * 1000 + k
            if plan['fail_at'] == k:
                s.event('raise', plan['id'], idx)
                s.count('fault:task-exception')
                raise ERRORS[plan.get('exc') or 'own']('task', plan['id'])
        s.event('end', plan['id'], idx)
        return returned(plan, idx)
    finally:
        if in_main:
            s.interrupt_window -= 1


def body_pos(plan, *, shared, idx, status, stop, **bufs):
    return body(plan, shared, idx=idx, status=status, stop=stop, **bufs)


def draw_plan(ch, i, *, fail=False, max_steps=5, dur=True):
    return dict(
        id=i, steps=ch.int('steps', 0, max_steps),
        poll=not ch.chance('nopoll', 1, 3),
        dur=ch.pick('dur', [0, 1e-4, 1e-2, 0.1, 0.6]) if dur else 0,
        recheck=ch.chance('recheck', 1, 2),
        report=ch.pick('report', [1, 0, 2]),
        status0=ch.pick('status0', [0, 1]),
        fail_at=ch.int('fail_at', 0, 4) if fail else None)


def draw_buffers(ch):
    n = ch.draw('nbuf', 4)
    return [('buf%d' % i, ch.pick('dtype', ['q', 'f', 'd', 'i', 'b', '?',
                                            'h', 'Q']))
            for i in range(n)]


def leftovers(s, grace=1e-3):
    """Resources still there after the call (run inside the simulation)."""
    out = []
    s.interrupt_window = 0
    s.sleep(grace, 'grace')
    # threads which have been told to finish get the time to do so: a timer
    # wakes up at once, the progress thread after its current refresh
    dt = 1e-3
    for _ in range(14):
        if not any(t.is_alive() for t in s.thread_objs):
            break
        s.sleep(dt, 'grace')
        dt *= 2
    for t in s.thread_objs:
        if t.is_alive():
            out.append('%s thread %s still running' % (
                'daemon' if t.daemon else 'non-daemon',
                type(t).__name__.replace('Sim', '')))
    if s.shm:
        out.append('%d shared memory segment(s) left' % len(s.shm))
    return out


def check_unhandled(s, kind='background-exception'):
    for t, e in s.unhandled:
        if not isinstance(e, SimKilled):
            raise Violation(kind, 'uncaught exception in simulated thread %s:'
                            ' %r' % (t.name, e))


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


@contextlib.contextmanager
def muted():
    """Progress goes to a null terminal."""
    e = sys.stderr
    with open(os.devnull, 'w') as f:
        sys.stderr = f
        try:
            yield
        finally:
            sys.stderr = e
