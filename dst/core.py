"""Deterministic discrete-event simulator for threads, processes, clocks,
shared memory and interrupts.

Every simulated thread or process is a real Python thread which only runs
while it holds the baton; at each seam (lock, event, sleep, shared-memory
access, worker dispatch, file operation, ...) the running task puts itself in
the queue with a drawn delay and passes the baton to the earliest event.
"""
import _thread
import collections
import heapq
import random as _random_mod
import threading as _threading
import time as _time
import zlib

REAL = dict(
    Thread=_threading.Thread,
    Timer=_threading.Timer,
    Event=_threading.Event,
    Lock=_threading.Lock,
    RLock=_threading.RLock,
    Condition=_threading.Condition,
    Semaphore=_threading.Semaphore,
    sleep=_time.sleep,
    time=_time.time,
    monotonic=_time.monotonic,
    perf_counter=_time.perf_counter,
    Random=_random_mod.Random,
)


class SimKilled(BaseException):
    """Raised inside a simulated task which has been killed."""


class SimStuck(BaseException):
    """Raised in the main task when the simulated system makes no progress."""


class Violation(Exception):
    """A property does not hold in this run."""

    def __init__(self, kind, msg):
        super().__init__(kind, msg)
        self.kind = kind
        self.msg = msg

    def __str__(self):
        return '[%s] %s' % (self.kind, self.msg)


_current = None  # active simulation


def current():
    return _current


def active():
    """The active simulation, if the calling thread is one of its tasks."""
    s = _current
    if s is not None and s.running is not None and \
            s.running.ident == _thread.get_ident():
        return s
    return None


class Task:
    __slots__ = ('idx', 'name', 'fn', 'lock', 'token', 'killed', 'pending',
                 'done', 'exc', 'result', 'proc', 'daemon', 'ident', 'dead',
                 'slow', 'block_key', 'tb', 'is_main')

    def __init__(self, idx, name, fn, proc, daemon):
        self.idx, self.name, self.fn = idx, name, fn
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.token = 0
        self.killed = False
        self.pending = None
        self.done = False
        self.exc = None
        self.tb = None
        self.result = None
        self.proc = proc
        self.daemon = daemon
        self.ident = None
        self.dead = False
        self.slow = 0
        self.block_key = None
        self.is_main = False


# Delay tables (seconds): index 0 is the simplest one
PROFILES = {
    'fifo': [1e-6],
    'calm': [1e-6] * 8 + [1e-5] * 4 + [1e-4, 3e-4, 1e-3, 2e-3],
    'wild': [1e-6, 3e-6, 1e-5, 3e-5, 1e-4, 3e-4, 1e-3, 3e-3, 1e-2, 3e-2, 0.1,
             0.3, 1e-6, 1e-5, 1e-4, 1e-3],
    'burst': [1e-6] * 14 + [0.05, 0.5],
}
MAX_DELAY = 0.5
HORIZON = 1e8


class Sim:

    def __init__(self, ch, *, profile=None, max_steps=60_000, start=1000.0,
                 trace=False):
        self.ch = ch
        self.profile = PROFILES[profile or 'fifo']
        self.profile_name = profile or 'fifo'
        self.max_steps = max_steps
        self.now = 0.0
        self.mono0 = start
        self.wall_off = 1.7e9
        self.steps = 0
        self.seq = 0
        self.heap = []
        self.tasks = []
        self.running = None
        self.main = None
        self.ctl = _thread.allocate_lock()
        self.ctl.acquire()
        self.blocked = collections.defaultdict(list)
        self.digest = 0
        self.trace = [] if trace else None
        self.log = []
        self.counters = collections.Counter()
        self.aborting = False
        self.stuck = None
        self.shm = {}
        self.shm_seq = 0
        self.handles = 0
        self.thread_objs = []
        self.proc_seq = 0
        self.unhandled = []
        self.shm_fault = None
        self.thread_fault = None
        self.interrupt_at = None  # countdown of main yields in the window
        self.interrupt_window = 0
        self.ambient = 0
        self.exhausted = False

    # -- events -----------------------------------------------------------
    def push(self, t, task):
        self.seq += 1
        heapq.heappush(self.heap, (t, self.seq, task, task.token))

    def push_call(self, t, fn):
        self.seq += 1
        heapq.heappush(self.heap, (t, self.seq, None, fn))

    def delay(self):
        p = self.profile
        if len(self.ch.values) >= self.ch.limit:
            # (noticed at the next switch, never where a task ends)
            self.exhausted = True
            d = p[0]
        else:
            d = p[self.ch.draw('delay', len(p))] if len(p) > 1 else p[0]
        t = self.running
        if t is not None and t.slow:
            d *= t.slow
        return d

    def event(self, *what):
        """Record an event in the history."""
        self.log.append((self.now, self.running.idx if self.running else -1) +
                        what)

    def count(self, name, n=1):
        self.counters[name] += n

    # -- task management --------------------------------------------------
    def spawn(self, name, fn, proc=None, daemon=True, thread_starter=None):
        cur = self.running
        t = Task(len(self.tasks), name, fn,
                 proc if proc is not None else (cur.proc if cur else 0),
                 daemon)
        self.tasks.append(t)
        self.push(self.now + (self.delay() if cur else 0), t)
        if thread_starter is None:
            _thread.start_new_thread(self._bootstrap, (t,))
        else:
            thread_starter(lambda: self._bootstrap(t))
        return t

    def _bootstrap(self, t):
        t.lock.acquire()
        t.ident = _thread.get_ident()
        try:
            if not t.killed:
                t.result = t.fn()
        except SimKilled:
            pass
        except SystemExit:
            pass
        except BaseException as e:  # noqa
            t.exc = e
            if not t.is_main:
                self.unhandled.append((t, e))
        finally:
            t.done = True
            t.dead = True
            if t.is_main:
                self.running = None
                self.ctl.release()
            elif self.aborting:
                self.running = None
                self.ctl.release()
            else:
                self.notify(('task', t.idx))
                self._dispatch(None)

    def _next(self):
        """Pop the next valid event; returns a task or None if stuck."""
        while self.heap:
            t, _, task, tok = heapq.heappop(self.heap)
            if task is None:
                if t > self.now:
                    if t > self.now + HORIZON:
                        return None
                    self.now = t
                tok()
                continue
            if task.done or task.token != tok:
                continue
            if t > self.now:
                if t > self.now + HORIZON:
                    return None
                self.now = t
            return task
        return None

    def _dispatch(self, me):
        """Give the baton to the next task; returns when ``me`` has it back."""
        nxt = self._next()
        if nxt is None:
            # Nothing can ever run again (before the horizon)
            self.stuck = self.stuck or 'deadlock'
            nxt = self.main
        if nxt is me:
            self.running = me
            me.token += 1
            return
        nxt.token += 1
        self.running = nxt
        nxt.lock.release()
        if me is not None:
            me.lock.acquire()
            self.running = me

    def _after(self, t, label):
        """Checks made each time a task gets the baton back."""
        if t.block_key is not None:
            try:
                self.blocked[t.block_key].remove(t)
            except ValueError:
                pass
            t.block_key = None
        if t.killed:
            raise SimKilled()
        if self.stuck and t.is_main:
            raise SimStuck(self.stuck)
        if t.pending is not None:
            e, t.pending = t.pending, None
            raise e
        self.digest = zlib.crc32(b'%d:%s' % (t.idx, label.encode()),
                                 self.digest)
        if self.trace is not None:
            self.trace.append((round(self.now, 6), t.name, label))

    def _enter(self):
        t = self.running
        if t.killed:
            raise SimKilled()
        self.steps += 1
        if (self.steps > self.max_steps or self.exhausted) and \
                not self.stuck:
            self.stuck = 'no progress within %d steps' % self.steps
            if not t.is_main:
                # hand over to main for good
                self.main.token += 1
                m = self.main
                self.running = m
                m.lock.release()
                t.lock.acquire()
                raise SimKilled()
            raise SimStuck(self.stuck)
        if self.stuck and t.is_main:
            raise SimStuck(self.stuck)
        return t

    def _maybe_interrupt(self, t):
        if t.is_main and self.interrupt_at is not None and \
                self.interrupt_window:
            if self.interrupt_at <= 0:
                self.interrupt_at = None
                self.count('fault:keyboard-interrupt')
                raise KeyboardInterrupt()
            self.interrupt_at -= 1

    def yield_(self, label):
        t = self._enter()
        self._maybe_interrupt(t)
        self.push(self.now + self.delay(), t)
        self._dispatch(t)
        self._after(t, label)

    def sleep(self, dt, label='sleep'):
        t = self._enter()
        self._maybe_interrupt(t)
        self.push(self.now + max(0.0, dt) + self.delay(), t)
        self._dispatch(t)
        self._after(t, label)

    def block(self, key, timeout=None, label='block'):
        """Wait for notify(key), or for the timeout."""
        t = self._enter()
        self._maybe_interrupt(t)
        t.block_key = key
        self.blocked[key].append(t)
        if timeout is not None:
            self.push(self.now + max(0.0, timeout) + self.delay(), t)
        self._dispatch(t)
        self._after(t, label)

    def notify(self, key):
        for t in list(self.blocked.get(key, ())):
            self.push(self.now + self.delay(), t)
        self.blocked.pop(key, None)

    def wake_with(self, t, exc):
        """Deliver an exception to a task at its next (or current) wait."""
        if t.done:
            return
        t.pending = exc
        self.push(self.now, t)

    def schedule_interrupt(self, dt):
        """KeyboardInterrupt in the main task at a simulated instant, if it is
        executing or awaiting tasks at that moment."""

        def fire():
            if self.interrupt_window and not self.main.done:
                self.count("fault:keyboard-interrupt")
                self.wake_with(self.main, KeyboardInterrupt())

        self.push_call(self.now + dt, fire)

    def kill(self, t):
        if t.done or t.killed:
            return
        t.killed = True
        if t is self.running:
            raise SimKilled()
        t.token += 1
        self.push(self.now, t)

    def alive(self, t):
        return not t.done

    def new_proc(self):
        self.proc_seq += 1
        return self.proc_seq

    # -- run --------------------------------------------------------------
    def run(self, fn):
        """Run ``fn`` as the main task until it ends; kill what is left."""
        global _current
        if _current is not None:
            raise RuntimeError('a simulation is already active')
        _current = self
        try:
            m = self.main = Task(0, 'main', fn, 0, False)
            m.is_main = True
            self.tasks.append(m)
            self.push(0.0, m)
            _thread.start_new_thread(self._bootstrap, (m,))
            t = self._next()
            t.token += 1
            self.running = t
            t.lock.release()
            self.ctl.acquire()
            # Kill everything which is left, one task at a time
            self.aborting = True
            for t in self.tasks:
                n = 0
                while not t.done:
                    t.killed = True
                    t.token += 1
                    self.running = t
                    t.lock.release()
                    self.ctl.acquire()
                    n += 1
                    if n > 50:
                        raise RuntimeError('task %s cannot be killed' % t.name)
        finally:
            self.running = None
            _current = None
        if m.exc is not None:
            raise m.exc
        return m.result

    # clocks
    def monotonic(self):
        return self.mono0 + self.now

    def wall(self):
        return self.wall_off + self.now


# ------------------------------------------------------------------ seams
def _sim_sleep(dt):
    s = active()
    if s is None:
        return REAL['sleep'](dt)
    if dt < 0:
        raise ValueError('sleep length must be non-negative')
    s.sleep(dt)


def _clock(name, kind, ns=False):
    real = getattr(_time, name)

    def f():
        s = active()
        if s is None:
            return real()
        v = s.wall() if kind == 'wall' else s.monotonic()
        return int(v * 1e9) if ns else v

    f.__name__ = f.__qualname__ = name
    f.__module__ = 'time'
    return f


class SimEvent(REAL['Event']):

    def wait(self, timeout=None):
        s = active()
        if s is None:
            return super().wait(timeout)
        if timeout is not None and timeout > _threading.TIMEOUT_MAX:
            raise OverflowError('timestamp too large to convert to C _PyTime_t')
        s.yield_('event.wait')
        deadline = None if timeout is None else s.now + timeout
        while not self._flag:
            left = None if deadline is None else deadline - s.now
            if left is not None and left <= 0:
                break
            s.block(('event', id(self)), left, 'event.block')
        return self._flag

    def set(self):
        s = active()
        if s is None:
            return super().set()
        self._flag = True
        s.notify(('event', id(self)))

    def clear(self):
        s = active()
        if s is None:
            return super().clear()
        self._flag = False


class SimThread(REAL['Thread']):
    _sim_task = None
    _sim = None

    def __init__(self, *a, daemon=None, **k):
        if not isinstance(self, SimThread):
            # ``threading._DummyThread``, for a thread it does not know
            REAL['Thread'].__init__(self, *a, daemon=daemon, **k)
            return
        s = active()
        if daemon is None and s is not None:
            # inherited; the simulated main thread stands for the real one
            daemon = not s.running.is_main and bool(s.running.daemon)
        super().__init__(*a, daemon=daemon, **k)

    def start(self):
        s = active()
        if s is None:
            return super().start()
        if self._sim_task is not None:
            raise RuntimeError('threads can only be started once')
        s.yield_('thread.start')
        if s.thread_fault is not None:
            s.thread_fault(s)
        self._sim = s
        s.thread_objs.append(self)
        s.count('threads')
        self._sim_task = s.spawn(
            'thread-%s' % (self._sim_kind()),
            self._sim_run, daemon=self.daemon,
            thread_starter=self._sim_starter)

    def _sim_kind(self):
        return '%s-%d' % (type(self).__name__, len(self._sim.thread_objs))

    def _sim_starter(self, body):
        _thread.start_new_thread(body, ())

    def _sim_run(self):
        self.run()

    def join(self, timeout=None):
        s = active()
        if self._sim_task is None or s is None or s is not self._sim:
            return super().join(timeout)
        if self._sim_task is s.running:
            raise RuntimeError('cannot join current thread')
        s.yield_('thread.join')
        deadline = None if timeout is None else s.now + max(0, timeout)
        while not self._sim_task.done:
            left = None if deadline is None else deadline - s.now
            if left is not None and left <= 0:
                return
            s.block(('task', self._sim_task.idx), left, 'join.block')

    def is_alive(self):
        if self._sim_task is None:
            return super().is_alive()
        return not self._sim_task.done


class SimTimer(SimThread):

    def __init__(self, interval, function, args=None, kwargs=None):
        SimThread.__init__(self)
        self.interval = interval
        self.function = function
        self.args = args if args is not None else []
        self.kwargs = kwargs if kwargs is not None else {}
        self.finished = SimEvent()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            s = active()
            if s is not None:
                s.count('timer-fired')
            self.function(*self.args, **self.kwargs)
        self.finished.set()


class _SimLock:
    _factory = None
    _reentrant = False

    def __init__(self):
        self._l = self._factory()

    def acquire(self, blocking=True, timeout=-1):
        s = active()
        if s is None:
            return self._l.acquire(blocking, timeout)
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else s.now + timeout
        while not self._l.acquire(False):
            if deadline is not None and s.now >= deadline:
                return False
            s.block(('lock', id(self)),
                    None if deadline is None else deadline - s.now, 'lock')
        return True

    def release(self):
        self._l.release()
        s = active()
        if s is not None:
            s.notify(('lock', id(self)))

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, k):
        return getattr(self.__dict__['_l'], k)


class SimLock(_SimLock):
    _factory = staticmethod(REAL['Lock'])


class SimRLock(_SimLock):
    _factory = staticmethod(REAL['RLock'])


class SimRandom(REAL['Random']):
    """``random.Random`` whose operating-system entropy comes from the
    simulation and whose stream can be dictated by a policy."""

    _sim_policy = None

    def __new__(cls, *a, **k):
        return super().__new__(cls)

    def __init__(self, x=None):
        s = active()
        if s is not None:
            if x is None:
                s.count('entropy-reads')
                x = s.ch.draw('entropy', 2**32) ^ s.ambient
            if s_policy := getattr(s, 'rng_policy', None):
                self._sim_policy = s_policy(self)
        super().__init__(x)

    def seed(self, a=None, version=2):
        if a is None:
            s = active()
            if s is not None:
                s.count('entropy-reads')
                a = s.ch.draw('entropy', 2**32) ^ s.ambient
        super().seed(a, version)

    def random(self):
        p = self._sim_policy
        return super().random() if p is None else p.random()

    def getrandbits(self, k):
        p = self._sim_policy
        return super().getrandbits(k) if p is None else p.below(1 << k)

    def _randbelow(self, n):
        p = self._sim_policy
        if p is not None:
            return p.below(n)
        # same algorithm as random.Random._randbelow_with_getrandbits
        k = n.bit_length()
        gb = super().getrandbits
        r = gb(k)
        while r >= n:
            r = gb(k)
        return r


class SimSharedMemory:
    """Stand-in for multiprocessing.shared_memory.SharedMemory."""

    def __init__(self, name=None, create=False, size=0, *, track=True):
        s = active()
        if s is None:
            raise RuntimeError('shared memory used outside a simulation')
        if not size >= 0:
            raise ValueError("'size' must be a positive integer")
        if create and size == 0:
            raise ValueError("'size' must be a positive number different "
                             "from zero")
        s.yield_('shm.create' if create else 'shm.attach')
        if s.shm_fault is not None:
            s.shm_fault(s, create)
        if create:
            if name is None:
                s.shm_seq += 1
                name = 'psm_sim%d' % s.shm_seq
            if name in s.shm:
                raise FileExistsError(17, 'File exists', '/' + name)
            s.shm[name] = bytearray(size)
            s.count('shm-created')
        elif name not in s.shm:
            raise FileNotFoundError(2, 'No such file or directory', '/' + name)
        self._sim = s
        self._data = s.shm[name]
        self._name = name
        self._closed = False
        s.handles += 1

    def __reduce__(self):
        return SimSharedMemory, (self._name, False, len(self._data))

    @property
    def name(self):
        return self._name

    @property
    def size(self):
        return len(self._data)

    @property
    def buf(self):
        s = active()
        if self._closed:
            return None
        if s is not None:
            s.yield_('shm.access')
        return memoryview(self._data)

    def close(self):
        self._closed = True

    def unlink(self):
        s = active()
        if s is not None:
            s.yield_('shm.unlink')
        s = self._sim
        if self._name not in s.shm:
            raise FileNotFoundError(2, 'No such file or directory',
                                    '/' + self._name)
        del s.shm[self._name]
        s.count('shm-unlinked')


def install():
    """Install the seams; must run before the code under test is imported."""
    _time.sleep = _sim_sleep
    for n, kind, ns in (('time', 'wall', False), ('time_ns', 'wall', True),
                        ('monotonic', 'mono', False),
                        ('monotonic_ns', 'mono', True),
                        ('perf_counter', 'mono', False),
                        ('perf_counter_ns', 'mono', True),
                        ('process_time', 'mono', False)):
        setattr(_time, n, _clock(n, kind, ns))
    _threading.Thread = SimThread
    _threading.Timer = SimTimer
    _threading.Event = SimEvent
    _threading.Lock = SimLock
    _threading.RLock = SimRLock
    # what threading.Condition (hence Semaphore, Barrier) waits on
    _threading._allocate_lock = SimLock
    _random_mod.Random = SimRandom
    import multiprocessing.shared_memory as sm
    sm.SharedMemory = SimSharedMemory
