"""Simulated joblib: the loky backend as simulated processes.

Tasks are dispatched lazily in batches, each batch is pickled (cloudpickle)
into a worker, results and exceptions are pickled back; a failing task aborts
the call and terminates the other workers; a dying worker raises
TerminatedWorkerError.  Only used inside a simulation.
"""
import pickle
import sys
import types

import cloudpickle

from . import core

N_CPUS = 8


class TerminatedWorkerError(RuntimeError):
    pass


_configs = {}  # per thread, as in joblib


def _stack():
    s = core.active()
    return _configs.setdefault(s.running.idx if s else -1, [])


class parallel_config:

    def __init__(self, backend=None, *, n_jobs=None, verbose=0, **kw):
        self._cfg = dict(backend=backend, n_jobs=n_jobs, verbose=verbose)
        _stack().append(self._cfg)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.unregister()

    def unregister(self):
        if self._cfg in _stack():
            _stack().remove(self._cfg)


class parallel_backend(parallel_config):

    def __init__(self, backend, n_jobs=-1, **kw):
        super().__init__(backend, n_jobs=n_jobs)


def delayed(f):

    def wrapper(*a, **k):
        return f, a, k

    return wrapper


def cpu_count(only_physical_cores=False):
    return N_CPUS


def effective_n_jobs(n_jobs=-1):
    if n_jobs == 0:
        raise ValueError('n_jobs == 0 in Parallel has no meaning')
    if n_jobs is None:
        return 1
    if n_jobs < 0:
        return max(N_CPUS + 1 + n_jobs, 1)
    return n_jobs


class Parallel:

    def __init__(self, n_jobs=None, backend=None, return_as='list', verbose=0,
                 timeout=None, pre_dispatch='2 * n_jobs', batch_size='auto',
                 **kw):
        cfg = _stack()[-1] if _stack() else {}
        self.n_jobs = n_jobs if n_jobs is not None else cfg.get('n_jobs')
        self.backend = backend or cfg.get('backend') or 'loky'
        self.batch_size = batch_size
        self.return_as = return_as
        self.pre_dispatch = pre_dispatch
        self.verbose = verbose or cfg.get('verbose') or 0
        if self.n_jobs is None:
            self.n_jobs = 1
        effective_n_jobs(self.n_jobs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __call__(self, iterable):
        s = core.active()
        if s is None:
            raise RuntimeError('joblib used outside a simulation')
        s.yield_('joblib.call')
        n = effective_n_jobs(self.n_jobs)
        it = iter(iterable)
        if n == 1 or self.backend == 'sequential':
            s.count('joblib-sequential')
            res = []
            for f, a, k in it:
                s.yield_('joblib.seq')
                res.append(f(*a, **k))
        else:
            res = self._run(s, it, n)
        if self.return_as == 'generator_unordered':
            res = [res[i] for i in getattr(self, '_order', range(len(res)))]
        # joblib reports on the standard output if it is very verbose
        if self.verbose > 0:
            print('[Parallel(n_jobs=%d)]: Done %d out of %d | elapsed: 0.0s '
                  'finished' % (n, len(res), len(res)), file=sys.stderr if
                  self.verbose < 50 else sys.stdout)
        if self.return_as != 'list':
            return iter(res)
        return res

    def _run(self, s, it, n):
        n = min(n, 64)
        results = {}
        self._order = []  # of completion
        state = dict(next=0, exhausted=False, error=None)
        queue = []  # dispatched batches not taken yet
        inprocess = self.backend == 'threading'
        key = ('joblib', id(state))
        workers = []
        max_batch = s.ch.int('joblib.max_batch', 1, 3)

        def dispatch():
            """Take one batch from the iterator and pickle it."""
            size = self.batch_size if isinstance(self.batch_size, int) else \
                s.ch.int('joblib.batch', 1, max_batch)
            batch = []
            for _ in range(size):
                try:
                    batch.append(next(it))
                except StopIteration:
                    state['exhausted'] = True
                    break
            if not batch:
                return False
            start = state['next']
            state['next'] += len(batch)
            payload = batch if inprocess else cloudpickle.dumps(batch)
            queue.append((start, len(batch), payload))
            s.count('batches')
            return True

        def worker_main():
            me = s.running
            while True:
                while not queue:
                    if state.get('closed'):
                        return
                    s.block(key + ('w',), None, 'worker.idle')
                s.yield_('worker.take')
                if not queue:
                    continue
                start, m, payload = queue.pop(0)
                me_state[me.idx] = (start, m)
                batch = payload if inprocess else pickle.loads(payload)
                out = []
                try:
                    for f, a, k in batch:
                        s.yield_('task.start')
                        out.append(f(*a, **k))
                    out = (True, out if inprocess else pickle.loads(
                        cloudpickle.dumps(out)))
                except Exception as e:
                    try:
                        out = (False, e if inprocess else pickle.loads(
                            cloudpickle.dumps(e)))
                    except Exception as e2:
                        out = (False, RuntimeError('unpicklable %r' % (e2,)))
                except BaseException as e:
                    if isinstance(e, core.SimKilled):
                        raise
                    out = (False, e)
                s.yield_('task.done')
                me_state.pop(me.idx, None)
                if out[0]:
                    for i, r in enumerate(out[1]):
                        results[start + i] = r
                        self._order.append(start + i)
                elif state['error'] is None:
                    state['error'] = out[1]
                s.notify(key)

        me_state = {}
        deaths = getattr(s, 'worker_deaths', None)
        n_started = min(n, 16)
        pre = float('inf') if self.pre_dispatch == 'all' else \
            self.pre_dispatch if isinstance(self.pre_dispatch, int) else 2 * n
        s.interrupt_window += 1
        try:
            # dispatch the first batches, then start the workers
            while len(queue) < pre and dispatch():
                s.yield_('joblib.dispatch')
            for w in range(min(n_started, max(1, len(queue)))):
                t = s.spawn('worker%d' % w, worker_main, proc=s.new_proc())
                if not getattr(s, 'no_slow', False) and \
                        s.ch.chance('slow-worker', 1, 6):
                    t.slow = s.ch.pick('slow-factor', [3, 30, 300])
                    s.count('fault:slow-worker')
                workers.append(t)
            if deaths:
                for delay, w in deaths:
                    t = workers[w % len(workers)]

                    def die(t=t):
                        if not t.done and not t.killed and \
                                not state.get('finished'):
                            s.count('fault:worker-crash')
                            t.killed = True
                            t.token += 1
                            s.push(s.now, t)
                            if state['error'] is None:
                                state['error'] = TerminatedWorkerError(
                                    'A worker process managed by the executor '
                                    'was unexpectedly terminated.')
                            s.notify(key)

                    s.push_call(s.now + delay, die)
            while True:
                if state['error'] is not None:
                    raise state['error']
                # keep the pipeline full
                if not state['exhausted'] and len(queue) < pre:
                    if dispatch():
                        s.notify(key + ('w',))
                    continue
                if state['exhausted'] and len(results) == state['next']:
                    break
                s.block(key, None, 'joblib.wait')
            state['finished'] = True
            return [results[i] for i in range(state['next'])]
        finally:
            state['closed'] = True
            s.interrupt_window -= 1
            if not state.get('finished'):
                for t in workers:
                    if not t.done:
                        t.killed = True
                        t.token += 1
                        s.push(s.now, t)
            else:
                s.notify(key + ('w',))


def make_module():
    m = types.ModuleType('joblib')
    for o in (Parallel, delayed, parallel_config, parallel_backend, cpu_count,
              effective_n_jobs):
        setattr(m, o.__name__, o)
    m.__version__ = '0-simulated'
    m.__spec__ = types.SimpleNamespace(name='joblib', origin='simulated',
                                       submodule_search_locations=None)
    return m


def install(missing=False):
    sys.modules['joblib'] = None if missing else make_module()


def reset():
    _configs.clear()
