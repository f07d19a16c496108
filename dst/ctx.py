"""One simulated run of a property: context handed to ``props.cXX.run``."""
import collections
import os
import random
import zlib

from . import core, joblib_stub
from .choice import Choices
from .core import Violation


class Ctx:

    def __init__(self, choices, trace=False):
        self.ch = choices
        self.trace = trace
        self.counters = collections.Counter()
        self.sim_time = 0.0
        self.steps = 0
        self.digest = 0
        self.interleaving = 0
        self.nontrivial = False
        self.notes = []
        self.sims = []
        self.states = set()
        self.nsims = 0
        self.known = ()

    def note(self, *a):
        if len(self.notes) < 200:
            self.notes.append(' '.join(map(str, a))[:1200])

    def finding(self, kind, msg):
        """A violation, unless this very defect is recorded as known."""
        if kind not in self.known:
            raise Violation(kind, msg)
        self.counters['known:' + kind] += 1

    def probe(self, name):
        """A rare condition was reached."""
        self.counters['probe:' + name] += 1

    def state(self, *key):
        self.states.add(zlib.crc32(repr(key).encode()))

    def mix(self, *what):
        self.digest = zlib.crc32(repr(what).encode(), self.digest)

    def profile(self):
        return self.ch.weighted('profile', [('fifo', 1), ('calm', 3),
                                            ('wild', 4), ('burst', 2)])

    def sim(self, fn, *, profile=None, max_steps=400_000, setup=None,
            joblib_missing=False, ambient=0, stuck_kind='no-progress',
            start=1000.0):
        """Run ``fn`` in a fresh simulation; returns (sim, result).

        Exceptions of ``fn`` propagate, a stuck simulation is a violation.
        """
        s = core.Sim(self.ch, profile=profile, max_steps=max_steps,
                     trace=self.trace, start=start)
        s.ambient = ambient
        s.fs = None
        s.rng_policy = None
        s.worker_deaths = None
        random.seed(ambient)
        try:
            import numpy
            numpy.random.seed(ambient % 2**32)
        except ImportError:
            pass
        joblib_stub.reset()
        joblib_stub.install(missing=joblib_missing)
        if setup is not None:
            setup(s)
        self.nsims += 1
        try:
            r = s.run(fn)
            return s, r
        except core.SimStuck as e:
            raise Violation(stuck_kind, 'the simulated system is stuck: %s' %
                            (e,)) from None
        finally:
            self.counters.update(s.counters)
            self.sim_time += min(s.now, 1e7)
            self.steps += s.steps
            self.interleaving = zlib.crc32(b'%d' % s.digest, self.interleaving)
            self.digest = zlib.crc32(
                repr((s.digest, round(s.now, 9), s.steps, s.log)).encode(),
                self.digest)
            if self.trace:
                self.sims.append(s)
            if s.fs is not None:
                s.fs.cleanup()
            joblib_stub.install()


def _under_test(e):
    """The innermost frame of the code under test in a traceback, if any."""
    import traceback
    from . import build
    root = os.path.abspath(build.REPO) + os.sep
    r = None
    while e is not None:
        for f in traceback.extract_tb(e.__traceback__):
            if os.path.abspath(f.filename).startswith(root):
                r = '%s in %s' % (os.path.relpath(f.filename, root), f.name)
        e = e.__cause__
    return r


def execute(prop, seed=None, replay=None, trace=False, logfd=None):
    """Run one simulated execution; returns a JSON-able record and the ctx."""
    ch = Choices(seed, replay)
    if logfd is not None:
        import os
        orig = ch.draw

        def draw(label, n):
            v = orig(label, n)
            if n > 1:
                os.write(logfd, b'%d\n' % v)
            return v

        ch.draw = draw
    ctx = Ctx(ch, trace)
    ctx.known = getattr(prop, 'KNOWN', ())
    random.seed(0)
    viol = None
    try:
        prop.run(ctx)
    except Violation as v:
        viol = dict(kind=v.kind, msg=v.msg[:4000])
        ctx.mix(v.kind)
    except Exception as e:  # an error of the code under test on valid input
        where = _under_test(e)
        if where is None:
            raise
        viol = dict(kind='raised-' + type(e).__name__, msg='%s: %s (%s)' % (
            type(e).__name__, str(e)[:1500], where))
        ctx.mix(viol['kind'])
    rec = dict(seed=repr(seed), violation=viol,
               digest=zlib.crc32(repr((ch.values, ctx.digest)).encode()),
               interleaving=ctx.interleaving, nontrivial=ctx.nontrivial,
               sim_time=ctx.sim_time, steps=ctx.steps, nsims=ctx.nsims)
    return rec, ctx
