"""C06: each task exactly once, isolated, in order; errors propagate."""
from .. import core
from ..core import SimThread, Violation
from . import common as cm


BASE = 1000  # first task of the second call
EXC = ['own', 'own', 'own'] + [x for x in cm.ERRORS if x != 'own']
RETS = [None, 'none', 'zero', 'false', 'empty', 'list', 'error', 'dict',
        'nested', 'class']


def one_call(ctx, s, tp, base, plans, cfg):
    """One Parallel call; returns ('ok', results) or ('err', exception)."""
    shared = None
    n = len(plans)
    try:
        if cfg['shared']:
            shared = tp.Buffer([0] * n, 'q')
        kw = dict(n_jobs=cfg['n_jobs'], verbose=cfg['verbose'],
                  buffers=list(cfg['buffers']), timeout=cfg['timeout'],
                  refresh_per_second=cfg['refresh'])
        if cfg['style'] == 0:
            r = tp.Parallel(cm.body, plans, [shared] * n, **kw)
        elif cfg['style'] == 1:
            r = tp.Parallel(cm.body, plan=iter(plans), shared=[shared] * n,
                            **kw)
        else:
            r = tp.Parallel(cm.body_pos, plans, shared=[shared] * n, **kw)
        out = ('ok', r, [shared[i] for i in range(n)] if shared is not None
               else None)
    except Exception as e:
        out = ('err', e, None)
    finally:
        if shared is not None:
            try:
                shared.shm.unlink()
            except FileNotFoundError:
                pass
    return out


def verify(ctx, s, base, plans, cfg, out, deaths):
    n = len(plans)
    ids = {p['id']: i for i, p in enumerate(plans)}
    ev = [e[2:] for e in s.log]
    starts = [e for e in ev if e[0] == 'start' and e[1] in ids]
    ends = [e for e in ev if e[0] == 'end' and e[1] in ids]
    raised = [e for e in ev if e[0] == 'raise' and e[1] in ids]
    for e in starts:
        if e[2] != ids[e[1]]:
            raise Violation('wrong-index', 'task %d was given index %r instead '
                            'of %d' % (e[1] - base, e[2], ids[e[1]]))
    seen = [e[1] for e in starts]
    if len(seen) != len(set(seen)):
        raise Violation('executed-twice', 'a task was started more than once: '
                        '%r' % sorted(x - base for x in seen))
    for e in ev:
        if e[0] == 'buf' and e[1] in ids:
            _, i, name, v, got = e
            if got != v and got != cm.f32(v):
                raise Violation('slot-clobbered', 'task %d stored %r in its '
                                'slot of %s and read back %r' %
                                (i - base, v, name, got))
    if out[0] == 'ok':
        if raised:
            raise Violation('error-swallowed', 'task %d raised but the call '
                            'returned %r' % (raised[0][1] - base, out[1]))
        if len(ends) != n:
            raise Violation('not-executed', '%d of %d tasks ran to the end but '
                            'the call returned' % (len(ends), n))
        exp = [cm.returned(p, i) for i, p in enumerate(plans)]
        if repr(list(out[1])) != repr(exp):
            raise Violation('wrong-results', 'expected %r, got %r' %
                            (exp, out[1]))
        if out[2] is not None:
            for i, p in enumerate(plans):
                ks = [e[3] for e in ev if e[0] == 'step' and e[1] == p['id']]
                want = p['id'] * 1000 + ks[-1] if ks else 0
                if out[2][i] != want:
                    raise Violation('buffer-not-visible', 'the caller reads '
                                    '%r in slot %d of a shared buffer, the '
                                    'task stored %r' % (out[2][i], i, want))
    else:
        e = out[1]
        if e.args[:1] == ('task',):
            mine = [p for p in plans if p['id'] == e.args[1]]
            if e.args[1] not in [r[1] for r in raised] or type(e) is not \
                    cm.ERRORS[mine[0].get('exc') or 'own']:
                raise Violation('wrong-error', 'the call raised %r, raised by '
                                'no task' % (e,))
        elif not deaths or isinstance(e, (KeyError, IndexError, TypeError,
                                          AttributeError)):
            raise Violation('spurious-error', 'no fault was injected but the '
                            'call raised %r' % (e,))


def run(ctx):
    import tnco.parallel as tp
    ch = ctx.ch
    prof = ctx.profile()
    n_calls = 1 + ch.chance('two-callers', 1, 5)
    missing = ch.chance('no-joblib', 1, 8)
    mode = ch.weighted('mode', [('clean', 5), ('fail', 2), ('death', 2)])
    calls = []
    for c in range(n_calls):
        n = ch.int('n', 1, 9)
        many = mode != 'death' and ch.chance('many', 1, 30)
        if many:
            n = ch.pick('n-many', [40, 17, 70, 130, 300])
            ctx.probe('many-tasks')
        base = BASE * c
        fail_ids = set()
        if mode == 'fail':
            fail_ids = {ch.draw('failer', n)} | (
                {ch.draw('failer2', n)} if ch.chance('two', 1, 4) else set())
        plans = [cm.draw_plan(ch, base + i, fail=i in fail_ids,
                              max_steps=1 if many else 5)
                 for i in range(n)]
        for i in fail_ids:
            plans[i]['steps'] = max(plans[i]['steps'], 1)
            plans[i]['fail_at'] = min(plans[i]['fail_at'],
                                      plans[i]['steps'] - 1)
            plans[i]['poll'] = False
            plans[i]['exc'] = ch.pick('exc', EXC)
        if ch.chance('odd-results', 1, 3):
            for p in plans:
                p['ret'] = ch.pick('ret', RETS)
            ctx.probe('odd-results')
        cfg = dict(n_jobs=ch.pick('n_jobs', cm.N_JOBS),
                   verbose=ch.pick('verbose', [0, 1, 2, 3]),
                   buffers=cm.draw_buffers(ch),
                   shared=ch.chance('shared', 1, 2),
                   timeout=ch.pick('timeout', [None, None, None, 0.0, 0.5, 60.0, 1]),
                   refresh=ch.pick('refresh', [None, 0.5, 5, 10]),
                   style=ch.draw('style', 3))
        calls.append((base, plans, cfg))
        ctx.note('call', c, {k: v for k, v in cfg.items()},
                 [(p['steps'], p['fail_at']) for p in plans])
    deaths = []
    if mode == 'death':
        for _ in range(ch.int('ndeaths', 1, 2)):
            deaths.append((ch.pick('death-at', [1e-6, 1e-5, 1e-4, 1e-3, 1e-2,
                                                0.1, 1.0, 5.0]),
                           ch.draw('death-who', 4)))
    ctx.note('mode', mode, 'deaths', deaths, 'joblib missing', missing)
    outs = [None] * n_calls

    def setup(s):
        s.worker_deaths = deaths

    def main():
        s = core.current()

        def go(c):
            outs[c] = one_call(ctx, s, tp, *calls[c])

        if n_calls == 1:
            go(0)
        else:
            ts = [SimThread(target=go, args=(c,)) for c in range(n_calls)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()

    s, _ = ctx.sim(main, profile=prof, setup=setup, joblib_missing=missing)
    if not any(o is None for o in outs):
        for (base, plans, cfg), out in zip(calls, outs):
            verify(ctx, s, base, plans, cfg, out, deaths)
    else:
        bad = [e for t, e in s.unhandled]
        raise Violation('call-failed', 'a concurrent call ended with %r' %
                        (bad[:1],))
    ctx.nontrivial = any(len(p) > 1 for _, p, _ in calls)
    for (base, plans, cfg), out in zip(calls, outs):
        procs = {e[5] for e in s.log if e[2] == 'start' and
                 base <= e[3] < base + BASE}
        if len(procs) > 1:
            ctx.probe('several-workers')
        if out[0] == 'err':
            ctx.probe('call-raised')
        order = tuple(e[3] - base for e in s.log if e[2] == 'end')
        ctx.state(order)
        if list(order) != sorted(order):
            ctx.probe('out-of-order-completion')
