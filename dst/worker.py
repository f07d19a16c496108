"""Runs a stride of seeds of one property; JSON lines on stdout."""
import collections
import faulthandler
import importlib
import json
import os
import sys
import time
import traceback

_time = time.time  # real clock, taken before the seams are installed


def main():
    spec = json.loads(sys.argv[1])
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    # nothing else may write on the protocol channel
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not spec.get('stderr'):
        os.dup2(devnull, 2)
    from . import env
    env.setup(spec['build'])
    from . import ctx as ctxm
    prop = importlib.import_module('dst.props.' + spec['prop'].lower())
    from . import findings
    prop.TIER = spec['tier']
    prop.KNOWN = frozenset(findings.load(spec['prop']))
    if hasattr(prop, 'prepare'):
        prop.prepare()
    # otherwise imported at their first use, inside a simulation
    from tnco.app import Optimizer
    Optimizer(method='sa')
    Optimizer(method='sa', max_width=4)

    if spec['mode'] == 'replay':
        rec, ctx = ctxm.execute(prop, spec.get('seed') and
                                tuple(spec['seed']), spec.get('choices'),
                                trace=True)
        rec['choices'] = ctx.ch.values
        rec['labels'] = [l for l, _ in ctx.ch.labels]
        rec['notes'] = ctx.notes
        rec['faults'] = {k: v for k, v in ctx.counters.items()
                         if k.startswith('fault:')}
        rec['trace'] = [s.trace[:2000] for s in ctx.sims]
        rec['log'] = [[repr(e) for e in s.log[:2000]] for s in ctx.sims]
        out.write(json.dumps(dict(done=rec)) + '\n')
        out.flush()
        os._exit(0)

    if spec['mode'] == 'shrink':
        from . import shrink
        res = shrink.shrink(prop, spec['seed'] and tuple(spec['seed']),
                            spec['kind'], spec['budget'],
                            spec.get('crash', False))
        out.write(json.dumps(dict(shrunk=res)) + '\n')
        out.flush()
        os._exit(0)

    # explore
    agg = collections.Counter()
    digests, inter, states = [], set(), set()
    nontrivial = set()
    n = 0
    sim_time = 0.0
    steps = 0
    samples = []
    deadline = spec['deadline']
    violations = []
    for i in spec['indices']:
        if _time() > deadline:
            break
        seed = (spec['seed0'], spec['prop'], i)
        out.write('S %d\n' % i)
        try:
            rec, ctx = ctxm.execute(prop, seed)
        except BaseException as e:  # harness error, not a violation
            out.write(json.dumps(dict(error=dict(
                index=i, tb=traceback.format_exc()[-6000:]))) + '\n')
            out.flush()
            os._exit(3)
        n += 1
        agg.update(ctx.counters)
        agg['simulations'] += rec['nsims']
        sim_time += rec['sim_time']
        steps += rec['steps']
        inter.add(rec['interleaving'])
        if len(states) < 200000:
            states |= ctx.states
        if rec['nontrivial']:
            nontrivial.add(rec['digest'])
        digests.append((i, rec['digest']))
        if len(samples) < 2 and rec['nontrivial'] and ctx.notes:
            samples.append(dict(seed=list(seed), notes=ctx.notes[:12]))
        if rec['violation']:
            violations.append(dict(index=i, **rec['violation']))
            out.write(json.dumps(dict(violation=dict(
                index=i, notes=ctx.notes[:20], **rec['violation']))) + '\n')
            if len(violations) >= spec.get('max_violations', 3):
                break
    out.write(json.dumps(dict(done=dict(
        runs=n, counters=agg, sim_time=sim_time, steps=steps,
        interleavings=sorted(inter), nontrivial=sorted(nontrivial),
        states=sorted(states), samples=samples, digests=digests))) + '\n')
    out.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
