"""Driver of one property check: python3 -m dst.check C06 [--tier quick]."""
import argparse
import collections
import importlib.util
import json
import os
import re
import subprocess
import sys
import threading
import time

from . import build, findings
from .catalog import CATALOG, ASSUMPTIONS

VERIF = build.VERIF
HANG_S = 75


def spawn(spec, hashseed):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1',
               PYTHONPATH=VERIF, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1', TERM='dumb', COLUMNS='80', HOME='/tmp',
               NUMBA_DISABLE_JIT='1')
    return subprocess.Popen([build.PYTHON, '-m', 'dst.worker',
                             json.dumps(spec)], cwd=VERIF, env=env,
                            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                            stderr=None)


class Pump(threading.Thread):
    """Reads one worker's protocol."""

    def __init__(self, proc):
        super().__init__(daemon=True)
        self.proc = proc
        self.index = None
        self.index_t = time.time()
        self.violations = []
        self.error = None
        self.done = None
        self.start()

    def run(self):
        for line in self.proc.stdout:
            line = line.decode(errors='replace')
            if line.startswith('S '):
                self.index = int(line[2:])
                self.index_t = time.time()
                continue
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if 'violation' in m:
                self.violations.append(m['violation'])
            elif 'error' in m:
                self.error = m['error']
            elif 'done' in m:
                self.done = m['done']
            elif 'shrunk' in m:
                self.done = m['shrunk']
        self.proc.wait()


def call(spec, hashseed, timeout):
    """One worker call; returns (status, payload)."""
    p = Pump(spawn(spec, hashseed))
    p.join(timeout)
    if p.is_alive():
        p.proc.kill()
        p.join(5)
        return 'hang', None
    if p.done is not None:
        return 'ok', p.done
    if p.error:
        return 'error', p.error
    return ('crash' if p.proc.returncode < 0 else 'error',
            'exit status %s' % p.proc.returncode)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--stderr', action='store_true')
    ap.add_argument('--no-selftest', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    cat = CATALOG[a.prop]
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    bdir, bhow = build.ensure(full=(tier == 'thorough'))
    t_build = time.time() - t0
    runs = a.runs or cat[tier + '_runs']
    cap = dict(quick=float(cat.get('quick_cap', 150)),
               thorough=float(cat.get('thorough_cap', 1500)))[tier]
    deadline = time.time() + cap
    base = dict(prop=a.prop, tier=tier, build=bdir, seed0=a.seed,
                deadline=deadline, stderr=a.stderr)
    # the hash seed is part of the run: index % 8
    pending = [[i for i in range(runs) if i % 8 == h] for h in range(8)]
    t_run = time.time()
    live = {}
    done = []
    abnormal = []  # (kind, index)
    violations = []
    errors = []

    def launch(h, indices):
        if indices:
            live[h] = (Pump(spawn(dict(base, mode='explore', indices=indices),
                                  h)), indices)

    todo = list(range(8))
    first_v = None
    stopping = False
    while todo or live:
        while todo and len(live) < a.jobs:
            h = todo.pop(0)
            launch(h, pending[h])
        time.sleep(0.05)
        for h, (p, indices) in list(live.items()):
            hung = p.is_alive() and p.index is not None and \
                time.time() - p.index_t > HANG_S
            slow_start = p.is_alive() and p.index is None and \
                time.time() - p.index_t > 180
            if p.is_alive() and not hung and not slow_start:
                continue
            del live[h]
            if p.is_alive():
                p.proc.kill()
            p.join(5)
            for v in p.violations:
                violations.append(dict(v, hashseed=h))
            if p.done is not None:
                done.append(p.done)
                continue
            if stopping:
                continue
            if p.error:
                errors.append(p.error)
                continue
            if p.index is None:
                errors.append('worker %d did not start (status %s)' %
                              (h, p.proc.returncode))
                continue
            kind = 'hang' if hung else 'crash'
            if kind == 'crash' and p.proc.returncode >= 0:
                errors.append('worker %d ended with %s at index %s' %
                              (h, p.proc.returncode, p.index))
                continue
            abnormal.append((kind, p.index, h))
            rest = [i for i in indices if i > p.index]
            if len(abnormal) < 3 and time.time() < deadline:
                launch(h, rest)
        seen = len(violations) + sum(len(p.violations)
                                     for p, _ in live.values())
        first_v = first_v or (time.time() if seen else None)
        if seen >= 6 or len(abnormal) >= 3 or (
                tier == 'quick' and seen and
                time.time() - first_v > (8 if seen > 1 else 30)):
            # enough: let the others stop at their next run
            stopping = True
            todo = []
            for p, _ in live.values():
                p.proc.kill()
    wall_run = time.time() - t_run

    # -- abnormal ends: confirm in fresh processes -------------------------
    for kind, idx, h in abnormal:
        n = 0
        for _ in range(2):
            st, _ = call(dict(base, mode='replay', seed=[a.seed, a.prop, idx],
                              deadline=0), h, HANG_S)
            n += st == kind
        if n == 2:
            violations.append(dict(
                index=idx, kind=kind, hashseed=h, notes=[],
                msg='the process %s (confirmed in two fresh processes)' %
                ('crashes' if kind == 'crash' else 'makes no progress')))
        elif kind == 'crash':
            errors.append('worker crash at index %d not confirmed' % idx)

    # -- report violations ---------------------------------------------------
    known = findings.load(a.prop)
    reported = []
    unreproduced = []
    by_kind = {}
    for v in sorted(violations, key=lambda v: v['index']):
        by_kind.setdefault(v['kind'], []).append(v)
    t_rep = time.time()
    for kind, vs in list(by_kind.items())[:3]:
        if reported and tier == 'quick' and time.time() - t_rep > 40:
            break
        ok = False
        for v in vs[:4]:
            path = report(a, base, v, tier)
            if path:
                reported.append((v, path))
                ok = True
                break
        if not ok:
            unreproduced += vs
    # several independent runs failing in the same way count even if the code
    # under test made them irreproducible
    for kind in {v['kind'] for v in unreproduced}:
        vs = [v for v in unreproduced if v['kind'] == kind]
        if len(vs) >= 2 and not any(r[0]['kind'] == kind for r in reported):
            path = write_replay(a, vs[0], tier, None, dict(
                note='seen in %d runs; the code under test uses uncontrolled '
                     'randomness, so the replay may differ' % len(vs)))
            reported.append((vs[0], path))
    seen_known = {k[6:] for d in done for k in d['counters']
                  if k.startswith('known:')}
    for k, what in sorted(known.items()):
        if k in seen_known:
            print('KNOWN-FINDING: property=%s %s: %s' % (a.prop, k, what))

    # -- determinism self-test --------------------------------------------
    det = dict(rerun=0, mismatches=0)
    if not reported and not errors and not a.no_selftest:
        dg = {}
        for d in done:
            dg.update({i: x for i, x in d['digests']})
        per = cat.get('selftest', 3 if tier == 'quick' else 12)
        pumps = []
        for h in range(8):
            idx = [i for i in sorted(dg) if i % 8 == h][-per:][::-1]
            if idx:
                pumps.append(Pump(spawn(dict(base, mode='explore', indices=idx,
                                             deadline=time.time() + 60), h)))
        for p in pumps:
            p.join(100)
            if p.is_alive():
                p.proc.kill()
            for i, x in (p.done or {}).get('digests', []):
                det['rerun'] += 1
                det['mismatches'] += x != dg[i]

    # -- evidence -------------------------------------------------------------
    agg = collections.Counter()
    inter, nontriv, states = set(), set(), set()
    samples = []
    n = 0
    sim_time = 0.0
    steps = 0
    for d in done:
        n += d['runs']
        agg.update(d['counters'])
        inter |= set(d['interleavings'])
        nontriv |= set(d['nontrivial'])
        states |= set(d['states'])
        samples += d['samples']
        sim_time += d['sim_time']
        steps += d['steps']
    for v in violations:
        samples.insert(0, dict(violation=v))
    per_h = 3600.0 / max(wall_run, 1e-9)
    ev = dict(
        property=a.prop, tier=tier, seed=a.seed, level='exploration',
        coverage=dict(
            evaluations=n, distinct_nontrivial=len(nontriv),
            rule=cat['rule'], samples=samples[:6],
            simulated_executions=agg.pop('simulations', 0),
            runs_per_hour=round(n * per_h), seeds_per_hour=round(n * per_h),
            simulated_seconds=round(sim_time, 3), scheduler_steps=steps,
            faults_injected={k[6:]: v for k, v in sorted(agg.items())
                             if k.startswith('fault:')},
            probes={k[6:]: v for k, v in sorted(agg.items())
                    if k.startswith('probe:')},
            counters={k: v for k, v in sorted(agg.items())
                      if not k.startswith(('fault:', 'probe:'))},
            distinct_interleavings=len(inter),
            interleaving_measure='distinct sequences of (task, seam) context '
                                 'switches, by CRC',
            distinct_states=len(states),
            state_measure=cat.get('state_measure', 'n/a'),
            components=cat['components'],
            determinism_selftest=det,
            hash_seeds=list(range(8)),
            build=bhow, build_s=round(t_build, 1), runs_planned=runs,
            known_findings=sorted(seen_known),
            unreproduced=len(unreproduced), errors=[str(e)[:2000] for e in
                                                    errors[:3]]),
        wall_s=round(time.time() - t0, 2), assumptions=ASSUMPTIONS + cat.get(
            'assumptions', []),
        violations=len(reported))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for v, path in reported:
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        print('  [%s] %s' % (v['kind'], v['msg'][:1500]))
    print('%s %s: %d runs (%d non-trivial distinct, %d interleavings) in '
          '%.1f s, %d violation(s), determinism %s' %
          (a.prop, tier, n, len(nontriv), len(inter), time.time() - t0,
           len(reported), det))
    if reported:
        return 1
    if errors:
        for e in errors[:3]:
            print('ERROR', e if isinstance(e, str) else
                  'index %s\n%s' % (e.get('index'), e.get('tb')))
        return 2
    if n < min(runs, 20):
        print('ERROR: only %d runs were executed' % n)
        return 2
    return 0


def write_replay(a, v, tier, choices, extra):
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    path = os.path.join(VERIF, 'replays', '%s-%s-%d-%d.json' % (
        a.prop, re.sub(r'\W+', '_', v['kind']), a.seed, v['index']))
    with open(path, 'w') as f:
        json.dump(dict(property=a.prop, tier=tier,
                       seed=[a.seed, a.prop, v['index']],
                       hashseed=v['hashseed'], kind=v['kind'], msg=v['msg'],
                       choices=choices, **extra), f, indent=1)
        f.write('\n')
    return path


def report(a, base, v, tier):
    """Minimise, write the replay file, and confirm it in fresh processes."""
    seed = [a.seed, a.prop, v['index']]
    crash = v['kind'] in ('crash', 'hang')
    budget = (20 if not crash else 30) if tier == 'quick' else 240
    st, r = call(dict(base, mode='shrink', seed=seed, kind=v['kind'],
                      budget=budget, crash=crash), v['hashseed'], budget + 150)
    cands = []
    if st == 'ok' and r and r.get('choices') is not None:
        cands.append(r['choices'])
    cands.append(None)
    for c in cands:
        good = 0
        rec = None
        for _ in range(3):
            spec = dict(base, mode='replay', choices=c,
                        seed=None if c is not None else seed)
            st, x = call(spec, v['hashseed'], HANG_S)
            if crash:
                good += st == v['kind']
            elif st == 'ok' and x['violation'] and \
                    x['violation']['kind'] == v['kind']:
                good += 1
                rec = x
            if not good:
                break
            if good >= 2:
                break
        if good >= 2:
            extra = {}
            if rec:
                v = dict(v, msg=rec['violation']['msg'])
                extra = dict(notes=rec['notes'], faults=rec['faults'],
                             digest=rec['digest'],
                             labels=rec['labels'] if c is not None else None,
                             schedule=rec['trace'], history=rec['log'])
            return write_replay(a, v, tier, c, extra)
    return None


if __name__ == '__main__':
    sys.exit(main())
