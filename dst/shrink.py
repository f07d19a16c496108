"""Minimise the choice list of a failing run (each attempt in a child)."""
import json
import os
import select
import signal
import tempfile
import time

from . import core

_now = core.REAL['time']


def attempt(prop, seed, choices, timeout, crash=False):
    """Returns (kind or None, choices actually used)."""
    from . import ctx as ctxm
    log = tempfile.TemporaryFile() if crash else None
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            rec, ctx = ctxm.execute(prop, seed if choices is None else None,
                                    choices,
                                    logfd=log.fileno() if crash else None)
            v = rec['violation']
            data = json.dumps([v and v['kind'], ctx.ch.values]).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    end = _now() + timeout
    hung = False
    while True:
        left = end - _now()
        if left <= 0:
            hung = True
            break
        if select.select([r], [], [], left)[0]:
            c = os.read(r, 1 << 16)
            if not c:
                break
            buf += c
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if buf and not hung:
        try:
            k, vals = json.loads(buf)
            return k, vals
        except ValueError:
            pass
    vals = None
    if log is not None:
        log.seek(0)
        vals = [int(x) for x in log.read().split()]
    if hung:
        return 'hang', vals
    if os.WIFSIGNALED(st):
        return 'crash', vals
    return None, None


def shrink(prop, seed, kind, budget, crash=False):
    end = _now() + budget
    tmo = 20 if kind != 'hang' else 12
    k, best = attempt(prop, seed, None, 60, crash)
    if k != kind or best is None:
        return dict(kind=k, choices=None, tries=1)
    tries = [1]

    def ok(c):
        if _now() > end:
            return None
        tries[0] += 1
        k, vals = attempt(prop, None, c, tmo, crash)
        if k == kind and vals is not None:
            # strip trailing zeros: they are the default
            while vals and vals[-1] == 0:
                vals.pop()
            if (len(vals), vals) < (len(best), best):
                return vals
        return None

    while best and best[-1] == 0:
        best.pop()
    improved = True
    while improved and _now() < end:
        improved = False
        # truncate
        n = len(best) // 2
        while n >= 1 and _now() < end:
            r = ok(best[:len(best) - n]) if n <= len(best) else None
            if r is not None:
                best, improved = r, True
            else:
                n //= 2
        # zero or delete chunks
        size = max(1, len(best) // 4)
        while size >= 1 and _now() < end:
            i = 0
            while i < len(best) and _now() < end:
                c = best[i:i + size]
                r = ok(best[:i] + best[i + size:])
                if r is None and any(c):
                    r = ok(best[:i] + [0] * len(c) + best[i + size:])
                if r is not None:
                    best, improved = r, True
                else:
                    i += size
            size //= 2
        # lower single values
        for i in range(len(best)):
            if _now() > end or i >= len(best):
                break
            for v in (best[i] // 2, best[i] - 1):
                if i < len(best) and 0 <= v < best[i]:
                    r = ok(best[:i] + [v] + best[i + 1:])
                    if r is not None:
                        best, improved = r, True
                        break
    return dict(kind=kind, choices=best, tries=tries[0])
