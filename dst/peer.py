"""A second real process (another hash seed) for restored objects.

``call(fn, *args)`` runs ``dst.props.<module>:<function>`` in the peer and
returns its value.  The peer executes only functions whose outcome must not
depend on the process they run in, one at a time, so a run stays a function of
its seed.
"""
import atexit
import importlib
import os
import pickle
import struct
import subprocess
import sys

_peer = None


class PeerError(Exception):
    """The function raised in the peer."""


def _send(f, obj):
    b = pickle.dumps(obj)
    f.write(struct.pack('<Q', len(b)) + b)
    f.flush()


def _recv(f):
    h = f.read(8)
    if len(h) < 8:
        raise EOFError('the peer process ended')
    return pickle.loads(f.read(struct.unpack('<Q', h)[0]))


def _start():
    global _peer
    import tnco_core
    from . import build
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = str(
        int(os.environ.get('PYTHONHASHSEED', '0') or 0) + 1013)
    p = subprocess.Popen(
        [build.PYTHON, '-m', 'dst.peer',
         os.path.dirname(os.path.abspath(tnco_core.__file__))],
        cwd=build.VERIF, env=env, stdin=subprocess.PIPE,
        stdout=subprocess.PIPE)
    _peer = (os.getpid(), p)
    atexit.register(stop)


def stop():
    global _peer
    if _peer is not None and _peer[0] == os.getpid():
        _peer[1].kill()
        _peer[1].wait()
    _peer = None


def call(fn, *args):
    if _peer is None or _peer[0] != os.getpid():
        _start()
    p = _peer[1]
    _send(p.stdin, (fn, args))
    ok, r = _recv(p.stdout)
    if not ok:
        raise PeerError('%s: %s' % tuple(r))
    return r


def main():
    out = os.fdopen(os.dup(1), 'wb')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    from . import env
    env.setup(sys.argv[1])
    inp = sys.stdin.buffer
    while True:
        try:
            fn, args = _recv(inp)
        except EOFError:
            os._exit(0)
        try:
            m, f = fn.split(':')
            r = (True, getattr(importlib.import_module('dst.props.' + m),
                               f)(*args))
        except Exception as e:
            r = (False, (type(e).__name__, str(e)[:2000]))
        _send(out, r)


if __name__ == '__main__':
    main()
