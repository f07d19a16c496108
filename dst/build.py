"""Build tnco_core from /repo's current headers (content-addressed).

The shared object already installed in the interpreter is reused only if its
bytes are exactly those this build command produces for exactly these headers
(known_builds.json, recorded with ``python -m dst.build --record``); otherwise
it is compiled from /repo/include into /verif/.build/<hash>/.
"""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('TNCO_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUFFIX = '.cpython-312-x86_64-linux-gnu.so'
PYTHON = '/opt/venv/bin/python'
SITE = '/opt/venv/lib/python3.12/site-packages'
KNOWN = os.path.join(VERIF, 'dst', 'known_builds.json')

BASE = ['-O1', '-std=c++17', '-fPIC', '-fvisibility=hidden', '-w',
        '-Dtnco_core_EXPORTS', '-isystem', '/usr/include/python3.12',
        '-isystem', SITE + '/pybind11/include', '-shared']

# Only the numeric types the simulated workloads use (compile time), in parts
# which are compiled at the same time; a plain full build is the fallback.
COSTS = ['float', 'double', '::tnco::float1024']
COST_WIDTHS = [('float', 'float'), ('double', 'float'), ('double', 'double'),
               ('::tnco::float1024', 'float')]
UNDEF = '''#include <tnco/globals.hpp>
#undef EXPAND_COST_TYPE
#undef EXPAND_WIDTH_TYPE
#undef EXPAND_COST_WIDTH_TYPE
'''
WRAPPER = UNDEF + '''#define EXPAND_COST_TYPE(function, ...) %s
#define EXPAND_WIDTH_TYPE(function, T, ...) function<T, float>(__VA_ARGS__);
#define EXPAND_COST_WIDTH_TYPE(function, ...) %s
#include <tnco/main.cpp>
''' % (' '.join('function<%s>(__VA_ARGS__);' % c for c in COSTS),
       ' '.join('function<%s, %s>(__VA_ARGS__);' % x for x in COST_WIDTHS))
PART = UNDEF + '''#define EXPAND_COST_TYPE(function, ...)
#define EXPAND_WIDTH_TYPE(function, T, ...)
#define EXPAND_COST_WIDTH_TYPE(function, ...)
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#undef PYBIND11_MODULE
#define PYBIND11_MODULE(name, m) \\
  template <int> static void unused_init(::pybind11::module_ &m)
#include <tnco/main.cpp>
'''
OPT = 'tnco::optimize::'


def sources():
    """Sources of the parts (explicit instantiations of what main uses)."""
    one = [(OPT + n, (c, )) for c in COSTS for n in (
        'infinite_memory', 'infinite_memory::cost_model', 'prob')]
    two = [(OPT + 'finite_width::' + n, x) for x in COST_WIDTHS
           for n in ('greedy', 'cost_model')]

    def inst(items, ext=''):
        return ''.join('namespace %s { %stemplate auto core<%s>('
                       'pybind11::module &) -> void; }\n' %
                       (n, ext, ', '.join(x)) for n, x in items)

    ff = ('template void tnco::fixed_float::init<1024>(pybind11::module &, '
          'const std::string &);\n')
    return [WRAPPER + inst(one + two, 'extern ') + 'extern ' + ff,
            PART + ff] + [PART + inst(p) for p in (
                [one[0], one[1]], [one[2], *two[0:2]], one[3:6], two[2:4],
                two[4:6], one[6:9], two[6:8])]


def tree_hash():
    h = hashlib.sha256()
    root = os.path.join(REPO, 'include')
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode() + b'\0')
            with open(p, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def sha(path):
    with open(path, 'rb') as fh:
        return hashlib.sha256(fh.read()).hexdigest()


def _compile(src, out, extra=()):
    cmd = ['g++', *BASE, *extra, '-I' + os.path.join(REPO, 'include'), src,
           '-o', out, '-lmpfr', '-lgmp']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode(errors='replace')


def _compile_parts(d, out, extra=()):
    """As the wrapper, but in parts compiled at the same time."""
    procs, objs = [], []
    inc = ['-I' + os.path.join(REPO, 'include')]
    flags = [x for x in BASE if x != '-shared'] + list(extra) + inc
    for i, text in enumerate(sources()):
        src = os.path.join(d, 'part%d.cpp' % i)
        with open(src, 'w') as fh:
            fh.write(text)
        objs.append(src[:-3] + 'o')
        procs.append(subprocess.Popen(
            ['g++', *flags, '-c', src, '-o', objs[-1]],
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
    if any([p.wait() for p in procs]):
        return 1
    # (the parts repeat the functions which are not templates)
    rc = subprocess.run(
        ['g++', '-shared', '-Wl,-z,muldefs', *objs, '-o', out, '-lmpfr',
         '-lgmp'], stdout=subprocess.DEVNULL,
        stderr=subprocess.DEVNULL).returncode
    for o in objs:
        os.remove(o)
    return rc or _loads(out)


def _loads(so):
    """Whether the module can be imported (0 if so)."""
    with tempfile.TemporaryDirectory() as t:
        shutil.copy(so, os.path.join(t, 'tnco_core' + SUFFIX))
        return subprocess.run(
            [PYTHON, '-S', '-c', 'import sys; sys.path.insert(0, %r); '
             'import tnco_core as t; t.float1024, t.optimize.infinite_memory.'
             'Optimizer_float32, t.optimize.finite_width' % t],
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode


def tokens():
    """Hash of what the compiler sees (comments and layout do not matter)."""
    p = subprocess.run(
        ['g++', '-E', '-P', *[x for x in BASE if x != '-shared'],
         '-I' + os.path.join(REPO, 'include'),
         os.path.join(REPO, 'include/tnco/main.cpp')], stdout=subprocess.PIPE,
        stderr=subprocess.DEVNULL)
    if p.returncode:
        return None
    lines = (x.strip() for x in p.stdout.splitlines())
    return 'tokens:' + hashlib.sha256(
        b'\n'.join(x for x in lines if x)).hexdigest()


def ensure(full=False, release=False, verbose=True):
    """Returns (directory holding tnco_core, how it was obtained)."""
    th = tree_hash()
    if not release and not os.environ.get('DST_NO_REUSE'):
        try:
            known = json.load(open(KNOWN))
        except (OSError, ValueError):
            known = {}
        for so in glob.glob(os.path.join(SITE, 'tnco_core*.so')):
            h = sha(so)
            same = known.get(th) == h
            if same or (h in known.values() and known.get(tokens()) == h):
                d = os.path.join(VERIF, '.build', 'installed-' + th[:16])
                os.makedirs(d, exist_ok=True)
                dst = os.path.join(d, 'tnco_core' + SUFFIX)
                if not os.path.exists(dst):
                    tmp = tempfile.mktemp(dir=d)
                    os.symlink(so, tmp)
                    os.replace(tmp, dst)
                return d, 'installed build of exactly these headers (sha256)'
    variant = ('release' if release else 'debug') + ('-full' if full else '')
    d = os.path.join(VERIF, '.build', th[:32] + '-' + variant)
    os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, 'tnco_core' + SUFFIX)
    with open(os.path.join(d, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(dst):
            return d, 'cached build of these headers'
        tmp = os.path.join(d, 'tmp.so')
        extra = ['-DNDEBUG'] if release else []
        rc, out = 1, ''
        if not full:
            rc = _compile_parts(d, tmp, extra)
        if rc and not full:
            src = os.path.join(d, 'wrapper.cpp')
            with open(src, 'w') as fh:
                fh.write(WRAPPER)
            rc, out = _compile(src, tmp, extra)
        if rc:
            rc, out = _compile(os.path.join(REPO, 'include/tnco/main.cpp'),
                               tmp, extra)
        if rc:
            sys.stderr.write(out[-4000:])
            raise SystemExit('cannot compile tnco_core from ' + REPO)
        os.replace(tmp, dst)
    # keep the cache small
    ds = sorted(glob.glob(os.path.join(VERIF, '.build', '*')),
                key=os.path.getmtime)
    for old in ds[:-12]:
        shutil.rmtree(old, ignore_errors=True)
    return d, 'compiled from these headers'


def record():
    """Record the bytes the installed module must have for these headers."""
    with tempfile.TemporaryDirectory() as t:
        out = os.path.join(t, 'tnco_core.so')
        rc, msg = _compile(os.path.join(REPO, 'include/tnco/main.cpp'), out)
        assert rc == 0, msg
        try:
            known = json.load(open(KNOWN))
        except (OSError, ValueError):
            known = {}
        known[tree_hash()] = known[tokens()] = sha(out)
        with open(KNOWN, 'w') as fh:
            json.dump(known, fh, indent=1)
            fh.write('\n')
        for so in glob.glob(os.path.join(SITE, 'tnco_core*.so')):
            print('installed matches:', sha(so) == sha(out))


if __name__ == '__main__':
    if '--record' in sys.argv:
        record()
    else:
        print(ensure(full='--full' in sys.argv, release='--release' in
                     sys.argv))
