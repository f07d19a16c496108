"""Prepare this process: seams first, then the code under test from /repo."""
import os
import sys
import warnings

_ready = False


def setup(build_dir):
    global _ready
    if _ready:
        return
    _ready = True
    from . import build, core, joblib_stub, fs
    sys.dont_write_bytecode = True
    # Neither the editable install nor the installed extension may be used
    sys.meta_path[:] = [
        f for f in sys.meta_path
        if '_editable' not in type(f).__module__ and
        not type(f).__name__.startswith('ScikitBuild')
    ]
    sys.path[:] = [build_dir, build.REPO] + [
        p for p in sys.path if os.path.abspath(p or '.') != build.REPO]
    # Heavy libraries which must keep the real primitives
    import concurrent.futures  # noqa
    import decimal  # noqa
    import logging  # noqa
    import numpy  # noqa
    import cloudpickle  # noqa
    core.install()
    fs.install()
    joblib_stub.install()
    warnings.simplefilter('ignore')
    import tnco_core
    assert os.path.dirname(os.path.abspath(tnco_core.__file__)) == \
        os.path.abspath(build_dir), tnco_core.__file__
    import tnco
    assert os.path.abspath(tnco.__file__).startswith(
        os.path.abspath(build.REPO) + os.sep), tnco.__file__
    import tnco.parallel  # noqa
    import tnco.app  # noqa
