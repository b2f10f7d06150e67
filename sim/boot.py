"""Build the zygote: heavy third-party imports first, then the seams, then PyAnEn from /repo."""
import gc
import os
import sys
import warnings

REPO = os.environ.get('PYANEN_REPO', '/repo')
PY = '/opt/venv/bin/python'

FIXED_ENV = {
    'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
    'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '01', 'OPENBLAS_NUM_THREADS': '01', 'MKL_NUM_THREADS': '01',
    'SETUPTOOLS_USE_DISTUTILS': 'local', 'RAY_USAGE_STATS_ENABLED': '0', 'RAY_AUTH_MODE': 'disabled',
    'TQDM_MININTERVAL': '0.1',
}


def reexec(hashseed=None):
    """Make sure we run in the project's interpreter with a fixed environment."""
    want = dict(FIXED_ENV)
    if hashseed is not None:
        want['PYTHONHASHSEED'] = str(hashseed)
    elif os.environ.get('PYANEN_SIM_HASHSEED'):
        want['PYTHONHASHSEED'] = os.environ['PYANEN_SIM_HASHSEED']
    stale = [k for k in os.environ if k.startswith('pyanen_')]
    if os.environ.get('PYANEN_SIM') == '1' and not stale and \
            all(os.environ.get(k) == v for k, v in want.items()):
        return
    env = {k: v for k, v in os.environ.items() if not k.startswith('pyanen_')}
    env.update(want)
    env['PYANEN_SIM'] = '1'
    os.execve(PY, [PY] + sys.argv, env)


def boot():
    warnings.filterwarnings('ignore')
    import numpy  # noqa
    import scipy.stats  # noqa
    import scipy.special  # noqa
    import pandas  # noqa
    import sklearn.metrics  # noqa
    import sklearn.neighbors  # noqa
    import tqdm.auto
    import tqdm.contrib.concurrent  # noqa
    import tqdm.std
    import properscoring  # noqa
    import cloudpickle  # noqa
    import uuid, tempfile, shutil, secrets, glob, pathlib, hashlib, threading, json, inspect, warnings as _w  # noqa
    import concurrent.futures.process, concurrent.futures.thread, multiprocessing.pool, multiprocessing.shared_memory  # noqa
    import numpy.linalg, numpy.random, numpy.ma  # noqa
    import distutils.util  # noqa
    try:
        import xarray, netCDF4  # noqa
    except Exception:
        pass
    try:
        import dill, joblib  # noqa
    except Exception:
        pass
    numpy.seterr(all='ignore')
    tqdm.std.tqdm.monitor_interval = 0
    tqdm.std.TqdmDefaultWriteLock.create_mp_lock()
    tqdm.std.TqdmDefaultWriteLock.create_th_lock()
    from . import pool, simray, world
    world.install_fs()
    world.install_clock()
    pool.install()
    simray.install()
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import PyAnEn  # noqa
    import PyAnEn.Grid, PyAnEn.utils_ss, PyAnEn.utils_special_boot, PyAnEn.utils_approximation  # noqa
    import PyAnEn.utils_dist, PyAnEn.utils_verify, PyAnEn.utils_crps  # noqa
    src = os.path.realpath(PyAnEn.__file__)
    if not src.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('PyAnEn was imported from %s' % src)
    # warm up lazily imported parts so that no simulated process does it
    from scipy import stats
    stats.norm(loc=numpy.zeros(2)).rvs([1, 2])
    stats.truncnorm.cdf(x=numpy.zeros(2), loc=0., scale=1., a=-1., b=5)
    for k in list(os.environ):
        if k.startswith('pyanen_'):
            DEFAULTS[k] = os.environ[k]
    gc.collect()
    gc.freeze()
    return PyAnEn


DEFAULTS = {}
