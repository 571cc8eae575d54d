"""Common part of the drivers: run scenarios against the copy of MTfit named by VP_SRC and record what it returned."""
import gc
import json
import logging
import math
import os
import random
import signal
import sys

import numpy as np

logging.disable(logging.CRITICAL)
# MTfit calls gc.collect() in every pure-Python likelihood call (29 ms each); it has no effect on results
gc.collect = lambda *a, **k: 0
SRC = os.environ['VP_SRC']
VARIANT = os.environ['VP_VARIANT']
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
# both variants run exactly the same scenarios in the same form, so that their records can be compared line by line
JOIN = os.environ.get('VP_JOIN') == '1'
# extension modules which are treated as not built (within the copy in which they are)
for _m in [m for m in os.environ.get('VP_ABSENT', '').split(',') if m]:
    sys.modules[_m] = None


def COMPILED(name):
    """whether this extension module is there"""
    return VARIANT == 'c' and name not in os.environ.get('VP_ABSENT', '').split(',')


import MTfit  # noqa: E402
np.seterr(all='ignore')
if not os.path.abspath(MTfit.__file__).startswith(os.path.abspath(SRC)):
    sys.exit('wrong MTfit: ' + MTfit.__file__)


def seed(*salt):
    """Seed every generator from VERIF_SEED and a salt, the same for both variants."""
    h = 0
    for s in (SEED,) + salt:
        for ch in str(s):
            h = (h * 1000003 + ord(ch)) & 0x7fffffff
        h = (h * 31 + 17) & 0x7fffffff
    np.random.seed(h)
    random.seed(h)
    return np.random.RandomState(h ^ 0x5bd1e995)


def js(x):
    """Python/numpy -> JSON-able with floats kept as floats."""
    if isinstance(x, dict):
        return {str(k): js(v) for k, v in x.items()}
    if isinstance(x, np.matrix):
        x = np.asarray(x)
    if isinstance(x, np.ndarray):
        return js(x.tolist())
    if isinstance(x, (list, tuple)):
        return [js(v) for v in x]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return {'re': float(x.real), 'im': float(x.imag)}
    if x is None or isinstance(x, str):
        return x
    if hasattr(x, '_ln_pdf'):
        return js(np.asarray(x._ln_pdf))
    return 'unencodable:' + type(x).__name__


class Out(object):
    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0

    def emit(self, **kw):
        self.f.write(json.dumps(js(kw)) + '\n')
        self.n += 1

    def close(self):
        self.f.close()


def attempt(f, *a, **k):
    """(result, '') or (None, 'ExceptionName: text')"""
    try:
        return f(*a, **k), ''
    except Exception as e:  # recorded; the specification decides whether it is allowed
        return None, '%s: %s' % (type(e).__name__, str(e)[:200])


def scenarios(path):
    return [json.loads(l) for l in open(path)]


def f64(x):
    return np.array(x, dtype=np.float64)


def unit(v):
    v = np.asarray(v, dtype=float)
    return v / np.sqrt(np.sum(v * v, axis=0))


class NeverEnded(BaseException):
    pass


def limited(seconds, f, *a, **k):
    """attempt, giving up after so many seconds (not even a blanket `except Exception` can hide it)"""
    def ring(*_):
        raise NeverEnded()
    old = signal.signal(signal.SIGALRM, ring)
    signal.alarm(seconds)
    try:
        return attempt(f, *a, **k)
    except NeverEnded:
        return None, 'NeverEnded: still running after %d s' % seconds
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
