"""Shared by the drivers: exact encoding of observations, total outcomes."""
import io
import json
import math
import os
import signal
import sys
import warnings

warnings.simplefilter('ignore')
import numpy as np

np.seterr(all='ignore')

CODES = {'int64': 'i8', 'float32': 'f4', 'float64': 'f8', 'complex64': 'c8', 'complex128': 'c16'}
NPDT = {'i8': np.int64, 'f4': np.float32, 'f8': np.float64, 'c8': np.complex64, 'c16': np.complex128}


def dtcode(dt):
    try:
        n = np.dtype(dt).name
    except Exception:
        return 'other'
    return CODES.get(n, 'other ' + n)


def num(v):
    """A real number as JSON: a small integer, or the exact hexadecimal text."""
    v = float(v)
    if v != v:
        return 'nan'
    if v in (math.inf, -math.inf):
        return 'inf' if v > 0 else '-inf'
    if v == int(v) and abs(v) < 2**30:
        return int(v)
    return v.hex()


def vec(v):
    return [num(t) for t in np.asarray(v, dtype=float).ravel()]


def cvec(v):
    v = np.asarray(v)
    return {'r': [num(t) for t in v.real.ravel()], 'i': [num(t) for t in v.imag.ravel()]}


def rmat(a):
    return [[num(t) for t in row] for row in np.asarray(a)]


def cmat(a):
    a = np.asarray(a)
    return {'r': rmat(a.real), 'i': rmat(a.imag)}


def frac(x):
    """A command number: int, or "p/q" text."""
    if isinstance(x, str):
        if '/' in x:
            p, q = x.split('/')
            return int(p) / int(q)
        if x.lstrip('-').startswith('0x'):
            return float.fromhex(x)
        return float(x)
    return x


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


def attempt(fn, seconds=60):
    """('ok', value) or ('err', exception name).  A run-away call is cut off."""
    signal.alarm(seconds)
    try:
        r = fn()
        signal.alarm(0)
        return 'ok', r
    except Timeout:
        return 'err', 'Timeout'
    except (KeyboardInterrupt, SystemExit):
        raise
    except RecursionError:
        return 'err', 'RecursionError'
    except BaseException as e:
        return 'err', type(e).__name__
    finally:
        signal.alarm(0)


class Silence(object):
    """Counts what is written to stdout/stderr while active."""

    def __enter__(self):
        self.o, self.e = sys.stdout, sys.stderr
        self.buf = io.StringIO()
        sys.stdout = sys.stderr = self.buf
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o, self.e

    @property
    def text(self):
        return self.buf.getvalue()


class Out(object):
    def __init__(self, path):
        self.f = open(path, 'w')
        self.n = 0

    def put(self, rec):
        self.f.write(json.dumps(rec) + '\n')
        self.n += 1

    def close(self):
        self.f.close()


def same_state(a, b):
    """Two states of numpy's global random generator are equal."""
    return all(bool(np.array_equal(x, y)) for x, y in zip(a, b))
