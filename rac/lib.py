"""Run-time assertion checking of the contracts on the built code (bounded; runs under the venv's Python)."""
import json, os, sys, time, hashlib, random, math, traceback
import numpy as np

CHECKS = {}
class Skip(Exception):
    """the inputs are outside the contract's precondition"""
class Known(Exception):
    def __init__(self, key, msg=''): self.key = key; Exception.__init__(self, msg)

def check(gen=None, n=100, corners=None, slow=1.0):
    """register a check: gen(rng, k) -> dict of JSON-able inputs; corners: explicit inputs tried first"""
    def deco(f):
        CHECKS[f.__name__] = dict(f=f, gen=gen, n=n, corners=list(corners or []), slow=slow)
        return f
    return deco

def fail(msg): raise AssertionError(msg)
def close(a, b, tol=1e-9, what='value', scale=None):
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape: fail('%s: shape %r != %r' % (what, a.shape, b.shape))
    if a.size == 0: return
    d = np.abs(a.astype(complex) - b.astype(complex))
    s = scale if scale is not None else np.maximum(1.0, np.maximum(np.abs(a.astype(complex)), np.abs(b.astype(complex))))
    bad = ~(d <= tol * s)
    if bad.any():
        i = np.unravel_index(np.argmax(bad), bad.shape) if bad.shape else ()
        fail('%s%s: got %r, expected %r' % (what, list(map(int, i)), a[i], b[i]))
def same(a, b, what='value'):
    a = np.asarray(a); b = np.asarray(b)
    if a.shape != b.shape: fail('%s: shape %r != %r' % (what, a.shape, b.shape))
    if not np.array_equal(a, b):
        bad = ~(a == b); i = np.unravel_index(np.argmax(bad), bad.shape) if bad.shape else ()
        fail('%s%s: got %r, expected %r' % (what, list(map(int, i)), a[i], b[i]))
def is_(a, b, what='value'):
    if not (a == b): fail('%s: got %r, expected %r' % (what, a, b))
def raises(exc, f, what):
    try: r = f()
    except exc: return
    except Exception as e: fail('%s: raised %s(%s) instead of %s' % (what, type(e).__name__, e, exc))
    fail('%s: no error (returned %r)' % (what, r))
def rs(seed): return np.random.RandomState(int(seed) % (2**32))
def seeds(rng, k): return dict(seed=rng.randrange(2**31))
_N = [0]
def tempname(n):
    """a fresh path in the run's scratch directory (the current directory)"""
    _N[0] += 1; return os.path.join(os.getcwd(), 'f%d_%d_%s' % (os.getpid(), _N[0], n))
