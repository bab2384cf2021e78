"""Contracts for the numpy operations aipy uses, over arrays of symbolic shape (trusted; listed in evidence).

An ndarray is a shape (ints or symbolic Nums) and a generic-element function idx -> value, held in a mutable cell
with affine views, so aliasing and in-place updates behave as in numpy."""
import math
import types
import z3
from fractions import Fraction
from . import num
from .num import Num, SBool, SComplex, Unsupported, b_and, b_or, b_not, implies, engine, is_scalar

KORD = {'b': 0, 'i': 1, 'f': 2, 'c': 3, 'O': 4}
class dtype:
    def __init__(self, kind, name, itemsize=8): self.kind, self.name, self.itemsize = kind, name, itemsize; self.isnative = True
    @property
    def type(self): return self
    def __call__(self, x=0): return cast(x, self)
    def __repr__(self): return self.name
    def __eq__(self, o): return _dt(o) is not None and _dt(o).kind == self.kind
    def __hash__(self): return hash(self.kind)
double = float64 = float_ = dtype('f', 'float64'); float32 = single = dtype('f', 'float32', 4)
int_ = int64 = dtype('i', 'int64'); int32 = dtype('i', 'int32', 4); int16 = dtype('i', 'int16', 2); uint8 = dtype('i', 'uint8', 1)
long = longlong = int64
bool_ = dtype('b', 'bool', 1)
complex64 = dtype('c', 'complex64', 8); complex128 = dtype('c', 'complex128', 16)
object_ = dtype('O', 'object')
_kinddt = {'b': bool_, 'i': int64, 'f': float64, 'c': complex128, 'O': object_}
def _dt(d):
    if d is None: return None
    if isinstance(d, dtype): return d
    if d is float: return float64
    if d is int: return int64
    if d is bool: return bool_
    if d is complex: return complex128
    if isinstance(d, str):
        d = d.lstrip('<>=')
        return {'d': float64, 'f': float32, 'f8': float64, 'f4': float32, 'i': int32, 'i8': int64, 'i4': int32, 'int64': int64, 'int': int64,
                'float': float64, 'float64': float64, 'complex': complex128, 'F': complex64, 'D': complex128, 'c16': complex128, 'bool': bool_}.get(d)
    return getattr(d, '_symdt', None)

def kind_of(v):
    import numpy as _np
    if isinstance(v, ndarray): return v.kind
    if isinstance(v, (bool, SBool, _np.bool_)): return 'b'
    if isinstance(v, (int, _np.integer)): return 'i'
    if isinstance(v, Num): return 'i' if v.isint else 'f'
    if isinstance(v, (SComplex, complex, _np.complexfloating)): return 'c'
    if isinstance(v, (float, Fraction, _np.floating)): return 'f'
    return 'O'
def cast(v, d):
    d = _dt(d)
    if isinstance(v, ndarray): return v.astype(d)
    if d is None or d.kind == 'O': return v
    return castk(v, d.kind)
def castk(v, k):
    if k == 'O': return v
    vk = kind_of(v)
    if vk == k: return lift(v)
    if k == 'f':
        if vk == 'c': raise Unsupported('complex to real cast')
        n = Num.of(v)
        return Num(n.n, n.d, False) if n.isint else n
    if k == 'c': return SComplex.of(lift(v)) if vk != 'b' else SComplex(Num.of(v), 0)
    if k == 'i':
        if vk == 'b': return Num.of(v)
        if vk == 'f': return num.trunc(Num.of(v))
        raise Unsupported('cast to int')
    if k == 'b': return SBool.of(v != 0) if isinstance(v, (Num, SComplex)) else (v != 0)
    raise Unsupported('cast')
def lift(v):
    if isinstance(v, (Num, SComplex, SBool)): return v
    import numpy as _np
    if isinstance(v, _np.generic): v = v.item()
    if isinstance(v, bool): return v
    if isinstance(v, complex): return SComplex.of(v)
    if isinstance(v, (int, float, Fraction)): 
        if isinstance(v, float) and (v != v or v in (math.inf, -math.inf)): return Inf(v)
        return Num.of(v)
    return v

class Inf:
    """non-finite literal; only the operations with an obvious reading are supported"""
    def __init__(self, v): self.v = v
    def __neg__(self): return Inf(-self.v)
    def __rtruediv__(self, o): return Num.of(0)
    def __gt__(self, o): return self.v > 0
    def __ge__(self, o): return self.v > 0
    def __lt__(self, o): return self.v < 0
    def __le__(self, o): return self.v < 0
    def __eq__(self, o): return isinstance(o, Inf) and o.v == self.v
    def __hash__(self): return hash(self.v)
    def __float__(self): return self.v
    def __mul__(self, o): raise Unsupported('arithmetic with inf')
    __rmul__ = __add__ = __radd__ = __sub__ = __rsub__ = __truediv__ = __pow__ = __mul__
    def __repr__(self): return 'inf' if self.v > 0 else '-inf'

# ------------------------------------------------------------------ dims
def dim(d):
    if isinstance(d, Num):
        if d.isconst(): return int(d.const())
        return d
    if isinstance(d, SBool): raise Unsupported('bool dim')
    return int(d)
def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    r = (Num.of(a) == Num.of(b))
    if isinstance(r, bool): return r
    return engine().valid(r.z)
def dim_is1(a):
    if isinstance(a, int): return a == 1
    return False      # symbolic dims are generic; contracts assume >=2 or handle 1 separately
def ikey(i): return i.key() if isinstance(i, Num) else i
def nidx(i):
    if isinstance(i, Num): return int(i.const()) if i.isconst() else i
    return i

class Cell:
    def __init__(self, f): self.f = f; self.ver = 0; self.memo = {}
    def get(self, idx):
        idx = tuple(nidx(i) for i in idx)
        k = tuple(ikey(i) for i in idx)
        if k in self.memo: return self.memo[k]
        v = self.f(idx)
        self.memo[k] = v
        return v
    def write(self, cond, val):
        """new contents: val(idx) where cond(idx) else old"""
        old = self.f; oldmemo = self.memo
        def oldget(idx):
            k = tuple(ikey(i) for i in idx)
            if k in oldmemo: return oldmemo[k]
            v = old(idx); oldmemo[k] = v
            return v
        def f(idx):
            if cond(idx): return val(idx)
            return oldget(idx)
        self.f = f; self.memo = {}; self.ver += 1

def promote(*ks):
    return max(ks, key=lambda k: KORD[k])

class ndarray:
    __array_priority__ = 2000
    __array_ufunc__ = None
    def __init__(self, shape, f=None, kind='f', cell=None, fwd=None, bwd=None, bits=None):
        self._shape = tuple(dim(d) for d in shape)
        self.kind = kind
        self.cell = cell if cell is not None else Cell(f)
        self.fwd = fwd      # view idx -> base idx   (None: identity)
        self.bwd = bwd      # base idx -> (cond, view idx)
        self._dtype = None
        self.mask_of = None
    # ---- attributes
    @property
    def shape(self): return self._shape
    @shape.setter
    def shape(self, s):
        if isinstance(s, (int, Num)): s = (s,)
        r = reshape_view(self, tuple(s))
        self._shape, self.cell, self.fwd, self.bwd = r._shape, r.cell, r.fwd, r.bwd
    @property
    def ndim(self): return len(self._shape)
    @property
    def size(self):
        r = 1
        for d in self._shape: r = r * d
        return nidx(r) if isinstance(r, Num) else r
    @property
    def dtype(self): return self._dtype or _kinddt[self.kind]
    @property
    def real(self): return elementwise(lambda v: v.real if isinstance(v, SComplex) else v, self, kind='f' if self.kind == 'c' else self.kind)
    @property
    def imag(self): return elementwise(lambda v: v.imag if isinstance(v, SComplex) else Num.of(0), self, kind='f' if self.kind == 'c' else self.kind)
    @property
    def T(self): return self.transpose()
    @property
    def flat(self): return self.flatten()
    @property
    def base(self): return None if self.fwd is None else self
    def __repr__(self): return 'ndarray%r' % (self._shape,)
    # ---- element access
    def at(self, *idx):
        if len(idx) != len(self._shape): raise Unsupported('rank')
        idx = tuple(nidx(i) for i in idx)
        if self.fwd is not None: idx = self.fwd(idx)
        return self.cell.get(tuple(idx))
    def concrete(self): return all(isinstance(d, int) for d in self._shape)
    def indices(self):
        if not self.concrete(): raise Unsupported('enumeration of a symbolic shape')
        def rec(s):
            if not s: yield (); return
            for i in range(s[0]):
                for r in rec(s[1:]): yield (i,) + r
        return rec(self._shape)
    def __len__(self):
        d = self._shape[0]
        if isinstance(d, int): return d
        raise Unsupported('len of a symbolic dimension')
    def __iter__(self):
        if not self._shape: raise TypeError('iteration over a 0-d array')
        n = self._shape[0]
        if not isinstance(n, int): raise Unsupported('iteration over a symbolic dimension')
        return iter([self[i] for i in range(n)])
    def item(self): 
        if all(d == 1 for d in self._shape): return self.at(*([0] * self.ndim))
        raise Unsupported('item')
    def __bool__(self):
        if all(d == 1 for d in self._shape): return bool(self.at(*([0] * self.ndim)))
        raise ValueError('truth value of array is ambiguous')
    def __float__(self): return float(self.item())
    def __int__(self): return int(self.item())
    def __index__(self): return self.item().__index__()
    def tolist(self):
        if self.ndim == 0: return self.at()
        return [x.tolist() if isinstance(x, ndarray) else x for x in self]
    # ---- indexing
    def _norm(self, key):
        if not isinstance(key, tuple): key = (key,)
        n = sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:p] + (slice(None),) * (self.ndim - n) + key[p + 1:]
        else: key = key + (slice(None),) * (self.ndim - n)
        return key
    def _basic(self, key):
        """-> (shape, fwd, bwd) of the view"""
        shape = []; ops = []; ax = 0
        for k in key:
            if k is None:
                shape.append(1); ops.append(('new',)); continue
            d = self._shape[ax]
            if isinstance(k, slice):
                st = 1 if k.step is None else int(k.step)
                lo, hi = slice_bounds(k, d, st)
                n = slice_len(lo, hi, st)
                shape.append(n); ops.append(('sl', lo, st, n))
            else:
                i = nidx(k if isinstance(k, Num) else (k.item() if isinstance(k, ndarray) else k))
                if isinstance(i, SBool): raise Unsupported('bool index')
                if isinstance(i, int):
                    if i < 0:
                        if isinstance(d, int) and i < -d: raise IndexError(i)
                        i = i + d
                    elif isinstance(d, int) and i >= d: raise IndexError(i)
                elif isinstance(i, Num):
                    if not i.isint: raise IndexError('float index')
                    if i < 0: i = i + d
                    if b_or(i < 0, i >= d): raise IndexError(i)
                else: i = int(i)
                ops.append(('ix', i))
            ax += 1
        if ax != self.ndim: raise IndexError('too many indices')
        def fwd(idx):
            out = []; it = iter(idx)
            for o in ops:
                if o[0] == 'new': next(it)
                elif o[0] == 'ix': out.append(o[1])
                else: out.append(nidx(o[1] + next(it) * o[2]))
            return tuple(out)
        def bwd(bidx):
            c = True; out = []; it = iter(bidx)
            for o in ops:
                if o[0] == 'new': out.append(0); continue
                b = next(it)
                if o[0] == 'ix': c = b_and(c, Num.of(b) == o[1])
                else:
                    q = b - o[1]
                    if o[2] == 1: v = q
                    elif o[2] == -1: v = -q
                    else:
                        q = Num.of(q); c = b_and(c, q % o[2] == 0); v = q // o[2]
                    full = (o[2] == 1 and o[1] == 0 and False)
                    c = b_and(c, Num.of(v) >= 0, Num.of(v) < o[3])
                    out.append(nidx(v) if isinstance(v, Num) else v)
            return c, tuple(out)
        return shape, fwd, bwd
    def _compose(self, shape, fwd, bwd):
        pf, pb = self.fwd, self.bwd
        if pf is None: f2, b2 = fwd, bwd
        else:
            f2 = lambda idx: pf(fwd(idx))
            def b2(bidx):
                c, i = pb(bidx)
                if c is False: return False, None
                if c is not True and not c: return False, None
                c2, i2 = bwd(i)
                return c2, i2
        r = ndarray(shape, kind=self.kind, cell=self.cell, fwd=f2, bwd=b2)
        r._dtype = self._dtype
        return r
    def __getitem__(self, key):
        if isinstance(key, list): key = array(key)
        if isinstance(key, ndarray) and key.kind == 'b': return compress_nd(self, key)
        key = self._norm(key)
        adv = [k for k in key if isinstance(k, (ndarray, list)) and not (isinstance(k, ndarray) and k.ndim == 0)]
        if adv: return self._fancy(key)
        shape, fwd, bwd = self._basic(key)
        if not shape: return self.at(*fwd(())) if self.fwd is None else self.cell.get(self.fwd(fwd(())))
        return self._compose(shape, fwd, bwd)
    def _fancy(self, key):
        key = tuple(array(k) if isinstance(k, list) else k for k in key)
        arrs = [k for k in key if isinstance(k, ndarray)]
        if any(k is None for k in key): raise Unsupported('newaxis with fancy index')
        bs = bshape(*[a._shape for a in arrs])
        pos = [i for i, k in enumerate(key) if isinstance(k, ndarray)]
        if pos != list(range(pos[0], pos[0] + len(pos))): raise Unsupported('split fancy index')
        sls = [(i, k) for i, k in enumerate(key) if isinstance(k, slice)]
        info = {}; shape = []
        for i, k in enumerate(key):
            if isinstance(k, slice):
                st = 1 if k.step is None else int(k.step)
                lo, hi = slice_bounds(k, self._shape[i], st); n = slice_len(lo, hi, st)
                info[i] = (lo, st); shape.append(n)
            elif isinstance(k, ndarray):
                if i == pos[0]: shape.extend(bs)
            else: raise Unsupported('mixed index')
        me = self.copy_fn()
        nb = len(bs); first = pos[0]
        dims = self._shape
        def f(idx):
            bi = idx[first:first + nb]
            others = list(idx[:first]) + list(idx[first + nb:])
            out = []
            for i, k in enumerate(key):
                if isinstance(k, slice): 
                    v = others.pop(0); out.append(nidx(info[i][0] + v * info[i][1]))
                else:
                    v = Num.of(bget(k, bi, bs))
                    if v < 0: v = v + dims[i]
                    if b_or(v < 0, v >= dims[i]): raise IndexError('fancy index out of range')
                    out.append(nidx(v))
            return me(tuple(out))
        r = ndarray(shape, f, self.kind); r._dtype = self._dtype
        return r
    def copy_fn(self):
        """element function of the current contents (snapshot)"""
        f, memo, fwd = self.cell.f, self.cell.memo, self.fwd
        def g(idx):
            if fwd is not None: idx = fwd(idx)
            idx = tuple(nidx(i) for i in idx)
            k = tuple(ikey(i) for i in idx)
            if k in memo: return memo[k]
            v = f(idx); memo[k] = v
            return v
        return g
    def __setitem__(self, key, val):
        if isinstance(key, list): key = array(key)
        kind = self.kind
        if isinstance(key, ndarray) and key.kind == 'b':
            if key.ndim != self.ndim: raise Unsupported('mask rank')
            m = key.copy_fn(); 
            if isinstance(val, ndarray) and val.ndim: raise Unsupported('masked assignment of arrays')
            self._write(lambda idx: m(idx), lambda idx: castk(lift(val), kind)); return
        key = self._norm(key)
        if any(isinstance(k, (ndarray, list)) and not (isinstance(k, ndarray) and k.ndim == 0) for k in key):
            return self._setfancy(key, val)
        shape, fwd, bwd = self._basic(key)
        if isinstance(val, (list, tuple)): val = array(val)
        if isinstance(val, ndarray):
            # drop leading ones
            vs = val._shape
            while len(vs) > len(shape) and vs[0] == 1: vs = vs[1:]
            bshape_check(vs, shape)
            off = val.ndim - len(vs)
            src = val.copy_fn(); vsh = val._shape
            def get(idx):
                idx = idx[len(idx) - len(vs):] if len(vs) else ()
                idx = (0,) * off + tuple(0 if dim_is1(d) else i for d, i in zip(vs, idx))
                return castk(lift(src(idx)), kind)
        else:
            lv = lift(val)
            get = lambda idx: castk(lv, kind)
        hold = {}
        def cond(idx):
            c, i = bwd(idx)
            return c
        def value(idx):
            c, i = bwd(idx)
            return get(i)
        self._write(cond, value)
    def _setfancy(self, key, val):
        if self.ndim == 1 and len(key) == 1 and isinstance(key[0], ndarray) and key[0].ndim == 1 and key[0].concrete():
            for n in range(key[0]._shape[0]):
                self[key[0].at(n)] = val.at(n if val._shape[0] != 1 else 0) if isinstance(val, ndarray) and val.ndim else val
            return
        if self.ndim == 1 and len(key) == 1 and isinstance(key[0], ndarray) and key[0].ndim == 1 and num.engine().valid((Num.of(key[0]._shape[0]) == 1).z):
            if isinstance(val, ndarray) and val.ndim and not num.engine().valid((Num.of(val._shape[-1]) == 1).z): raise ValueError('shape mismatch')
            self[key[0].at(0)] = val.at(*((0,) * val.ndim)) if isinstance(val, ndarray) else val; return
        raise Unsupported('fancy assignment')
    def _write(self, cond, value):
        if self.bwd is None:
            self.cell.write(lambda idx: _b(cond(idx)), value); return
        bwd = self.bwd
        def c2(bidx):
            c, i = bwd(bidx)
            if not _b(c): return False
            return _b(cond(i))
        def v2(bidx):
            c, i = bwd(bidx)
            return value(i)
        self.cell.write(c2, v2)
    def _inplace(self, op, o):
        src = self.copy_fn(); kind = self.kind
        if isinstance(o, (list, tuple)): o = array(o)
        if isinstance(o, ndarray):
            bshape_check(o._shape, self._shape)
            og = o.copy_fn(); os_ = o._shape
            oo = lambda idx: og(tuple(0 if dim_is1(d) else i for d, i in zip(os_, idx[len(idx) - len(os_):] if os_ else ())))
            ok = o.kind
        else:
            lo = lift(o); oo = lambda idx: lo; ok = kind_of(o)
        if KORD[ok] > KORD[kind] and not (kind == 'b'): raise TypeError('cannot cast in-place %s to %s' % (ok, kind))
        self._write(lambda idx: True, lambda idx: castk(op(src(idx), oo(idx)), kind))
        return self
    def __iadd__(self, o): return self._inplace(lambda a, b: a + b, o)
    def __isub__(self, o): return self._inplace(lambda a, b: a - b, o)
    def __imul__(self, o): return self._inplace(lambda a, b: a * b, o)
    def __itruediv__(self, o): return self._inplace(lambda a, b: a / b, o)
    def __ipow__(self, o): return self._inplace(lambda a, b: a ** b, o)
    # ---- arithmetic
    def _ew(self, op, o, kind=None, swap=False):
        if isinstance(o, (list, tuple)): o = array(o)
        if not isinstance(o, ndarray) and not is_scalar(o) and not isinstance(o, Inf): return NotImplemented
        return elementwise((lambda a, b: op(b, a)) if swap else op, self, o, kind=kind)
    def __add__(self, o): return self._ew(lambda a, b: a + b, o)
    def __radd__(self, o): return self._ew(lambda a, b: a + b, o, swap=True)
    def __sub__(self, o): return self._ew(lambda a, b: a - b, o)
    def __rsub__(self, o): return self._ew(lambda a, b: a - b, o, swap=True)
    def __mul__(self, o): return self._ew(lambda a, b: a * b, o)
    def __rmul__(self, o): return self._ew(lambda a, b: a * b, o, swap=True)
    def __truediv__(self, o): return self._ew(lambda a, b: a / b, o, kind='div')
    def __rtruediv__(self, o): return self._ew(lambda a, b: a / b, o, kind='div', swap=True)
    def __floordiv__(self, o): return self._ew(lambda a, b: a // b, o)
    def __rfloordiv__(self, o): return self._ew(lambda a, b: a // b, o, swap=True)
    def __mod__(self, o): return self._ew(lambda a, b: a % b, o)
    def __rmod__(self, o): return self._ew(lambda a, b: a % b, o, swap=True)
    def __pow__(self, o): return self._ew(lambda a, b: a ** b, o)
    def __rpow__(self, o): return self._ew(lambda a, b: a ** b, o, swap=True)
    def __neg__(self): return elementwise(lambda v: -v, self)
    def __pos__(self): return self.copy()
    def __abs__(self): return absolute(self)
    def __invert__(self): return elementwise(lambda v: b_not(v) if isinstance(v, (bool, SBool)) else ~v, self)
    def __and__(self, o): return self._ew(lambda a, b: b_and(a, b) if isinstance(a, (bool, SBool)) else a & b, o)
    __rand__ = __and__
    def __rshift__(self, o): return self._ew(lambda a, b: a >> b, o)
    def __lshift__(self, o): return self._ew(lambda a, b: a << b, o)
    def __or__(self, o): return self._ew(lambda a, b: b_or(a, b) if isinstance(a, (bool, SBool)) else a | b, o)
    __ror__ = __or__
    def __lt__(self, o): return self._ew(lambda a, b: a < b, o, kind='b')
    def __le__(self, o): return self._ew(lambda a, b: a <= b, o, kind='b')
    def __gt__(self, o): return self._ew(lambda a, b: a > b, o, kind='b')
    def __ge__(self, o): return self._ew(lambda a, b: a >= b, o, kind='b')
    def __eq__(self, o):
        r = self._ew(lambda a, b: a == b, o, kind='b')
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._ew(lambda a, b: a != b, o, kind='b')
        return True if r is NotImplemented else r
    __hash__ = None
    # ---- methods
    def copy(self, order='C'):
        r = ndarray(self._shape, self.copy_fn(), self.kind); r._dtype = self._dtype
        return r
    __copy__ = copy
    def __deepcopy__(self, memo): return self.copy()
    def astype(self, d, copy=True):
        d = _dt(d)
        if d is None: raise Unsupported('dtype')
        k = d.kind; f = self.copy_fn()
        # numpy drops the imaginary part (with a warning) when a complex array is cast
        g = (lambda v: castk(v.re if isinstance(v, SComplex) and k in 'fi' else v, k))
        r = ndarray(self._shape, lambda idx: g(f(idx)), k); r._dtype = d
        return r
    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (list, tuple))): axes = axes[0]
        if not axes: axes = tuple(range(self.ndim))[::-1]
        axes = tuple(a % self.ndim for a in axes)
        if sorted(axes) != list(range(self.ndim)): raise ValueError("axes don't match array")
        inv = [axes.index(k) for k in range(self.ndim)]
        shape = [self._shape[a] for a in axes]
        return self._compose(shape, lambda idx: tuple(idx[inv[k]] for k in range(len(inv))),
                             lambda b: (True, tuple(b[a] for a in axes)))
    def reshape(self, *s, **k):
        if len(s) == 1 and isinstance(s[0], (tuple, list)): s = tuple(s[0])
        return reshape_view(self, s)
    def flatten(self, order='C'):
        return reshape_view(self, (-1,)).copy()
    ravel = lambda self, order='C': reshape_view(self, (-1,))
    def squeeze(self, axis=None):
        keep = [i for i, d in enumerate(self._shape) if not dim_is1(d)]
        if axis is not None:
            axs = axis if isinstance(axis, tuple) else (axis,)
            keep = [i for i in range(self.ndim) if i not in [a % self.ndim for a in axs]]
        if len(keep) == self.ndim: return self
        nd = self.ndim
        def fwd(idx):
            out = [0] * nd
            for k, i in zip(keep, idx): out[k] = i
            return tuple(out)
        return self._compose([self._shape[k] for k in keep], fwd, lambda b: (True, tuple(b[k] for k in keep)))
    def conj(self): return conjugate(self)
    conjugate = conj
    def sum(self, axis=None, dtype=None, keepdims=False): return sum_(self, axis)
    def mean(self, axis=None): return average(self, axis)
    def dot(self, o): return dot(self, o)
    def take(self, idx, axis=None):
        if axis is None: return take(reshape_view(self, (-1,)), idx, 0)
        return take(self, idx, axis)
    def compress(self, cond, axis=None): return compress(cond, self, axis)
    def all(self, axis=None): return all_(self, axis)
    def any(self, axis=None): return any_(self, axis)
    def max(self, axis=None): return amax(self, axis)
    def min(self, axis=None): return amin(self, axis)
    def fill(self, v): self[...] = v
    def clip(self, lo, hi): return clip(self, lo, hi)
    def round(self, d=0): return round_(self)
    def nonzero(self): raise Unsupported('nonzero')
    def put(self, *a): raise Unsupported('put')
    def searchsorted(self, *a): raise Unsupported('searchsorted')
    def argmax(self, *a): raise Unsupported('argmax')
    def view(self, *a): raise Unsupported('view')
    def byteswap(self, *a): raise Unsupported('byteswap')

def _b(c): return c if isinstance(c, bool) else bool(c)
def slice_bounds(k, d, st):
    def nz(v, default):
        if v is None: return default
        v = nidx(Num.of(v)) if isinstance(v, (Num,)) or not isinstance(v, int) else v
        neg = v < 0
        if isinstance(neg, SBool): neg = bool(neg)
        if neg:
            v = nidx(Num.of(v + d)); 
            lowclip = v < 0
            if isinstance(lowclip, SBool): lowclip = bool(lowclip)
            if lowclip: v = 0 if st > 0 else -1
        else:
            over = v > d if st > 0 else v > d - 1
            if isinstance(over, SBool): over = bool(over)
            if over: v = d if st > 0 else d - 1
        return v
    if st > 0: return nz(k.start, 0), nz(k.stop, d)
    return nz(k.start, d - 1), nz(k.stop, -1)
def slice_len(lo, hi, st):
    if st > 0: n = hi - lo
    else: n = lo - hi; st = -st
    if isinstance(n, int): return max(0, -(-n // st))
    n = Num.of(n)
    if n < 0: return 0
    if st != 1: n = -((-n) // st)
    return nidx(n)

def bshape(*shapes):
    n = max((len(s) for s in shapes), default=0)
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0: continue
            e = s[j]
            if dim_is1(e): continue
            if dim_is1(d): d = e
            elif not dim_eq(d, e):
                if isinstance(d, int) and isinstance(e, int): raise ValueError('operands could not be broadcast together %r' % (shapes,))
                raise Unsupported('cannot relate dimensions %r %r' % (d, e))
        out.append(d)
    return tuple(out)
def bshape_check(src, dst):
    r = bshape(src, dst)
    if len(r) != len(dst): raise ValueError('could not broadcast input array')
    for a, b in zip(r, dst):
        if not dim_eq(a, b): raise ValueError('could not broadcast input array')
def bget(a, idx, bs):
    s = a._shape
    idx = idx[len(idx) - len(s):] if s else ()
    return a.at(*tuple(0 if dim_is1(d) else i for d, i in zip(s, idx)))

def elementwise(op, *args, kind=None):
    args = [array(a) if isinstance(a, (list, tuple)) else a for a in args]
    arrs = [a for a in args if isinstance(a, ndarray)]
    ma = [a for a in arrs if isinstance(a, MA)]
    if not arrs: return op(*[lift(a) for a in args])
    sh = bshape(*[a._shape for a in arrs])
    snaps = []
    for a in args:
        if isinstance(a, ndarray):
            f = a.copy_fn(); s = a._shape
            snaps.append((f, s))
        else:
            v = lift(a); snaps.append((None, v))
    def g(idx):
        vs = []
        for f, s in snaps:
            if f is None: vs.append(s); continue
            j = idx[len(idx) - len(s):] if s else ()
            vs.append(f(tuple(0 if dim_is1(d) else i for d, i in zip(s, j))))
        return op(*vs)
    if kind is None: k = promote(*[kind_of(a) for a in args])
    elif kind == 'div': k = promote('f', *[kind_of(a) for a in args])
    else: k = kind
    # boolean arithmetic
    if ma: return MA._wrap(sh, g, k, args)
    return ndarray(sh, g, k)

# ------------------------------------------------------------------ creation
def array(x, dtype=None, copy=True, ndmin=0, **kw):
    d = _dt(dtype)
    if isinstance(x, ndarray):
        r = x.copy()
        return r.astype(d) if d is not None else r
    if hasattr(x, '_symtype') and x._symtype is list:
        r = _array_of_symlist(x)
        return r.astype(d) if d is not None else r
    if isinstance(x, (list, tuple, range)) or (hasattr(x, '__iter__') and not isinstance(x, (str, bytes, dict)) and not is_scalar(x)):
        xs = [y for y in x]
        if not xs: return ndarray((0,), lambda i: Num.of(0), d.kind if d else 'f')
        els = [array(y) if isinstance(y, (list, tuple, range, ndarray)) or hasattr(y, '__iter__') and not isinstance(y, (str, SBool)) and not is_scalar(y) else lift(y) for y in xs]
        els = [e if not (isinstance(e, ndarray) and e.ndim == 0) else e.at() for e in els]
        if any(isinstance(e, ndarray) for e in els):
            if not all(isinstance(e, ndarray) for e in els): raise ValueError('inhomogeneous shape')
            s0 = els[0]._shape
            for e in els[1:]:
                if len(e._shape) != len(s0) or not all(dim_eq(a, b) for a, b in zip(e._shape, s0)): raise ValueError('inhomogeneous shape')
            k = promote(*[e.kind for e in els])
            fs = [e.copy_fn() for e in els]
            def f(idx):
                return castk(pick(fs, idx[0])(idx[1:]), k)
            r = ndarray((len(els),) + s0, f, k)
        else:
            k = promote(*[kind_of(e) for e in els])
            r = ndarray((len(els),), lambda idx: castk(pick(els, idx[0]), k), k)
        return r.astype(d) if d is not None else r
    v = lift(x)
    if d is not None: v = castk(v, d.kind)
    return ndarray((), lambda idx: v, d.kind if d else kind_of(v))
def _array_of_symlist(x):
    """np.array of a list of unknown length: element k is the array of the k-th entry; every entry has the shape (and
    kind) of an arbitrary one, else numpy would refuse"""
    E = num.engine(); n = nidx(x.n)
    if isinstance(n, int) and n <= 8: return array([x.f(Num.of(k)) for k in range(n)])
    if not bool(x.n > 0): return ndarray((0,), lambda i: Num.of(0), 'f')
    E.fresh += 1
    k = Num.var(num.atom(('ix', E.cur, E.fresh, 'row'), 'row%d' % E.fresh, True)); num.ATOMS[next(iter(k.atoms()))].meta = dict(range=(0, 4))
    E.assume(k >= 0); E.assume(k < x.n)
    f = x.f; e0 = array(f(k)); shp = e0._shape; kd = e0.kind
    def el(idx):
        e = array(f(Num.of(idx[0])))
        if len(e._shape) != len(shp) or not all(dim_eq(a, b) for a, b in zip(e._shape, shp)): raise Unsupported('rows of different shapes')
        return castk(e.at(*idx[1:]), kd)
    return ndarray((n,) + tuple(shp), el, kd)
def pick(lst, i):
    if isinstance(i, Num):
        for n in range(len(lst) - 1):
            if i == n: return lst[n]
        return lst[-1]
    return lst[i]
asarray = ascontiguousarray = lambda x, dtype=None, **k: (x if isinstance(x, ndarray) and dtype is None else array(x, dtype))
def _sh(s):
    if isinstance(s, (int, Num)): return (s,)
    return tuple(s)
def _const(shape, v, d):
    d = _dt(d) or float64
    r = ndarray(_sh(shape), lambda idx: castk(v, d.kind), d.kind); r._dtype = d
    return r
def _as(a, r): r._dtype = a._dtype; return r
def zeros(shape=(), dtype=None, order=None, **k): return _const(k.get('shape', shape), Num.of(0), dtype)
def ones(shape=(), dtype=None, order=None, **k): return _const(shape, Num.of(1), dtype)
_nempty = [0]
def empty(shape=(), dtype=None, order=None, **k):
    """elements of unknown value"""
    from .api import func
    d = _dt(dtype) or float64; _nempty[0] += 1; nm = 'uninitialised %d' % _nempty[0]
    if d.kind == 'b': raise Unsupported('empty array of flags')
    r = ndarray(_sh(k.get('shape', shape)), lambda idx: SComplex(func(nm + 're', list(idx)), func(nm + 'im', list(idx))) if d.kind == 'c' else func(nm, list(idx), d.kind == 'i'), d.kind); r._dtype = d; return r
def empty_like(a, dtype=None):
    if not isinstance(a, ndarray): a = array(a)
    return empty(a._shape, dtype or a.dtype)
def full(shape, v, dtype=None): return _const(shape, lift(v), dtype or _kinddt[kind_of(v)])
def _like(a, v, dtype):
    if not isinstance(a, ndarray): a = array(a)
    return _const(a._shape, v, dtype or a.dtype)
def zeros_like(a, dtype=None): return _like(a, Num.of(0), dtype)
def ones_like(a, dtype=None): return _like(a, Num.of(1), dtype)
def arange(a, b=None, step=1, dtype=None):
    if b is None: a, b = 0, a
    step = Num.of(step); a = Num.of(a); b = Num.of(b)
    if a.isint and b.isint and step.isint and step.isconst() and step.const() != 0:
        n = slice_len(nidx(a), nidx(b), int(step.const()))
    else:
        if step.isconst() and a.isconst() and b.isconst():
            n = max(0, math.ceil((b.const() - a.const()) / step.const()))
        else:
            q = (b - a) / step
            n = num.ceil(q)
            if n < 0: n = 0
            n = nidx(Num.of(n))
    d = _dt(dtype)
    k = d.kind if d else ('i' if a.isint and step.isint else 'f')
    return ndarray((n,), lambda idx: castk(a + step * idx[0], k), k)
def linspace(a, b, n=50, **k):
    return ndarray((n,), lambda idx: Num.of(a) + (Num.of(b) - a) * idx[0] / (n - 1), 'f')
def indices(shape, dtype=None):
    sh = _sh(shape)
    return ndarray((len(sh),) + tuple(sh), lambda idx: Num.of(pick(list(idx[1:]), idx[0])), 'i')
def fromfunction(f, shape, dtype=float64, **k):
    sh = _sh(shape)
    kk = _dt(dtype).kind
    args = [ndarray(sh, (lambda idx, n=n: castk(Num.of(idx[n]), kk)), kk) for n in range(len(sh))]
    return f(*args, **k)
def eye(n, dtype=None):
    return ndarray((n, n), lambda idx: Num.of(1) if Num.of(idx[0]) == idx[1] else Num.of(0), 'f')
identity = eye

# ------------------------------------------------------------------ shape ops
def reshape(a, s):
    if not isinstance(a, ndarray): a = array(a)
    return reshape_view(a, _sh(s))
def reshape_view(a, s):
    s = list(dim(x) if not (isinstance(x, int) and x == -1) else -1 for x in s)
    old = a._shape
    # total and -1
    if -1 in s:
        p = s.index(-1)
        known = 1
        for x in s:
            if x != -1 or isinstance(x, Num): known = known * x if not (isinstance(x, int) and x == -1) else known
        tot = a.size
        if isinstance(tot, int) and isinstance(known, int):
            if known == 0 or tot % known: raise ValueError('cannot reshape')
            s[p] = tot // known
        else:
            q = Num.of(tot) / Num.of(known) if not (isinstance(known, int) and known == 1) else Num.of(tot)
            s[p] = nidx(Num(q.n, q.d, True))
    s = tuple(s)
    if len(s) == len(old) and all(dim_eq(x, y) for x, y in zip(s, old)):
        return a._compose(old, lambda i: i, lambda b: (True, b))
    # insertion/removal of ones
    o1 = [k for k, d in enumerate(old) if not dim_is1(d)]; n1 = [k for k, d in enumerate(s) if not dim_is1(d)]
    if len(o1) == len(n1) and all(dim_eq(old[x], s[y]) for x, y in zip(o1, n1)):
        no, nn = len(old), len(s)
        def fwd(idx):
            out = [0] * no
            for x, y in zip(o1, n1): out[x] = idx[y]
            return tuple(out)
        def bwd(b):
            out = [0] * nn
            for x, y in zip(o1, n1): out[y] = b[x]
            return True, tuple(out)
        return a._compose(s, fwd, bwd)
    # general: row-major linearisation
    tot = 1
    for d in s: tot = tot * d
    if not dim_eq(nidx(Num.of(tot)), nidx(Num.of(a.size))): raise ValueError('cannot reshape array of size %r into shape %r' % (a.size, s))
    def lin(idx, sh):
        r = Num.of(0)
        for i, d in zip(idx, sh): r = r * d + i
        return r
    def unlin(l, sh):
        out = []
        for d in reversed(sh[1:]):
            d = Num.of(d)
            # l = q*d + r : recognise the split syntactically when possible
            q, r = split(l, d)
            out.append(nidx(r)); l = q
        out.append(nidx(l))
        return tuple(reversed(out))
    return a._compose(s, lambda idx: unlin(lin(idx, s), old), lambda b: (True, unlin(lin(b, old), s)))
def split(l, d):
    l = Num.of(l)
    if l.isconst() and d.isconst(): return Num.of(int(l.const()) // int(d.const())), Num.of(int(l.const()) % int(d.const()))
    # terms divisible by d's monomial
    if len(d.n) == 1 and not d.isconst():
        (m, c), = d.n.items()
        q = {}; r = {}
        dm = dict(m)
        for mm, cc in l.n.items():
            e = dict(mm)
            if all(e.get(i, 0) >= x for i, x in dm.items()) and (cc / c).denominator == 1: q[num.m_div(mm, m)] = cc / c
            else: r[mm] = cc
        Q, R = Num(q, None, True), Num(r, None, True)
        if engine().valid(SBool.of(b_and(R >= 0, R < d)).z): return Q, R
    return l // d, l % d
def transpose(a, axes=None):
    if not isinstance(a, ndarray): a = array(a)
    return a.transpose(axes) if axes is not None else a.transpose()
def swapaxes(a, x, y):
    ax = list(range(a.ndim)); ax[x], ax[y] = ax[y], ax[x]
    return a.transpose(ax)
def rollaxis(a, axis, start=0):
    ax = [k for k in range(a.ndim) if k != axis % a.ndim]; ax.insert(start, axis % a.ndim)
    return a.transpose(ax)
def moveaxis(a, s, d):
    ax = [k for k in range(a.ndim) if k != s % a.ndim]; ax.insert(d % a.ndim, s % a.ndim)
    return a.transpose(ax)
def expand_dims(a, axis):
    key = [slice(None)] * a.ndim; key.insert(axis if axis >= 0 else a.ndim + 1 + axis, None)
    return a[tuple(key)]
def ravel(a): return (a if isinstance(a, ndarray) else array(a)).ravel()
def squeeze(a, axis=None): return a.squeeze() if not isinstance(a, ndarray) else a.squeeze(axis)
def atleast_1d(a):
    a = a if isinstance(a, ndarray) else array(a)
    return a if a.ndim else a.reshape(1)
def concatenate(xs, axis=0, **k):
    xs = [x if isinstance(x, ndarray) else array(x) for x in xs]
    nd = xs[0].ndim
    if nd == 0: raise ValueError('zero-dimensional arrays cannot be concatenated')
    axis = axis % nd
    for x in xs[1:]:
        if x.ndim != nd: raise ValueError('dims')
        for j in range(nd):
            if j != axis and not dim_eq(x._shape[j], xs[0]._shape[j]): raise ValueError('dims mismatch in concatenate')
    offs = [0]
    for x in xs: offs.append(nidx(Num.of(offs[-1] + x._shape[axis])))
    kd = promote(*[x.kind for x in xs]); fs = [x.copy_fn() for x in xs]
    def f(idx):
        i = Num.of(idx[axis])
        for n in range(len(xs)):
            if n == len(xs) - 1 or i < offs[n + 1]:
                j = tuple(nidx(i - offs[n]) if k == axis else v for k, v in enumerate(idx))
                return castk(fs[n](j), kd)
    sh = tuple(offs[-1] if j == axis else d for j, d in enumerate(xs[0]._shape))
    r = ndarray(sh, f, kd)
    if len({str(x.dtype) for x in xs}) == 1: r._dtype = xs[0]._dtype
    return r
def stack(xs, axis=0):
    a = array(list(xs))
    return moveaxis(a, 0, axis) if axis else a
def vstack(xs): return concatenate([x if x.ndim > 1 else x.reshape(1, -1) for x in map(asarray, xs)], 0)
def hstack(xs): return concatenate([asarray(x) for x in xs], 0 if asarray(xs[0]).ndim == 1 else 1)
def column_stack(xs): return stack([asarray(x) for x in xs], 1)
def resize(a, shape):
    """repeat the flattened data to fill shape"""
    a = (a if isinstance(a, ndarray) else array(a))
    sh = _sh(shape)
    fl = reshape_view(a, (-1,)); n = fl._shape[0]; f = fl.copy_fn()
    if len(sh) == 2 and dim_eq(dim(sh[1]), n):
        return _as(a, ndarray(sh, lambda idx: f((idx[1],)), a.kind))
    if len(sh) == 1 and dim_eq(dim(sh[0]), n): return fl.copy()
    def g(idx):
        l = Num.of(0)
        for i, d in zip(idx, sh): l = l * d + i
        return f((nidx(l % n),))
    return _as(a, ndarray(sh, g, a.kind))
def tile(a, reps):
    a = asarray(a)
    if isinstance(reps, (int, Num)): reps = (reps,)
    if len(reps) < a.ndim: reps = (1,) * (a.ndim - len(reps)) + tuple(reps)
    while a.ndim < len(reps): a = a[None]
    f = a.copy_fn(); s = a._shape
    return _as(a, ndarray([nidx(Num.of(d * r)) for d, r in zip(s, reps)], lambda idx: f(tuple(i if (isinstance(r, int) and r == 1) else (0 if dim_is1(d) else nidx(Num.of(i) % d)) for i, d, r in zip(idx, s, reps))), a.kind))
def repeat(a, n, axis=None):
    a = asarray(a)
    if axis is None: a = a.ravel(); axis = 0
    f = a.copy_fn()
    sh = list(a._shape); sh[axis] = nidx(Num.of(sh[axis] * n))
    return _as(a, ndarray(sh, lambda idx: f(tuple(nidx(Num.of(i) // n) if k == axis else i for k, i in enumerate(idx))), a.kind))
def broadcast_to(a, sh):
    a = asarray(a); s = a._shape; f = a.copy_fn(); bshape_check(s, _sh(sh))
    return _as(a, ndarray(_sh(sh), lambda idx: f(tuple(0 if dim_is1(d) else i for d, i in zip(s, idx[len(idx) - len(s):] if s else ()))), a.kind))
def flipud(a): return a[::-1]
def fliplr(a): return a[:, ::-1]
def roll(a, shift, axis=None):
    if axis is None:
        if a.ndim != 1: raise Unsupported('roll')
        axis = 0
    if isinstance(axis, tuple):
        for s, x in zip(shift, axis): a = roll(a, s, x)
        return a
    f = a.copy_fn(); n = a._shape[axis]
    return _as(a, ndarray(a._shape, lambda idx: f(tuple(nidx(Num.of(i - shift) % n) if k == axis else i for k, i in enumerate(idx))), a.kind))
def take(a, idx, axis=None):
    if not isinstance(a, ndarray): a = array(a)
    if axis is None: a = a.ravel(); axis = 0
    if not isinstance(idx, ndarray):
        if isinstance(idx, (list, tuple)): idx = array(idx)
        else: return a[(slice(None),) * axis + (idx,)]
    return a[(slice(None),) * (axis % a.ndim) + (idx,)]
def delete(*a, **k): raise Unsupported('delete')

# ------------------------------------------------------------------ compress
_MAPS = {}
def compress_map(mask):
    """(M, pi): number of selected entries and the increasing index map onto them (contract of compress)."""
    E = engine()
    reg = getattr(E, '_cmaps', None)
    if reg is None or reg[0] is not E.pc: reg = (E.pc, {}); E._cmaps = reg
    key = (id(mask.cell), mask.cell.ver, mask.mask_of)
    key = (id(mask.cell), mask.cell.ver)
    if key in reg[1]: return reg[1][key][:2]
    f = mask.copy_fn(); n = mask._shape[0]
    tag = len(reg[1])
    M = num.atom(('cmpM', tag, E.cur), 'M%d' % tag, True)
    M = Num.var(M)
    E.assume(M >= 0); E.assume(M <= n)
    seen = {}; order = []
    def pi(k):
        k = Num.of(k)
        if k.key() in seen: return seen[k.key()]
        a = num.atom(('cmp', tag, E.cur, k.key()), 'pi%d(%r)' % (tag, k), True)
        v = Num.var(a)
        E.assume(v >= 0); E.assume(v < n)
        seen[k.key()] = v
        E.assume(SBool.of(f((v,))))
        if getattr(E, 'mono', None) is E.pc:      # the map is increasing
            for k2, v2 in order: E.assume(SBool.of(b_and(implies(k < k2, v < v2), implies(k2 < k, v2 < v), implies(k == k2, v == v2))))
            order.append((k, v))
        return v
    reg[1][key] = (nidx(M), pi, mask)
    # a selected entry means the selection is not empty, at the witnesses known so far
    for w in getattr(E, 'witnesses', []):
        if len(w) == 1: E.assume(SBool.of(b_or(b_not(b_and(w[0] >= 0, w[0] < n, f(w))), M >= 1)))
    return nidx(M), pi
def last_map():
    """(mask, number selected, index map) of the last symbolic compress"""
    E = engine(); M, pi, mask = list(E._cmaps[1].values())[-1]; return M, pi, mask
def compress(cond, a, axis=None):
    if not isinstance(cond, ndarray): cond = array(cond)
    if cond.kind != 'b': cond = cond != 0
    if axis is None:
        if a.ndim != 1: a = a.ravel()
        axis = 0
    n = cond._shape[0]
    f = a.copy_fn()
    if isinstance(n, int):
        keep = [i for i in range(n) if cond.at(i)]
        sh = list(a._shape); sh[axis] = len(keep)
        return _as(a, ndarray(sh, lambda idx: f(tuple(pick(keep, i) if k == axis else i for k, i in enumerate(idx))), a.kind))
    if not dim_eq(n, a._shape[axis]): raise ValueError('compress dims')
    M, pi = compress_map(cond)
    sh = list(a._shape); sh[axis] = M
    return _as(a, ndarray(sh, lambda idx: f(tuple(nidx(pi(i)) if k == axis else i for k, i in enumerate(idx))), a.kind))
def compress_nd(a, mask):
    if mask.ndim == 1: return compress(mask, a, 0)
    if mask.ndim == a.ndim and a.concrete():
        return compress(mask.ravel(), a.ravel(), 0)
    raise Unsupported('nd boolean mask')

# ------------------------------------------------------------------ reductions
class SumInfo:
    def __init__(self, n, f): self.n, self.f = n, f
def sum_over(n, f, iscomplex, isint=False):
    """sum_{k<n} f(k)"""
    if isinstance(n, int):
        r = SComplex(0, 0) if iscomplex else Num.of(0)
        if n > 3000: raise Unsupported('long concrete sum')
        for k in range(n): r = r + f(k)
        return r
    E = engine()
    el = _generic(E, f, n)
    if el is not None:
        import hashlib; tag = ('el', repr(Num.of(n).key()), el); nm = hashlib.md5(repr(tag).encode()).hexdigest()[:10]
    else: E.fresh += 1; tag = (E.cur, E.fresh); nm = '%d' % E.fresh
    def mkatom(part):
        a = num.atom(('sum', tag, part), 'Sum%s%s' % (nm, part), isint, 'sum')
        a.meta = SumInfo(n, f)
        return Num.var(a)
    if iscomplex: return SComplex(mkatom('re'), mkatom('im'))
    return mkatom('')
GDEPTH = [0]
def _generic(E, f, n=None):
    """canonical description of k -> f(k): the decision tree of its value at a bound-variable index (None when it cannot be given); equal descriptions mean equal functions"""
    import z3
    p = Num.var(num.atom(('bound', GDEPTH[0]), 'bnd%d' % GDEPTH[0], True)); saved = {k: E.__dict__[k] for k in ('branch', 'defined', 'assume') if k in E.__dict__}
    todo, tree = [[]], []; rng = [] if n is None else [SBool.of(b_and(p >= 0, p < n)).z]
    E.defined = lambda *a, **k: None
    E.assume = lambda c: None
    GDEPTH[0] += 1
    try:
        while todo:
            script = todo.pop(); conds = []
            def br(z):
                z = z3.simplify(z)
                if z3.is_true(z): return True
                if z3.is_false(z): return False
                for c, d in conds:
                    if c.eq(z): return d
                    if z3.is_not(z) and c.eq(z.children()[0]): return not d
                old = E.pc; E.pc = old + rng + [c if d else z3.Not(c) for c, d in conds]
                try: q = E.quick(z)
                finally: E.pc = old
                if q is not None: return q
                if len(conds) < len(script): d = script[len(conds)]
                else: d = True; todo.append([x for _, x in conds] + [False]); script.append(True)
                conds.append((z, d))
                if len(conds) > 12: raise Unsupported('deep conditional element')
                return d
            E.branch = br
            try:
                v = f(p)
                v = ('c', Num.of(v.re).key(), Num.of(v.im).key()) if isinstance(v, SComplex) else Num.of(v).key()
            except (IndexError, TypeError, AttributeError, ValueError, RecursionError): return None
            tree.append((tuple((z.sexpr(), d) for z, d in conds), v))
            if len(tree) + len(todo) > 12: return None
        if all(v == tree[0][1] for _, v in tree): tree = [((), tree[0][1])]
        return repr(sorted(tree, key=repr))
    except Unsupported: return None
    finally:
        GDEPTH[0] -= 1
        for k in ('branch', 'defined', 'assume'):
            if k in saved: setattr(E, k, saved[k])
            else: E.__dict__.pop(k, None)
def sum_info(v):
    """SumInfo of a symbolic-length sum value (raises Unsupported when v is not exactly one such sum)."""
    r = v.re if isinstance(v, SComplex) else v
    if len(r.n) == 1 and num.p_isconst(r.d):
        (m, c), = r.n.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(num.ATOMS[m[0][0]].meta, SumInfo): return num.ATOMS[m[0][0]].meta
    raise Unsupported('value is not a single sum')
def sum_(a, axis=None, **k):
    if isinstance(a, (list, tuple)): a = array(a)
    if not isinstance(a, ndarray): return a
    if axis is None:
        b = a
        while b.ndim: b = sum_(b, 0)
        return b
    axis = axis % a.ndim
    f = a.copy_fn(); n = a._shape[axis]; kd = a.kind if a.kind != 'b' else 'i'
    sh = a._shape[:axis] + a._shape[axis + 1:]
    def g(idx):
        return sum_over(n, lambda k: castk(f(idx[:axis] + (k,) + idx[axis:]), kd), kd == 'c')
    if not sh: return g(())
    return ndarray(sh, g, kd)
def dot(a, b):
    a = a if isinstance(a, ndarray) else array(a); b = b if isinstance(b, ndarray) else array(b)
    if a.ndim == 0 or b.ndim == 0: return a * b
    fa, fb = a.copy_fn(), b.copy_fn()
    n = a._shape[-1]; bax = 0 if b.ndim == 1 else b.ndim - 2
    if not dim_eq(n, b._shape[bax]): raise ValueError('shapes %r and %r not aligned' % (a._shape, b._shape))
    na = a.ndim - 1
    kd = promote(a.kind, b.kind)
    sh = a._shape[:-1] + b._shape[:bax] + b._shape[bax + 1:]
    def g(idx):
        ia, ib = idx[:na], idx[na:]
        return sum_over(n, lambda k: castk(fa(ia + (k,)) * fb(ib[:bax] + (k,) + ib[bax:]), kd), kd == 'c')
    if not sh: return g(())
    return ndarray(sh, g, kd)
def matmul(a, b):
    if a.ndim <= 2 and b.ndim <= 2: return dot(a, b)
    raise Unsupported('matmul')
ndarray.__matmul__ = lambda a, b: matmul(a, b)
def outer(a, b):
    a, b = ravel(a), ravel(b)
    return a[:, None] * b[None, :]
def einsum(spec, *ops):
    spec = spec.replace(' ', '')
    if '...' in spec or '->' not in spec: raise Unsupported('einsum ' + spec)
    ins, out = spec.split('->'); ins = ins.split(',')
    ops = [asarray(o) for o in ops]; dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim or len(set(s)) != len(s): raise Unsupported('einsum')
        for c, d in zip(s, o._shape):
            if c in dims and not dim_eq(dims[c], d): raise ValueError('einsum dims')
            dims[c] = d
    fs = [o.copy_fn() for o in ops]; inner = [c for c in dims if c not in out]
    kd = promote(*[o.kind for o in ops])
    def term(env):
        r = None
        for s, f in zip(ins, fs):
            v = f(tuple(env[c] for c in s)); r = v if r is None else r * v
        return castk(r, kd)
    def rec(rest, env):
        if not rest: return term(env)
        c = rest[0]
        return sum_over(dims[c], lambda k: rec(rest[1:], dict(env, **{c: k})), kd == 'c')
    g = lambda idx: rec(inner, dict(zip(out, idx)))
    if not out: return g(())
    return ndarray([dims[c] for c in out], g, kd)
def average(a, axis=None, weights=None):
    if weights is not None: raise Unsupported('weighted average')
    a = asarray(a)
    n = a.size if axis is None else a._shape[axis]
    return sum_(a, axis) / n
mean = average
def _allany(a, axis, isall):
    if isinstance(a, (bool, SBool, Num)): return a if not isinstance(a, Num) else a != 0
    a = asarray(a)
    if axis is not None: raise Unsupported('all/any with axis')
    f = a.copy_fn()
    def el(idx):
        v = f(idx)
        return v if isinstance(v, (bool, SBool)) else (v != 0)
    if a.concrete():
        vs = [el(i) for i in a.indices()]
        return b_and(*vs) if isall else b_or(*vs)
    E = engine()
    E.fresh += 1
    if E.choose('all' if isall else 'any'):
        if isall: E.universals.append((a._shape, el)); return True
        w = tuple(fresh_index(d, 'w') for d in a._shape); E.witnesses.append(w)
        E.assume(SBool.of(el(w))); return True
    if isall:
        w = tuple(fresh_index(d, 'w') for d in a._shape); E.witnesses.append(w)
        E.assume(SBool.of(b_not(el(w)))); return False
    E.universals.append((a._shape, lambda idx: b_not(el(idx)))); return False
def fresh_index(d, nm='k'):
    E = engine(); E.fresh += 1
    v = Num.var(num.atom(('ix', E.cur, E.fresh, nm), '%s%d' % (nm, E.fresh), True))
    E.assume(v >= 0); E.assume(v < d)
    return v
def all_(a, axis=None): return _allany(a, axis, True)
def any_(a, axis=None): return _allany(a, axis, False)
def _ext(a, axis, sign):
    a = asarray(a)
    if axis is not None or not a.concrete(): raise Unsupported('max/min of symbolic shape')
    r = None
    for i in a.indices():
        v = a.at(*i)
        if r is None or (v > r if sign > 0 else v < r): r = v
    if r is None: raise ValueError('zero-size array')
    return r
def amax(a, axis=None): return _ext(a, axis, 1)
def amin(a, axis=None): return _ext(a, axis, -1)
def cumsum(a, axis=None):
    a = asarray(a)
    if a.ndim != 1 or not a.concrete(): raise Unsupported('cumsum')
    out = []; r = Num.of(0)
    for i in range(a._shape[0]): r = r + a.at(i); out.append(r)
    return array(out)
def polyval(p, x):
    """Horner's rule, as numpy documents"""
    if isinstance(p, (list, tuple)): p = array(p)
    if p.ndim == 0: raise Unsupported('polyval')
    n = p._shape[0]
    if not isinstance(n, int): raise Unsupported('polyval of symbolic degree')
    isarr = isinstance(x, ndarray)
    y = zeros_like(x) if isarr else Num.of(0)
    for i in range(n): y = y * x + p[i]
    return y
def polyfit(x, y, deg, **k):
    """numpy's least-squares fit, contract for data that are all one value: the constant polynomial fits exactly and has the smallest
    coefficients, so it is what is returned (no contract for other data)"""
    x, y = asarray(x), asarray(y)
    if y.ndim != 1 or x.ndim != 1: raise Unsupported('polyfit')
    if not dim_eq(x._shape[0], y._shape[0]): raise TypeError('expected x and y to have same length')
    c = y.at(0); j = fresh_index(y._shape[0], 'fit'); v = y.at(j)
    parts = [(v.re, c.re), (v.im, c.im)] if isinstance(v, SComplex) else [(Num.of(v), Num.of(c))]
    if not all(engine().valid(SBool.of(a == b).z) if isinstance(a == b, SBool) else (a == b) for a, b in parts): raise Unsupported('polyfit of data that vary')
    return array([Num.of(0)] * deg + [castk(c, promote('f', y.kind))])
def convolve(a, v, mode='full'):
    """out[k] = sum_j v[j] a[k + len(v) - 1 - j], for the positions where the two overlap completely"""
    a, v = asarray(a), asarray(v)
    if mode != 'valid' or a.ndim != 1 or v.ndim != 1: raise Unsupported('convolve')
    na, nv = a._shape[0], v._shape[0]
    if not (Num.of(na) >= Num.of(nv)): a, v, na, nv = v, a, nv, na
    fa, fv = a.copy_fn(), v.copy_fn(); kd = promote(a.kind, v.kind)
    return ndarray((nidx(Num.of(na) - nv + 1),), lambda idx: sum_over(nv, lambda j: castk(fv((j,)) * fa((nidx(Num.of(idx[0]) + nv - 1 - j),)), kd), kd == 'c'), kd)
def histogram(*a, **k): raise Unsupported('histogram')
def argsort(*a, **k): raise Unsupported('argsort')
def searchsorted(*a, **k): raise Unsupported('searchsorted')
def median(*a, **k): raise Unsupported('median')

# ------------------------------------------------------------------ ufuncs
def _uf(f, kind='f'):
    def g(x, *rest, **k):
        if rest or k: raise Unsupported('ufunc options')
        if isinstance(x, (list, tuple)): x = array(x)
        kd = kind
        if isinstance(x, ndarray):
            if kind == 'f' and x.kind == 'c': kd = 'c'
            return elementwise(f, x, kind=kd)
        return f(lift(x))
    return g
def _uf2(f, kind=None):
    def g(x, y, *rest, **k):
        if rest or k: raise Unsupported('ufunc options')
        return elementwise(f, x, y, kind=kind)
    return g
cos, sin, tan = _uf(num.cos), _uf(num.sin), _uf(num.tan)
arcsin, arccos = _uf(num.arcsin), _uf(num.arccos)
sqrt, exp, log = _uf(num.sqrt), _uf(num.exp), _uf(num.log)
def _log2(x):
    if isinstance(x, Num) and len(x.atoms()) == 1:
        at = num.ATOMS[next(iter(x.atoms()))]
        if isinstance(at.meta, dict) and 'log2' in at.meta and x.key() == Num.var(at).key(): return at.meta['log2']
    x = Num.of(x)
    if x.isconst() and x.const() > 0:
        v = x.const()
        if v.denominator == 1 and (int(v) & (int(v) - 1)) == 0: return Num.of(int(v).bit_length() - 1)
    e = num.engine()
    if x.isint and getattr(e, 'mono', None) is e.pc:
        # 2**floor(log2 x) <= x < 2**(floor(log2 x) + 1)
        r = num.fn('log2', [x]); b = num.floor(r); e.assume(b_or(x < 1, b_and(b >= 0, num.pow2(b) <= x, x < num.pow2(b + 1))))
        return r
    return num.fn('log2', [x])
log2 = _uf(_log2); log10 = _uf(lambda x: num.fn('log10', [x]))
floor, ceil, rint = _uf(num.floor), _uf(num.ceil), _uf(num.rnd)
def round_(x, decimals=0):
    if decimals: raise Unsupported('round to decimals')
    return rint(x)
around = round = round_
arctan2 = _uf2(num.arctan2, 'f')
arctan = _uf(lambda x: num.arctan2(x, Num.of(1)))
def _abs(v): return abs(v)
def absolute(x):
    if isinstance(x, ndarray): return elementwise(_abs, x, kind='f' if x.kind == 'c' else x.kind)
    return abs(lift(x))
abs_ = absolute
def _sgn(v):
    if v > 0: return Num.of(1)
    if v < 0: return Num.of(-1)
    return Num.of(0)
def sign(x): return elementwise(_sgn, x, kind=(x.kind if isinstance(x, ndarray) else None)) if isinstance(x, ndarray) else _sgn(lift(x))
def conjugate(x):
    if isinstance(x, ndarray): return elementwise(lambda v: v.conjugate() if isinstance(v, SComplex) else v, x)
    return lift(x).conjugate()
conj = conjugate
def real(x): return x.real
def imag(x): return x.imag
add, subtract, multiply = _uf2(lambda a, b: a + b), _uf2(lambda a, b: a - b), _uf2(lambda a, b: a * b)
divide = true_divide = _uf2(lambda a, b: a / b, 'div')
floor_divide, mod, remainder = _uf2(lambda a, b: a // b), _uf2(lambda a, b: a % b), _uf2(lambda a, b: a % b)
def power(a, b): return elementwise(lambda x, y: x ** y, a, b)
square = _uf(lambda v: v * v); negative = _uf(lambda v: -v)
def _max2(a, b): return a if a >= b else b
def _min2(a, b): return a if a <= b else b
maximum, minimum = _uf2(_max2), _uf2(_min2)
def _tb(v): return v if isinstance(v, (bool, SBool)) else (v != 0)
logical_and, logical_or = _uf2(lambda a, b: b_and(_tb(a), _tb(b)), 'b'), _uf2(lambda a, b: b_or(_tb(a), _tb(b)), 'b')
logical_not = _uf(lambda a: b_not(_tb(a)), 'b')
bitwise_and = _uf2(lambda a, b: a & b); bitwise_or = _uf2(lambda a, b: a | b)
right_shift = _uf2(lambda a, b: a >> b); left_shift = _uf2(lambda a, b: a << b)
equal, not_equal = _uf2(lambda a, b: a == b, 'b'), _uf2(lambda a, b: a != b, 'b')
less, greater = _uf2(lambda a, b: a < b, 'b'), _uf2(lambda a, b: a > b, 'b')
less_equal, greater_equal = _uf2(lambda a, b: a <= b, 'b'), _uf2(lambda a, b: a >= b, 'b')
isnan = _uf(lambda a: False, 'b'); isinf = _uf(lambda a: False, 'b'); isfinite = _uf(lambda a: True, 'b')
hypot = _uf2(lambda a, b: num.sqrt(a * a + b * b), 'f')
radians = deg2rad = _uf(lambda a: a * PI / 180); degrees = rad2deg = _uf(lambda a: a * 180 / PI)
def sinc(x): return elementwise(lambda v: _sinc(Num.of(v)), x, kind='f')
def _sinc(v):
    if v == 0: return Num.of(1)
    t = PI * v
    return num.sin(t) / t
def where(c, *ab):
    if len(ab) != 2: raise Unsupported('where')
    a, b = ab
    def f(cv, av, bv): return av() if _b(_tb(cv)) else bv()
    # lazily evaluate the branches: the selected one decides the value
    c = asarray(c) if isinstance(c, (list, tuple)) else c
    arrs = [x for x in (c, a, b) if isinstance(x, ndarray)]
    if not arrs: return lift(a) if _b(_tb(lift(c))) else lift(b)
    sh = bshape(*[x._shape for x in arrs])
    def getter(x):
        if isinstance(x, ndarray):
            fx = x.copy_fn(); s = x._shape
            return lambda idx: fx(tuple(0 if dim_is1(d) else i for d, i in zip(s, idx[len(idx) - len(s):] if s else ())))
        v = lift(x)
        return lambda idx: v
    gc, ga, gb = getter(c), getter(a), getter(b)
    k = promote(kind_of(a), kind_of(b))
    r = ndarray(sh, lambda idx: castk(ga(idx) if _b(_tb(gc(idx))) else gb(idx), k), k)
    ma = [x for x in (a, b) if isinstance(x, MA)]
    return r
def clip(x, lo, hi):
    def f(v, l, h):
        if l is not None and v < l: v = l
        if h is not None and v > h: v = h
        return v
    if isinstance(x, ndarray): return elementwise(f, x, lo, hi)
    return f(lift(x), lift(lo), lift(hi))
def isscalar(x): return is_scalar(x)
def iscomplexobj(x): return kind_of(x) == 'c'
def allclose(*a, **k): raise Unsupported('allclose')
def array_equal(*a): raise Unsupported('array_equal')
def ndim(x): return x.ndim if isinstance(x, ndarray) else 0
def shape(x): return x.shape if isinstance(x, ndarray) else asarray(x).shape
def size(x, axis=None): return asarray(x).size if axis is None else asarray(x).shape[axis]
def copy(x): return x.copy() if isinstance(x, ndarray) else array(x)
def vectorize(*a, **k): raise Unsupported('vectorize')
def j1(x): 
    """Bessel J1: uninterpreted, odd"""
    def f(v):
        v = Num.of(v)
        import scipy.special as ss
        return num.fn('j1', [v], numf=lambda t: float(ss.j1(t)))
    return _uf(f)(x)
def i0(x):
    def f(v):
        v = Num.of(v)
        import scipy.special as ss
        r = num.fn('i0', [v], numf=lambda t: float(ss.i0(t)))
        if not r.isconst():
            a, = r.atoms(); a = num.ATOMS[a]; reg = engine().__dict__.setdefault('i0s', {}); reg[a.id] = (v, a)
            # I0 >= 1, increasing on [0, oo)
            a.axioms = lambda a, v=v: [a.z >= 1] + [c for w, b in list(reg.values()) if b is not a for c in
                (num.z3.Implies(num.z3.And(v.zr >= 0, v.zr <= w.zr), a.z <= b.z), num.z3.Implies(num.z3.And(w.zr >= 0, w.zr <= v.zr), b.z <= a.z))]
        return r
    return _uf(f)(x)

# ------------------------------------------------------------------ linear algebra
def inv3(m):
    if m.ndim > 2:
        if m.ndim != 3 or m._shape[1:] != (3, 3): raise Unsupported('inv')
        f = m.copy_fn()
        def g(idx):
            mm = ndarray((3, 3), lambda j: f((idx[0],) + j), m.kind)
            return inv3(mm).at(*idx[1:])
        return ndarray(m._shape, g, promote('f', m.kind))
    n = m._shape[0]
    if m._shape != (n, n) or n not in (2, 3): raise Unsupported('inv size')
    e = [[m.at(i, j) for j in range(n)] for i in range(n)]
    if n == 2:
        det = e[0][0] * e[1][1] - e[0][1] * e[1][0]
        return array([[e[1][1] / det, -e[0][1] / det], [-e[1][0] / det, e[0][0] / det]])
    cof = lambda r, c: e[(r + 1) % 3][(c + 1) % 3] * e[(r + 2) % 3][(c + 2) % 3] - e[(r + 1) % 3][(c + 2) % 3] * e[(r + 2) % 3][(c + 1) % 3]
    det = sum((e[0][c] * cof(0, c) for c in range(1, 3)), e[0][0] * cof(0, 0))
    return array([[cof(j, i) / det for j in range(3)] for i in range(3)])
def det3(m):
    e = [[m.at(i, j) for j in range(3)] for i in range(3)]
    cof = lambda r, c: e[(r + 1) % 3][(c + 1) % 3] * e[(r + 2) % 3][(c + 2) % 3] - e[(r + 1) % 3][(c + 2) % 3] * e[(r + 2) % 3][(c + 1) % 3]
    return e[0][0] * cof(0, 0) + e[0][1] * cof(0, 1) + e[0][2] * cof(0, 2)
def norm(v, **k):
    if k: raise Unsupported('norm options')
    v = asarray(v)
    return num.sqrt(sum_(elementwise(lambda a: (a * a.conjugate()).real, v, kind='f')))
def cross(a, b):
    a, b = asarray(a), asarray(b)
    if a._shape != (3,) or b._shape != (3,): raise Unsupported('cross')
    return array([a.at((i + 1) % 3) * b.at((i + 2) % 3) - a.at((i + 2) % 3) * b.at((i + 1) % 3) for i in range(3)])

# ------------------------------------------------------------------ masked arrays (the part aipy uses)
class MA(ndarray):
    """data + boolean mask array; arithmetic propagates the mask"""
    mask = None
    @staticmethod
    def make(data, mask):
        data = data if isinstance(data, ndarray) else array(data)
        r = MA(data._shape, data.copy_fn(), data.kind)
        if mask is None: m = ndarray(data._shape, lambda idx: False, 'b')
        else:
            m = mask if isinstance(mask, ndarray) else array(mask)
            if m.kind != 'b': m = m != 0
            if m.ndim != data.ndim: m = broadcast_to(m, data._shape)
        r.mask = m.copy()
        return r
    @staticmethod
    def _wrap(sh, g, k, args):
        ms = []
        for a in args:
            if isinstance(a, MA): ms.append((a.mask.copy_fn(), a._shape))
        def mf(idx):
            c = False
            for f, s in ms: c = b_or(c, f(tuple(0 if dim_is1(d) else i for d, i in zip(s, idx[len(idx) - len(s):] if s else ()))))
            return c
        r = MA(sh, g, k); r.mask = ndarray(sh, mf, 'b')
        return r
    def _compose(self, shape, fwd, bwd):
        b = ndarray._compose(self, shape, fwd, bwd)
        r = MA(shape, kind=self.kind, cell=b.cell, fwd=b.fwd, bwd=b.bwd); r._dtype = self._dtype
        r.mask = self.mask._compose(shape, fwd, bwd)
        return r
    @property
    def data(self):
        return ndarray(self._shape, kind=self.kind, cell=self.cell, fwd=self.fwd, bwd=self.bwd)
    def filled(self, v=None):
        f, m = self.copy_fn(), self.mask.copy_fn(); k = self.kind
        fv = lift(v) if v is not None else Num.of(10**20)
        return ndarray(self._shape, lambda idx: castk(fv, k) if _b(m(idx)) else f(idx), k)
    def copy(self, order='C'):
        r = MA.make(self.data, self.mask); r._dtype = self._dtype
        return r
    def astype(self, d, copy=True):
        return MA.make(self.data.astype(d), self.mask)
    def compressed(self): raise Unsupported('compressed')
    @property
    def shape(self): return self._shape
    @shape.setter
    def shape(self, s):
        ndarray.shape.fset(self, s)
        self.mask = reshape_view(self.mask, _sh(s))

def ma_array(data, mask=None, dtype=None, **k):
    if isinstance(data, MA) and mask is None: r = data.copy()
    else: r = MA.make(array(data) if not isinstance(data, ndarray) else data, mask)
    return r.astype(dtype) if dtype is not None else r
def ma_concat(xs, axis=0):
    d = concatenate([x.data if isinstance(x, MA) else x for x in xs], axis)
    m = concatenate([x.mask if isinstance(x, MA) else zeros(x._shape, bool_) for x in xs], axis)
    return MA.make(d, m)
ma = types.SimpleNamespace(isMA=lambda x: isinstance(x, MA), isMaskedArray=lambda x: isinstance(x, MA), array=ma_array, where=where,
                           concatenate=ma_concat, MaskedArray=MA, masked_array=ma_array)
linalg = types.SimpleNamespace(inv=inv3, norm=norm, det=det3)
class _Unsup:
    def __init__(self, n): self.n = n
    def __getattr__(self, a): raise Unsupported('numpy.%s.%s' % (self.n, a))
def finfo(t):
    import types
    return types.SimpleNamespace(tiny=Num.of(2.2250738585072014e-308) if t in (float64, float) else None)
fft = _Unsup('fft'); random = _Unsup('random'); core = _Unsup('core')
PI = num.PI

def module():
    """the object that stands for the numpy module inside aipy's modules"""
    m = types.ModuleType('numpy_contract')
    g = globals()
    for n, v in g.items():
        if not n.startswith('__'): setattr(m, n, v)
    m.pi = num.PI; m.inf = Inf(math.inf); m.nan = None
    m.abs = absolute; m.sum = sum_; m.all = all_; m.any = any_; m.max = amax; m.min = amin; m.bool = bool_
    m.newaxis = None; m.e = None
    m.ndarray = ndarray
    m.float = float; m.int = int
    del m.num
    def ga(name): raise Unsupported('numpy.' + name)
    m.__getattr__ = ga
    return m
