"""Symbolic sequences and mappings: lists of any length, dictionaries with any number of keys."""
from . import num, npsym
from .num import Num, SBool, Unsupported, b_and, b_or, b_not, implies
from . import engine as _e

class Sym: ver = 0
class SymList(Sym):
    """a list of n elements f(0..n-1); kind: 'list' or 'tuple'"""
    _symtype = list
    def __init__(self, n, f): self.n = Num.of(n); self.f = f
    def __symlen__(self): return npsym.nidx(self.n) if isinstance(self.n, Num) else self.n
    def __len__(self):
        n = npsym.nidx(self.n)
        if isinstance(n, int): return n
        raise Unsupported('len of a symbolic list')
    def __bool__(self): return bool(self.n > 0)
    def copy(self): return SymList(self.n, self.f)
    def _ix(self, i):
        if not isinstance(i, (int, Num)): raise Unsupported('list index')
        i = Num.of(i)
        if bool(i < 0): i = i + self.n
        if not bool(b_and(i >= 0, i < self.n)): raise IndexError('list index out of range')
        return i
    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1): raise Unsupported('slice step')
            lo = Num.of(0) if i.start is None else Num.of(i.start); hi = self.n if i.stop is None else Num.of(i.stop)
            if bool(lo < 0): lo = lo + self.n
            if bool(hi < 0): hi = hi + self.n
            if bool(lo < 0): lo = Num.of(0)
            if bool(hi > self.n): hi = self.n
            if bool(lo > self.n): lo = self.n
            if bool(hi < lo): hi = lo
            f = self.f; return SymList(hi - lo, lambda k, lo=lo: f(k + lo))
        return self.f(self._ix(i))
    def __setitem__(self, i, v):
        i = self._ix(i); f = self.f; self.ver += 1
        def g(k):
            return v if bool(Num.of(k) == i) else f(k)
        self.f = g
    def append(self, v):
        n, f = self.n, self.f; self.ver += 1
        self.n = n + 1
        self.f = lambda k: v if bool(Num.of(k) == n) else f(k)
    def _cat(self, o):
        if isinstance(o, (list, tuple)): o = SymList(len(o), lambda k, o=list(o): npsym.pick(o, k))
        if not isinstance(o, SymList): raise TypeError('can only concatenate list')
        n, f, g = self.n, self.f, o.f
        return n + o.n, (lambda k: f(k) if bool(Num.of(k) < n) else g(Num.of(k) - n))
    def extend(self, o): self.n, self.f = self._cat(o); self.ver += 1
    def __iadd__(self, o): self.extend(o); return self
    def __add__(self, o): return SymList(*self._cat(o))
    def __radd__(self, o):
        return SymList(*SymList(len(o), lambda k, o=list(o): npsym.pick(o, k))._cat(self))
    def __iter__(self):
        n = npsym.nidx(self.n)
        if isinstance(n, int): return iter([self.f(Num.of(k)) for k in range(n)])
        raise Unsupported('loop over a symbolic list without a loop contract')
class SymKeys(Sym):
    """the keys of a symbolic dictionary; tag tells the order they are enumerated in"""
    def __init__(self, d, order): self.d, self.order = d, order
    def __symlen__(self): return self.d.n
    def __symsorted__(self): return SymKeys(self.d, 'sorted')
    def __iter__(self): raise Unsupported('loop over symbolic keys without a loop contract')
class SymDict(Sym):
    """n keys; key(order, k) the k-th key in that order; get(key)"""
    _symtype = dict
    def __init__(self, n, get): self.n, self.get_f = n, get
    def keys(self): return SymKeys(self, 'dict')
    def items(self): raise Unsupported('items')
    def values(self): raise Unsupported('values')
    def __symsorted__(self): return SymKeys(self, 'sorted')
    def __symlen__(self): return self.n
    def __iter__(self): raise Unsupported('loop over symbolic keys without a loop contract')
    def __getitem__(self, k): return self.get_f(k)
    def __setitem__(self, k, v): self.ver += 1; raise Unsupported('store into an input dictionary')
class Store(Sym):
    """a dictionary being filled: what was stored under which key, newest last"""
    _symtype = dict
    def __init__(self, old=None): self.w = []; self.old = old
    def __setitem__(self, k, v): self.ver += 1; self.w.append((k, v))
    def lookup(self, same):
        for k, v in reversed(self.w):
            if same(k): return v
        return self.old() if self.old else None
    def __getitem__(self, k): raise Unsupported('read of a dictionary under construction')
    def __iter__(self): raise Unsupported('loop over a dictionary under construction')
