"""Load aipy's real Python modules (source text from the scratch copy of /repo) with contract stand-ins for
numpy, ephem, healpy, scipy and the compiled extensions."""
import ast, builtins, os, types, math, sys
from fractions import Fraction
from . import num, npsym
from .num import Num, SBool, SComplex, Unsupported
from . import loops, seq

class Loader:
    def __init__(self, root, stubs=None, transforms=None):
        self.root = root          # .../aipy
        self.code = {}
        self.stubs = stubs or {}
        self.transforms = transforms or {}
        self.npm = npsym.module()
    def source(self, mod):
        p = os.path.join(self.root, mod.replace('.', '/') + '.py')
        return open(p).read(), p
    def compile(self, mod):
        if mod not in self.code:
            src, p = self.source(mod)
            tree = ast.parse(src, p)
            if mod in self.transforms: tree = self.transforms[mod](tree); ast.fix_missing_locations(tree)
            tree = ast.fix_missing_locations(loops.Comps().visit(tree))
            self.code[mod] = compile(tree, p, 'exec')
        return self.code[mod]
    def session(self):
        return Session(self)

class Session:
    """one fresh set of modules (per path, so that module state cannot leak between paths)"""
    def __init__(self, loader):
        self.L = loader; self.mods = {}
    def load(self, mod, **overrides):
        if mod in self.mods: return self.mods[mod]
        m = types.ModuleType('aipy.' + mod)
        self.mods[mod] = m
        g = m.__dict__
        g['__builtins__'] = self.builtins()
        g['__name__'] = 'aipy.' + mod; g['__package__'] = 'aipy'; g['__file__'] = mod
        exec(self.L.compile(mod), g)
        return m
    def builtins(self):
        b = dict(vars(builtins))
        b.update(__import__=self._import, str=sym_str, float=sym_float, int=sym_int, len=sym_len, range=sym_range, round=sym_round, max=sym_max, min=sym_min,
                 sum=sym_sum, complex=sym_complex, isinstance=sym_isinstance, enumerate=sym_enumerate, bool=sym_bool, sorted=sym_sorted, type=sym_type, list=sym_list, __vc_loops__=loops.RT, __vc_map__=loops.vc_map, print=lambda *a, **k: None, abs=abs)
        return b
    def _import(self, name, glb=None, loc=None, fromlist=(), level=0):
        if level == 0:
            if name == '__future__': return __import__(name)
            if name == 'numpy': return self.stub('numpy')
            if name == 'aipy': return _Package(self)
            if name in ('math',): return self.stub('math')
            if name.split('.')[0] in ('ephem', 'healpy', 'scipy', 'astropy', 'pyfits'):
                m = self.stub(name.split('.')[0])
                if fromlist:
                    for part in name.split('.')[1:]: m = getattr(m, part)
                return m
            if name in self.L.stubs: return self.stub(name)
            if name in ('sys', 'os', 're', 'random', 'time', 'types', 'itertools', 'functools', 'operator', 'collections', 'copy', 'warnings'): return __import__(name, glb, loc, fromlist)
            raise Unsupported('import ' + name)
        # relative import inside aipy
        ns = types.SimpleNamespace()
        if name:
            m = self.submodule(name)
            if fromlist and '*' in fromlist and type(m).__name__ == '_Any': return types.ModuleType(name)
            return m
        for f in fromlist: setattr(ns, f, self.submodule(f))
        return ns
    def submodule(self, name):
        if name in self.L.stubs: return self.L.stubs[name](self)
        if os.path.exists(os.path.join(self.L.root, name + '.py')): return self.load(name)
        raise Unsupported('no contract for aipy.' + name)
    def stub(self, name):
        if name == 'numpy': return self.L.npm
        if name in self.L.stubs: return self.L.stubs[name](self)
        if name == 'math': return math_stub()
        raise Unsupported('no contract for ' + name)

class _Package:
    """the package itself, as imported by its own modules"""
    def __init__(self, session): self._s = session
    def __getattr__(self, n): return self._s.submodule(n)
def math_stub():
    m = types.ModuleType('math_contract')
    m.pi = num.PI; m.cos, m.sin, m.sqrt, m.exp, m.log, m.atan2 = num.cos, num.sin, num.sqrt, num.exp, num.log, num.arctan2
    m.floor, m.ceil = num.floor, num.ceil; m.asin, m.acos, m.tan = num.arcsin, num.arccos, num.tan
    def ga(n): raise Unsupported('math.' + n)
    m.__getattr__ = ga
    return m

# ---- builtins that must accept symbolic values. They are classes where aipy uses them as types.
def numerals(): return num.engine().__dict__.setdefault('numerals', {})
def numeral(v):
    """a numeral standing for the number v (decimal digits, any length); code that only matches it against digit patterns and
    converts it cannot tell which digits it has"""
    d = numerals()
    for k, x in d.items():
        if x is v or x.key() == v.key() and x.isint == v.isint: return k
    k = '%d' % (90817000 + len(d)) if v.isint else '%d.25' % (7081700 + len(d)); d[k] = v; return k
class _StrMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, str)
    def __eq__(cls, o): return o is str or o is cls
    def __hash__(cls): return hash(str)
class sym_str(metaclass=_StrMeta):
    def __new__(cls, x='', *a):
        if isinstance(x, Num) and not x.isconst():
            if not x.isint: raise Unsupported('str of a symbolic real')
            if bool(x < 0): return '-' + numeral(-x)
            return numeral(x)
        return str(x, *a)
    join = str.join; lower = str.lower; upper = str.upper; split = str.split; strip = str.strip; replace = str.replace; format = str.format; maketrans = str.maketrans
class _FloatMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, float) or (isinstance(x, Num) and not x.isint)
class sym_float(metaclass=_FloatMeta):
    _symdt = npsym.float64
    def __new__(cls, x=0):
        if isinstance(x, Num): return Num(x.n, x.d, False)
        if isinstance(x, npsym.ndarray): return sym_float(x.item())
        if isinstance(x, SBool): return num.bool_to_num(x)
        if hasattr(x, '__symfloat__'): return x.__symfloat__()
        if isinstance(x, str) and x in numerals(): return Num(numerals()[x].n, numerals()[x].d, False)
        return float(x)
class _IntMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, int) or (isinstance(x, Num) and x.isint)
class sym_int(metaclass=_IntMeta):
    _symdt = npsym.int64
    def __new__(cls, x=0, *a):
        if isinstance(x, Num): return num.trunc(x)
        if isinstance(x, npsym.ndarray): return sym_int(x.item())
        if isinstance(x, SBool): return num.bool_to_num(x)
        if isinstance(x, str) and x in numerals(): return numerals()[x]
        if isinstance(x, str) and x.startswith('-') and x[1:] in numerals(): return -numerals()[x[1:]]
        return int(x, *a)
class _BoolMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (bool, SBool))
class sym_bool(metaclass=_BoolMeta):
    _symdt = npsym.bool_
    def __new__(cls, x=False): return bool(x)
class _CMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (complex, SComplex))
class sym_complex(metaclass=_CMeta):
    _symdt = npsym.complex128
    def __new__(cls, a=0, b=0): return SComplex.of(a) + SComplex(0, 1) * SComplex.of(b)
def sym_len(x):
    if isinstance(x, npsym.ndarray):
        if not x.ndim: raise TypeError('len() of unsized object')
        return x._shape[0]
    if hasattr(x, '__symlen__'): return x.__symlen__()
    if isinstance(x, Num): raise TypeError('object of type float has no len()')
    try: return len(x)
    except Unsupported: raise
def sym_range(*a):
    a = [npsym.nidx(x) if isinstance(x, Num) else x for x in a]
    if any(isinstance(x, Num) for x in a): return SymRange(*a)
    return range(*a)
class SymRange:
    """a range with symbolic bounds: iterating it needs a loop contract"""
    def __init__(self, *a):
        self.lo, self.hi = (0, a[0]) if len(a) == 1 else a[:2]
        self.step = a[2] if len(a) > 2 else 1
    def __iter__(self):
        """Inside a comprehension (enabled by the contract) the loop is executed once for an arbitrary index in
        range: the result is the generic element, to be read with api.comprehension()."""
        E = num.engine()
        g = getattr(E, 'comp', None)
        if g is None: raise Unsupported('loop over a symbolic range without a loop contract')
        if self.step != 1: raise Unsupported('step')
        lo, hi = Num.of(self.lo), Num.of(self.hi)
        if not (lo < hi): return
        E.fresh += 1
        v = Num.var(num.atom(('ix', E.cur, E.fresh, 'it'), 'it%d' % E.fresh, True))
        num.ATOMS[next(iter(v.atoms()))].meta = dict(range=(0, 4))
        E.assume(v >= lo); E.assume(v < hi)
        g.append((v, lo, hi))
        yield v
def sym_enumerate(x, start=0):
    if isinstance(x, seq.SymList): return seq.SymList(x.n, lambda k: (Num.of(k) + start, x.f(k)))
    return enumerate(x, start)
def sym_sorted(x, **k):
    if hasattr(x, '__symsorted__') and not k: return x.__symsorted__()
    return sorted(x, **k)
class sym_type(type):
    def __new__(cls, x, *a, **k):
        if a or k: return type(x, *a, **k)
        if isinstance(x, Num): return sym_int if x.isint else sym_float
        if isinstance(x, SComplex): return sym_complex
        if isinstance(x, SBool): return sym_bool
        t = type(x)
        if isinstance(x, seq.Sym): return {list: sym_list}.get(x._symtype, x._symtype) if hasattr(x, '_symtype') else t
        return {float: sym_float, int: sym_int, bool: sym_bool, complex: sym_complex, list: sym_list, str: sym_str}.get(t, t)
    def __instancecheck__(cls, x): return isinstance(x, type)
class _ListMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (list, seq.SymList))
    def __eq__(cls, o): return o is list or o is cls
    def __hash__(cls): return hash(list)
class sym_list(metaclass=_ListMeta):
    def __new__(cls, x=()):
        if isinstance(x, seq.SymList): return x.copy()
        if isinstance(x, npsym.ndarray) and x.ndim == 1 and not isinstance(x._shape[0], int):
            f = x.copy_fn(); return seq.SymList(x._shape[0], lambda k: f((npsym.nidx(Num.of(k)),)))
        return list(x)
def sym_round(x, n=None):
    if isinstance(x, Num): return num.rnd(x)
    return round(x) if n is None else round(x, n)
def sym_max(*a, **k):
    if len(a) == 1: a = list(a[0])
    if k: return max(*a, **k)
    r = a[0]
    for x in a[1:]:
        if x > r: r = x
    return r
def sym_min(*a, **k):
    if len(a) == 1: a = list(a[0])
    if k: return min(*a, **k)
    r = a[0]
    for x in a[1:]:
        if x < r: r = x
    return r
def sym_sum(xs, start=0):
    for x in xs: start = start + x
    return start
def sym_isinstance(x, c):
    if isinstance(c, tuple): return any(sym_isinstance(x, y) for y in c)
    if isinstance(c, type): return isinstance(x, c)
    return False
