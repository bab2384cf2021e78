"""Symbolic numbers in rational-function normal form over interned atoms.

A Num is num/den, two polynomials with rational coefficients over atoms.  Atoms are input variables and
applications of non-polynomial functions (cos, sqrt, exp, floor, ...), interned by a canonical key, so that
two mathematically equal polynomial expressions are the same object up to normal form.  sin(x)^2 is rewritten
to 1-cos(x)^2 and sqrt(r)^2 to r on construction.  Python floats are read as the decimal they print as and
arithmetic is exact (the stated 'floats are reals' assumption).
"""
from fractions import Fraction
from decimal import Decimal
import math
import z3

class Unsupported(BaseException):
    """The verifier cannot express this construct: the obligation is undecided, never a violation."""

ENGINE = None      # set by vc.engine

def engine():
    if ENGINE is None: raise Unsupported('no engine')
    return ENGINE

# ----------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'name', 'isint', 'z', 'sq', 'axioms', 'kind', 'args', 'cosv', 'sinv', 'meta', 'numf')
    def __init__(self, id, name, isint, kind, args=()):
        self.id, self.name, self.isint, self.kind, self.args = id, name, isint, kind, args
        zn = name if len(name) < 60 else kind + '!' + str(id)
        self.z = z3.Int(zn + '#%d' % id) if isint else z3.Real(zn + '#%d' % id)
        self.sq = None; self.axioms = None; self.cosv = self.sinv = None; self.meta = None; self.numf = None
    def __repr__(self): return self.name

ATOMS = []          # by id
_INTERN = {}        # key -> Atom
ZMAP = {}           # z3 const name -> Atom
ZAPP = {}           # id of a z3 function application -> Atom

def atom(key, name, isint=False, kind='var', args=()):
    a = _INTERN.get(key)
    if a is None:
        a = Atom(len(ATOMS), name, isint, kind, args)
        ATOMS.append(a); _INTERN[key] = a; ZMAP[a.z.decl().name()] = a
    return a

# ----------------------------------------------------------------- polynomials
# monomial: tuple of (atom id, exp) sorted by id ; poly: dict mono -> Fraction
ONE = ()
def p_const(c):
    c = Fraction(c)
    return {ONE: c} if c else {}
def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def m_mul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for i, e in b: d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))
def p_scale(a, k):
    if not k: return {}
    return {m: c * k for m, c in a.items()}
MAXTERMS = 60000
def p_mul(a, b):
    if len(a) > len(b): a, b = b, a
    if len(a) * len(b) > MAXTERMS * 20: raise Unsupported('polynomial too large')
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v: r[m] = v
            else: r.pop(m, None)
    if len(r) > MAXTERMS: raise Unsupported('polynomial too large')
    return p_reduce(r)
def p_reduce(p):
    """Rewrite squares of atoms that carry a square rule."""
    while True:
        hit = None
        for m in p:
            for i, e in m:
                if e >= 2 and ATOMS[i].sq is not None:
                    hit = i; break
            if hit is not None: break
        if hit is None: return p
        sq = ATOMS[hit].sq
        r = {}
        powcache = {}
        for m, c in p.items():
            e = dict(m).get(hit, 0)
            if e < 2:
                v = r.get(m, 0) + c
                if v: r[m] = v
                else: r.pop(m, None)
                continue
            k = e // 2
            rest = tuple((i, x) for i, x in m if i != hit)
            if e % 2: rest = m_mul(rest, ((hit, 1),))
            if k not in powcache:
                q = {ONE: Fraction(1)}
                for _ in range(k):
                    q2 = {}
                    for a1, b1 in q.items():
                        for a2, b2 in sq.items():
                            mm = m_mul(a1, a2); q2[mm] = q2.get(mm, 0) + b1 * b2
                    q = {a: b for a, b in q2.items() if b}
                powcache[k] = q
            for m2, c2 in powcache[k].items():
                mm = m_mul(rest, m2)
                v = r.get(mm, 0) + c * c2
                if v: r[mm] = v
                else: r.pop(mm, None)
        p = r
def p_key(p): return tuple(sorted(p.items()))
def p_isconst(p): return not p or (len(p) == 1 and ONE in p)
def p_const_val(p): return p.get(ONE, Fraction(0))

def p_content_mono(p):
    """gcd monomial of all terms"""
    it = iter(p)
    try: g = dict(next(it))
    except StopIteration: return ONE
    for m in it:
        if not g: break
        d = dict(m)
        g = {i: min(e, d[i]) for i, e in g.items() if i in d}
    return tuple(sorted(g.items()))
def m_div(m, g):
    d = dict(m)
    for i, e in g:
        d[i] -= e
        if not d[i]: del d[i]
    return tuple(sorted(d.items()))

def p_str(p):
    if not p: return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda t: (len(t[0]), t[0])):
        s = '*'.join(ATOMS[i].name + ('^%d' % e if e > 1 else '') for i, e in m)
        out.append(str(c) if not s else (s if c == 1 else '%s*%s' % (c, s)))
    return ' + '.join(out)

# ----------------------------------------------------------------- numbers
def to_frac(x):
    if isinstance(x, bool): return Fraction(int(x))
    if isinstance(x, (int, Fraction)): return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')): raise Unsupported('non-finite literal')
        return Fraction(Decimal(repr(x)))
    raise TypeError(type(x))

class Num:
    __slots__ = ('n', 'd', 'isint', '_z')
    __array_priority__ = 1000
    __array_ufunc__ = None
    def __init__(self, n, d=None, isint=False):
        self.n = n; self.d = d if d is not None else {ONE: Fraction(1)}
        self.isint = isint; self._z = None
    # -- construction
    @staticmethod
    def of(x):
        if isinstance(x, Num): return x
        if isinstance(x, SBool): return bool_to_num(x)
        try: import numpy as _np
        except ImportError: _np = None
        if _np is not None and isinstance(x, _np.generic): x = x.item()
        if isinstance(x, (bool, int)): return Num(p_const(int(x)), None, True)
        if isinstance(x, Fraction): return Num(p_const(x), None, x.denominator == 1)
        if isinstance(x, float): return Num(p_const(to_frac(x)))
        raise TypeError('not a number: %r' % (x,))
    @staticmethod
    def var(a): return Num({((a.id, 1),): Fraction(1)}, None, a.isint)
    # -- inspection
    def isconst(self): return p_isconst(self.n) and p_isconst(self.d)
    def const(self): return p_const_val(self.n) / p_const_val(self.d)
    def key(self): return (p_key(self.n), p_key(self.d))
    def atoms(self):
        s = set()
        for p in (self.n, self.d):
            for m in p:
                for i, e in m: s.add(i)
        return s
    def __repr__(self):
        if p_isconst(self.d) and p_const_val(self.d) == 1: return p_str(self.n)
        return '(%s)/(%s)' % (p_str(self.n), p_str(self.d))
    # -- arithmetic
    def _bin(self, o):
        if isinstance(o, Num): return o
        if isinstance(o, (SComplex, complex)): return None
        try: return Num.of(o)
        except TypeError: return None
    def __add__(self, o):
        b = self._bin(o)
        if b is None: return NotImplemented
        if self.d == b.d: return mk(p_add(self.n, b.n), self.d, self.isint and b.isint)
        return mk(p_add(p_mul(self.n, b.d), p_mul(b.n, self.d)), p_mul(self.d, b.d), self.isint and b.isint)
    __radd__ = __add__
    def __neg__(self): return Num(p_scale(self.n, -1), self.d, self.isint)
    def __pos__(self): return self
    def __sub__(self, o):
        b = self._bin(o)
        if b is None: return NotImplemented
        return self + (-b)
    def __rsub__(self, o):
        b = self._bin(o)
        if b is None: return NotImplemented
        return b + (-self)
    def __mul__(self, o):
        b = self._bin(o)
        if b is None: return NotImplemented
        return mk(p_mul(self.n, b.n), p_mul(self.d, b.d), self.isint and b.isint)
    __rmul__ = __mul__
    def __truediv__(self, o):
        b = self._bin(o)
        if b is None: return NotImplemented
        if not b.n: raise ZeroDivisionError
        if not b.isconst(): engine().defined(b)
        return mk(p_mul(self.n, b.d), p_mul(self.d, b.n), False)
    def __rtruediv__(self, o):
        b = self._bin(o)
        if b is None: return NotImplemented
        return b / self
    def __floordiv__(self, o): return floordiv(self, Num.of(o))
    def __rfloordiv__(self, o): return floordiv(Num.of(o), self)
    def __mod__(self, o): return pymod(self, Num.of(o))
    def __rmod__(self, o): return pymod(Num.of(o), self)
    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self
    def __pow__(self, o, mod=None): return power(self, Num.of(o))
    def __rpow__(self, o): return power(Num.of(o), self)
    def __abs__(self):
        if self.isconst(): return Num.of(abs(self.const())) if not self.isint else Num.of(int(abs(self.const())))
        if self >= 0: return self
        return -self
    # -- bits (mathematical integers)
    def __lshift__(self, k):
        k = Num.of(k)
        if not k.isconst(): raise Unsupported('symbolic shift')
        return self * (2 ** int(k.const()))
    def __rlshift__(self, o): return Num.of(o) << self
    def __rshift__(self, k):
        k = Num.of(k)
        if not k.isconst():
            if not (self.isint and k.isint and engine().valid((k >= 0).z)): raise Unsupported('symbolic shift')
            return shr(self, k)
        return floordiv(self, Num.of(2 ** int(k.const())))
    def __and__(self, o):
        o = Num.of(o)
        if o.isconst() and self.isconst(): return Num.of(int(self.const()) & int(o.const()))
        if self.isconst(): self, o = o, self
        if o.isconst() and o.const() >= 0:
            c = int(o.const())
            # split c into runs of ones
            r = Num.of(0); bit = 0
            while c >> bit:
                if (c >> bit) & 1:
                    hi = bit
                    while (c >> hi) & 1: hi += 1
                    r = r + ((self % (2 ** hi)) // (2 ** bit)) * (2 ** bit)
                    bit = hi
                else: bit += 1
            return r
        raise Unsupported('symbolic &')
    __rand__ = __and__
    def __or__(self, o):
        o = Num.of(o)
        if o.isconst() and self.isconst(): return Num.of(int(self.const()) | int(o.const()))
        if o.isconst(): self, o = o, self
        # disjoint bits: find k with 0<=o<2^k and self % 2^k == 0 (or vice versa)
        for a, b in ((self, o), (o, self)):
            for k in range(0, 33):
                E = engine()
                if E.valid((b >= 0).z) and E.valid((b < 2 ** k).z):
                    if E.valid(((a % (2 ** k)) == 0).z): return a + b
                    break
        raise Unsupported('symbolic |')
    __ror__ = __or__
    def __xor__(self, o): raise Unsupported('symbolic ^')
    __rxor__ = __xor__
    def __invert__(self): return -self - 1
    # -- comparison
    def _cmp(self, o, op):
        if isinstance(o, SComplex) or isinstance(o, complex): return NotImplemented
        try: b = Num.of(o) if not isinstance(o, Num) else o
        except (TypeError, Unsupported):
            if isinstance(o, float):
                if o == float('inf'): return {'<': True, '<=': True, '>': False, '>=': False, '==': False, '!=': True}[op]
                if o == float('-inf'): return {'<': False, '<=': False, '>': True, '>=': True, '==': False, '!=': True}[op]
            if op == '==': return False
            if op == '!=': return True
            return NotImplemented
        df = self - b
        if df.isconst():
            v = df.const()
            return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[op]
        if op in ('==', '!=') and len(df.n) == 1:
            # a product is zero exactly when one of its factors is
            m = next(iter(df.n))
            fs = [ATOMS[i] for i, e in m if ATOMS[i] is not PI_ATOM]
            if all(e > 0 for i, e in m) and (len(fs) != 1 or len(m) != 1 or m[0][1] != 1):
                r = b_or(*[SBool.cmp(Num.var(a), '==') for a in fs]) if fs else False
                return r if op == '==' else b_not(r)
        return SBool.cmp(df, op)
    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')
    def __hash__(self): 
        if self.isconst():
            return hash(self.const())
        return hash(self.key())
    def __bool__(self):
        r = (self != 0)
        return bool(r)
    def __index__(self):
        if self.isconst() and self.const().denominator == 1: return int(self.const())
        raise Unsupported('symbolic value used as index')
    def __int__(self):
        return self.__index__()
    def __float__(self):
        if self.isconst(): return float(self.const())
        raise Unsupported('float() of symbolic value')
    def __complex__(self): return complex(float(self))
    def __trunc__(self): return trunc(self)
    def __round__(self, nd=None): return rnd(self)
    def __floor__(self): return floor(self)
    def __ceil__(self): return ceil(self)
    # -- numpy-scalar-like
    @property
    def real(self): return self
    @property
    def imag(self): return Num.of(0)
    def conjugate(self): return self
    @property
    def shape(self): return ()
    @property
    def size(self): return 1
    @property
    def ndim(self): return 0
    def astype(self, t): 
        from . import npsym
        return npsym.cast(self, t)
    def item(self): return self
    def squeeze(self): return self
    def sum(self, axis=None): return self
    def copy(self): return self
    def transpose(self, *a): return self
    T = property(lambda s: s)
    def flatten(self):
        from . import npsym
        return npsym.array([self])
    def reshape(self, *s):
        from . import npsym
        return npsym.reshape(npsym.array(self), s[0] if len(s) == 1 else s)
    def is_integer(self): raise Unsupported('is_integer')
    def any(self): return self != 0
    def all(self): return self != 0
    def max(self): return self
    def min(self): return self
    def cos(self): return cos(self)
    def sin(self): return sin(self)
    # -- z3
    @property
    def z(self):
        if self._z is None: self._z = self._mkz()
        return self._z
    def _mkz(self):
        ints = self.isint and all(c.denominator == 1 for c in self.n.values()) and p_isconst(self.d) \
            and p_const_val(self.d) == 1 and all(ATOMS[i].isint for i in self.atoms())
        n = p_z3(self.n, ints)
        if p_isconst(self.d) and p_const_val(self.d) == 1: return n
        return n / p_z3(self.d, False)
    @property
    def zr(self):
        z = self.z
        return z3.ToReal(z) if z.sort() == z3.IntSort() else z

def p_z3(p, ints):
    terms = []
    for m, c in sorted(p.items()):
        fs = []
        for i, e in m:
            a = ATOMS[i].z
            if ATOMS[i].isint and not ints: a = z3.ToReal(a)
            fs += [a] * e
        cz = z3.IntVal(int(c)) if ints else z3.RealVal(str(c))
        t = cz if not fs else None
        if fs:
            t = fs[0]
            for f in fs[1:]: t = t * f
            if c != 1: t = cz * t
        terms.append(t)
    if not terms: return z3.IntVal(0) if ints else z3.RealVal(0)
    if len(terms) == 1: return terms[0]
    return z3.Sum(terms)

def mk(n, d, isint=False):
    if not n: return Num({}, None, isint)
    if p_isconst(d):
        c = p_const_val(d)
        if c != 1: n = p_scale(n, 1 / c)
        return Num(n, None, isint)
    # cancel common monomial and normalise the leading coefficient
    g = p_content_mono(d)
    if g:
        gn = p_content_mono(n)
        dn = dict(gn)
        g = tuple((i, min(e, dn[i])) for i, e in g if i in dn)
        if g:
            n = {m_div(m, g): c for m, c in n.items()}; d = {m_div(m, g): c for m, c in d.items()}
            if p_isconst(d): return mk(n, d, isint)
    lead = d[max(d)]
    if lead != 1: n = p_scale(n, 1 / lead); d = p_scale(d, 1 / lead)
    if n == d: return Num(p_const(1), None, isint)
    # proportional?
    if len(n) == len(d) and n.keys() == d.keys():
        ks = iter(n); k = next(ks); r = n[k] / d[k]
        if all(n[m] == r * d[m] for m in n): return Num(p_const(r), None, isint)
    if len(d) > 1 and len(n) >= len(d):
        q = p_divexact(n, d)
        if q is not None: return Num(q, None, isint)
    return Num(n, d, isint)

def p_divexact(n, d):
    """n/d if the (unreduced) polynomial division is exact, else None."""
    lm = max(d, key=_mkey); lc = d[lm]
    rem = dict(n); q = {}
    dl = dict(lm)
    for _ in range(400):
        if not rem: return p_reduce(q)
        m = max(rem, key=_mkey); dm = dict(m)
        if any(dm.get(i, 0) < e for i, e in lm): return None
        t = m_div(m, lm); c = rem[m] / lc
        q[t] = q.get(t, 0) + c
        for m2, c2 in d.items():
            mm = m_mul(t, m2); v = rem.get(mm, 0) - c * c2
            if v: rem[mm] = v
            else: rem.pop(mm, None)
    return None
def _mkey(m): return (sum(e for _, e in m), m)

# ----------------------------------------------------------------- booleans
class SBool:
    __slots__ = ('z', '_cmp')
    __array_priority__ = 1000
    __array_ufunc__ = None
    def __init__(self, z, c=None): self.z = z; self._cmp = c
    @staticmethod
    def cmp(df, op):
        # sign of df = n/d ; multiply through by d^2 when d is not constant
        if not p_isconst(df.d):
            n = Num(p_mul(df.n, df.d)) if op not in ('==', '!=') else Num(df.n)
        else: n = df
        z = n.z; zero = z3.IntVal(0) if z.sort() == z3.IntSort() else z3.RealVal(0)
        t = {'<': z < zero, '<=': z <= zero, '>': z > zero, '>=': z >= zero, '==': z == zero, '!=': z != zero}[op]
        return SBool(t, (df, op))
    @staticmethod
    def of(b):
        if isinstance(b, SBool): return b
        if isinstance(b, Num): return SBool.of(b != 0)
        return SBool(z3.BoolVal(bool(b)))
    def __bool__(self): return engine().branch(self.z)
    def __and__(self, o):
        if isinstance(o, (bool, SBool)): return mkb(z3.And(self.z, SBool.of(o).z))
        return NotImplemented
    __rand__ = __and__
    def __or__(self, o):
        if isinstance(o, (bool, SBool)): return mkb(z3.Or(self.z, SBool.of(o).z))
        return NotImplemented
    __ror__ = __or__
    def __xor__(self, o):
        if isinstance(o, (bool, SBool)): return mkb(z3.Xor(self.z, SBool.of(o).z))
        return NotImplemented
    def __invert__(self): return mkb(z3.Not(self.z))
    def __eq__(self, o):
        if isinstance(o, (bool, SBool)): return mkb(self.z == SBool.of(o).z)
        return bool_to_num(self) == o
    def __ne__(self, o):
        if isinstance(o, (bool, SBool)): return mkb(self.z != SBool.of(o).z)
        return bool_to_num(self) != o
    def __hash__(self): return self.z.hash()
    def __mul__(self, o): return bool_to_num(self) * o
    __rmul__ = __mul__
    def __add__(self, o): return bool_to_num(self) + o
    __radd__ = __add__
    def __sub__(self, o): return bool_to_num(self) - o
    def __rsub__(self, o): return o - bool_to_num(self)
    def __repr__(self): return 'SBool(%s)' % self.z
    def __index__(self): return 1 if self else 0
    def __int__(self): return 1 if self else 0
    def astype(self, t):
        from . import npsym
        return npsym.cast(self, t)
    @property
    def shape(self): return ()
    def all(self): return self
    def any(self): return self

def mkb(z):
    z = z3.simplify(z)
    if z3.is_true(z): return True
    if z3.is_false(z): return False
    return SBool(z)
def b_and(*bs):
    r = True
    for b in bs:
        if b is True: continue
        if b is False: return False
        r = b if r is True else (r & b)
    return r
def b_or(*bs):
    r = False
    for b in bs:
        if b is False: continue
        if b is True: return True
        r = b if r is False else (r | b)
    return r
def b_not(b):
    if isinstance(b, SBool): return ~b
    return not b
def implies(a, b): return b_or(b_not(a), b)

def bool_to_num(b):
    return Num.of(1) if b else Num.of(0)    # forks

# ----------------------------------------------------------------- complex
class SComplex:
    __slots__ = ('re', 'im')
    __array_priority__ = 1000
    __array_ufunc__ = None
    def __init__(self, re, im): self.re = Num.of(re); self.im = Num.of(im)
    @staticmethod
    def of(x):
        if isinstance(x, SComplex): return x
        if isinstance(x, Num): return SComplex(x, 0)
        import numpy as _np
        if isinstance(x, _np.generic): x = x.item()
        if isinstance(x, complex):
            return SComplex(float(x.real) if x.real != int(x.real) else int(x.real),
                            float(x.imag) if x.imag != int(x.imag) else int(x.imag))
        return SComplex(Num.of(x), 0)
    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im
    def conjugate(self): return SComplex(self.re, -self.im)
    conj = conjugate
    def _o(self, o):
        try: return SComplex.of(o)
        except TypeError: return None
    def __add__(self, o):
        o = self._o(o)
        if o is None: return NotImplemented
        return SComplex(self.re + o.re, self.im + o.im)
    __radd__ = __add__
    def __neg__(self): return SComplex(-self.re, -self.im)
    def __sub__(self, o):
        o = self._o(o)
        if o is None: return NotImplemented
        return SComplex(self.re - o.re, self.im - o.im)
    def __rsub__(self, o):
        o = self._o(o)
        if o is None: return NotImplemented
        return o - self
    def __mul__(self, o):
        o = self._o(o)
        if o is None: return NotImplemented
        return SComplex(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__
    def __truediv__(self, o):
        o = self._o(o)
        if o is None: return NotImplemented
        if not o.im.n: return SComplex(self.re / o.re, self.im / o.re)
        m = o.re * o.re + o.im * o.im
        if not m.isconst(): engine().defined(m)
        t = self * o.conjugate()
        return SComplex(mk(p_mul(t.re.n, m.d), p_mul(t.re.d, m.n)), mk(p_mul(t.im.n, m.d), p_mul(t.im.d, m.n)))
    def __rtruediv__(self, o):
        o = self._o(o)
        if o is None: return NotImplemented
        return o / self
    def __pow__(self, k):
        k = Num.of(k)
        if k.isconst() and k.const().denominator == 1 and 0 <= k.const() <= 8:
            r = SComplex(1, 0)
            for _ in range(int(k.const())): r = r * self
            return r
        raise Unsupported('complex power')
    def __abs__(self): return sqrt(self.re * self.re + self.im * self.im)
    def __eq__(self, o):
        o = self._o(o)
        if o is None: return NotImplemented
        return b_and(self.re == o.re, self.im == o.im)
    def __ne__(self, o): return b_not(self == o)
    def __hash__(self): return hash((self.re, self.im))
    def __bool__(self): return bool(self != 0)
    def __repr__(self): return '(%r + i*%r)' % (self.re, self.im)
    def astype(self, t):
        from . import npsym
        return npsym.cast(self, t)
    @property
    def shape(self): return ()
    @property
    def size(self): return 1
    @property
    def ndim(self): return 0
    def squeeze(self): return self
    def sum(self, axis=None): return self
    def copy(self): return self
    def item(self): return self

def is_scalar(x):
    import numpy as _np
    return isinstance(x, (Num, SComplex, SBool, int, float, complex, Fraction, bool, _np.generic))

# ----------------------------------------------------------------- functions
PI_ATOM = atom('pi', 'pi')
PI_ATOM.axioms = lambda a: [a.z > z3.RealVal('3.14159265358979323'), a.z < z3.RealVal('3.14159265358979324')]
PI_ATOM.numf = lambda ev: math.pi
PI = Num.var(PI_ATOM)

def fn_atom(kind, args, isint=False, name=None):
    key = (kind,) + tuple(a.key() for a in args)
    nm = name or '%s(%s)' % (kind, ', '.join(repr(a) for a in args))
    return atom(key, nm, isint, kind, tuple(args))

def fn(kind, args, isint=False, axioms=None, numf=None):
    args = [Num.of(a) for a in args]
    a = fn_atom(kind, args, isint)
    if axioms is not None and a.axioms is None: a.axioms = axioms
    if numf is not None and a.numf is None: a.numf = lambda ev: numf(*[ev(x) for x in args])
    return Num.var(a)

def _lead(p): return p[max(p, key=_mkey)]

def _angle(x):
    """(quarter turns, sign, rest poly) such that x = quarter*pi/2 + sign*rest, rest canonical"""
    n = dict(x.n)
    pim = ((PI_ATOM.id, 1),)
    q = 0
    if p_isconst(x.d) and pim in n:
        r = n[pim] * 2
        fl = r.numerator // r.denominator
        q = fl
        rem = (r - fl) / 2
        if rem: n[pim] = rem
        else: del n[pim]
    elif not p_isconst(x.d):
        # n/d = k*pi/2 + n'/d: divide by pi*d at d's leading monomial
        lead = max(x.d, key=_mkey)
        if lead != ONE:
            c = n.get(m_mul(lead, pim), Fraction(0)) / x.d[lead] * 2
            k = c.numerator // c.denominator
            if k:
                q = k
                for m, c in x.d.items():
                    m2 = m_mul(m, pim); v = n.get(m2, Fraction(0)) - c * k / 2
                    if v: n[m2] = v
                    else: n.pop(m2, None)
    if not n: return q % 4, 1, None
    rest = Num(n, x.d) if p_isconst(x.d) else mk(n, x.d)
    sgn = 1
    if _lead(n) < 0: sgn = -1; rest = -rest
    return q % 4, sgn, rest

def _expandable(rest):
    if not (p_isconst(rest.d)): return False
    if len(rest.n) > 4: return False
    for m, c in rest.n.items():
        if m == ONE: return False
        if len(m) != 1 or m[0][1] != 1: return False
        if m[0][0] == PI_ATOM.id: 
            continue
        if c.denominator != 1 or abs(c) > 4: return False
    return len(rest.n) > 1 or abs(next(iter(rest.n.values()))) != 1

def _cs_atom(rest):
    """(cos, sin) of a canonical non-expandable angle"""
    # single atom with known cos/sin
    if p_isconst(rest.d) and len(rest.n) == 1:
        (m, c), = rest.n.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].cosv is not None:
            a = ATOMS[m[0][0]]
            return a.cosv(), a.sinv()
    ca = fn_atom('cos', [rest]); sa = fn_atom('sin', [rest])
    if sa.sq is None:
        sa.sq = {ONE: Fraction(1), ((ca.id, 2),): Fraction(-1)}
        def ax(a, ca=ca, sa=sa, rest=rest):
            x, p, c, s = rest.zr, PI_ATOM.z, ca.z, sa.z
            return [c * c + s * s == 1, c <= 1, c >= -1, s <= 1, s >= -1,
                    z3.Implies(z3.And(x > 0, x < p), s > 0), z3.Implies(z3.And(x < 0, x > -p), s < 0),
                    z3.Implies(z3.And(x > -p / 2, x < p / 2), c > 0),
                    z3.Implies(z3.And(x > p / 2, x < 3 * p / 2), c < 0), z3.Implies(z3.And(x < -p / 2, x > -3 * p / 2), c < 0),
                    z3.Implies(x == 0, z3.And(c == 1, s == 0)), z3.Implies(z3.Or(x == p, x == -p), z3.And(c == -1, s == 0)),
                    z3.Implies(x == p / 2, z3.And(c == 0, s == 1)), z3.Implies(x == -p / 2, z3.And(c == 0, s == -1))]
        ca.axioms = sa.axioms = ax
        ca.numf = lambda ev: math.cos(ev(rest)); sa.numf = lambda ev: math.sin(ev(rest))
    return Num.var(ca), Num.var(sa)

def _cs(rest):
    if not p_isconst(rest.d) and len(rest.n) == 1:
        (m, c), = rest.n.items()
        if c.denominator == 1 and 1 < abs(c) <= 8: # multiple-angle formula
            bc, bs = _cs_atom(Num({m: Fraction(1)}, rest.d)); C, S = Num.of(1), Num.of(0)
            for _ in range(abs(int(c))): C, S = C * bc - S * bs, S * bc + C * bs
            return C, (S if c > 0 else -S)
    if not _expandable(rest): return _cs_atom(rest)
    C, S = Num.of(1), Num.of(0)
    for m, c in sorted(rest.n.items()):
        if m[0][0] == PI_ATOM.id:
            c1, s1 = _cs_atom(Num({m: abs(c)}))
            if c < 0: s1 = -s1
        else:
            bc, bs = _cs_atom(Num({m: Fraction(1)}))
            c1, s1 = Num.of(1), Num.of(0)
            for _ in range(abs(int(c))): c1, s1 = c1 * bc - s1 * bs, s1 * bc + c1 * bs
            if c < 0: s1 = -s1
        C, S = C * c1 - S * s1, S * c1 + C * s1
    return C, S

def cossin(x):
    x = Num.of(x)
    q, sgn, rest = _angle(x)
    if rest is None: c, s = Num.of(1), Num.of(0)
    else:
        c, s = _cs(rest)
        if sgn < 0: s = -s
    for _ in range(q): c, s = -s, c
    return c, s
def cos(x): return cossin(x)[0]
def sin(x): return cossin(x)[1]
def tan(x):
    c, s = cossin(x)
    return s / c

def sqrt(x):
    x = Num.of(x)
    if x.isconst():
        v = x.const()
        if v < 0: raise Unsupported('sqrt of negative')
        r = Fraction(math.isqrt(v.numerator), 1) / Fraction(math.isqrt(v.denominator), 1)
        if r * r == v: return Num.of(r)
    if not x.n: return Num.of(0)
    # sqrt(n/d) = sqrt(n*d)/|d| ; for a square-free treatment keep n*d as radicand
    if not p_isconst(x.d):
        D = Num(x.d)
        if D < 0: D = -D
        return sqrt(Num(p_mul(x.n, x.d))) / D
    # single monomial: take squares out
    if len(x.n) == 1 and not x.isconst():
        (m, c), = x.n.items()
        if len(m) == 1 and ATOMS[m[0][0]].kind == 'exp' and m[0][1] == 1:
            return sqrt(Num.of(c)) * exp(ATOMS[m[0][0]].args[0] / 2)
        if all(e % 2 == 0 for _, e in m):
            rc = sqrt(Num.of(c)) if c != 1 else Num.of(1)
            b = Num({tuple((i, e // 2) for i, e in m): Fraction(1)})
            return rc * abs(b)
    # common square monomial
    g = p_content_mono(x.n)
    gs = tuple((i, e - e % 2) for i, e in g if e >= 2)
    if gs:
        inner = Num({m_div(m, gs): c for m, c in x.n.items()})
        return abs(Num({tuple((i, e // 2) for i, e in gs): Fraction(1)})) * sqrt(inner)
    # perfect squares hidden by the trig rewriting: candidates are single atoms and what is in scope
    for cand in _square_candidates(x):
        if p_mul(cand.n, cand.n) == x.n: return abs(cand)
    engine().defined(x, nonneg=True)
    a = fn_atom('sqrt', [x])
    if a.sq is None:
        a.sq = dict(x.n)
        a.axioms = lambda a, x=x: [a.z >= 0, a.z * a.z == x.zr]
        a.numf = lambda ev: math.sqrt(max(ev(x), 0.0))
    return Num.var(a)

def _square_candidates(x):
    ids = sorted(x.atoms())
    cands = []
    for i in ids:
        a = ATOMS[i]
        if a.kind in ('cos', 'sin'):
            for k in ('cos', 'sin'):
                b = fn_atom(k, list(a.args))
                cands.append(Num.var(b))
    for c in list(cands):
        yield c
    # monomial * sine
    g = p_content_mono(x.n)
    for c in cands:
        for d in cands:
            if c is not d: yield c * d

def exp(x):
    if isinstance(x, SComplex):
        c, s = cossin(x.im)
        e = exp(x.re)
        return SComplex(e * c, e * s)
    x = Num.of(x)
    if not x.n: return Num.of(1)
    return fn('exp', [x], axioms=lambda a, x=x: [a.z > 0, z3.Implies(x.zr <= 0, a.z <= 1), z3.Implies(x.zr >= 0, a.z >= 1)], numf=lambda v: math.exp(v))

def log(x):
    x = Num.of(x)
    if x.isconst() and x.const() == 1: return Num.of(0)
    engine().defined(x, pos=True)
    return fn('log', [x], numf=lambda v: math.log(v))

def power(x, y):
    if y.isconst():
        v = y.const()
        if v.denominator == 1:
            v = int(v)
            if 0 <= v <= 40:
                r = Num.of(1)
                for _ in range(v): r = r * x
                return r
            if -40 <= v < 0: return Num.of(1) / power(x, Num.of(-v))
        if v.denominator == 2: return sqrt(power(x, Num.of(v.numerator)))
    if x.isconst() and x.const() == 1: return Num.of(1)
    if x.isconst() and x.const() == 2 and x.isint and y.isint and engine().valid((y >= 0).z): return pow2(y)
    return fn('pow', [x, y], numf=lambda a, b: a ** b)

def pow2(e):
    """2**e for an integer e >= 0 (an integer, at least 1)"""
    e = Num.of(e)
    if e.isconst(): return Num.of(2 ** int(e.const()))
    return fn('pow2', [e], isint=True, axioms=lambda a: [a.z >= 1], numf=lambda v: 2 ** int(v) if v >= 0 else 1)
def shr(x, k):
    """x >> k for an integer k >= 0"""
    x, k = Num.of(x), Num.of(k)
    if k.isconst(): return x >> k
    return fn('shr', [x, k], isint=True, numf=lambda a, b: int(a) >> int(b))

def arctan2(y, x):
    y, x = Num.of(y), Num.of(x)
    a = fn_atom('atan2', [y, x])
    if a.axioms is None:
        # cos/sin of the angle; at the origin atan2(0,0)=0, elsewhere x/r, y/r
        def cs(x=x, y=y):
            r = sqrt(x * x + y * y)
            if r == 0: return Num.of(1), Num.of(0)
            return Num._div(x, r), Num._div(y, r)
        a.cosv, a.sinv = (lambda: cs()[0]), (lambda: cs()[1])
        def ax(a, x=x, y=y):
            xz, yz, p = x.zr, y.zr, PI_ATOM.z
            return [a.z > -p, a.z <= p, (a.z > 0) == z3.Or(yz > 0, z3.And(yz == 0, xz < 0)), (a.z == 0) == z3.And(yz == 0, xz >= 0),
                    (a.z == p) == z3.And(yz == 0, xz < 0), z3.And(a.z < p / 2, a.z > -p / 2) == z3.Or(xz > 0, z3.And(xz == 0, yz == 0))]
        a.axioms = ax
        a.numf = lambda ev: math.atan2(ev(y), ev(x))
    return Num.var(a)
Num._div = staticmethod(lambda a, b: mk(p_mul(a.n, b.d), p_mul(a.d, b.n)))

def arcsin(x):
    x = Num.of(x)
    if x.isconst():
        v = x.const()
        if v == 0: return Num.of(0)
        if v == 1: return PI / 2
        if v == -1: return -PI / 2
    a = fn_atom('asin', [x])
    if a.axioms is None:
        a.axioms = lambda a, x=x: [a.z >= -PI_ATOM.z / 2, a.z <= PI_ATOM.z / 2, (a.z > 0) == (x.zr > 0), (a.z == 0) == (x.zr == 0)]
        a.numf = lambda ev: math.asin(max(-1., min(1., ev(x))))
        a.sinv = lambda x=x: x
        a.cosv = lambda x=x: sqrt(1 - x * x)
    return Num.var(a)

def arccos(x): return PI / 2 - arcsin(x)

# ---- integers
def floor(x):
    x = Num.of(x)
    if x.isint: return x
    if x.isconst(): return Num.of(math.floor(x.const()))
    # pull integer parts out
    ip, rest = _intpart(x)
    if ip is not None:
        return ip + floor(rest)
    return fn('floor', [x], isint=True,
              axioms=lambda a, x=x: [z3.ToReal(a.z) <= x.zr, x.zr < z3.ToReal(a.z) + 1], numf=lambda v: math.floor(v))
def _intpart(x):
    if not p_isconst(x.d): return None, None
    i = {m: c for m, c in x.n.items() if c.denominator == 1 and all(ATOMS[a].isint for a, _ in m)}
    k = x.n.get(ONE)
    if k is not None and k.denominator != 1:
        i[ONE] = Fraction(math.floor(k))
        if not i[ONE]: del i[ONE]
    if not i: return None, None
    ip = Num(i, None, True)
    rest = x - ip
    if rest.isconst(): return ip, rest
    return ip, rest
def ceil(x): return -floor(-Num.of(x))
def rnd(x):
    x = Num.of(x)
    if x.isint: return x
    ip, rest = _intpart(x)
    if ip is not None and rest.isconst() and rest.const() == 0: return ip
    if x.isconst(): return Num.of(round(x.const()))
    return fn('round', [x], isint=True,
              axioms=lambda a, x=x: [z3.ToReal(a.z) - x.zr <= z3.RealVal('1/2'), x.zr - z3.ToReal(a.z) <= z3.RealVal('1/2')],
              numf=lambda v: round(v))
def trunc(x):
    x = Num.of(x)
    if x.isint: return x
    if x >= 0: return floor(x)
    return ceil(x)

def floordiv(a, b):
    if not (a.isint and b.isint):
        if b.isconst() and b.const() != 0: return floor(a * Num.of(1 / b.const()))
        return floor(a / b)
    if a.isconst() and b.isconst(): return Num.of(int(a.const()) // int(b.const()))
    if not b.isconst():
        if b < 0: return floordiv(-a, -b)
        engine().defined(b)
        return fn('floordiv', [a, b], isint=True,
                  axioms=lambda r, a=a, b=b: [b.z * r.z <= a.z, a.z < b.z * r.z + b.z], numf=lambda x, y: x // y)
    k = int(b.const())
    if k == 0: raise ZeroDivisionError
    if k < 0: return floordiv(-a, Num.of(-k))
    if k == 1: return a
    # split off multiples of k
    ip = {m: c for m, c in a.n.items() if c.numerator % k == 0}
    if ip:
        q = Num({m: c / k for m, c in ip.items()}, None, True)
        rest = a - Num(ip, None, True)
        return q + floordiv(rest, b)
    if E_range(a, 0, k): return Num.of(0)
    return fn('floordiv', [a, b], isint=True,
              axioms=lambda r, a=a, k=k: [k * r.z <= a.z, a.z < k * r.z + k], numf=lambda x, y: x // y)
def E_range(a, lo, hi):
    if ENGINE is None: return False
    if a.isconst(): return lo <= a.const() < hi
    return ENGINE.valid(z3.And(a.z >= lo, a.z < hi))
def pymod(a, b):
    if a.isconst() and b.isconst() and a.isint and b.isint: return Num.of(int(a.const()) % int(b.const()))
    return a - b * floordiv(a, b)

# ----------------------------------------------------------------- numeric evaluation (for counterexample checking)
def num_eval(x, env):
    """Evaluate Num with floats; env maps atom id -> float for variables. Derived atoms via numf."""
    cache = {}
    def ev_atom(i):
        if i in cache: return cache[i]
        a = ATOMS[i]
        if i in env: v = env[i]
        elif a.numf is not None: v = a.numf(ev)
        else: raise Unsupported('no numeric value for %s' % a.name)
        cache[i] = v
        return v
    def ev_poly(p):
        t = 0.0
        for m, c in p.items():
            v = float(c)
            for i, e in m: v *= ev_atom(i) ** e
            t += v
        return t
    def ev(x):
        x = Num.of(x)
        return ev_poly(x.n) / ev_poly(x.d)
    return ev(x)

# real (op) complex: promote to SComplex
def _promote(cls):
    def wrap(nm, f):
        def g(self, o, *a):
            if type(o) is complex or type(o).__name__ == 'complex128': return getattr(SComplex(self, 0), nm)(SComplex.of(o), *a)
            return f(self, o, *a)
        return g
    for nm in ('__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__', '__eq__', '__ne__'):
        setattr(cls, nm, wrap(nm, getattr(cls, nm)))
_promote(Num)
