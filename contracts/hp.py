"""contracts of healpy and of aipy.utils.add2array (the latter decided by C12), and of finite sums with one non-zero term"""
import types
from vc.api import *
from vc import npsym, seq
from vc.num import Num, SBool, SComplex, Unsupported

def nside_sym(name='nside'):
    """an arbitrary power of two"""
    o = integer(name + '_order', lo=0, hi=3, ge=0)
    a = num.atom(('in', name, 'i'), name, True); a.meta = dict(range=(1, 8), log2=o); v = Num.var(a); assume(v >= 1)
    reg().append(v); return v
def reg(): return E().__dict__.setdefault('nsides_%d' % id(E().pc), [])
def npix_of(n): return 12 * Num.of(n) * Num.of(n)
def known(x):
    """which registered nside has this many pixels"""
    for n in reg():
        if (Num.of(x) - npix_of(n)).key() == Num.of(0).key(): return n
    x = Num.of(x)
    if x.isconst():
        import math
        q = x.const() / 12; r = math.isqrt(int(q)) if q >= 1 else 0
        return Num.of(r) if q == r * r and r >= 1 else None
    raise Unsupported('number of pixels %r' % x)
def num_(x): return Num.of(x.at() if isinstance(x, npsym.ndarray) else x)
def pxf(nm, nside, args):
    n = npix_of(nside)
    return func(nm, [Num.of(nside)] + [num_(a) for a in args], True, 0, 11, axioms=lambda a: [a.z >= 0, a.z < n.z])
def r2n(nside, p):
    """ring -> nest, with nest -> ring as its inverse, and the other way round (bijection of the pixels in range)"""
    return conv('ring2nest', 'nest2ring', nside, p)
def n2r(nside, p): return conv('nest2ring', 'ring2nest', nside, p)
def conv(f, g, nside, p):
    p = Num.of(p); a = list(p.atoms())
    if len(a) == 1:
        m = CONV.get(a[0])
        if m is not None and m[0] == g and p.key() == Num.var(num.ATOMS[a[0]]).key() and m[1] == Num.of(nside).key(): return m[2]
    n = npix_of(nside)
    v = func(f, [Num.of(nside), p], True, 0, 11, axioms=lambda a: [a.z >= 0, a.z < n.z])
    CONV[list(v.atoms())[0]] = (f, Num.of(nside).key(), p)
    E().assume(func(g, [Num.of(nside), v], True, 0, 11) == p)
    return v
CONV = {}
def mapv(f, *xs):
    if any(isinstance(x, npsym.ndarray) for x in xs): return npsym.elementwise(f, *xs, kind='i')
    return f(*[num_(x) for x in xs])
def healpy(session):
    m = types.ModuleType('healpy_contract')
    m.nside2npix = lambda n: npsym.nidx(npix_of(n))
    def npix2nside(n):
        r = known(n)
        if r is None: raise ValueError('Wrong pixel number (it is not 12*nside**2)')
        return npsym.nidx(r)
    m.npix2nside = npix2nside
    m.nside2order = lambda n: log2(n)
    m.ring2nest = lambda n, p: mapv(lambda v: r2n(n, v), npsym.asarray(p) if isinstance(p, (list, npsym.ndarray)) else p)
    m.nest2ring = lambda n, p: mapv(lambda v: n2r(n, v), npsym.asarray(p) if isinstance(p, (list, npsym.ndarray)) else p)
    def same_len(c):
        c = [x if isinstance(x, npsym.ndarray) else x for x in c]
        return c
    def px(n, nm, c, nest):
        def f(*a):
            r = pxf(nm, n, a); return r2n(n, r) if bool(nest) else r
        return mapv(f, *c)
    m.ang2pix = lambda n, a, b, nest=False, lonlat=False: px(n, 'ang2pix', (a, b), nest)
    m.vec2pix = lambda n, x, y, z, nest=False: px(n, 'vec2pix', (x, y, z), nest)
    def fel(nm, n, p, lo, hi): return func(nm, [Num.of(n), Num.of(p)], False, lo, hi)
    def pix(names):
        def g(n, p, nest=False, **k):
            def one(nm): return mapf(lambda v: fel(nm, n, n2r(n, v) if bool(nest) else v, -1, 1), p)
            return tuple(one(nm) for nm in names)
        return g
    def mapf(f, p): return npsym.elementwise(f, p, kind='f') if isinstance(p, npsym.ndarray) else f(Num.of(p))
    m.pix2ang = pix(['pix.th', 'pix.ph']); m.pix2vec = pix(['pix.x', 'pix.y', 'pix.z'])
    def vec2ang(v, lonlat=False):
        f = v.copy_fn(); n = v._shape[0]
        g = lambda nm: npsym.ndarray((n,), lambda idx: func('vec2ang.' + nm, [Num.of(f((idx[0], c))) for c in range(3)], False, 0, 3), 'f')
        if v.ndim != 2: raise Unsupported('vec2ang')
        return g('th'), g('ph')
    m.vec2ang = vec2ang
    def weights(n, th, ph=None, nest=False, lonlat=False):
        th, ph = npsym.asarray(th), npsym.asarray(ph); k = th._shape[0]; ft, fp = th.copy_fn(), ph.copy_fn()
        q = lambda idx: [Num.of(idx[0]), Num.of(ft((idx[1],))), Num.of(fp((idx[1],)))]
        def fpx(idx):
            r = pxf('interp.px', n, q(idx)); return r2n(n, r) if bool(nest) else r
        return npsym.ndarray((4, k), fpx, 'i'), npsym.ndarray((4, k), lambda idx: func('interp.w', [Num.of(n)] + q(idx), False, 0, 1), 'f')
    m.get_interp_weights = weights
    class Alm:
        """coefficients in order of m, then l: index m*(2*lmax+1-m)/2 + l; getlm is its inverse"""
        @staticmethod
        def getsize(lmax, mmax=None):
            if mmax is None: mmax = lmax
            return npsym.nidx(func('alm.size', [Num.of(lmax), Num.of(mmax)], True, 1, 6, axioms=lambda a: [a.z >= 1]))
        @staticmethod
        def getidx(lmax, l, mm):
            return almidx(lmax, l, mm)
        @staticmethod
        def getlm(lmax, i=None):
            if i is None: raise Unsupported('getlm')
            return func('alm.l', [Num.of(lmax), Num.of(i)], True, 0, 3), func('alm.m', [Num.of(lmax), Num.of(i)], True, 0, 3)
    m.Alm = Alm
    m.alm2map = lambda *a, **k: m_calls(m, 'alm2map', a, k); m.map2alm = lambda *a, **k: m_calls(m, 'map2alm', a, k)
    def m_calls(m, nm, a, k): raise Unsupported('healpy.' + nm)
    def ga(n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('healpy.' + n)
    m.__getattr__ = ga
    return m
def almidx(lmax, l, mm):
    """getidx with its inverse: getlm(getidx(l, m)) = (l, m)"""
    a = func('alm.idx', [Num.of(lmax), Num.of(l), Num.of(mm)], True, 0, 5)
    E().assume(func('alm.l', [Num.of(lmax), a], True) == Num.of(l)); E().assume(func('alm.m', [Num.of(lmax), a], True) == Num.of(mm))
    return a
def log2(n):
    n = Num.of(n)
    if n.isconst():
        import math
        return Num.of(math.log2(n.const()))
    a = list(n.atoms()); mt = num.ATOMS[a[0]].meta or {}
    if len(a) == 1 and 'log2' in mt: return mt['log2']
    raise Unsupported('log2')

def utils(session):
    m = types.ModuleType('utils_contract')
    m.add2array = add2array
    def ga(n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('aipy.utils.' + n)
    m.__getattr__ = ga
    return m
def add2array(a, ind, data):
    """a[ind[k]] gains data[k] for every k (property C12)"""
    for x in (a, ind, data):
        if not isinstance(x, npsym.ndarray): raise TypeError('arrays expected')
    if a.fwd is not None: raise Unsupported('add2array into a view')
    if ind.kind != 'i': raise ValueError('indices must be integers')
    if a.kind != data.kind: raise ValueError('types differ')
    if ind.ndim != a.ndim + 1 or a.ndim != 1 or data.ndim != 1: raise ValueError('ranks')
    if not npsym.dim_eq(ind._shape[1], 1): raise ValueError('rank of the indices')
    n = ind._shape[0]
    if not npsym.dim_eq(n, data._shape[0]): raise ValueError('shapes of the indices and data do not match')
    px, val, old, D, kd = ind.copy_fn(), data.copy_fn(), a.copy_fn(), a._shape[0], a.kind
    e = E(); e.fresh += 1; tag = e.fresh
    ok = lambda k: b_and(Num.of(px((k, 0))) >= -Num.of(D), Num.of(px((k, 0))) < Num.of(D))
    if Num.of(n) > 0:
        k = npsym.fresh_index(n, 'chk')
        instantiate(k); c = SBool.of(ok(k))
        if not e.valid(c.z):
            if e.choose('index out of range'):
                e.assume(SBool.of(b_not(ok(k)))); raise IndexError('index out of range')
            e.universals.append(((n,), lambda i: ok(i[0])))
    def hits(k, i):
        p = Num.of(px((k, 0))); return b_or(p == Num.of(i), p + Num.of(D) == Num.of(i))
    seen = {}
    def new(idx):
        i = Num.of(idx[0])
        if kd == 'b':
            h = func('hit%d_%d' % (tag, id(e.pc) % 997), [i], True, 0, 1) == 1
            if i.key() not in seen:
                seen[i.key()] = 1
                conv_ = lambda kk: implies(b_and(hits(kk[0], i), val(kk)), h)
                e.universals.append(((n,), conv_))
                for kk in e.__dict__.get('interest', []): e.assume(SBool.of(implies(b_and(Num.of(kk) >= 0, Num.of(kk) < Num.of(n)), conv_((kk,)))))
                k0 = npsym.fresh_index(n, 'wit')
                e.assume(SBool.of(implies(h, b_and(k0 >= 0, k0 < Num.of(n), hits(k0, i), val((k0,))))))
                instantiate(k0)
            o = old(idx)
            return b_or(o, h)
        zero = SComplex(0, 0) if kd == 'c' else Num.of(0)
        def term(k): return npsym.castk(val((k,)), kd) if bool(SBool.of(hits(k, i))) else zero
        return old(idx) + npsym.sum_over(n, term, kd == 'c', kd == 'i')
    a.cell.f = new; a.cell.memo = {}; a.cell.ver += 1
def interest(*ks):
    """indices at which every later add2array states what it says about all indices"""
    E().interest = E().__dict__.get('interest', []) + list(ks)
def single(name, v, k0):
    """a sum all of whose other terms vanish is its k0-th term (lemma, trusted); returns that term"""
    info = npsym.sum_info(v); k0 = Num.of(k0)
    prove(name + ' index in range', b_and(k0 >= 0, k0 < Num.of(info.n)))
    if isinstance(info.n, int):
        raise Unsupported('single of a concrete sum')
    j = npsym.fresh_index(info.n, 'other')
    if bool(j == k0): pass
    else:
        instantiate(j); t = info.f(j); eq(name + ' other terms vanish', t, SComplex(0, 0) if isinstance(t, SComplex) else 0)
    return info.f(k0)
