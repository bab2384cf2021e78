"""Sky-coordinate conversions (aipy/coord.py)."""
from vc.api import *
from . import stubs
PI2 = PI * 2

def build(root, **kw):
    S = Suite(root, dict(ephem=stubs.ephem_min), **kw)
    S.assumptions += ['floating-point arithmetic treated as real arithmetic (a tiny negative angle plus 2 pi is below 2 pi)',
                      'lemma: within a half-open interval of length 2 pi an angle is determined by its cosine and sine']
    S.trusted += ['numpy arctan2/cos/sin/sqrt contracts: cos/sin of arctan2(y,x) are x/r, y/r, range (-pi, pi] with the sign table of C99']
    D = lambda n: (n, lambda w: dict(v=[w['n_x'], w['n_y'], w['n_z']]))
    def xyz(): return unit('n')

    @S.fn('coord.xyz2thphi', ['coord.xyz2thphi'], D('dirs'))
    def _(s):
        c = s.load('coord'); x, y, z = xyz()
        r = c.xyz2thphi(ndarr([x, y, z])); shape_is('shape', r, (2,))
        th, phi = r
        in_range('theta', th, 0, PI); in_range('phi', phi, -PI, PI, True)
        ct, st = num.cossin(th); cp, sp = num.cossin(phi)
        eq('x', st * cp, x); eq('y', st * sp, y); eq('z', ct, z)
    def back(fwd, inv, lo0, hi0, lo1, hi1, model):
        nm = 'coord.%s+%s' % (fwd, inv)
        @S.fn(nm, ['coord.' + fwd, 'coord.' + inv, 'coord.xyz2thphi', 'coord.thphi2xyz'], D('dirs'))
        def _(s):
            c = s.load('coord'); x, y, z = xyz()
            r = getattr(c, fwd)(ndarr([x, y, z])); shape_is('shape', r, (2,))
            a, b = r
            in_range('first', a, lo0, hi0); in_range('second', b, lo1, hi1)
            v = getattr(c, inv)(r); shape_is('shape3', v, (3,))
            for k, (g, w) in enumerate(zip(v, (x, y, z))): eq('roundtrip[%d]' % k, g, w)
            # the meaning of the two angles
            e = model(a, b)
            for k, (g, w) in enumerate(zip(e, (x, y, z))): eq('meaning[%d]' % k, g, w)
    def m_radec(a, d): ca, sa = num.cossin(a); cd, sd = num.cossin(d); return cd * ca, cd * sa, sd
    def m_azalt(a, e): ca, sa = num.cossin(a); ce, se = num.cossin(e); return ce * sa, ce * ca, se
    def m_thphi(t, p): ct, st = num.cossin(t); cp, sp = num.cossin(p); return st * cp, st * sp, ct
    back('xyz2thphi', 'thphi2xyz', 0, PI, -PI, PI, m_thphi)
    back('eq2radec', 'radec2eq', 0, PI2, -PI / 2, PI / 2, m_radec)
    back('top2azalt', 'azalt2top', 0, PI2, -PI / 2, PI / 2, m_azalt)

    def fwd(inv, conv, model, rng, replay):
        nm = 'coord.%s+%s' % (inv, conv)
        @S.fn(nm, ['coord.' + inv, 'coord.' + conv], (replay, lambda w: dict(a=w['a'], b=w['b'])))
        def _(s):
            c = s.load('coord')
            (lo0, hi0, ho), (lo1, hi1) = rng
            a, b = real('a', 0, 3.1), real('b', -1.5 if lo1.__class__ is not int else 0.1, 1.5)
            # strictly inside the polar range (at a pole the other angle is not determined)
            assume(a >= lo0) if ho else assume(a > lo0); assume(a < hi0) if ho else assume(a <= hi0); assume(b > lo1); assume(b < hi1)
            args = (a, b)
            v = getattr(c, inv)(args); shape_is('shape3', v, (3,))
            e = model(a, b)
            for k, (g, w) in enumerate(zip(v, e)): eq('direction[%d]' % k, g, w)
            eq('unit', v[0] * v[0] + v[1] * v[1] + v[2] * v[2], 1)
            if conv is None: return
            r = getattr(c, conv)(v)
            angle_eq('first', r[0], a, lo0, hi0, ho); 
            in_range('second.t', r[1], lo1, hi1); same_angle('second', r[1], b)
    class _F(float): pass
    H = PI / 2
    fwd('radec2eq', 'eq2radec', m_radec, ((Num.of(0), PI2, True), (-H, H)), 'angles_radec')
    fwd('azalt2top', 'top2azalt', m_azalt, ((Num.of(0), PI2, True), (-H, H)), 'angles_azalt')
    @S.fn('coord.thphi2xyz+xyz2thphi', ['coord.thphi2xyz', 'coord.xyz2thphi'], ('angles_thphi', lambda w: dict(a=w['th'], b=w['phi'])))
    def _(s):
        c = s.load('coord'); th, phi = real('th', 0.05, 3.1), real('phi', -3.1, 3.1)
        assume(th > 0); assume(th < PI); assume(phi > -PI); assume(phi <= PI)
        v = c.thphi2xyz((th, phi))
        for k, (g, w) in enumerate(zip(v, m_thphi(th, phi))): eq('direction[%d]' % k, g, w)
        r = c.xyz2thphi(v)
        in_range('theta.t', r[0], 0, PI); same_angle('theta', r[0], th)
        angle_eq('phi', r[1], phi, -PI, PI, False)
    @S.fn('coord.latlong2xyz', ['coord.latlong2xyz'], ('latlong', lambda w: dict(a=w['lat'], b=w['lon'])))
    def _(s):
        c = s.load('coord'); lat, lon = real('lat', -1.5, 1.5), real('lon', -3, 7)
        v = c.latlong2xyz((lat, lon))
        for k, (g, w) in enumerate(zip(v, m_radec(lon, lat))): eq('direction[%d]' % k, g, w)

    # arrays of any length: element k of the result is the result of element k
    def many(fn, nin):
        @S.fn('coord.%s.array' % fn, ['coord.' + fn], ('arrays', lambda w: dict(fn=fn, seed=1, shape=[5])))
        def _(s):
            c = s.load('coord'); n = size('n'); k = index('k', n)
            a = array('a', (nin, n))
            r = getattr(c, fn)(a)
            # the inputs at k determine the outputs at k
            one = getattr(c, fn)(ndarr([a[q, k] for q in range(nin)]))
            shape_is('shape', r, (5 - nin, n))
            for q in range(5 - nin): eq('elem[%d]' % q, r[q, k], one[q])
    for fn in ('xyz2thphi', 'eq2radec', 'top2azalt'): many(fn, 3)
    for fn in ('thphi2xyz', 'radec2eq', 'azalt2top', 'latlong2xyz'): many(fn, 2)
    def bad(s):
        c = s.load('coord'); x, y, z = xyz(); r = c.eq2radec(ndarr([x, y, z])); prove('ra below pi', r[0] <= PI)
    S.must_fail('ra <= pi', bad)
    return S
