"""Rotation matrices: coord.rot_m, coord.eq2top_m, coord.top2eq_m."""
from vc.api import *
from . import stubs

def rodrigues(m, ang, v, w):
    C, Sn = num.cossin(ang)
    return w * C + npsym.cross(v, w) * Sn + v * (npsym.dot(v, w) * (1 - C))

def build(root, **kw):
    S = Suite(root, dict(ephem=stubs.ephem_min), **kw)
    S.trusted += ['numpy array/ufunc/linalg.inv contracts (vc/npsym.py); linalg.inv is the exact adjugate inverse']
    S.assumptions += ['floating-point arithmetic treated as real arithmetic']

    @S.fn('coord.rot_m.one', ['coord.rot_m'], replay=('rot_one', lambda w: dict(ang=w['ang'], n=[w['n_x'], w['n_y'], w['n_z']])))
    def _(s):
        c = s.load('coord')
        ang = real('ang', -7, 7); x, y, z = unit('n')
        v = ndarr([x, y, z])
        m = c.rot_m(ang, v)
        shape_is('shape', m, (3, 3))
        eqarr('orthogonal', npsym.dot(m.T, m), npsym.eye(3))
        eq('det', npsym.det3(m), 1)
        eqarr('fixes axis', npsym.dot(m, v), v)
        w = ndarr([real('w0'), real('w1'), real('w2')])
        eqarr('rodrigues', npsym.dot(m, w), rodrigues(m, ang, v, w))

    def rot_many(s, angs_vec, axes_vec):
        c = s.load('coord'); n = size('n')
        angs = array('ang', n) if angs_vec else real('ang0')
        ax = array('ax', (n, 3)) if axes_vec else array('ax', (3,))
        m = c.rot_m(angs, ax)
        shape_is('shape', m, (n, 3, 3))
        k = index('k', n)
        one = c.rot_m(angs[k] if angs_vec else angs, ax[k] if axes_vec else ax)
        for i in range(3):
            for j in range(3): eq('elem[%d,%d]' % (i, j), m[k, i, j], one[i, j])
    rp = lambda a, b: ('rot_many', lambda w: dict(seed=1, n=5, av=a, xv=b))
    S.fn('coord.rot_m.angles+axes', ['coord.rot_m'], rp(True, True))(lambda s: rot_many(s, True, True))
    S.fn('coord.rot_m.axes', ['coord.rot_m'], rp(False, True))(lambda s: rot_many(s, False, True))
    S.fn('coord.rot_m.angles', ['coord.rot_m'], rp(True, False))(lambda s: rot_many(s, True, False))

    R1 = ('eq2top_one', lambda w: dict(ha=w['ha'], dec=w['dec']))
    @S.fn('coord.eq2top_m.one', ['coord.eq2top_m'], R1)
    def _(s):
        c = s.load('coord'); ha, dec = real('ha', -7, 7), real('dec', -1.6, 1.6)
        m = c.eq2top_m(ha, dec)
        shape_is('shape', m, (3, 3))
        eqarr('orthogonal', npsym.dot(m.T, m), npsym.eye(3))
        eq('det', npsym.det3(m), 1)
        ch, sh = num.cossin(ha); cd, sd = num.cossin(dec)
        # the direction at hour angle ha (right ascension -ha) and declination dec goes to the zenith
        eqarr('zenith', npsym.dot(m, ndarr([cd * ch, -cd * sh, sd])), [0, 0, 1])
        # the pole stands due north (second coordinate) at altitude dec
        eqarr('pole', npsym.dot(m, ndarr([Num.of(0), Num.of(0), Num.of(1)])), ndarr([Num.of(0), cd, sd]))
    @S.fn('coord.top2eq_m.one', ['coord.top2eq_m', 'coord.eq2top_m'], R1)
    def _(s):
        c = s.load('coord'); ha, dec = real('ha', -7, 7), real('dec', -1.6, 1.6)
        m = c.top2eq_m(ha, dec); f = c.eq2top_m(ha, dec)
        eqarr('left inverse', npsym.dot(m, f), npsym.eye(3))
        eqarr('right inverse', npsym.dot(f, m), npsym.eye(3))
    RM = lambda nm: (nm, lambda w: dict(seed=1, n=4, hv=True, dv=True))
    @S.fn('coord.eq2top_m.many', ['coord.eq2top_m'], RM('eq2top_many'))
    def _(s):
        c = s.load('coord'); n = size('n'); ha, dec = array('ha', n), array('dec', n)
        m = c.eq2top_m(ha, dec); shape_is('shape', m, (n, 3, 3))
        k = index('k', n); one = c.eq2top_m(ha[k], dec[k])
        for i in range(3):
            for j in range(3): eq('elem[%d,%d]' % (i, j), m[k, i, j], one[i, j])
    for n in (1, 2, 3):
        # the inverse loops over the matrices: the loop body is verified for each length 1..3 (bounded)
        @S.fn('coord.top2eq_m.many[n=%d]' % n, ['coord.top2eq_m'], RM('top2eq_many'))
        def _(s):
            c = s.load('coord'); ha, dec = array('ha', n), array('dec', n)
            m = c.top2eq_m(ha, dec); shape_is('shape', m, (n, 3, 3))
            for k in range(n):
                one = c.top2eq_m(ha[k], dec[k]); f = c.eq2top_m(ha[k], dec[k])
                eqarr('elem%d' % k, m[k], one)
                eqarr('inv%d' % k, npsym.dot(m[k], f), npsym.eye(3))
    def bad(s):
        c = s.load('coord'); x, y, z = unit('n'); ang = real('ang')
        m = c.rot_m(ang, ndarr([x, y, z])); eqarr('transposed', m, m.T)
    S.must_fail('rot_m is symmetric', bad)
    return S
