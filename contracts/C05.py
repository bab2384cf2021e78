"""Phasing: phs.AntennaArray.gen_phs, refract, resolve_src, get_phs_offset, phs2src, unphs2src."""
from vc.api import *
from vc import npsym
from . import stubs
from .arr import *

def build(root, **kw):
    S = Suite(root, stubs.ALL, **kw)
    S.assumptions += ['floating-point arithmetic treated as real arithmetic', 'scipy.special.j1 is an uninterpreted function',
                      'exp(i t) is (cos t, sin t); cos and sin satisfy cos^2+sin^2=1, parity, addition formulas']
    S.trusted += ['numpy array contracts (vc/npsym.py)', 'ephem.Observer contract (contracts/stubs.py)']
    W = lambda nm, **k: (nm, lambda w: dict(dict(seed=1, nf=3, ns=2), **k))
    def setup(s, nf=None, deg=2):
        m = s.load('phs')
        nf = nf if nf is not None else size('nf')
        b = mk_beam(m, nf)
        P = {t: [real('o%d_%s' % (k, t), -2, 2) for k in range(deg)] for t in 'pq'}
        ants = []; pos = []
        for t in 'pq':
            a, p = mk_ant(m, b, t, phsoff=list(P[t])); ants.append(a); pos.append(p)
        aa = m.AntennaArray(location(), ants); aa.set_jultime(real('t', 2450000, 2460000))
        return m, aa, b, nf, P
    def off(P, b, k, deg=2):
        f = b.freqs.at(k); o = Num.of(0)
        for t, sg in (('q', 1), ('p', -1)):
            v = Num.of(0)
            for c in range(deg): v = v + P[t][c] * f ** (deg - 1 - c)
            o = o + v * sg
        return o
    def ph(t): c, s = num.cossin(-2 * num.PI * t); return SComplex(c, s)
    def mul(a, b): return SComplex(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
    SRC = dict(z=lambda: 'z', e=lambda: 'e', r=lambda: 'r')
    def fpos(b, k): assume(b.freqs.at(k) > 0)
    for deg in (1, 2, 3):
        @S.fn('phs.get_phs_offset.deg%d' % deg, ['phs.AntennaArray.get_phs_offset', 'phs.Antenna._update_phsoff'], W('plain'))
        def _(s, deg=deg):
            m, aa, b, nf, P = setup(s, deg=deg); k = index('k', nf)
            o = aa.get_phs_offset(0, 1); shape_is('shape', o, (nf,))
            eq('value', o.at(k), off(P, b, k, deg)); eq('swapped', aa.get_phs_offset(1, 0).at(k), -off(P, b, k, deg))
    for nm in ('z', 'e', 'r'):
        @S.fn('phs.gen_phs.%s' % nm, ['phs.AntennaArray.gen_phs', 'phs.AntennaArray.get_phs_offset', 'phs.AntennaArray.gen_uvw'], W('plain'))
        def _(s, nm=nm):
            m, aa, b, nf, P = setup(s); k = index('k', nf)
            w = aa.gen_uvw(0, 1, src=nm, w_only=True)[0, k]
            g = aa.gen_phs(nm, 0, 1); shape_is('shape', g, (nf,))
            v = g.at(k); eq('value', v, ph(w + off(P, b, k)))
            eq('modulus', v.re * v.re + v.im * v.im, Num.of(1))
            c = aa.gen_phs(nm, 1, 0).at(k); eq('swapped', c, SComplex(v.re, -v.im))
    def chk_table(s, kind, resolve, nf, ns, tag=''):
        m, aa, b, nf, P = setup(s, nf); k = index('k', nf); fpos(b, k)
        src = array('s', (3, ns)); j = index('j', ns)
        per = lambda nm, *a: array(nm, (ns,)) if kind == 'arrays' else real(nm, *a)
        dra, ddec, mf = per('dra'), per('ddec'), per('mf', .1, .2)
        a1, a2, th = per('a1'), per('a2'), per('th')
        at = lambda x: x.at(j) if kind == 'arrays' else x
        o_dra, o_ddec, o_mf, o_a1, o_a2, o_th = [at(x) for x in (dra, ddec, mf, a1, a2, th)]
        # gen_uvw by its contract (C04): some (3, ns, nf) table, negated when the antennas are swapped, w_only its last row
        def uvw_c(i, jj, src='z', w_only=False):
            U = npsym.ndarray((3, ns, nf), lambda ix: func('uvw', list(ix)) * (1 if (i, jj) == (0, 1) else -1), 'f')
            return U[2].copy() if w_only else U.copy()
        G = modular(aa, 'gen_uvw', uvw_c)
        u, v, w = [func('uvw', [Num.of(c), j, k]) for c in range(3)]
        kw = dict(mfreq=mf, ionref=(dra, ddec))
        if resolve: kw.update(srcshape=(a1, a2, th), resolve_src=True)
        g = aa.gen_phs(src, 0, 1, **kw)
        using(G)
        want_shape = tuple(d for d in (ns, nf) if not (isinstance(d, int) and d == 1))
        shape_is('shape', g, want_shape)
        idx = tuple(i for i, d in zip((j, k), (ns, nf)) if not (isinstance(d, int) and d == 1))
        got = g.at(*idx)
        f = b.freqs.at(k)
        dw = (o_dra * u + o_ddec * v) * Num._div(o_mf * o_mf, f * f)
        e = ph(w + dw + off(P, b, k))
        if resolve:
            c, sn = num.cossin(o_th)
            ru, rv = o_a1 * (u * c - v * sn), o_a2 * (u * sn + v * c)
            x = 2 * num.PI * num.sqrt(ru * ru + rv * rv)
            if x == 0: r = Num.of(1)
            else: r = Num._div(2 * npsym.j1(x), x)
            e = SComplex(e.re * r, e.im * r)
        eq('value', got, e)
        if not resolve:
            eq('modulus', got.re * got.re + got.im * got.im, Num.of(1))
            c = aa.gen_phs(src, 1, 0, **kw).at(*idx); eq('swapped', c, SComplex(got.re, -got.im))
        if resolve:       # a second evaluation of the same arguments is the same
            eq('again', aa.gen_phs(src, 0, 1, **kw).at(*idx), e)
    for kind in ('scalars', 'arrays'):
        for resolve in (False, True):
            for nf, ns in ((None, None), (1, None), (None, 1), (1, 1)):
                @S.fn('phs.gen_phs.table.%s.%s.%s.%s' % (kind, 'resolved' if resolve else 'point', nf or 'nf', ns or 'ns'),
                      ['phs.AntennaArray.gen_phs', 'phs.AntennaArray.refract', 'phs.AntennaArray.resolve_src'], W('table', nf=nf or 3, ns=ns or 2, kind=kind, resolve=resolve))
                def _(s, kind=kind, resolve=resolve, nf=nf, ns=ns): chk_table(s, kind, resolve, nf, ns if ns else size('ns'))
    @S.fn('phs.gen_phs.source', ['phs.AntennaArray.gen_phs', 'phs.RadioBody.compute', 'phs.AntennaArray.refract', 'phs.AntennaArray.resolve_src'], W('source'))
    def _(s):
        m, aa, b, nf, P = setup(s); k = index('k', nf); fpos(b, k)
        dra, ddec, a1, a2, th, mf = real('dra'), real('ddec'), real('a1'), real('a2'), real('th'), real('mf', .1, .2)
        src = m.RadioFixedBody(real('ra', 0, 6), real('dec', -1.5, 1.5), name='src', ionref=(dra, ddec), srcshape=(a1, a2, th))
        src.compute(aa); assume(src.alt >= 0)
        uvw = aa.gen_uvw(0, 1, src=src); u, v, w = [uvw[c, 0, k] for c in range(3)]
        f = b.freqs.at(k)
        e = ph(w + (dra * u + ddec * v) * Num._div(mf * mf, f * f) + off(P, b, k))
        eq('own ionosphere', aa.gen_phs(src, 0, 1, mfreq=mf).at(k), e)
        z = aa.gen_phs(src, 0, 1, mfreq=mf, ionref=(0., 0.)).at(k); eq('given ionosphere', z, ph(w + off(P, b, k)))
        c, sn = num.cossin(th)
        ru, rv = a1 * (u * c - v * sn), a2 * (u * sn + v * c)
        x = 2 * num.PI * num.sqrt(ru * ru + rv * rv)
        if x == 0: r = Num.of(1)
        else: r = Num._div(2 * npsym.j1(x), x)
        eq('own shape', aa.gen_phs(src, 0, 1, mfreq=mf, resolve_src=True).at(k), SComplex(e.re * r, e.im * r))
        eq('zero size', aa.gen_phs(src, 0, 1, mfreq=mf, resolve_src=True, srcshape=(0., 0., th)).at(k), e)
    @S.fn('phs.gen_phs.zero_baseline', ['phs.AntennaArray.resolve_src'], W('source'))
    def _(s):
        m, aa, b, nf, P = setup(s); k = index('k', nf); fpos(b, k)
        ns = size('ns'); src = array('s', (3, ns)); j = index('j', ns)
        g = aa.gen_phs(src, 0, 0, ionref=(real('dra'), real('ddec')), srcshape=(real('a1'), real('a2'), real('th')), resolve_src=True)
        eq('one', g.at(j, k), SComplex(Num.of(1), Num.of(0)))
    for nm in ('z', 'e'):
        @S.fn('phs.unphs2src.%s' % nm, ['phs.AntennaArray.phs2src', 'phs.AntennaArray.unphs2src'], W('plain'))
        def _(s, nm=nm):
            m, aa, b, nf, P = setup(s); k = index('k', nf)
            d = array('d', (nf,), 'c'); d0 = d.at(k)
            p = aa.phs2src(d, nm, 0, 1); g = aa.gen_phs(nm, 0, 1).at(k)
            eq('phased', p.at(k), mul(d0, g)); eq('back', aa.unphs2src(p, nm, 0, 1).at(k), d0)
            eq('input', d.at(k), d0)
    @S.fn('phs.unphs2src.source', ['phs.AntennaArray.phs2src', 'phs.AntennaArray.unphs2src'], W('source'))
    def _(s):
        m, aa, b, nf, P = setup(s); k = index('k', nf); fpos(b, k)
        src = m.RadioFixedBody(real('ra', 0, 6), real('dec', -1.5, 1.5), name='src', ionref=(real('dra'), real('ddec')), srcshape=(real('a1'), real('a2'), real('th')))
        src.compute(aa); assume(src.alt >= 0); mf = real('mf', .1, .2)
        d = array('d', (nf,), 'c'); d0 = d.at(k)
        p = aa.phs2src(d, src, 0, 1, mfreq=mf)
        eq('phased', p.at(k), mul(d0, aa.gen_phs(src, 0, 1, mfreq=mf).at(k)))
        eq('back', aa.unphs2src(p, src, 0, 1, mfreq=mf).at(k), d0)
    def bad(s):
        m, aa, b, nf, P = setup(s); k = index('k', nf)
        eq('x', aa.gen_phs('z', 0, 1).at(k), aa.gen_phs('z', 1, 0).at(k))
    S.must_fail('phase equals its conjugate', bad)
    return S
