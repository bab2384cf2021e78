"""Source spectra, beams, pointings and passbands: amp.RadioBody, Beam*, Antenna.passband/set_pointing/bm_response, AntennaArray.passband."""
from vc.api import *
from vc import npsym
from . import stubs
from .arr import *

def build(root, **kw):
    S = Suite(root, stubs.ALL, **kw)
    S.assumptions += ['floating-point arithmetic treated as real arithmetic', 'arcsin, arctan2, cos, sin, exp, sqrt and powers obey their defining identities only (vc/num.py)']
    S.trusted += ['numpy array contracts (vc/npsym.py)', 'ephem.Observer contract (contracts/stubs.py)']
    W = lambda nm, **k: (nm, lambda w: dict(dict(seed=1, nf=3, ns=2), **k))
    def mul(a, b): return SComplex(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
    @S.fn('amp.update_jys', ['amp.RadioBody.update_jys', 'amp.RadioBody.get_jys', 'amp.RadioFixedBody.compute'], W('jys'))
    def _(s):
        m = s.load('amp'); nf = size('nf'); k = index('k', nf)
        S0, idx, mf = real('jys'), real('index'), real('mfreq', .1, .2); assume(mf > 0)
        f = array('f', (nf,), lo=.1, hi=.2); assume(f.at(k) > 0)
        src = m.RadioFixedBody(real('ra'), real('dec'), jys=S0, index=idx, mfreq=mf)
        src.update_jys(f)
        shape_is('shape', src.get_jys(), (nf,))
        eq('power law', src.get_jys().at(k), S0 * num.power(Num._div(f.at(k), mf), idx))
        # compute() uses the array's active frequencies
        b = mk_beam(m, nf); assume(b.freqs.at(k) > 0)
        aa = m.AntennaArray(location(), [m.Antenna(real('x'), real('y'), real('z'), b)]); aa.set_jultime(real('t', 2450000, 2460000))
        src.compute(aa)
        eq('at the active frequencies', src.get_jys().at(k), S0 * num.power(Num._div(b.freqs.at(k), mf), idx))
    @S.fn('amp.SrcCatalog.get_jys', ['amp.SrcCatalog.get_jys', 'amp.SrcCatalog.update_jys', 'phs.SrcCatalog.add_srcs'], W('jys'))
    def _(s):
        m = s.load('amp'); nf = size('nf'); k = index('k', nf)
        f = array('f', (nf,), lo=.1, hi=.2); assume(f.at(k) > 0)
        P = {n: (real('jys_' + n), real('index_' + n), real('mf_' + n, .1, .2)) for n in 'ab'}
        for p in P.values(): assume(p[2] > 0)
        c = m.SrcCatalog([m.RadioFixedBody(real('ra_' + n), real('dec_' + n), name=n, jys=p[0], index=p[1], mfreq=p[2]) for n, p in P.items()])
        c.update_jys(f)
        for order in (['a', 'b'], ['b', 'a'], ['b'], None):
            g = c.get_jys(order); o = order or ['a', 'b']
            shape_is('shape%s' % order, g, (len(o), nf))
            for r, n in enumerate(o): eq('row %s of %s' % (n, order), g[r, k], P[n][0] * num.power(Num._div(f.at(k), P[n][2]), P[n][1]))
    for dr, di in ((1, 1), (2, 1), (3, 3)):
        @S.fn('amp.passband.%d.%d' % (dr, di), ['amp.Antenna.passband', 'amp.Antenna._update_gain', 'amp.AntennaArray.passband'], W('passband'))
        def _(s, dr=dr, di=di):
            m = s.load('amp'); nf = size('nf'); k = index('k', nf); b = mk_beam(m, nf); f = b.freqs.at(k)
            P = {}; ants = []
            for t in 'pq':
                br, bi, am = [real('r%d%s' % (c, t)) for c in range(dr)], [real('i%d%s' % (c, t)) for c in range(di)], real('amp' + t)
                P[t] = SComplex(am * sum((br[c] * f ** (dr - 1 - c) for c in range(1, dr)), br[0] * f ** (dr - 1)),
                                am * sum((bi[c] * f ** (di - 1 - c) for c in range(1, di)), bi[0] * f ** (di - 1)))
                ants.append(m.Antenna(real('x' + t), real('y' + t), real('z' + t), b, bp_r=br, bp_i=bi, amp=am))
            aa = m.AntennaArray(location(), ants)
            shape_is('shape', ants[0].passband(), (nf,))
            for a, t in zip(ants, 'pq'):
                eq('gain ' + t, a.passband().at(k), P[t]); eq('conjugated ' + t, a.passband(conj=True).at(k), SComplex(P[t].re, -P[t].im))
            eq('baseline', aa.passband(0, 1).at(k), mul(P['q'], SComplex(P['p'].re, -P['p'].im)))
            r = aa.passband(1, 0).at(k); e = aa.passband(0, 1).at(k); eq('swapped', r, SComplex(e.re, -e.im))
    @S.fn('amp.Beam.response', ['amp.Beam.response'], W('beams'))
    def _(s):
        m = s.load('amp'); nf = size('nf'); ns = size('ns'); b = mk_beam(m, nf)
        k, j = index('k', nf), index('j', ns)
        r = b.response((array('x', (ns,)), array('y', (ns,)), array('z', (ns,))))
        shape_is('shape', r, (nf, ns)); eq('one', r[k, j], Num.of(1))
    @S.fn('amp.Beam2DGaussian.response', ['amp.Beam2DGaussian.response'], W('beams'))
    def _(s):
        m = s.load('amp'); nf = size('nf'); ns = size('ns'); k, j = index('k', nf), index('j', ns)
        xw, yw = real('xw', .1, 2), real('yw', .1, 2); assume(xw > 0); assume(yw > 0)
        b = mk_beam(m, nf, cls='Beam2DGaussian', xwidth=xw, ywidth=yw)
        x, y, z = array('x', (ns,), lo=-.7, hi=.7), array('y', (ns,), lo=-.7, hi=.7), array('z', (ns,))
        for v in (x, y): assume(v.at(j) >= -1); assume(v.at(j) <= 1)
        r = b.response((x, y, z)); shape_is('shape', r, (nf, ns))
        ax, ay = Num._div(num.arcsin(x.at(j)), xw), Num._div(num.arcsin(y.at(j)), yw)
        eq('gaussian', r[k, j], num.exp(-Num._div(ax * ax + ay * ay, Num.of(4))))
    @S.fn('amp.Beam2DGaussian.default', ['amp.Beam2DGaussian.response', 'amp.Beam2DGaussian.__init__'], W('beams'))
    def _(s):
        m = s.load('amp'); nf = size('nf'); ns = size('ns'); k, j = index('k', nf), index('j', ns)
        b = mk_beam(m, nf, cls='Beam2DGaussian')
        x, y, z = array('x', (ns,), lo=-.7, hi=.7), array('y', (ns,), lo=-.7, hi=.7), array('z', (ns,))
        for v in (x, y): assume(v.at(j) >= -1); assume(v.at(j) <= 1)
        r = b.response((x, y, z)); eq('flat', r[k, j], Num.of(1))
    for na, nq in ((1, 1), (2, 1), (1, 2), (2, 3), (3, 2)):
        for table in (True, False):
            @S.fn('amp.BeamPolynomial.response.%dx%d.%s' % (na, nq, 'many' if table else 'one'), ['amp.BeamPolynomial.response', 'amp.BeamPolynomial._update_sigma'], W('beams'))
            def _(s, na=na, nq=nq, table=table):
                m = s.load('amp'); nf = size('nf'); ns = size('ns') if table else 1; k, j = index('k', nf), index('j', ns)
                P = [[real('p%d%d' % (a, q)) for q in range(nq)] for a in range(na)]
                b = mk_beam(m, nf, cls='BeamPolynomial', poly_azfreq=ndarr(P)); f = b.freqs.at(k)
                x, y, z = array('x', (ns,), lo=-.6, hi=.6), array('y', (ns,), lo=-.6, hi=.6), array('z', (ns,))
                X, Y, Z = x.at(j), y.at(j), z.at(j); assume(X * X + Y * Y > 0)
                if table: r = b.response((x, y, z))
                else: r = b.response((X, Y, Z))
                shape_is('shape', r, (nf, ns))
                az = npsym.arctan2(X, Y); zang = npsym.arctan2(num.sqrt(X * X + Y * Y), Z)       # azimuth and zenith angle of the direction
                sg = Num.of(0)
                for a in range(na):
                    c = Num.of(0)
                    for q in range(nq): c = c + P[a][q] * f ** q
                    if a == 0: sg = sg + c * Num.of(1) / 2
                    else: sg = sg + c * num.cos(2 * a * az)
                assume(sg != 0)
                eq('width', r[k, j], num.exp(-Num._div(zang * zang, 2 * sg * sg)))
    # pointing: the antenna frame
    def frame(az, alt, tw):
        """rows: the antenna-frame x, y, z axes in topocentric coordinates"""
        ca, sa = num.cossin(az); ce, se = num.cossin(alt); ct, st = num.cossin(tw)
        z = [sa * ce, ca * ce, se]                       # the pointing direction
        u = [sa * se, ca * se, -ce]                      # x before twisting: down the vertical plane of the pointing
        h = [-ca, sa, Num.of(0)]                         # y before twisting: horizontal, to the left of the pointing
        x = [ct * u[c] + st * h[c] for c in range(3)]
        y = [-st * u[c] + ct * h[c] for c in range(3)]
        return [x, y, z]
    @S.fn('amp.set_pointing', ['amp.Antenna.set_pointing'], W('pointing'))
    def _(s):
        m = s.load('amp'); nf = size('nf'); b = mk_beam(m, nf)
        a = m.Antenna(real('x'), real('y'), real('z'), b)
        az, alt, tw = real('az', -3, 3), real('alt', -1.5, 1.5), real('twist', -3, 3)
        a.set_pointing(az, alt, tw)
        X, Y = a.rot_pol_x, a.rot_pol_y
        F = frame(az, alt, tw)
        p = F[2]
        for r in range(3):
            dx = X[r, 0] * p[0] + X[r, 1] * p[1] + X[r, 2] * p[2]
            dy = Y[r, 0] * p[0] + Y[r, 1] * p[1] + Y[r, 2] * p[2]
            eq('pointing is the zenith of x %d' % r, dx, Num.of(1 if r == 2 else 0)); eq('pointing is the zenith of y %d' % r, dy, Num.of(1 if r == 2 else 0))
            for c in range(3): eq('x[%d,%d]' % (r, c), X[r, c], F[r][c])
        for c in range(3):
            # coordinates turned by -pi/2 about the beam's zenith
            eq('y0[%d]' % c, Y[0, c], X[1, c]); eq('y1[%d]' % c, Y[1, c], -X[0, c]); eq('y2[%d]' % c, Y[2, c], X[2, c])
            for d in range(3):
                eq('orthogonal%d%d' % (c, d), sum((X[r, c] * X[r, d] for r in range(1, 3)), X[0, c] * X[0, d]), Num.of(1 if c == d else 0))
        det = X[0, 0] * (X[1, 1] * X[2, 2] - X[1, 2] * X[2, 1]) - X[0, 1] * (X[1, 0] * X[2, 2] - X[1, 2] * X[2, 0]) + X[0, 2] * (X[1, 0] * X[2, 1] - X[1, 1] * X[2, 0])
        eq('proper', det, Num.of(1))
    @S.fn('amp.pointing.constructor', ['amp.Antenna.__init__', 'amp.Antenna.set_pointing'], W('pointing'))
    def _(s):
        m = s.load('amp'); nf = size('nf'); b = mk_beam(m, nf)
        az, alt, tw = real('az', -3, 3), real('alt', -1.5, 1.5), real('twist', -3, 3)
        a = m.Antenna(real('x'), real('y'), real('z'), b, pointing=(az, alt, tw))
        c = m.Antenna(real('x'), real('y'), real('z'), b); c.set_pointing(az, alt, tw)
        for r in range(3):
            for q in range(3): eq('x[%d,%d]' % (r, q), a.rot_pol_x[r, q], c.rot_pol_x[r, q]); eq('y[%d,%d]' % (r, q), a.rot_pol_y[r, q], c.rot_pol_y[r, q])
        d = m.Antenna(real('x'), real('y'), real('z'), b)       # default: zenith, x is the x of the beam
        F = frame(Num.of(0), Num._div(num.PI, Num.of(2)), Num.of(0))
        for r in range(3):
            for q in range(3): eq('default[%d,%d]' % (r, q), d.rot_pol_x[r, q], F[r][q])
    @S.fn('amp.bm_response', ['amp.Antenna.bm_response'], W('pointing'))
    def _(s):
        m = s.load('amp'); nf = size('nf'); ns = size('ns'); b = mk_beam(m, nf); j = index('j', ns); k = index('k', nf)
        a = m.Antenna(real('x'), real('y'), real('z'), b)
        az, alt, tw = real('az', -3, 3), real('alt', -1.5, 1.5), real('twist', -3, 3)
        a.set_pointing(az, alt, tw)
        got = {}
        def resp(top):                                           # the beam by contract: some function of direction and frequency
            x, y, z = top; got['top'] = [npsym.asarray(c) for c in top]
            return npsym.ndarray((nf, ns), lambda ix: func('beam', [ix[0], got['top'][0].at(ix[1]), got['top'][1].at(ix[1]), got['top'][2].at(ix[1])]), 'f')
        B = modular(b, 'response', resp)
        top = array('top', (3, ns)); T = [top.at(c, j) for c in range(3)]
        F = frame(az, alt, tw)
        for pol in 'xy':
            r = a.bm_response(top, pol=pol); using(B); shape_is('shape ' + pol, r, (nf, ns))
            rows = F if pol == 'x' else [F[1], [-e for e in F[0]], F[2]]
            e = [sum((rows[q][c] * T[c] for c in range(1, 3)), rows[q][0] * T[0]) for q in range(3)]
            for q in range(3): eq('coordinate %d %s' % (q, pol), got['top'][q].at(j), e[q])
            eq('response ' + pol, r[k, j], func('beam', [k] + [got['top'][q].at(j) for q in range(3)]))
        for c in range(3): eq('directions unchanged %d' % c, top.at(c, j), T[c])
    def bad(s):
        m = s.load('amp'); nf = size('nf'); b = mk_beam(m, nf)
        a = m.Antenna(real('x'), real('y'), real('z'), b); a.set_pointing(real('az'), real('alt'), real('twist'))
        eq('x', a.rot_pol_x[0, 0], a.rot_pol_y[0, 0])
    S.must_fail('both polarisations are the same', bad)
    return S
