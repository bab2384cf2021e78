"""Fit parameters: get_params / set_params of fit.RadioFixedBody, Beam2DGaussian, BeamPolynomial, Antenna, AntennaArray, SrcCatalog and pol.Antenna.
The dictionary handed to set_params holds an arbitrary subset of the names (every subset is a path) with arbitrary values."""
from vc.api import *
from vc import npsym
from . import stubs
from .arr import *

def with_unknown(D, name, v):
    """D with an unknown name inserted at any position, in either order of the others"""
    items = list(D.items())
    if len(items) > 1 and E().choose('reversed'): items.reverse()
    at = 0
    while at < len(items) and E().choose('unknown after %d' % (at + 1)): at += 1
    items.insert(at, (name, v))
    return dict(items)
def build(root, **kw):
    S = Suite(root, stubs.ALL, **kw)
    S.assumptions += ['floating-point arithmetic treated as real arithmetic']
    S.trusted += ['numpy array contracts (vc/npsym.py)', 'ephem.FixedBody attributes hold what is assigned (contracts/stubs.py)']
    W = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k))
    def flat(v):
        if isinstance(v, (list, tuple)): return [x for y in v for x in flat(y)]
        if isinstance(v, npsym.ndarray): return [v.at(*i) for i in v.indices()]
        return [v]
    def same(name, a, b):
        a, b = flat(a), flat(b)
        if len(a) != len(b): prove(name + ' length', False); return
        for k, (x, y) in enumerate(zip(a, b)): eq('%s[%d]' % (name, k) if len(a) > 1 else name, x, y)
    def subset(vals, groups=()):
        """an arbitrary subset of the names with fresh values"""
        return {n: v for n, v in vals.items() if E().choose('has ' + n)}
    def frozen(v):
        if isinstance(v, (list, tuple)): return [frozen(x) for x in v]
        if isinstance(v, npsym.ndarray): return v.copy()
        return v
    def check(get, set_, vals, conflict=None, extra=None, known=None, more=None):
        """vals: name -> new value; reading afterwards gives the new value for those set, the old for the others"""
        old = {k: frozen(v) for k, v in get(['*']).items()}
        if known is not None: prove('documented names', sorted(old) == sorted(known))
        D = subset(vals)
        if conflict and conflict(D): raise PathEnd()
        F = {k: frozen(v) for k, v in D.items()}
        D = dict(D, nosuchname=real('junk'))
        set_(dict(D))
        new = get(['*'])
        prove('names', sorted(new) == sorted(old))
        for n in old: same('after set ' + n, new[n], F[n] if n in F else (more(n, F, old[n]) if more and n not in F else old[n]))
        for n in D:
            if n in F: same('argument kept ' + n, D[n], F[n])
        return old, F, new
    def named(get, names):
        """asking for names returns exactly those that exist"""
        full = get(['*'])
        for n in names:
            one = get([n]); prove('only ' + n, list(one) == [n]); same('named ' + n, one[n], full[n])
        some = get(list(names)[:2] + ['nosuch']); prove('two and an unknown', sorted(some) == sorted(list(names)[:2]))
        prove('unknown only', get(['nosuch']) == {}); prove('none', get([]) == {})
        d = get(); prove('default is all', sorted(d) == sorted(full))
    SRC = ['jys', 'index', 'ra', 'dec', 'a1', 'a2', 'th', 'dra', 'ddec']
    def mk_src(m, t):
        v = {n: real('%s_%s' % (n, t)) for n in SRC + ['mfreq']}
        return m.RadioFixedBody(v['ra'], v['dec'], name=t, jys=v['jys'], index=v['index'], mfreq=v['mfreq'], ionref=(v['dra'], v['ddec']), srcshape=(v['a1'], v['a2'], v['th'])), v
    @S.fn('fit.RadioFixedBody', ['fit.RadioFixedBody.get_params', 'fit.RadioFixedBody.set_params'], W('source'))
    def _(s):
        m = s.load('fit'); b, v = mk_src(m, 'p'); c, w = mk_src(m, 'q')
        named(b.get_params, SRC)
        for n in SRC + ['mfreq']: same('as built ' + n, b.get_params()[n], v[n])
        old, F, new = check(b.get_params, b.set_params, {n: real('new_' + n) for n in SRC})
        for n in SRC + ['mfreq']: same('another source ' + n, c.get_params()[n], w[n])
        b.set_params(b.get_params())
        for n in SRC: same('set back ' + n, b.get_params()[n], F.get(n, v[n]))
        f = real('f', .1, .2); assume(f > 0); assume(v['mfreq'] > 0)
        # the derived flux follows
        b.update_jys(f); eq('flux', b.get_jys(), F.get('jys', v['jys']) * (f / v['mfreq']) ** F.get('index', v['index']))
    for form in ('one', 'several'):
        @S.fn('helm.HelmboldtFixedBody.%s' % form, ['_src.helm.HelmboldtFixedBody.get_params', 'fit.RadioFixedBody.set_params', '_src.helm.HelmboldtFixedBody.update_jys'], W('catalogue_source'))
        def _(s, form=form):
            m = s.load('_src.helm')
            def mk(t):
                v = {n: real('%s_%s' % (n, t)) for n in SRC + ['mfreq']}; v['index'] = [real('B' + t), real('C' + t), real('D' + t)] if form == 'several' else v['index']
                return m.HelmboldtFixedBody(v['ra'], v['dec'], name=t, jys=v['jys'], index=v['index'], mfreq=v['mfreq'], ionref=(v['dra'], v['ddec']), srcshape=(v['a1'], v['a2'], v['th'])), v
            (b, v), (c, w) = mk('p'), mk('q'); named(b.get_params, SRC)
            for n in SRC: same('as built ' + n, b.get_params()[n], v[n])
            val = {n: real('new_' + n) for n in SRC}
            if form == 'several': val['index'] = [real('nB'), real('nC'), real('nD')]
            old, F, new = check(b.get_params, b.set_params, val, known=SRC)
            for n in SRC: same('another source ' + n, c.get_params()[n], w[n])
            b.set_params(b.get_params())
            for n in SRC: same('set back ' + n, b.get_params()[n], F.get(n, v[n]))
    def mk_gauss(m, nf, t): return mk_beam(m, nf, t, 'Beam2DGaussian', xwidth=real('xw' + t), ywidth=real('yw' + t))
    @S.fn('fit.Beam2DGaussian', ['fit.Beam2DGaussian.get_params', 'fit.Beam2DGaussian.set_params'], W('beam'))
    def _(s):
        m = s.load('fit'); nf = size('nf'); b = mk_gauss(m, nf, 'p'); c = mk_gauss(m, nf, 'q')
        named(b.get_params, ['bm_xwidth', 'bm_ywidth'])
        check(b.get_params, b.set_params, dict(bm_xwidth=real('nx'), bm_ywidth=real('ny')), known=['bm_xwidth', 'bm_ywidth'])
        same('another beam', [c.get_params()[n] for n in ('bm_xwidth', 'bm_ywidth')], [real('xwq'), real('ywq')])
    for r, cc in ((1, 1), (2, 2), (3, 2)):
        @S.fn('fit.BeamPolynomial.%dx%d' % (r, cc), ['fit.BeamPolynomial.get_params', 'fit.BeamPolynomial.set_params', 'amp.BeamPolynomial.update'], W('beam'))
        def _(s, r=r, cc=cc):
            m = s.load('fit'); nf = size('nf')
            P = ndarr([[real('p%d%d' % (i, j)) for j in range(cc)] for i in range(r)]); P0 = P.copy()
            b = mk_beam(m, nf, 'p', 'BeamPolynomial', poly_azfreq=P); k = index('k', nf)
            same('as built', b.get_params()['bm_poly'], P0)
            N = [real('n%d' % i) for i in range(r * cc)]
            form = ndarr(N) if E().choose('array') else list(N)
            old, F, new = check(b.get_params, b.set_params, dict(bm_poly=form), known=['bm_poly'])
            same('the array it was built with', P, P0)
            cur = F['bm_poly'] if 'bm_poly' in F else flat(P0); cur = flat(cur); f = b.afreqs.at(k)
            for i in range(r):
                v = Num.of(0)
                for j in range(cc): v = v + cur[i * cc + j] * f ** j
                eq('width polynomial %d' % i, b.sigma.at(i, k), v)
    ANT = ['x', 'y', 'z', 'dly', 'off', 'phsoff', 'bp_r', 'bp_i', 'amp']
    def pv(c, f):
        v = Num.of(0)
        for x in flat(c): v = v * f + x
        return v
    def mk_fit_ant(m, t, b):
        v = {n: real(n + '_' + t) for n in 'xyz'}; v['amp'] = real('amp_' + t)
        v['phsoff'] = [real('o%d_%s' % (k, t)) for k in range(3)]; v['bp_r'] = [real('r%d_%s' % (k, t)) for k in range(2)]; v['bp_i'] = [real('i%d_%s' % (k, t)) for k in range(2)]
        v['dly'], v['off'] = v['phsoff'][-2:]
        a = m.Antenna(v['x'], v['y'], v['z'], b, phsoff=list(v['phsoff']), bp_r=list(v['bp_r']), bp_i=list(v['bp_i']), amp=v['amp'])
        return a, v
    def new_ant(tag='n'):
        return dict(x=real(tag + 'x'), y=real(tag + 'y'), z=real(tag + 'z'), amp=real(tag + 'amp'), dly=real(tag + 'dly'), off=real(tag + 'off'), phsoff=[real(tag + 'o%d' % k) for k in range(2)],
                    bp_r=[real(tag + 'r%d' % k) for k in range(3)], bp_i=[real(tag + 'i%d' % k) for k in range(1)])
    def ant_more(n, F, old):
        """dly and off are the last two entries of phsoff"""
        if n == 'phsoff':
            p = list(old)
            if 'dly' in F: p[-2] = F['dly']
            if 'off' in F: p[-1] = F['off']
            return p
        if n == 'dly' and 'phsoff' in F: return F['phsoff'][-2]
        if n == 'off' and 'phsoff' in F: return F['phsoff'][-1]
        return old
    clash = lambda D: 'phsoff' in D and ('dly' in D or 'off' in D)
    def derived(name, a, cur, k, f):
        eq(name + ' phase offset', a.phsoff.at(k), pv(cur['phsoff'], f))
        for c, sg in ((False, 1), (True, -1)):
            v = SComplex.of(a.passband(conj=c).at(k)); eq(name + ' passband re', v.re, cur['amp'] * pv(cur['bp_r'], f)); eq(name + ' passband im', v.im, cur['amp'] * pv(cur['bp_i'], f) * sg)
        for q, n in enumerate('xyz'): eq('%s position %s' % (name, n), a.pos.at(q), cur[n])
    @S.fn('fit.Antenna', ['fit.Antenna.get_params', 'fit.Antenna.set_params', 'amp.Antenna.update', 'phs.Antenna.update'], W('antenna'))
    def _(s):
        m = s.load('fit'); nf = size('nf'); b = mk_gauss(m, nf, 'p'); k = index('k', nf); f = b.afreqs.at(k)
        a, v = mk_fit_ant(m, 'p', b)
        for n in ANT: same('as built ' + n, a.get_params()[n], v[n])
        old, F, new = check(a.get_params, a.set_params, new_ant(), conflict=clash, known=ANT + ['bm_xwidth', 'bm_ywidth'], more=ant_more)
        cur = {n: F[n] if n in F else ant_more(n, F, v[n]) for n in ANT}
        derived('', a, cur, k, f)
    @S.fn('fit.Antenna.others', ['fit.Antenna.get_params', 'fit.Antenna.set_params'], W('antenna'))
    def _(s):
        m = s.load('fit'); nf = size('nf'); b = mk_gauss(m, nf, 'p'); c = mk_gauss(m, nf, 'q'); k = index('k', nf)
        a, v = mk_fit_ant(m, 'p', b); d, w = mk_fit_ant(m, 'q', c); e = m.Antenna(real('x_r'), real('y_r'), real('z_r'), b); g = m.Antenna(real('x_s'), real('y_s'), real('z_s'), b)
        named(a.get_params, ANT + ['bm_xwidth', 'bm_ywidth'])
        N = new_ant(); N.pop('phsoff') if E().choose('no phsoff') else [N.pop(x) for x in ('dly', 'off')]
        Fz = {n: frozen(x) for n, x in N.items()}
        a.set_params(dict(N, bm_xwidth=real('nxw')))
        for n in ANT: same('another antenna ' + n, d.get_params()[n], w[n])
        derived('another antenna', d, w, k, c.afreqs.at(k))
        same('another beam', d.get_params()['bm_xwidth'], real('xwq')); same('a shared beam', e.get_params()['bm_xwidth'], real('nxw')); same('the same beam', e.get_params()['bm_ywidth'], real('ywp'))
        e.set_params(dict(off=real('eo'), amp=real('ea'))); same('defaults are not shared', g.get_params()['off'], Num.of(0)); same('default amp', g.get_params()['amp'], Num.of(1))
        # what was read can be set back, and what was handed in stays as it was
        P = a.get_params(); a.set_params(P); P2 = a.get_params()
        for n in P: same('set back ' + n, P2[n], P[n])
        a.set_params(dict(off=real('off2'), dly=real('dly2')))
        for n in N: same('argument kept ' + n, N[n], Fz[n])
    def pol_new(p, tag='n'): return {n + '_' + p: v for n, v in new_ant(tag + p).items() if n not in 'xyz'}
    @S.fn('pol.Antenna', ['pol.Antenna.get_params', 'pol.Antenna.set_params', 'pol.Antenna._update_phsoff', 'pol.Antenna._update_gain', 'pol.Antenna.passband'], W('polantenna'))
    def _(s):
        m = s.load('pol'); nf = size('nf'); b = mk_beam(m.fit, nf, 'p', 'Beam'); k = index('k', nf); f = b.afreqs.at(k)
        V = {p: new_ant('v' + p) for p in 'xy'}
        for p in 'xy': V[p]['dly'], V[p]['off'] = V[p]['phsoff'][-2:]
        X = [real('px'), real('py'), real('pz')]
        a = m.Antenna(X[0], X[1], X[2], b, phsoff={p: list(V[p]['phsoff']) for p in 'xy'}, bp_r={p: list(V[p]['bp_r']) for p in 'xy'}, bp_i={p: list(V[p]['bp_i']) for p in 'xy'}, amp={p: V[p]['amp'] for p in 'xy'})
        vals = pol_new('x'); q = 'y'
        vals['off_y'] = real('noffy'); vals['bp_r_y'] = [real('nbpry')]
        if E().choose('position too'): vals['y'] = real('ny')
        def more(n, F, old):
            if n[-2:] not in ('_x', '_y'): return old
            r = ant_more(n[:-2], {x[:-2]: y for x, y in F.items() if x.endswith(n[-2:])}, old); return r
        old, F, new = check(a.get_params, a.set_params, vals, conflict=lambda D: 'phsoff_x' in D and ('dly_x' in D or 'off_x' in D), more=more)
        for p in 'xy':
            Fp = {x[:-2]: y for x, y in F.items() if x.endswith('_' + p)}
            cur = {n: Fp[n] if n in Fp else ant_more(n, Fp, V[p][n]) for n in V[p] if n not in 'xyz'}
            eq('phase offset ' + p, a.phsoff[p].at(k), pv(cur['phsoff'], f))
            g = SComplex.of(a.passband(pol=p).at(k)); eq('passband re ' + p, g.re, cur['amp'] * pv(cur['bp_r'], f)); eq('passband im ' + p, g.im, cur['amp'] * pv(cur['bp_i'], f))
        for c in range(3): eq('position %d' % c, a.pos.at(c), F['y'] if (c == 1 and 'y' in F) else X[c])
    @S.fn('pol.Antenna.named', ['pol.Antenna.get_params'], W('polantenna'))
    def _(s):
        m = s.load('pol'); nf = size('nf'); b = mk_gauss(m.fit, nf, 'p')
        V = {p: new_ant('v' + p) for p in 'xy'}; X = [real('px'), real('py'), real('pz')]
        a = m.Antenna(X[0], X[1], X[2], b, phsoff={p: list(V[p]['phsoff']) for p in 'xy'}, bp_r={p: list(V[p]['bp_r']) for p in 'xy'}, bp_i={p: list(V[p]['bp_i']) for p in 'xy'}, amp={p: V[p]['amp'] for p in 'xy'})
        names = ['x', 'y', 'z', 'bm_xwidth', 'bm_ywidth'] + [n + '_' + p for p in 'xy' for n in ('dly', 'off', 'phsoff', 'bp_r', 'bp_i', 'amp')]
        prove('documented names', sorted(a.get_params()) == sorted(names)); named(a.get_params, names)
        for n in names:
            if n[-2:] in ('_x', '_y') and n[:-2] not in ('dly', 'off'): same('as built ' + n, a.get_params()[n], V[n[-1]][n[:-2]])
    @S.fn('fit.SrcCatalog', ['fit.SrcCatalog.get_params', 'fit.SrcCatalog.set_params'], W('catalogue'))
    def _(s):
        m = s.load('fit'); B = [mk_src(m, t) for t in 'pqr']; cat = m.SrcCatalog([b for b, _ in B])
        V = {b.src_name: v for b, v in B}
        P = cat.get_params(); prove('all sources', sorted(P) == ['p', 'q', 'r'])
        for t in 'pqr':
            for n in SRC: same('%s %s' % (t, n), P[t][n], V[t][n])
        Q = cat.get_params(with_unknown({'q': ['jys', 'ra']}, 'zzz', ['jys'])); prove('named sources', sorted(Q) == ['q']); prove('named parameters', sorted(Q['q']) == ['jys', 'ra']); same('value', Q['q']['ra'], V['q']['ra'])
        Q = cat.get_params({'*': 'index'}); prove('one name for all', sorted(Q) == ['p', 'q', 'r'] and all(list(Q[t]) == ['index'] for t in 'pqr'))
        N = {t: {n: real('n_%s_%s' % (n, t)) for n in ('jys', 'dec', 'ddec')} for t in 'pqr'}
        D = {t: N[t] for t in 'pqr' if E().choose('source ' + t)}
        cat.set_params(with_unknown(D, 'nosuch', dict(jys=real('junk')))); P = cat.get_params()
        prove('no source appears', sorted(P) == ['p', 'q', 'r'])
        for t in 'pqr':
            for n in SRC: same('after %s %s' % (t, n), P[t][n], N[t][n] if t in D and n in N[t] else V[t][n])
    @S.fn('fit.AntennaArray', ['fit.AntennaArray.get_params', 'fit.AntennaArray.set_params', 'phs.AntennaArray.update'], W('array'))
    def _(s):
        m = s.load('fit'); nf = size('nf'); b = mk_gauss(m, nf, 'p'); k = index('k', nf); f = b.afreqs.at(k)
        A = [mk_fit_ant(m, t, b) for t in 'pqr']; aa = m.AntennaArray(location(), [a for a, _ in A]); V = {str(i): v for i, (_, v) in enumerate(A)}
        P = aa.get_params(); prove('all antennas', sorted(P) == ['0', '1', '2'])
        Q = aa.get_params({'1': ['x', 'nosuch'], '2': 'bp_r'}); prove('named antennas', sorted(Q) == ['1', '2'] and list(Q['1']) == ['x'] and list(Q['2']) == ['bp_r']); same('named value', Q['2']['bp_r'], V['2']['bp_r'])
        Q = aa.get_params({'*': ['y', 'amp']}); prove('some of all', sorted(Q) == ['0', '1', '2'] and all(sorted(Q[i]) == ['amp', 'y'] for i in Q))
        N = {str(i): {n: v for n, v in new_ant('n%d' % i).items() if n in ('x', 'bp_i', 'off', 'amp')} for i in range(3)}
        D = {i: dict(N[i]) for i in N if E().choose('antenna ' + i)}
        aa.set_params(with_unknown(D, '7', dict(x=real('junk')))); P = aa.get_params(); prove('no antenna appears', sorted(P) == ['0', '1', '2'])
        for i in '012':
            Fp = N[i] if i in D else {}
            cur = {n: Fp[n] if n in Fp else ant_more(n, Fp, V[i][n]) for n in ANT}
            for n in ANT: same('after %s %s' % (i, n), P[i][n], cur[n])
            derived('antenna ' + i, aa[int(i)], cur, k, f)
    def bad(s):
        m = s.load('fit'); b, v = mk_src(m, 'p'); b.set_params(dict(ra=real('new_ra'))); same('ra', b.get_params()['ra'], v['ra'])
    S.must_fail('setting does nothing', bad)
    return S
