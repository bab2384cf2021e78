"""Simulated visibilities: amp.AntennaArray.sim_cache, sim, bm_response (array), with gen_uvw (C04) and the antenna beams (C06) by contract."""
from vc.api import *
from vc import npsym
from fractions import Fraction
from . import stubs
from .arr import *

def build(root, **kw):
    S = Suite(root, stubs.ALL, **kw)
    S.assumptions += ['floating-point arithmetic treated as real arithmetic', 'the contract of compress: the selected entries, each once, in increasing order (trusted numpy contract)',
                      'gen_uvw and Antenna.bm_response by their contracts (decided by C04 and C06)']
    S.trusted += ['numpy array contracts (vc/npsym.py)', 'ephem.Observer contract (contracts/stubs.py)']
    W = lambda nm, **k: (nm, lambda w: dict(dict(seed=1, nf=3, ns=4), **k))
    def mul(*xs):
        r = SComplex(Num.of(1), Num.of(0))
        for x in xs:
            x = SComplex.of(x); r = SComplex(r.re * x.re - r.im * x.im, r.re * x.im + r.im * x.re)
        return r
    def conj(x): return SComplex(x.re, -x.im)
    def setup(s, nf, ns, kind, mod='amp'):
        m = s.load(mod)
        b = mk_beam(m, nf)
        P = {t: dict(phs=[real('d' + t), real('o' + t)], bp=(real('r' + t), real('i' + t))) for t in 'pq'}
        ants = [m.Antenna(real('x' + t), real('y' + t), real('z' + t), b, phsoff=list(P[t]['phs']), bp_r=ndarr([P[t]['bp'][0]]), bp_i=ndarr([P[t]['bp'][1]])) for t in 'pq']
        lat, lon = location()
        aa = m.AntennaArray((lat, lon), ants); aa.set_jultime(real('t', 2450000, 2460000))
        per = lambda nm, *a: array(nm, (ns,)) if kind == 'arrays' else real(nm, *a)
        D = dict(s_eqs=array('s', (3, ns)), jys=array('jys', (ns, nf)), mfreqs=per('mf', .1, .2), ionrefs=(per('dra'), per('ddec')), srcshapes=(per('a1'), per('a2'), per('th')))
        if kind == 'defaults': D = dict(s_eqs=D['s_eqs'], jys=D['jys'])
        # frozen copies of the inputs for the specification
        F = dict(s=D['s_eqs'].copy_fn(), jys=D['jys'].copy_fn())
        def fz(x):
            if isinstance(x, npsym.ndarray):
                g = x.copy_fn(); return lambda j: g((j,))
            return lambda j: x
        if kind == 'defaults': F.update(mf=lambda j: Num.of(Fraction(3, 20)), ion=[lambda j: Num.of(0)] * 2, shp=[lambda j: Num.of(0)] * 3)
        else: F.update(mf=fz(D['mfreqs']), ion=[fz(x) for x in D['ionrefs']], shp=[fz(x) for x in D['srcshapes']])
        sgn = lambda i, j: {(0, 1): 1, (1, 0): -1}.get((i, j), 0)
        def uvw_c(i, j, src='z', w_only=False):
            n = src._shape[1]; sf = src.copy_fn()
            U = npsym.ndarray((3, n, nf), lambda ix: func('uvw', [ix[0], sf((0, ix[1])), sf((1, ix[1])), sf((2, ix[1])), ix[2]]) * sgn(i, j), 'f')
            return U[2].copy() if w_only else U.copy()
        G = modular(aa, 'gen_uvw', uvw_c)
        def beam(a):
            def r(top, pol='x'):
                t = [npsym.asarray(c) for c in top]; n = t[0]._shape[0]; fs = [c.copy_fn() for c in t]
                def el(ix):
                    args = [ix[0]] + [f((ix[1],)) for f in fs]
                    return SComplex(func('beam_%d_%s_re' % (a, pol), args), func('beam_%d_%s_im' % (a, pol), args))
                return npsym.ndarray((nf, n), el, 'c')
            return r
        B = [modular(aa[a], 'bm_response', beam(a)) for a in range(2)]
        return m, aa, b, P, D, F, lat, G, B
    def top_of(aa, F, lat, j):
        st = aa.sidereal_time(); c, sn = num.cossin(-st); cd, sd = num.cossin(lat)
        M = [[sn, c, Num.of(0)], [-sd * c, sd * sn, cd], [cd * c, -cd * sn, sd]]
        x = [F['s']((q, j)) for q in range(3)]
        return [M[r][0] * x[0] + M[r][1] * x[1] + M[r][2] * x[2] for r in range(3)]
    def summand(aa, b, P, F, lat, i, j, pol, q, k):
        """the measurement equation's term of source q at frequency k"""
        f = b.freqs.at(k); sg = {(0, 1): 1, (1, 0): -1}.get((i, j), 0)
        u, v, w = [func('uvw', [Num.of(c)] + [F['s']((r, q)) for r in range(3)] + [k]) * sg for c in range(3)]
        t = top_of(aa, F, lat, q)
        bm = lambda a, p: SComplex(func('beam_%d_%s_re' % (a, p), [k] + t), func('beam_%d_%s_im' % (a, p), [k] + t))
        g = lambda a: SComplex(*P['pq'[a]]['bp'])
        off = Num.of(0)
        for a, sgn in ((j, 1), (i, -1)): off = off + (P['pq'[a]]['phs'][0] * f + P['pq'[a]]['phs'][1]) * sgn
        dw = (F['ion'][0](q) * u + F['ion'][1](q) * v) * Num._div(F['mf'](q) ** 2, f * f)
        c, sn = num.cossin(-2 * num.PI * (w + dw + off))
        a1, a2, th = [x(q) for x in F['shp']]; ct, st = num.cossin(th)
        ru, rv = a1 * (u * ct - v * st), a2 * (u * st + v * ct)
        x = 2 * num.PI * num.sqrt(ru * ru + rv * rv)
        if x == 0: r = Num.of(1)
        else: r = Num._div(2 * npsym.j1(x), x)
        return mul(g(j), conj(g(i)), bm(j, pol[1]), conj(bm(i, pol[0])), F['jys']((q, k)), SComplex(c * r, -sn * r))
    def chk(s, nf, ns, kind, seq, mod='amp'):
        m, aa, b, P, D, F, lat, G, B = setup(s, nf, ns, kind, mod)
        k = index('k', nf); assume(b.freqs.at(k) > 0)
        aa.sim_cache(**D)
        none = None
        for step, (i, j, pol) in enumerate(seq):
            aa.set_active_pol(pol)
            V = aa.sim(i, j)
            tag = '%d.%d%d%s' % (step, i, j, pol)
            if aa._cache == {}:
                shape_is('zero shape ' + tag, V, (nf,)); eq('zero ' + tag, V.at(k), SComplex(Num.of(0), Num.of(0))); none = True
                continue
            using(G, *B)
            shape_is('shape ' + tag, V, (nf,))
            if isinstance(ns, int) and ns == 1:
                up = top_of(aa, F, lat, Num.of(0))[2] > 0
                prove('up ' + tag, up); eq('term ' + tag, V.at(k), summand(aa, b, P, F, lat, i, j, pol, Num.of(0), k)); continue
            try: si = npsym.sum_info(V.at(k))
            except Unsupported:
                # the path where exactly one source is selected: the sum is its term
                si = None; maps = [v for v in E()._cmaps[1].values() if E().valid((v[0] == 1).z)]
            else: maps = [v for v in E()._cmaps[1].values() if num_same(v[0], si.n)]
            if not maps: raise Unsupported('sum over an unknown selection')
            M, pi, mask = maps[0]
            # the selection is exactly the sources strictly above the horizon
            a = index('a', ns); up = top_of(aa, F, lat, a)[2] > 0; sel = mask.at(a)
            prove('selected are up ' + tag, implies(sel, up)); prove('up are selected ' + tag, implies(up, sel))
            if si is None: q = Num.of(0)
            else: q = integer('q', 0, 3, ge=0); assume(q < M)
            p = npsym.nidx(pi(q))
            eq('term ' + tag, V.at(k) if si is None else si.f(q), summand(aa, b, P, F, lat, i, j, pol, p, k))
        if none:
            a = index('a', ns); t = top_of(aa, F, lat, a)[2]
            instantiate(a); prove('nothing is up', b_not(t > 0))
    def num_same(a, b):
        try: return npsym.dim_eq(a, b)
        except Exception: return False
    SEQ = [(0, 1, 'xy'), (1, 0, 'yx'), (0, 1, 'xx'), (0, 0, 'yy'), (0, 1, 'xy')]
    for kind in ('arrays', 'scalars', 'defaults'):
        for nfn, nf in (('nf', None), ('1', 1)):
            @S.fn('amp.sim.%s.%s' % (kind, nfn), ['amp.AntennaArray.sim', 'amp.AntennaArray.sim_cache', 'amp.AntennaArray.bm_response', 'amp.AntennaArray.passband', 'phs.AntennaArray.gen_phs', 'phs.AntennaArray.refract', 'phs.AntennaArray.resolve_src'],
                  W('sim', nf=nf or 3))
            def _(s, kind=kind, nf=nf): chk(s, nf or size('nf'), size('ns'), kind, SEQ if (kind == 'arrays' and nf is None) else SEQ[:2])
    @S.fn('amp.sim.refused', ['amp.AntennaArray.sim', 'amp.AntennaArray.set_jultime', 'amp.AntennaArray.set_ephemtime'], W('refused'))
    def _(s):
        nf, ns = size('nf'), size('ns')
        m, aa, b, P, D, F, lat, G, B = setup(s, nf, ns, 'defaults')
        aa.set_active_pol('xx')
        prove('before sources', raises(RuntimeError, lambda: aa.sim(0, 1)))
        aa.sim_cache(**D); aa.set_jultime(real('t2', 2450000, 2460000))
        prove('after a new time', raises(RuntimeError, lambda: aa.sim(0, 1)))
        aa.sim_cache(**D); aa.set_ephemtime(real('t3', 20000, 50000))
        prove('after a new ephemeris time', raises(RuntimeError, lambda: aa.sim(0, 1)))
    @S.fn('lemma.conjugate', ['(specification) swapping antennas and feeds conjugates every term'])
    def _(s):
        nf, ns = size('nf'), size('ns')
        m, aa, b, P, D, F, lat, G, B = setup(s, nf, ns, 'arrays')
        k, q = index('k', nf), index('q', ns); assume(b.freqs.at(k) > 0)
        eq('terms', summand(aa, b, P, F, lat, 1, 0, 'yx', q, k), conj(summand(aa, b, P, F, lat, 0, 1, 'xy', q, k)))
    def bad(s):
        nf, ns = size('nf'), size('ns')
        m, aa, b, P, D, F, lat, G, B = setup(s, nf, ns, 'arrays')
        k, q = index('k', nf), index('q', ns); assume(b.freqs.at(k) > 0)
        eq('terms', summand(aa, b, P, F, lat, 1, 0, 'xy', q, k), summand(aa, b, P, F, lat, 0, 1, 'xy', q, k))
    S.must_fail('visibilities are symmetric', bad)
    return S
