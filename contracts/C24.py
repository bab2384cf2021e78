"""Polarisation: miriad.str2pol/pol2str, pol.UV.read_pol/write_pol, pol.ParAng, per-feed phase offsets, passbands and beams of pol and amp arrays."""
from vc.api import *
from vc import npsym
from . import stubs
from .arr import *
TABLE = {'I': 1, 'Q': 2, 'U': 3, 'V': 4, 'rr': -1, 'll': -2, 'rl': -3, 'lr': -4, 'xx': -5, 'yy': -6, 'xy': -7, 'yx': -8}

def build(root, **kw):
    S = Suite(root, stubs.ALL, **kw)
    S.assumptions += ['floating-point arithmetic treated as real arithmetic', 'the compiled _rdvr/_wrvr transfer a variable unchanged (decided by C20)', 'Beam.response by an arbitrary function of direction and channel']
    S.trusted += ['numpy array contracts (vc/npsym.py)', 'ephem.Observer contract (contracts/stubs.py)']
    W = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k))
    LIN = ('xx', 'yy', 'xy', 'yx')
    @S.fn('miriad.str2pol', ['miriad.str2pol', 'miriad.pol2str'], ('table', lambda w: {}))
    def _(s):
        m = s.load('miriad')
        prove('names to codes', dict(m.str2pol) == TABLE); prove('codes to names', dict(m.pol2str) == {v: k for k, v in TABLE.items()})
    @S.fn('pol.UV.pol', ['pol.UV.read_pol', 'pol.UV.write_pol'], ('uvpol', lambda w: dict(seed=1)))
    def _(s):
        m = s.load('pol'); uv = object.__new__(m.UV); store = {}
        def wr(name, typ, v): store[name] = (typ, v)
        def rd(name, typ): prove('read as written', typ == 'i'); return store[name][1]
        object.__setattr__(uv, '_wrvr', wr); object.__setattr__(uv, '_rdvr', rd)
        for p in TABLE:
            uv.write_pol(p); prove('stored ' + p, store.get('pol') == ('i', TABLE[p])); prove('read back ' + p, uv.read_pol() == p)
        uv.write_pol('xx'); uv.write_pol('zz'); prove('an unknown name stores nothing', store == {'pol': ('i', -5)})
    @S.fn('pol.ParAng', ['pol.ParAng'], ('parang', lambda w: dict(seed=1, n=0)))
    def _(s):
        m = s.load('pol'); H, d, l = real('ha', -3.1, 3.1), real('dec', -1.5, 1.5), real('lat', -1.5, 1.5)
        cH, sH = num.cossin(H); cd, sd = num.cossin(d); cl, sl = num.cossin(l)
        # frame x = towards the meridian, y = west, z = pole: source direction, its east and north tangents, and the zenith
        src = (cd * cH, cd * sH, sd); north = (-sd * cH, -sd * sH, cd); west = (-sH, cH, Num.of(0)); Z = (cl, Num.of(0), sl)
        dot = lambda a, b: sum((p * q for p, q in zip(a, b)), Num.of(0))
        eq('tangent frame: north', dot(north, src), Num.of(0)); eq('tangent frame: west', dot(west, src), Num.of(0)); eq('frame orthogonal', dot(north, west), Num.of(0))
        zn, ze = dot(Z, north), -dot(Z, west)
        r = num.sqrt(zn * zn + ze * ze); assume(r > 0)
        q = npsym.asarray(m.ParAng(H, d, l)).at()
        c, sn = num.cossin(q)
        eq('north component', c * r, zn); eq('east component', sn * r, ze)
        in_range('range', q, -num.PI, num.PI, lo_open=False)
    @S.fn('pol.ParAng.array', ['pol.ParAng'], ('parang', lambda w: dict(seed=1, n=3)))
    def _(s):
        m = s.load('pol'); n = size('n'); H, d, l = array('ha', (n,)), array('dec', (n,)), real('lat', -1.5, 1.5)
        k = index('k', n); r = m.ParAng(H, d, l); shape_is('shape', r, (n,)); eq('element', r.at(k), npsym.asarray(m.ParAng(H.at(k), d.at(k), l)).at())
    def mk(s, nf, stokes=False):
        m = s.load('pol'); b = mk_beam(m.fit, nf)
        P = {t: {p: dict(phs=[real('d%s%s' % (t, p)), real('o%s%s' % (t, p))], r=[real('r1%s%s' % (t, p)), real('r0%s%s' % (t, p))], i=[real('i%s%s' % (t, p))], amp=real('a%s%s' % (t, p))) for p in 'xy'} for t in 'pq'}
        ants = [m.Antenna(real('X' + t), real('Y' + t), real('Z' + t), b, phsoff={p: list(P[t][p]['phs']) for p in 'xy'}, bp_r={p: list(P[t][p]['r']) for p in 'xy'}, bp_i={p: list(P[t][p]['i']) for p in 'xy'},
                          amp={p: P[t][p]['amp'] for p in 'xy'}, pointing=(real('az' + t), real('alt' + t), real('tw' + t))) for t in 'pq']
        aa = m.AntennaArray(location(), ants)
        return m, b, P, aa
    def lin(c, f): return c[0] * f + c[1]
    def gain(Q, f):
        return SComplex(Q['amp'] * lin(Q['r'], f), Q['amp'] * Q['i'][0])
    @S.fn('pol.AntennaArray.feeds', ['pol.AntennaArray.get_phs_offset', 'pol.AntennaArray.passband', 'pol.AntennaArray.set_active_pol', 'amp.AntennaArray.get_active_pol', 'pol.Antenna._update_phsoff', 'pol.Antenna._update_gain', 'pol.Antenna.passband'], W('feeds'))
    def _(s):
        nf = size('nf'); m, b, P, aa = mk(s, nf); k = index('k', nf); f = b.freqs.at(k)
        prove('refused before a polarisation is chosen', raises(RuntimeError, aa.get_active_pol) and raises(RuntimeError, lambda: aa.get_phs_offset(0, 1)) and raises(RuntimeError, lambda: aa.passband(0, 1)))
        for pol in LIN:
            aa.set_active_pol(pol); prove('active ' + pol, aa.get_active_pol() == pol)
            for i, j in ((0, 1), (1, 0), (0, 0)):
                A, B = P['pq'[i]][pol[0]], P['pq'[j]][pol[1]]
                o = aa.get_phs_offset(i, j); shape_is('shape %s%d%d' % (pol, i, j), o, (nf,)); eq('phase offset %s%d%d' % (pol, i, j), o.at(k), lin(B['phs'], f) - lin(A['phs'], f))
                g, ga, gb = SComplex.of(aa.passband(i, j).at(k)), gain(A, f), gain(B, f)
                eq('passband %s%d%d' % (pol, i, j), g, SComplex(gb.re * ga.re + gb.im * ga.im, gb.im * ga.re - gb.re * ga.im))
        for bad in ('rr', 'x', '', 'xz', 'YY', 'xyx', 'IQ'): prove('refused %r' % bad, raises(AssertionError, lambda: aa.set_active_pol(bad)))
        prove('a refused request changes nothing', aa.get_active_pol() == 'yx')
        for pol in 'IQUV':
            aa.set_active_pol(pol); prove('Stokes ' + pol, aa.get_active_pol() == pol)
            for i, j in ((0, 1), (1, 0), (0, 0)):
                A, B = P['pq'[i]], P['pq'[j]]; o = aa.get_phs_offset(i, j); shape_is('shape %s%d%d' % (pol, i, j), o, (nf,)); D = lambda a, b: lin(B[b]['phs'], f) - lin(A[a]['phs'], f)
                v = o.at(k); v = SComplex.of(v).re if pol == 'V' else v
                eq('phase offset %s%d%d' % (pol, i, j), v, dict(I=lambda: D('x', 'x') + D('y', 'y'), Q=lambda: D('y', 'y') - D('x', 'x'), U=lambda: D('x', 'y') + D('y', 'x'), V=lambda: D('x', 'y') - D('y', 'x'))[pol]())
    @S.fn('pol.AntennaArray.independent', ['pol.Antenna.set_params', 'pol.Antenna.update', 'pol.AntennaArray.get_phs_offset', 'pol.AntennaArray.passband'], W('feeds'))
    def _(s):
        nf = size('nf'); m, b, P, aa = mk(s, nf); k = index('k', nf); f = b.freqs.at(k)
        t, p = [('p', 'x'), ('p', 'y'), ('q', 'x')][0 if E().choose('first') else (1 if E().choose('second') else 2)]
        N = dict(phs=[real('nd'), real('no')], r=[real('nr1'), real('nr0')], i=[real('ni')], amp=real('na')); old = P[t][p]; P[t][p] = N
        w = E().choose('delay by name')
        d = {'bp_r_' + p: list(N['r']), 'bp_i_' + p: list(N['i']), 'amp_' + p: N['amp']}
        if w: d.update({'dly_' + p: N['phs'][0], 'off_' + p: N['phs'][1]})
        else: d['phsoff_' + p] = list(N['phs'])
        aa['pq'.index(t)].set_params(d)
        for pol in LIN:
            aa.set_active_pol(pol); A, B = P['p'][pol[0]], P['q'][pol[1]]
            eq('phase offset ' + pol, aa.get_phs_offset(0, 1).at(k), lin(B['phs'], f) - lin(A['phs'], f))
            g, ga, gb = SComplex.of(aa.passband(0, 1).at(k)), gain(A, f), gain(B, f)
            eq('passband ' + pol, g, SComplex(gb.re * ga.re + gb.im * ga.im, gb.im * ga.re - gb.re * ga.im))
    def beamfn(nf, tag):
        def r(top):
            t = [npsym.asarray(c) for c in top]; n = t[0]._shape[0]; fs = [c.copy_fn() for c in t]
            return npsym.ndarray((nf, n), lambda ix: func('resp_' + tag, [ix[0]] + [f((ix[1],)) for f in fs]), 'f')
        return r
    def feeds_of_array(s, mod):
        nf, ns = size('nf'), size('ns'); k, q = index('k', nf), index('q', ns)
        if mod == 'pol': m, b, P, aa = mk(s, nf)
        else:
            m = s.load(mod); b = mk_beam(m, nf)
            aa = m.AntennaArray(location(), [m.Antenna(real('X' + t), real('Y' + t), real('Z' + t), b, pointing=(real('az' + t), real('alt' + t), real('tw' + t))) for t in 'pq'])
        aa.set_jultime(real('t', 2450000, 2460000))
        c = modular(b, 'response', beamfn(nf, 'b'))
        aa.sim_cache(array('s', (3, ns)), array('jys', (ns, nf)))
        if aa._cache == {}: prove('nothing up', True); return
        top = aa._cache['s_top']; tf = npsym.asarray(top).copy_fn()
        n = npsym.asarray(top)._shape[1]
        q = index('up', n) if not isinstance(n, int) else Num.of(0)
        tv = [tf((Num.of(r), q)) for r in range(3)]
        def resp(a, p):
            R = aa[a].rot_pol_x if p == 'x' else aa[a].rot_pol_y
            v = [sum((R.at(r, c) * tv[c] for c in range(3)), Num.of(0)) for r in range(3)]
            return func('resp_b', [k] + v)
        for pol in LIN:
            for i, j in ((0, 1), (1, 0)):
                aa.set_active_pol(pol)
                v = SComplex.of(aa.bm_response(i, j).at(q, k)); eq('%s %d%d' % (pol, i, j), v, SComplex(resp(j, pol[1]) * resp(i, pol[0]), Num.of(0)))
        using(c)
    for mod in ('amp', 'pol'):
        @S.fn(mod + '.AntennaArray.beams', ['amp.AntennaArray.bm_response', 'amp.Antenna.bm_response'] + (['pol.Antenna.bm_response'] if mod == 'pol' else []), W('beams'))
        def _(s, mod=mod): feeds_of_array(s, mod)
    @S.fn('amp.Antenna.feeds', ['amp.Antenna.set_pointing'], W('beams'))
    def _(s):
        m = s.load('amp'); b = mk_beam(m, size('nf')); a = m.Antenna(real('X'), real('Y'), real('Z'), b, pointing=(real('az'), real('alt'), real('tw')))
        # feed y is feed x turned by pi/2 about the pointing direction
        for c in range(3):
            eq('y of feed y %d' % c, a.rot_pol_y.at(0, c), a.rot_pol_x.at(1, c)); eq('x of feed y %d' % c, a.rot_pol_y.at(1, c), -a.rot_pol_x.at(0, c)); eq('axis %d' % c, a.rot_pol_y.at(2, c), a.rot_pol_x.at(2, c))
    @S.fn('amp.AntennaArray.set_active_pol', ['amp.AntennaArray.set_active_pol', 'amp.AntennaArray.get_active_pol'], W('feeds'))
    def _(s):
        m = s.load('amp'); b = mk_beam(m, size('nf')); aa = m.AntennaArray(location(), [m.Antenna(real('X'), real('Y'), real('Z'), b)])
        prove('unset', raises(RuntimeError, aa.get_active_pol))
        for p in LIN: aa.set_active_pol(p); prove('active ' + p, aa.get_active_pol() == p)
        for bad in ('I', 'Q', 'U', 'V', 'rr', 'll', 'x', '', 'xz'): prove('refused %r' % bad, raises(AssertionError, lambda: aa.set_active_pol(bad)))
        prove('unchanged', aa.get_active_pol() == 'yx')
    @S.fn('pol.Antenna.bm_response.stokes', ['pol.Antenna.bm_response'], W('beams'))
    def _(s):
        nf, ns = size('nf'), size('ns'); m, b, P, aa = mk(s, nf); c = modular(b, 'response', beamfn(nf, 'b'))
        top = array('top', (3, ns))
        prove('refused', all(raises(AssertionError, lambda: aa[0].bm_response(top, pol=p)) for p in ('z', 'r', 'l')))
    def bad(s):
        nf = size('nf'); m, b, P, aa = mk(s, nf); k = index('k', nf); f = b.freqs.at(k); aa.set_active_pol('xy')
        eq('offset', aa.get_phs_offset(0, 1).at(k), lin(P['q']['x']['phs'], f) - lin(P['p']['y']['phs'], f))
    S.must_fail('feeds the other way round', bad)
    return S
