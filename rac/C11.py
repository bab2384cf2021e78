from arrs import *
from aipy import phs, amp, fit, pol as apol
import copy, time
def G(rng, k): return dict(seed=rng.randrange(10**6))
U = lambda r, a=-1., b=1.: float(r.uniform(a, b))
class Model:
    """parameters, channels and time; build() makes an array from scratch"""
    def __init__(self, r, kind):
        self.r, self.kind = r, kind; self.M = dict(phs=phs, amp=amp, fit=fit, pol=apol)[kind]; self.BM = fit if kind == 'pol' else self.M
        self.f = rfreqs(r, r.randint(1, 9)); self.loc = rloc(r); self.ch = None; self.jd = rjd(r); n = r.randint(1, 4)
        nb = r.randint(1, n + 1); kinds = ['Beam'] if kind == 'phs' else ['Beam', 'Beam2DGaussian', 'BeamPolynomial', 'BeamPolynomial']
        self.beams = [dict(cls=kinds[r.randint(len(kinds))], w=(U(r, .3, 1), U(r, .3, 1)), P=rpoly2(r)) for _ in range(nb)]
        fs = 'xy' if kind == 'pol' else ('',)
        self.ants = [dict(beam=k if k < nb else r.randint(nb), pos=list(rpos(r, 1)[0]), pt=(U(r, -3, 3), U(r, 1, 1.5), U(r, -3, 3)),
                          feeds={q: dict(off=[U(r) for _ in range(r.randint(2, 4))], r=[U(r) for _ in range(r.randint(1, 4))], i=[U(r) for _ in range(r.randint(1, 4))], amp=U(r, .5, 2)) for q in fs}) for k in range(n)]
    def afreqs(self): return self.f if self.ch is None else self.f[self.ch]
    def build(self):
        B = []
        for b in self.beams:
            c = getattr(self.BM, b['cls'])
            B.append(c(self.f) if b['cls'] == 'Beam' else c(self.f, *b['w']) if b['cls'] == 'Beam2DGaussian' else c(self.f, b['P'].copy()))
        A = []
        for a in self.ants:
            g = lambda n: {q: copy.copy(v[n]) for q, v in a['feeds'].items()} if self.kind == 'pol' else copy.copy(a['feeds'][''][n])
            k = dict(phsoff=g('off'))
            if self.kind != 'phs': k.update(bp_r=g('r'), bp_i=g('i'), amp=g('amp'), pointing=a['pt'])
            A.append(self.M.Antenna(a['pos'][0], a['pos'][1], a['pos'][2], B[a['beam']], **k))
        aa = self.M.AntennaArray(self.loc, A)
        if self.ch is not None: aa.select_chans(self.ch)
        aa.set_jultime(self.jd); return aa
DIRS = np.array([[.1, .2, -.3, 0.], [.2, -.4, .1, 0.], [0., 0., 0., 1.]]); DIRS[2] = np.sqrt(1 - DIRS[0]**2 - DIRS[1]**2)
def equal(aa, m, what):
    """behaves like one built from scratch, and like the formulas"""
    f, b = m.afreqs(), m.build(); nf = f.size
    same(aa.get_afreqs(), f, what + ': active frequencies')
    for k, a in enumerate(m.ants):
        same(aa[k].beam.afreqs, f, what + ': active frequencies of the beam'); bm = m.beams[a['beam']]
        close(aa[k].pos, a['pos'], 1e-12, what + ': position')
        for q, v in a['feeds'].items():
            o = aa[k].phsoff[q] if m.kind == 'pol' else aa[k].phsoff
            close(o, poly(v['off'], f), 1e-9, what + ': phase offset'); 
            if m.kind == 'phs': continue
            g = aa[k].passband(pol=q) if m.kind == 'pol' else aa[k].passband()
            close(g, v['amp'] * (poly(v['r'], f) + 1j * poly(v['i'], f)), 1e-9, what + ': passband')
            if m.kind == 'pol': close(aa[k].bm_response(DIRS, pol=q), b[k].bm_response(DIRS, pol=q), 1e-9, what + ': beam')
        if m.kind in ('amp', 'fit'): close(aa[k].bm_response(DIRS), b[k].bm_response(DIRS), 1e-9, what + ': beam')
        if bm['cls'] == 'BeamPolynomial':
            P = bm['P']; close(aa[k].beam.sigma, np.array([sum(P[n, c] * f**c for c in range(P.shape[1])) * (.5 if 0 else 1) for n in range(P.shape[0])]), 1e-9, what + ': beam widths')
        if m.kind != 'phs' : pass
    t = lst_of(m.loc, m.jd); R_ = rotz(-t); T_ = eqtop(0, m.loc[0])
    close(aa.get_jultime(), m.jd, 1e-15, what + ': date'); close(float(aa.sidereal_time()), t, 1e-12, what + ': sidereal time')
    n = len(m.ants); D = np.array(m.ants[-1]['pos']) - np.array(m.ants[0]['pos'])
    close(aa.get_baseline(0, n - 1, 'e'), R_.dot(D), 1e-7, what + ': current equatorial baseline'); close(aa.get_baseline(0, n - 1, 'z'), T_.dot(D), 1e-7, what + ': zenith baseline')
    close(aa.gen_uvw(0, n - 1, 'z'), b.gen_uvw(0, n - 1, 'z'), 1e-7, what + ': uvw')
    for q in (('xx', 'xy', 'yx') if m.kind == 'pol' else ('xx',)):
        if m.kind == 'pol': aa.set_active_pol(q); b.set_active_pol(q)
        close(aa.get_phs_offset(0, n - 1), b.get_phs_offset(0, n - 1), 1e-9, what + ': phase offset of a baseline')
        if m.kind != 'phs': close(aa.passband(0, n - 1), b.passband(0, n - 1), 1e-9, what + ': passband of a baseline')
    if m.kind == 'phs': return
    close(aa.eq2top_m, T_.dot(R_), 1e-9, what + ': topocentric matrix')
    aa.set_active_pol('xx'); b.set_active_pol('xx'); s = R_.T.dot(T_.T).dot(DIRS[:, :2]); j = np.ones((2, nf)) * np.array([[3.], [5.]])
    if not getattr(aa, '_fresh', True): pass
    aa.sim_cache(s, j); b.sim_cache(s, j); close(aa.sim(0, n - 1), b.sim(0, n - 1), 1e-6, what + ': visibility')
def op(r, aa, m):
    """one random operation, on the array and on the model"""
    w = r.randint(8); n = len(m.ants)
    if w == 0: m.jd = rjd(r); aa.set_jultime(m.jd); return 'set_jultime'
    if w == 1:
        if r.randint(4) == 0: aa.set_ephemtime(); is_(abs(aa.get_jultime() - (2440587.5 + time.time() / 86400)) < .01, True, 'the present time')
        m.jd = float(round(rjd(r) * 8) / 8); aa.set_ephemtime(m.jd - 2415020); return 'set_ephemtime'
    if w == 2: m.ch = None; aa.select_chans(None) if r.randint(2) else aa.select_chans(); return 'select all'
    if w == 3:
        m.ch = r.randint(0, m.f.size, r.randint(1, 6)); aa.select_chans(m.ch.tolist() if r.randint(2) else m.ch.copy()); return 'select_chans'
    if w == 4: aa.update(); return 'update'
    k = r.randint(n); a = m.ants[k]
    if m.kind in ('phs', 'amp') or w == 5: # attributes, then update
        for q, v in a['feeds'].items():
            put = lambda nm, x: getattr(aa[k], nm).__setitem__(q, x) if m.kind == 'pol' else setattr(aa[k], nm, x)
            if m.kind != 'phs':
                if r.randint(2): v['r'] = [U(r) for _ in range(r.randint(1, 4))]; put('bp_r', list(v['r']))
                if r.randint(2): v['i'] = [U(r) for _ in range(r.randint(1, 4))]; put('bp_i', list(v['i']))
                if r.randint(2): v['amp'] = U(r, .5, 2); put('amp', v['amp'])
        bm = m.beams[a['beam']]
        if bm['cls'] == 'BeamPolynomial' and r.randint(2): bm['P'] = rpoly2(r); aa[k].beam.poly = bm['P'].copy(); aa[k].beam.update()
        if bm['cls'] == 'Beam2DGaussian' and r.randint(2): bm['w'] = (U(r, .3, 1), U(r, .3, 1)); aa[k].beam.xwidth, aa[k].beam.ywidth = bm['w']
        x = U(r, -300, 300); a['pos'][r.randint(3)] = x; aa[k].pos[:] = a['pos']
        aa.update(); return 'attributes and update'
    P = {}; bm = m.beams[a['beam']]
    for i, nm in enumerate('xyz'):
        if r.randint(3) == 0: a['pos'][i] = P[nm] = U(r, -300, 300)
    for q, v in a['feeds'].items():
        s = '_' + q if q else ''
        if r.randint(3) == 0: v['off'][-2] = P['dly' + s] = U(r)
        if r.randint(3) == 0: v['off'][-1] = P['off' + s] = U(r)
        if r.randint(4) == 0:
            v['off'] = [U(r) for _ in range(r.randint(2, 4))]; P['phsoff' + s] = list(v['off']); P.pop('dly' + s, 0); P.pop('off' + s, 0)
        if r.randint(3) == 0: v['r'] = [U(r) for _ in range(r.randint(1, 4))]; P['bp_r' + s] = list(v['r'])
        if r.randint(3) == 0: v['i'] = [U(r) for _ in range(r.randint(1, 4))]; P['bp_i' + s] = list(v['i'])
        if r.randint(3) == 0: v['amp'] = P['amp' + s] = U(r, .5, 2)
    if r.randint(2):
        if bm['cls'] == 'BeamPolynomial':
            P2 = rpoly2(r); P3 = bm['P'].copy(); a_, b_ = min(P2.shape[0], P3.shape[0]), min(P2.shape[1], P3.shape[1]); P3[:a_, :b_] = P2[:a_, :b_]; P3[0, 0] += 2; bm['P'] = P3; P['bm_poly'] = P3.flatten()
        if bm['cls'] == 'Beam2DGaussian': bm['w'] = (U(r, .3, 1), U(r, .3, 1)); P['bm_xwidth'], P['bm_ywidth'] = bm['w']
    P['nosuch'] = 1.; aa.set_params({str(k): P, '99': dict(x=1.)}) if w == 6 else aa[k].set_params(P); return 'set_params %s' % sorted(P)
@check(G, 150)
def states(seed):
    r = R(seed); m = Model(r, ['fit', 'pol', 'amp', 'phs'][seed % 4]); aa = m.build(); equal(aa, m, 'as built'); h = []
    for step in range(8):
        for _ in range(r.randint(1, 4)): h.append(op(r, aa, m))
        equal(aa, m, 'after ' + ', '.join(h[-6:]))
@check(G, 60)
def beams(seed):
    """a beam on its own"""
    r = R(seed); f = rfreqs(r, r.randint(1, 9)); M = [amp, fit][seed % 2]; P = rpoly2(r); b = M.BeamPolynomial(f, P.copy()); ch = None; g = M.Beam2DGaussian(f); h = phs.Beam(f)
    f0 = f.copy()
    for step in range(8):
        w = r.randint(3)
        if w == 0: P = rpoly2(r); b.poly = P.copy(); b.update(); g.update(); h.update()
        else:
            ch = None if w == 1 else r.randint(0, f.size, r.randint(1, 5))
            for q in (b, g, h): q.select_chans(ch)
        af = f if ch is None else f[ch]
        for q in (b, g, h): same(q.afreqs, af, 'active frequencies'); same(q.freqs, f0, 'the full list')
        close(b.response(DIRS), beampoly(DIRS, P, af), 1e-9, 'response')
@check(G, 40)
def alm(seed):
    """spherical-harmonic beams follow their coefficients and channels"""
    r = R(seed); f = rfreqs(r, 3); deg = 1 + seed % 2; lmax = 2; n = 6
    C = [r.normal(size=n) + 1j * r.normal(size=n) for _ in range(deg + 1)]
    for c in C: c[:3] = c[:3].real
    mk = lambda C: fit.BeamAlm(f, lmax=lmax, mmax=lmax, deg=deg, nside=8, coeffs={k: c for k, c in enumerate(C)})
    b = mk(C); ch = None
    for step in range(4):
        if r.randint(2):
            k = r.randint(deg + 1); C[k] = C[k] * U(r, .5, 2); b.set_params({'alm%d' % k: np.array([C[k].real, C[k].imag]).T.flatten()})
        else: ch = r.randint(0, 3, r.randint(1, 4)); b.select_chans(ch)
        d = mk(C); d.select_chans(ch); close(b.response(DIRS), d.response(DIRS), 1e-9, 'spherical-harmonic beam', scale=10.)
@check(G, 80)
def times(seed):
    r = R(seed); kind = ['phs', 'amp', 'fit', 'pol'][seed % 4]; m = Model(r, kind); aa = m.build()
    for step in range(6):
        t = [rjd(r), 2454000.5, 2451545., U(r, 2440000, 2470000)][r.randint(4)]; aa.set_jultime(t); is_(aa.get_jultime(), t, 'date read back'); m.jd = t; equal(aa, m, 'at %r' % t)
        if kind != 'phs':
            aa.set_active_pol('xx'); aa.sim(0, 0); aa.set_jultime(t); raises(RuntimeError, lambda: aa.sim(0, 0), 'cache of an earlier time')
    aa.set_jultime(); now = aa.get_jultime()
    import time as _t
    if abs(now - (_t.time() / 86400. + 2440587.5)) > 1e-3: fail('no argument means now: %r' % now)
@check(G, 60)
def dates(seed):
    r = R(seed)
    for t in (rjd(r), U(r, 2400000, 2500000), 2415020., 2451545.):
        is_(phs.juldate2ephem(t), t - 2415020, 'to ephemeris'); is_(phs.ephem2juldate(t - 2415020), t - 2415020 + 2415020, 'to Julian')
        is_(phs.ephem2juldate(phs.juldate2ephem(t)), t, 'there and back')
    x = np.array([rjd(r), rjd(r)])
    for q in x: close(phs.ephem2juldate(ephem.date(phs.juldate2ephem(q))), q, 1e-15, 'via a date')
