from arrs import *
from aipy import phs, amp, fit
def G(rng, k): return dict(seed=rng.randrange(10**6), nf=[1, 2, 3, 8][k % 4], ns=[1, 2, 3, 7][(k // 4) % 4])
@check(G, 100)
def jys(seed, nf, ns):
    r = R(seed); M = [amp, fit][seed % 2]; f = rfreqs(r, nf)
    S = [float(x) for x in r.uniform(-5, 100, ns)]; ix = [float(x) for x in r.uniform(-3, 3, ns)]; mf = [float(x) for x in r.uniform(.05, .4, ns)]
    b = M.Beam(f); aa = M.AntennaArray(rloc(r), [M.Antenna(0., 0., 0., b)]); aa.set_jultime(rjd(r))
    srcs = [M.RadioFixedBody(.1 * k, .2, name='s%d' % k, jys=S[k], index=ix[k], mfreq=mf[k]) for k in range(ns)]
    cat = M.SrcCatalog(srcs)
    def expect(q, ff): return S[q] * np.exp(ix[q] * np.log(ff / mf[q]))
    for q, s in enumerate(srcs):
        s.compute(aa); close(s.get_jys(), expect(q, f), 1e-9, 'flux')
    f2 = r.uniform(.1, .3, 5); f20 = f2.copy(); cat.update_jys(f2)
    close(cat.get_jys(), np.array([expect(q, f2) for q in range(ns)]), 1e-9, 'fluxes'); same(f2, f20, 'frequencies changed')
    o = [int(x) for x in r.randint(0, ns, 3)]
    close(cat.get_jys(['s%d' % q for q in o]), np.array([expect(q, f2) for q in o]), 1e-9, 'fluxes in the order asked for')
    ch = r.randint(0, nf, r.randint(1, 4)); aa.select_chans(ch); cat.compute(aa)
    close(cat.get_jys(), np.array([expect(q, f[ch]) for q in range(ns)]), 1e-9, 'fluxes at the active channels')
    sun = M.RadioSpecial('Sun', jys=S[0], index=ix[0], mfreq=mf[0]); sun.compute(aa); close(sun.get_jys(), expect(0, f[ch]), 1e-9, 'flux of a moving source')
    d = M.RadioFixedBody(.1, .2, jys=3.); d.update_jys(f2); close(d.get_jys(), 3. * .15 / f2, 1e-9, 'default index and frequency')
@check(G, 100)
def passband(seed, nf, ns):
    r = R(seed); M = [amp, fit][seed % 2]; f = f0 = rfreqs(r, nf)
    P = [(r.uniform(-2, 2, r.randint(1, 5)), r.uniform(-2, 2, r.randint(1, 4)), float(r.uniform(.1, 3))) for _ in range(3)]
    w = [list, np.array, tuple][seed % 3]
    aa = M.AntennaArray(rloc(r), [M.Antenna(0., 1., 2., M.Beam(f), bp_r=w(p[0]), bp_i=w(p[1]), amp=p[2]) for p in P])
    g = lambda p, f: p[2] * (poly(p[0], f) + 1j * poly(p[1], f))
    for rep in range(2):
        for i in range(3):
            close(aa[i].passband(), g(P[i], f), 1e-9, 'passband'); close(aa[i].passband(conj=True), np.conj(g(P[i], f)), 1e-9, 'conjugate passband')
            for j in range(3): close(aa.passband(i, j), g(P[j], f) * np.conj(g(P[i], f)), 1e-9, 'baseline passband')
        ch = r.randint(0, nf, r.randint(1, 4)); aa.select_chans(ch); f = f0[ch]
    nf = f.size; d = M.Antenna(0., 0., 0., M.Beam(f)); close(d.passband(), np.ones(nf), 0, 'default passband')
def dirs(r, ns):
    v = unitvecs(r, ns); v[2] = np.abs(v[2]); return v
@check(G, 120)
def beams(seed, nf, ns):
    r = R(seed); M = [amp, fit][seed % 2]; f = rfreqs(r, nf); v = dirs(r, ns); v0 = v.copy()
    xw, yw = float(r.uniform(.1, 1)), float(r.uniform(.1, 1)); P = rpoly2(r)
    B = [(M.Beam(f), lambda v, f: np.ones((f.size, v.shape[1]))), (M.Beam2DGaussian(f, xw, yw), lambda v, f: beam2d(v, xw, yw, f.size)),
         (M.Beam2DGaussian(f), lambda v, f: np.ones((f.size, v.shape[1]))), (M.BeamPolynomial(f, P.copy()), lambda v, f: beampoly(v, P, f)),
         (M.BeamPolynomial(f), lambda v, f: beampoly(v, [[.5]], f))]
    if ns == 1 and nf > 1: B.append((M.Beam2DGaussian(f, xwidth=xw, ywidth=yw), lambda v, f: beam2d(v, xw, yw, f.size)))
    for b, ref in B:
        nm = type(b).__name__
        for form in (lambda v: v, tuple, list): close(b.response(form(v)), ref(v, f), 1e-9, nm)
        same(v, v0, 'directions changed')
        if ns == 1 and nm == 'BeamPolynomial': close(b.response((v[0, 0], v[1, 0], v[2, 0])), ref(v, f), 1e-9, nm + ' of one direction')
        zen = np.array([[0.], [0.], [1.]]); close(b.response(zen), np.ones((nf, 1)), 1e-9, nm + ' at its zenith')
        ch = r.randint(0, nf, r.randint(1, 5)); b.select_chans(ch); close(b.response(v), ref(v, f[ch]), 1e-9, nm + ' after select_chans')
        b.select_chans(None); close(b.response(v), ref(v, f), 1e-9, nm + ' with all channels')
@check(G, 120)
def pointing(seed, nf, ns):
    r = R(seed); M = [amp, fit][seed % 2]; f = rfreqs(r, nf); v = dirs(r, ns); v0 = v.copy()
    az, alt, tw = float(r.uniform(-7, 7)), float(r.uniform(.1, np.pi / 2)), float(r.uniform(-7, 7))
    if seed % 4 == 0: alt = np.pi / 2
    if seed % 5 == 0: tw = 0.
    xw, yw = float(r.uniform(.3, 1)), float(r.uniform(.3, 1)); P = rpoly2(r)
    which = seed % 3
    b = [M.Beam2DGaussian(f, xw, yw), M.BeamPolynomial(f, P.copy()), M.Beam(f)][which]
    ref = [lambda v: beam2d(v, xw, yw, nf), lambda v: beampoly(v, P, f), lambda v: np.ones((nf, v.shape[1]))][which]
    if seed % 2: a = M.Antenna(0., 0., 0., b, pointing=(az, alt, tw))
    else: a = M.Antenna(0., 0., 0., b); a.set_pointing(az, alt, tw)
    m = pointing_matrix(az, alt, tw)
    p = np.array([np.sin(az) * np.cos(alt), np.cos(az) * np.cos(alt), np.sin(alt)])
    close(m.dot(p), [0, 0, 1], 1e-9)
    # keep to the hemisphere where arcsin is the whole story
    close(a.bm_response(v, pol='x'), ref(m.dot(v)), 1e-7, 'beam x'); close(a.bm_response(v), ref(m.dot(v)), 1e-7, 'default polarisation')
    close(a.bm_response(v, pol='y'), ref(rotz(-np.pi / 2).dot(m).dot(v)), 1e-7, 'beam y')
    close(a.bm_response(list(v), pol='x'), ref(m.dot(v)), 1e-7, 'beam x of a list'); same(v, v0, 'directions changed')
    for pol in 'xy': close(a.bm_response(p[:, None], pol=pol), np.ones((nf, 1)), 1e-6, 'towards the pointing')
    # the default pointing is the zenith, x east
    d = M.Antenna(0., 0., 0., b); close(d.bm_response(v), ref(pointing_matrix(0, np.pi / 2, 0).dot(v)), 1e-7, 'default pointing')
    # the response is fixed to the sky: turning the twist by pi/2 turns x into y
    a.set_pointing(az, alt, tw + np.pi / 2); close(a.bm_response(v, pol='x'), ref(rotz(-np.pi / 2).dot(m).dot(v)), 1e-7, 'twist by pi/2')
@check(lambda rng, k: dict(seed=rng.randrange(10**6)), 6)
def alm(seed):
    """the spherical-harmonic beam is the frequency polynomial of its coefficient maps"""
    import healpy
    r = R(seed); f = rfreqs(r, 3); lm, deg, ns = 2, 1 + seed % 2, 8
    n = 6; C = {c: (r.normal(size=n) + 1j * r.normal(size=n)) for c in range(deg + 1)}
    for c in C: C[c][:3] = C[c][:3].real
    b = amp.BeamAlm(f, lmax=lm, mmax=lm, deg=deg, nside=ns, coeffs=dict(C))
    v = dirs(r, 5); th, ph = np.arccos(v[2]), np.arctan2(v[1], v[0])
    val = {c: healpy.get_interp_val(healpy.alm2map(C[c], ns, lmax=lm, mmax=lm), th, ph) for c in C}
    e = np.array([sum(val[c] * x**c for c in C) for x in f])
    close(b.response(v), e, 1e-6, 'alm beam')
