from arrs import *
from aipy import phs, amp, fit, pol as apol
def G(rng, k): return dict(seed=rng.randrange(10**6), nf=[2, 1, 3, 8][k % 4], ns=[3, 1, 2, 9][(k // 4) % 4])
T = 1e-5
POLS = ['xx', 'yy', 'xy', 'yx']
def gauss(v, w): return np.exp(-((np.arcsin(v[0]) / w[0])**2 + (np.arcsin(v[1]) / w[1])**2) / 4.)
class World:
    """an array of three antennas with their own pointings, beams, gains and offsets, and its measurement equation"""
    def __init__(self, seed, nf, ns):
        r = self.r = R(seed); self.kind = ['amp', 'fit', 'pol'][seed % 3]; M = dict(amp=amp, fit=fit, pol=apol)[self.kind]
        self.f = rfreqs(r, nf); self.loc = rloc(r); self.pos = rpos(r, 3); ant = []
        self.A = []
        for p in self.pos:
            w = (float(r.uniform(.3, 1)), float(r.uniform(.3, 1))); pt = (float(r.uniform(-3, 3)), float(r.uniform(1, np.pi / 2)), float(r.uniform(-3, 3)))
            per = {q: dict(off=[float(x) for x in r.uniform(-3, 3, 2)], r=r.uniform(-1, 1, 2), i=r.uniform(-1, 1, 2), amp=float(r.uniform(.5, 2))) for q in 'xy'}
            if self.kind != 'pol': per['y'] = per['x']
            self.A.append((np.array(p), w, pointing_matrix(*pt), per))
            b = (apol.fit if self.kind == 'pol' else M).Beam2DGaussian(self.f, *w)
            if self.kind == 'pol': a = M.Antenna(p[0], p[1], p[2], b, phsoff={q: list(per[q]['off']) for q in 'xy'}, bp_r={q: per[q]['r'] for q in 'xy'}, bp_i={q: per[q]['i'] for q in 'xy'}, amp={q: per[q]['amp'] for q in 'xy'}, pointing=pt)
            else: a = M.Antenna(p[0], p[1], p[2], b, phsoff=list(per['x']['off']), bp_r=per['x']['r'], bp_i=per['x']['i'], amp=per['x']['amp'], pointing=pt)
            ant.append(a)
        self.aa = M.AntennaArray(self.loc, ant); self.time()
    def time(self, t=None):
        self.jd = t or rjd(self.r); self.aa.set_jultime(self.jd); self.lst = lst_of(self.loc, self.jd)
    def vis(self, i, j, pol, S):
        """S: list of (eq vector, flux per channel, mfreq, (dra, ddec), (a1, a2, th))"""
        f, out = self.f, np.zeros(self.f.size, complex)
        for s, I, mf, (dra, ddec), shp in S:
            top = eqtop(0, self.loc[0]).dot(rotz(-self.lst)).dot(s)
            if not top[2] > 0: continue
            ra, dec = np.arctan2(s[1], s[0]), np.arctan2(s[2], np.hypot(s[0], s[1]))
            u, v, w = eqtop(self.lst - ra, dec).dot(self.A[j][0] - self.A[i][0])[:, None] * f
            g = [self.A[a][3][q]['amp'] * (poly(self.A[a][3][q]['r'], f) + 1j * poly(self.A[a][3][q]['i'], f)) for a, q in ((i, pol[0]), (j, pol[1]))]
            B = []
            for a, q in ((i, pol[0]), (j, pol[1])):
                m = self.A[a][2] if q == 'x' else rotz(-np.pi / 2).dot(self.A[a][2])
                B.append(gauss(m.dot(top), self.A[a][1]))
            o = poly(self.A[j][3][pol[1]]['off'], f) - poly(self.A[i][3][pol[0]]['off'], f)
            ph = np.exp(-2j * np.pi * (w + (dra * u + ddec * v) * (mf / f)**2 + o)) * airy(u, v, shp)
            out += I * g[1] * np.conj(g[0]) * B[1] * np.conj(B[0]) * np.conj(ph)
        return out
def sky(W, ns, elevated=None):
    r = W.r; S = []
    for k in range(ns):
        t = unitvecs(r, 1)[:, 0]
        if elevated is not None: t[2] = abs(t[2]) * (1 if elevated else -1)
        s = rotz(W.lst).dot(eqtop(0, W.loc[0]).T).dot(t)
        S.append((s, r.uniform(-10, 100, W.f.size), float(r.uniform(.1, .2)), tuple(float(x) for x in r.uniform(-1e-2, 1e-2, 2)), tuple(float(x) for x in r.uniform(0, .02, 2)) + (float(r.uniform(-3, 3)),)))
    return S
def args(S):
    return dict(s_eqs=np.array([s[0] for s in S]).T, jys=np.array([s[1] for s in S]), mfreqs=np.array([s[2] for s in S]),
                ionrefs=(np.array([s[3][0] for s in S]), np.array([s[3][1] for s in S])), srcshapes=tuple(np.array([s[4][k] for s in S]) for k in range(3)))
def margin(W, S):
    for s in S:
        if abs(eqtop(0, W.loc[0]).dot(rotz(-W.lst)).dot(s[0])[2]) < 1e-6: raise Skip()
def cmp(W, i, j, p, S, what):
    W.aa.set_active_pol(p); v = W.aa.sim(i, j); e = W.vis(i, j, p, S)
    sc = max(1., float(np.sum([np.abs(s[1]).max() for s in S])) * 30); close(v, e, T, what, scale=sc); return v, sc
@check(G, 150)
def sim(seed, nf=3, ns=4):
    W = World(seed, nf, ns); S = sky(W, ns); margin(W, S); r = W.r
    A = args(S); A0 = {k: np.copy(v) for k, v in A.items()}; W.aa.sim_cache(**A)
    seen = {}
    for step in range(10):
        i, j, p = int(r.randint(3)), int(r.randint(3)), POLS[r.randint(4)]
        v, sc = cmp(W, i, j, p, S, 'visibility %d %d %s' % (i, j, p))
        if (i, j, p) in seen: same(v, seen[i, j, p], 'repeated')
        seen[i, j, p] = v.copy()
        c, _ = cmp(W, j, i, p[::-1], S, 'swapped'); close(c, np.conj(v), 1e-9, 'conjugate symmetry', scale=sc)
    for k in A: same(np.array(A[k]), A0[k], k + ' changed')
    # scalars apply to every source; a later call replaces the earlier one
    q = S[0]; S2 = [(s[0], s[1], q[2], q[3], q[4]) for s in S]
    W.aa.sim_cache(A['s_eqs'], A['jys'], q[2], q[3], q[4]); cmp(W, 0, 1, 'xy', S2, 'scalar parameters')
    S3 = [(s[0], s[1], .15, (0, 0), (0, 0, 0)) for s in S]
    W.aa.sim_cache(A['s_eqs'], A['jys']); cmp(W, 2, 1, 'yx', S3, 'defaults')
    if ns > 1:
        W.aa.sim_cache(args(S[:1])['s_eqs'], args(S[:1])['jys']); cmp(W, 2, 1, 'yy', S3[:1], 'one source')
    # additive over the catalogue: nothing of a source that is down leaks in
    W.time(); margin(W, S); W.aa.sim_cache(**A); cmp(W, 0, 1, 'xx', S, 'later time'); cmp(W, 1, 2, 'yx', S, 'later time')
@check(G, 60)
def below(seed, nf=3, ns=4):
    W = World(seed, nf, ns); S = sky(W, ns, False); margin(W, S); W.aa.sim_cache(**args(S))
    for i, j, p in ((0, 1, 'xx'), (1, 0, 'xy'), (2, 2, 'yy')):
        W.aa.set_active_pol(p); same(W.aa.sim(i, j), np.zeros(nf), 'nothing is up')
    U = sky(W, ns, True); margin(W, U); order = W.r.permutation(2 * ns); mix = [(S + U)[k] for k in order]
    W.aa.sim_cache(**args(mix)); a = cmp(W, 0, 1, 'xy', mix, 'some are up')[0]
    W.aa.sim_cache(**args(U)); b, sc = cmp(W, 0, 1, 'xy', U, 'those that are up'); close(a, b, 1e-9, 'sources below the horizon contribute', scale=sc)
@check(G, 40)
def horizon(seed, nf=3, ns=4):
    """exactly on the horizon is not above it"""
    r = R(seed); f = rfreqs(r, nf); M = [amp, fit][seed % 2]
    aa = M.AntennaArray((0., 0.), [M.Antenna(0., float(k), 0., M.Beam(f)) for k in range(2)]); aa.set_jultime(rjd(r)); aa.set_active_pol('xx')
    # from the equator the poles are exactly on the horizon
    t = aa.sidereal_time(); s = np.array([[0., 0., np.cos(t)], [0., 0., np.sin(t)], [1., -1., 0.]])
    aa.sim_cache(s, np.ones((3, nf)) * np.array([[5.], [7.], [11.]])); close(aa.sim(0, 0), 11 * np.ones(nf), 1e-9, 'sources on the horizon contribute')
    aa.sim_cache(s[:, :2], np.ones((2, nf))); same(aa.sim(0, 0), np.zeros(nf), 'only sources on the horizon')
@check(G, 30)
def refused(seed, nf=3, ns=4):
    W = World(seed, nf, ns); S = sky(W, ns); W.aa.set_active_pol('xx')
    raises(RuntimeError, lambda: W.aa.sim(0, 1), 'before any source was supplied')
    W.aa.sim_cache(**args(S)); W.aa.sim(0, 1)
    W.time(); raises(RuntimeError, lambda: W.aa.sim(0, 1), 'sources of an earlier time')
    W.aa.sim_cache(**args(S)); W.aa.sim(0, 1); W.aa.set_ephemtime('2010/1/1'); raises(RuntimeError, lambda: W.aa.sim(0, 1), 'sources of an earlier ephemeris time')
@check(G, 60)
def catalogue(seed, nf=3, ns=4):
    """the documented flow: catalogue -> coordinates, fluxes, shapes -> simulation"""
    W = World(seed, nf, ns); r = W.r; M = fit if W.kind == 'pol' else dict(amp=amp, fit=fit)[W.kind]
    P = [dict(ra=float(r.uniform(0, 6.28)), dec=float(r.uniform(-1.5, 1.5)), jys=float(r.uniform(1, 100)), index=float(r.uniform(-2, 1)), mfreq=float(r.uniform(.1, .2)),
              ionref=tuple(float(x) for x in r.uniform(-1e-2, 1e-2, 2)), srcshape=tuple(float(x) for x in r.uniform(0, .02, 3))) for _ in range(ns)]
    cat = M.SrcCatalog([M.RadioFixedBody(p['ra'], p['dec'], name='s%d' % k, epoch=W.aa.epoch, **{q: p[q] for q in ('jys', 'index', 'mfreq', 'ionref', 'srcshape')}) for k, p in enumerate(P)])
    cat.compute(W.aa); e = cat.get_crds('eq', ncrd=3)
    W.aa.sim_cache(e, cat.get_jys(), mfreqs=cat.get('mfreq'), ionrefs=cat.get('ionref'), srcshapes=cat.get('srcshape'))
    names = list(cat.keys()); S = []
    for k, nm in enumerate(names):
        p = P[int(nm[1:])]; S.append((e[:, k], p['jys'] * (W.f / p['mfreq'])**p['index'], p['mfreq'], p['ionref'], p['srcshape']))
        t = coord_of(p, W)
        if t is not None and np.abs(e[:, k] - t).max() > 2e-3: fail('coordinates of source %s' % nm)
    margin(W, S); cmp(W, 0, 1, 'xx', S, 'catalogue'); cmp(W, 2, 0, 'yx', S, 'catalogue')
def coord_of(p, W): return np.array([np.cos(p['ra']) * np.cos(p['dec']), np.sin(p['ra']) * np.cos(p['dec']), np.sin(p['dec'])])
