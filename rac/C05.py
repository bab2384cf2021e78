from arrs import *
from aipy import phs, amp, fit
def G(rng, k): return dict(seed=rng.randrange(10**6), nf=[1, 2, 3, 8][k % 4], ns=[1, 2, 3, 7][(k // 4) % 4])
def world(seed, nf):
    r = R(seed); mod = [phs, amp, fit][seed % 3]
    f = rfreqs(r, nf); loc = rloc(r); pos = rpos(r, 3)
    P = [[float(x) for x in r.uniform(-3, 3, r.randint(1, 4))] for _ in pos]
    ants = [mod.Antenna(p[0], p[1], p[2], mod.Beam(f), phsoff=[list, tuple, np.array][seed % 3](c)) for p, c in zip(pos, P)]
    aa = mod.AntennaArray(loc, ants); jd = rjd(r); aa.set_jultime(jd)
    i, j = [int(x) for x in r.choice(3, 2, replace=False)]
    return r, aa, f, loc, [np.array(p) for p in pos], lst_of(loc, jd), P, i, j
def want(uvw, off, f, mf=None, ion=None, shp=None):
    """uvw (3, ns, nf) -> (ns, nf); mf, ion, shp: per-source arrays or scalars"""
    col = lambda x: np.asarray(x, float).reshape(-1, 1)
    u, v, w = uvw
    if ion is not None: w = w + (col(ion[0]) * u + col(ion[1]) * v) * col(mf)**2 / f**2
    ph = np.exp(-2j * np.pi * (w + off))
    if shp is not None: ph = ph * airy(u, v, [col(x) for x in shp])
    return ph
def uvw_of(aa, loc, lst, pos, i, j, src, f):
    d = pos[j] - pos[i]
    if isinstance(src, str): b = {'z': eqtop(0, loc[0]), 'e': rotz(-lst), 'r': np.eye(3)}[src].dot(d)[:, None]
    else: b = np.array([eqtop(lst - np.arctan2(v[1], v[0]), np.arctan2(v[2], np.hypot(v[0], v[1]))).dot(d) for v in src.T]).T
    return b[:, :, None] * f
def offs(P, i, j, f): return poly(P[j], f) - poly(P[i], f)
T = 3e-6          # phases of up to 2 pi 300*.2*10^.. wavelengths in double precision
@check(G, 150)
def plain(seed, nf, ns):
    r, aa, f, loc, pos, lst, P, i, j = world(seed, nf)
    close(aa.get_phs_offset(i, j), offs(P, i, j, f), 1e-9, 'phase offset')
    for src in 'zer':
        e = want(uvw_of(aa, loc, lst, pos, i, j, src, f), offs(P, i, j, f), f).squeeze()
        g = aa.gen_phs(src, i, j); close(g, e, T, 'phase')
        close(np.abs(g), np.ones(e.shape), 1e-12, 'modulus'); close(aa.gen_phs(src, j, i), np.conj(g), T, 'swapped')
        close(aa.gen_phs(src, i, i), np.ones(e.shape), 1e-12, 'auto')
        d = (r.normal(size=(4, nf)) + 1j * r.normal(size=(4, nf))); d0 = d.copy()
        p = aa.phs2src(d, src, i, j); close(p, d0 * want(uvw_of(aa, loc, lst, pos, i, j, src, f), offs(P, i, j, f), f), T, 'phs2src')
        close(aa.unphs2src(p, src, i, j), d0, 1e-12, 'unphs2src'); same(d, d0, 'data changed')
    ch = r.randint(0, nf, r.randint(1, 5)); aa.select_chans(ch)
    close(aa.gen_phs('z', i, j), want(uvw_of(aa, loc, lst, pos, i, j, 'z', f[ch]), offs(P, i, j, f[ch]), f[ch]).squeeze(), T, 'after select_chans')
def G2(rng, k): return dict(G(rng, k), kind=['scalars', 'arrays'][k % 2], resolve=bool(k % 3))
@check(G2, 150)
def table(seed, nf, ns, kind='arrays', resolve=True):
    nf, ns = nf or 3, ns or 2
    r, aa, f, loc, pos, lst, P, i, j = world(seed, nf)
    v = unitvecs(r, ns)
    mk = (lambda a: a) if kind == 'arrays' else (lambda a: float(a[0]))
    dra, ddec = mk(r.uniform(-1e-2, 1e-2, ns)), mk(r.uniform(-1e-2, 1e-2, ns)); mf = mk(r.uniform(.1, .2, ns))
    a1, a2, th = mk(r.uniform(0, .02, ns)), mk(r.uniform(0, .02, ns)), mk(r.uniform(-4, 4, ns))
    if kind == 'arrays' and seed % 4 == 0: a1[0] = a2[0] = 0
    mf0, ion0, shp0 = np.copy(mf), (np.copy(dra), np.copy(ddec)), (np.copy(a1), np.copy(a2), np.copy(th))
    U = uvw_of(aa, loc, lst, pos, i, j, v, f); O = offs(P, i, j, f)
    def call(i, j, **k): return aa.gen_phs(v, i, j, mfreq=mf, ionref=(dra, ddec), **k)
    for rep in range(2):
        close(call(i, j), want(U, O, f, mf0, ion0).squeeze(), T, 'ionospheric phase'); close(call(j, i), np.conj(want(U, O, f, mf0, ion0)).squeeze(), T, 'swapped')
        close(np.abs(call(i, j)), np.ones((ns, nf)).squeeze(), 1e-12, 'modulus')
    for rep in range(2):
        close(call(i, j, srcshape=(a1, a2, th), resolve_src=True), want(U, O, f, mf0, ion0, shp0).squeeze(), T, 'resolved')
        close(call(j, i, srcshape=(a1, a2, th), resolve_src=True), np.conj(want(U, O, f, mf0, ion0, shp0)).squeeze(), T, 'resolved, swapped')
    close(call(i, i, srcshape=(a1, a2, th), resolve_src=True), np.ones((ns, nf)).squeeze(), 1e-9, 'zero baseline')
    close(call(i, j, srcshape=(0., 0., th), resolve_src=True), want(U, O, f, mf0, ion0).squeeze(), T, 'zero size')
    close(call(i, j, srcshape=(a1, a2, th)), want(U, O, f, mf0, ion0).squeeze(), T, 'shape not asked for')
    close(np.ravel(mf), np.ravel(mf0), 0, 'mfreq changed')
@check(G, 200)
def source(seed, nf, ns):
    r, aa, f, loc, pos, lst, P, i, j = world(seed, nf)
    M = [phs, amp, fit][seed % 3]
    ion = tuple(float(x) for x in r.uniform(-1e-2, 1e-2, 2)); shp = tuple(float(x) for x in r.uniform(0, .01, 2)) + (float(r.uniform(-4, 4)),)
    kw = {} if seed % 5 == 0 else dict(ionref=ion, srcshape=shp)
    if not kw: ion, shp = (0, 0), (0, 0, 0)
    for t in range(8):
        s = M.RadioFixedBody(float(r.uniform(0, TP)), float(np.arcsin(r.uniform(-1, 1))), name='s', **kw)
        s.compute(aa)
        if s.alt > 1e-3: break
    else: raise Skip
    mf = float(r.uniform(.1, .2))
    U = (eqtop(lst - float(s.ra), float(s.dec)).dot(pos[j] - pos[i]))[:, None, None] * f; O = offs(P, i, j, f)
    close(aa.gen_phs(s, i, j, mfreq=mf), want(U, O, f, mf, ion).squeeze(), T, "the source's ionosphere")
    close(aa.gen_phs(s, i, j), want(U, O, f, .15, ion).squeeze(), T, 'default mfreq')
    close(aa.gen_phs(s, i, j, mfreq=mf, ionref=(.003, -.002)), want(U, O, f, mf, (.003, -.002)).squeeze(), T, 'given ionosphere')
    close(aa.gen_phs(s, i, j, mfreq=mf, resolve_src=True), want(U, O, f, mf, ion, shp).squeeze(), T, "the source's shape")
    close(aa.gen_phs(s, i, j, mfreq=mf, srcshape=(.004, .002, 1.)), want(U, O, f, mf, ion).squeeze(), T, 'shape without resolution')
    close(aa.gen_phs(s, i, j, mfreq=mf, srcshape=(.004, .002, 1.), resolve_src=True), want(U, O, f, mf, ion, (.004, .002, 1.)).squeeze(), T, 'given shape')
    d = (r.normal(size=(3, nf)) + 1j * r.normal(size=(3, nf))); d0 = d.copy()
    p = aa.phs2src(d, s, i, j, mfreq=mf); close(p, d0 * want(U, O, f, mf, ion), T, 'phs2src')
    close(aa.unphs2src(p, s, i, j, mfreq=mf), d0, 1e-12, 'unphs2src')
    p = aa.phs2src(d, s, i, j, mfreq=mf, ionref=(.01, .02), srcshape=shp); close(p, d0 * want(U, O, f, mf, (.01, .02)), T, 'phs2src with ionosphere')
    close(aa.unphs2src(p, s, i, j, mfreq=mf, ionref=(.01, .02), srcshape=shp), d0, 1e-12, 'unphs2src with ionosphere')
    same(d, d0, 'data changed')
@check(G, 60)
def direct(seed, nf, ns):
    """resolve_src and refract on their own"""
    r, aa, f, loc, pos, lst, P, i, j = world(seed, nf)
    u, v = r.uniform(-100, 100, (ns, nf)), r.uniform(-100, 100, (ns, nf))
    a1, a2, th = r.uniform(0, .02, ns), r.uniform(0, .02, ns), r.uniform(-4, 4, ns)
    c = lambda x: x.reshape(-1, 1)
    close(aa.resolve_src(u, v, (a1.copy(), a2.copy(), th.copy())), airy(u, v, (c(a1), c(a2), c(th))).squeeze(), 1e-9, 'resolve_src')
    close(aa.resolve_src(u, v, (.01, .02, .3)), airy(u, v, (.01, .02, .3)).squeeze(), 1e-9, 'resolve_src')
    close(aa.resolve_src(u, v), np.ones((ns, nf)).squeeze(), 0, 'resolve_src of a point')
    dra, ddec, mf = r.uniform(-1, 1, ns), r.uniform(-1, 1, ns), r.uniform(.1, .2, ns)
    close(aa.refract(u, v, mf.copy(), (dra.copy(), ddec.copy())), (c(dra) * u + c(ddec) * v) * c(mf)**2 / f**2, 1e-9, 'refract')
    close(aa.refract(u, v, .17, (.1, .2)), (.1 * u + .2 * v) * .17**2 / f**2, 1e-9, 'refract')
    close(aa.refract(u, v), np.zeros((ns, nf)), 0, 'refract of nothing')
