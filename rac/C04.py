from arrs import *
from aipy import phs, amp, fit
def mk(r, nf, na=3, elev=False, mod=phs):
    f = rfreqs(r, nf); loc = rloc(r, elev)
    pos = rpos(r, na)
    b = mod.Beam(f) if mod is not phs else phs.Beam(f)
    aa = mod.AntennaArray(loc, [mod.Antenna(p[0], p[1], p[2], b if r.randint(2) else mod.Beam(f)) for p in pos])
    return aa, f, loc, [np.array(p) for p in pos]
def G(ns=(1, 2, 3, 7)):
    def g(rng, k): return dict(seed=rng.randrange(10**6), nf=[1, 2, 3, 8][k % 4], ns=ns[(k // 4) % len(ns)])
    return g
def world(seed, nf):
    r = R(seed); mod = [phs, amp, fit][seed % 3]
    aa, f, loc, pos = mk(r, nf, na=[2, 3, 5][seed % 3], elev=bool(seed % 2), mod=mod)
    jd = rjd(r)
    for t in ([jd] if seed % 2 else [rjd(r), jd]): aa.set_jultime(t)
    i, j = r.randint(len(pos)), r.randint(len(pos))
    return r, aa, f, loc, pos, jd, lst_of(loc, jd), int(i), int(j)
def want(src, d, loc, lst):
    return {'r': d, 'z': eqtop(0, loc[0]).dot(d), 'e': rotz(-lst).dot(d)}[src]
@check(G(), 120)
def baseline(seed, nf, ns):
    r, aa, f, loc, pos, jd, lst, i, j = world(seed, nf)
    d = pos[j] - pos[i]
    before = [a.pos.copy() for a in aa]
    for src in 'rze':
        b = aa.get_baseline(i, j, src=src)
        close(b, want(src, d, loc, lst), 1e-9, 'baseline ' + src, scale=1000)
        close(aa.get_baseline(j, i, src=src), -want(src, d, loc, lst), 1e-9, 'swapped', scale=1000)
        close(np.dot(b, b), np.dot(d, d), 1e-9, 'length')
    close(aa.get_baseline(i, j), want('z', d, loc, lst), 1e-9, 'default', scale=1000)
    for a, p in zip(aa, before): same(a.pos, p, 'antenna position changed')
    # antenna arithmetic
    close(aa[j] - aa[i], d, 1e-12); close(aa[i] + aa[j], pos[i] + pos[j], 1e-12); close(-aa[i], -pos[i], 1e-12)
    raises(ValueError, lambda: aa.get_baseline(i, j, src='q'), 'unknown frame')
def chk_uvw(aa, i, j, src, wanted, f, ns):
    """wanted: (3, ns) rotated baselines"""
    w3 = wanted.reshape(3, -1)
    n = w3.shape[1]
    exp = w3[:, :, None] * f[None, None, :]
    got = aa.gen_uvw(i, j, src=src); close(got, exp, 1e-9, 'uvw', scale=1000)
    w = aa.gen_uvw(i, j, src=src, w_only=True); close(w, got[2], 1e-12, 'w only', scale=1000)
    close(aa.gen_uvw(j, i, src=src), -exp, 1e-9, 'swapped uvw', scale=1000)
    close(aa.gen_uvw(i, j, src=src), exp, 1e-9, 'uvw a second time', scale=1000)
@check(G(), 120)
def uvw(seed, nf, ns):
    r, aa, f, loc, pos, jd, lst, i, j = world(seed, nf)
    d = pos[j] - pos[i]
    for src in 'rze': chk_uvw(aa, i, j, src, want(src, d, loc, lst), f, 1)
    ch = r.randint(0, nf, r.randint(1, 6))
    aa.select_chans(ch)
    for src in 'rze': chk_uvw(aa, i, j, src, want(src, d, loc, lst), f[ch], 1)
    t2 = rjd(r); aa.set_jultime(t2); l2 = lst_of(loc, t2)
    for src in 'rze': chk_uvw(aa, i, j, src, want(src, d, loc, l2), f[ch], 1)
def srcmat(v, lst):
    """unit vector in equatorial coordinates -> projection matrix at hour angle lst - ra"""
    ra, dec = np.arctan2(v[1], v[0]), np.arctan2(v[2], np.hypot(v[0], v[1]))
    return eqtop(lst - ra, dec)
@check(G(), 100)
def vector(seed, nf, ns):
    r, aa, f, loc, pos, jd, lst, i, j = world(seed, nf)
    d = pos[j] - pos[i]; v = unitvecs(r, 1)[:, 0]; v0 = v.copy()
    b = aa.get_baseline(i, j, src=v); e = srcmat(v, lst).dot(d)
    same(v, v0, 'source vector changed')
    close(b, e, 1e-9, 'towards a vector', scale=1000)
    chk_uvw(aa, i, j, v, e, f, 1)
@check(G(), 100)
def vectors(seed, nf, ns):
    r, aa, f, loc, pos, jd, lst, i, j = world(seed, nf)
    d = pos[j] - pos[i]; v = unitvecs(r, ns); v0 = v.copy()
    b = aa.get_baseline(i, j, src=v); e = np.array([srcmat(v[:, k], lst).dot(d) for k in range(ns)]).T
    same(v, v0, 'source vectors changed')
    close(b, e, 1e-9, 'towards vectors', scale=1000)
    chk_uvw(aa, i, j, v, e, f, ns)
@check(G(), 150)
def source(seed, nf, ns):
    r, aa, f, loc, pos, jd, lst, i, j = world(seed, nf)
    d = pos[j] - pos[i]
    S = [phs.RadioFixedBody, amp.RadioFixedBody, fit.RadioFixedBody][seed % 3]
    ra, dec = float(r.uniform(0, TP)), float(np.arcsin(r.uniform(-1, 1)))
    if seed % 6 == 0: s = [phs, amp, fit][seed % 3].RadioSpecial(['Sun', 'Moon', 'Jupiter'][r.randint(3)])
    else: s = S(ra, dec, name='s')
    s.compute(aa)
    if abs(float(s.alt)) < 1e-6: raise Skip
    if s.alt < 0:
        raises(phs.PointingError, lambda: aa.get_baseline(i, j, src=s), 'source below the horizon')
        raises(phs.PointingError, lambda: aa.gen_uvw(i, j, src=s), 'source below the horizon')
        raises(phs.PointingError, lambda: aa.gen_phs(s, i, j), 'source below the horizon')
        return
    e = eqtop(lst - float(s.ra), float(s.dec)).dot(d)
    close(aa.get_baseline(i, j, src=s), e, 1e-9, 'towards a source', scale=1000)
    close(aa.get_baseline(j, i, src=s), -e, 1e-9, 'swapped', scale=1000)
    chk_uvw(aa, i, j, s, e, f, 1)
class _H(object): pass
@check(lambda rng, k: dict(seed=rng.randrange(10**6)), 20)
def horizon(seed):
    """exactly on the horizon is not refused"""
    r, aa, f, loc, pos, jd, lst, i, j = world(seed, 2)
    s = _H(); s.alt = 0.; s.src_name = 'h'; s.map = eqtop(1.1, .2); s.ionref = (0., 0.); s.srcshape = (0, 0, 0)
    close(aa.get_baseline(i, j, src=s), s.map.dot(pos[j] - pos[i]), 1e-9, scale=1000)
    s.alt = -1e-9
    raises(phs.PointingError, lambda: aa.get_baseline(i, j, src=s), 'just below the horizon')
