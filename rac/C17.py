from lib import *
import healpy
from aipy import healpix
DT = [np.float64, np.float32, np.complex128, np.int64, np.int32, np.complex64]
def gen(rng, k): return dict(seed=rng.randrange(10**6), dt=k % 6, mode=(k // 6) % 3, n=[3, 1, 200, 2, 12, 50][(k // 18) % 6])
def ring_vec(nside): return np.array(healpy.pix2vec(nside, np.arange(12 * nside**2)))
def ringno(nside, sch): return np.arange(12 * nside**2) if sch == 'RING' else healpy.nest2ring(nside, np.arange(12 * nside**2))
def values(r, n, dt):
    if np.issubdtype(dt, np.integer): return r.randint(-50, 50, n).astype(dt)
    if np.issubdtype(dt, np.complexfloating): return (r.uniform(-5, 5, n) + 1j * r.uniform(-5, 5, n)).astype(dt)
    return r.uniform(-5, 5, n).astype(dt)
def mk(r, dt, nside=None, sch=None, how=None):
    nside = nside or int(2**r.randint(0, 5)); sch = sch or ['RING', 'NEST'][r.randint(2)]
    m = healpix.HealpixMap(nside=nside, scheme=sch, dtype=dt) if (r.randint(2) if how is None else how) else healpix.HealpixMap(nside, sch, dtype=dt)
    is_(m.npix(), 12 * nside**2, 'pixels'); same(m.map, np.zeros(12 * nside**2), 'new map'); is_(m.map.dtype, np.dtype(dt), 'type')
    d = values(r, 12 * nside**2, dt); m.set_map(d.copy(), scheme=sch); return m, nside, sch, d
def directions(r, n, nside, sch, mode):
    """(key, pixel of each entry): pixel numbers, angles or vectors strictly inside pixels"""
    px = r.randint(0, 12 * nside**2, n)
    if n > 3: px[: n // 3] = px[n // 3: 2 * (n // 3)]     # repeats
    nest = sch == 'NEST'
    if mode == 0: return (px if r.randint(2) or n == 0 else px.tolist()), px
    th, ph = healpy.pix2ang(nside, px, nest=nest); w = .2 / nside
    th = np.clip(th + r.uniform(-w, w, n), .01, np.pi - .01); ph = ph + r.uniform(-w, w, n)
    if mode == 1: return (th, ph), healpy.ang2pix(nside, th, ph, nest=nest)
    v = np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])
    return tuple(v), healpy.vec2pix(nside, *v, nest=nest)
@check(gen=gen, n=216, corners=[dict(seed=1, dt=0, mode=0, n=3)])
def assign(seed, dt=0, mode=0, n=3):
    r = rs(seed); dt = DT[dt]; m, nside, sch, d = mk(r, dt)
    ref = d.copy(); tol = 1e-4 if np.dtype(dt).itemsize in (4, 8) and dt not in (np.float64, np.int64) else 1e-10
    for step in range(3):
        key, px = directions(r, n, nside, sch, mode); val = values(r, n, dt); v0 = val.copy()
        m[key] = val if r.randint(2) else val.tolist() if not (n == 1) else val
        new = ref.copy()
        for p in set(px.tolist()): new[p] = sum((x for q, x in zip(px.tolist(), v0.tolist()) if q == p), type(v0[0].item())(0))
        close(m.map, new, tol, 'map after assignment'); same(val, v0, 'values handed in'); is_(m.map.dtype, np.dtype(dt), 'type'); is_((m.nside(), m.scheme()), (nside, sch), 'state'); ref = np.array(m.map)
        close(m[key], ref[px], tol, 'read back')
    p = int(r.randint(ref.size)); m[p] = ref.dtype.type(3); ref[p] = 3; same(m.map, ref, 'single pixel')
@check(gen=gen, n=216)
def read(seed, dt=0, mode=0, n=3):
    r = rs(seed); dt = DT[dt]; m, nside, sch, d = mk(r, dt); key, px = directions(r, n, nside, sch, mode)
    k0 = [np.array(k) for k in (key if isinstance(key, tuple) else (key,))]
    same(m[key], d[px], 'values'); same(m.map, d, 'map')
    m.set_interpol(True)
    if mode == 0: same(m[key], d[px], 'pixel values with interpolation on')
    else:
        th, ph = k0 if mode == 1 else healpy.vec2ang(np.array(k0).T)
        q, w = healpy.get_interp_weights(nside, th, ph, nest=sch == 'NEST')
        close(m[key], np.array([sum(d[q[b, k]] * w[b, k] for b in range(4)) for k in range(n)]), 1e-5 if dt in (np.float32, np.complex64) else 1e-9, 'interpolated')
    m.set_interpol(False); same(m[key], d[px], 'values again'); same(m.map, d, 'map')
    for a, b in zip(k0, key if isinstance(key, tuple) else (key,)): same(b, a, 'coordinates handed in')
    on = healpix.HealpixMap(nside, sch, dtype=dt, interp=True); on.set_map(d, scheme=sch)
    if mode:
        m.set_interpol(True); close(on[key], m[key], 1e-12, 'interpolation by constructor')
def same_sky(m, nside, sky, what):
    """every direction reads the value of the sky (in ring order)"""
    v = ring_vec(nside); close(m[v[0], v[1], v[2]], sky, 1e-12, what + ': value by direction'); close(np.array(m.map), sky[ringno(nside, m.scheme())], 1e-12, what + ': data')
@check(gen=lambda rng, k: dict(seed=rng.randrange(10**6), dt=k % 6), n=60, corners=[dict(seed=1)])
def schemes(seed, dt=0):
    r = rs(seed); dt = DT[dt]; m, nside, sch, d = mk(r, dt); sky = np.empty_like(d); sky[ringno(nside, sch)] = d
    for to in ('RING', 'NEST'): q = ringno(nside, sch); is_(list(m.nest_ring_conv(np.arange(12 * nside**2), to)), list(q if to == 'RING' else healpy.ring2nest(nside, q)), 'pixels in the scheme asked for')
    for step in range(4):
        to = ['RING', 'NEST'][r.randint(2)]; m.change_scheme(to); is_((m.scheme(), m.nside(), m.npix()), (to, nside, 12 * nside**2), 'state'); is_(m.map.dtype, np.dtype(dt), 'type'); same_sky(m, nside, sky, 'change of scheme')
        if r.randint(2):
            p = r.randint(0, 12 * nside**2); x = ring_vec(nside)[:, p]; m[x[:1], x[1:2], x[2:]] = values(r, 1, dt); sky[p] = m[x[:1], x[1:2], x[2:]][0]
@check(gen=lambda rng, k: dict(seed=rng.randrange(10**6), dt=k % 6), n=60, corners=[dict(seed=1)])
def copies(seed, dt=0):
    r = rs(seed); dt = DT[dt]; a, nside, sa, d = mk(r, dt); b, _, sb, _ = mk(r, dt, nside=nside); interp = bool(r.randint(2)); a.set_interpol(interp)
    sky = np.empty_like(d); sky[ringno(nside, sa)] = d; b.from_hpm(a); is_((b.scheme(), b.nside()), (sb, nside), 'state'); same_sky(b, nside, sky, 'copy'); is_(b.map.dtype, np.dtype(dt), 'type')
    same(a.map, d, 'source'); is_(a.scheme(), sa, 'scheme of the source'); a.map[:] = 0; same_sky(b, nside, sky, 'copy after its source changed')
    a.set_map(d.copy(), sa)
    # from other resolutions: the scheme and resolution of the target stay, and the source is left as it was
    for n2 in (2 * nside, max(1, nside // 2)):
        c, _, sc, _ = mk(r, np.float64 if np.issubdtype(dt, np.integer) else dt, nside=n2); c.from_hpm(a); is_((c.scheme(), c.nside(), c.map.size), (sc, n2, 12 * n2**2), 'state of the other resolution'); same(a.map, d, 'source')
        v = ring_vec(n2); is_(bool(a._use_interpol), interp, 'interpolation setting')
        if n2 > nside:
            th, ph = healpy.pix2ang(n2, np.arange(12 * n2**2)); q, w = healpy.get_interp_weights(nside, th, ph, nest=sa == 'NEST'); want = (d[q] * w).sum(axis=0)
            close(c[v[0], v[1], v[2]], want, 1e-4 if np.dtype(dt).itemsize <= 8 else 1e-9, 'upgraded', scale=10.)
        elif n2 < nside:
            want = np.zeros(12 * n2**2, complex)
            p = healpy.ang2pix(n2, *healpy.pix2ang(nside, np.arange(12 * nside**2)))
            np.add.at(want, p, sky); close(c[v[0], v[1], v[2]], want, 1e-4 if np.dtype(dt).itemsize <= 8 else 1e-9, 'downgraded', scale=50.)
@check(gen=lambda rng, k: dict(seed=rng.randrange(10**6)), n=30, corners=[dict(seed=1)])
def sizes(seed):
    r = rs(seed); m, nside, sch, d = mk(r, np.float64)
    for n in (1, 11, 13, 24, 47, 100, 767, 12 * nside**2 + 1, 12 * nside**2 - 1):
        raises((ValueError, AssertionError), lambda: m.set_map(np.zeros(n)), '%d pixels' % n)
    raises((ValueError, AssertionError), lambda: m.set_map(np.zeros((12, 1))), 'two-dimensional data'); is_((m.nside(), m.scheme()), (nside, sch), 'state'); same(m.map, d, 'data')
    n2 = int(2**r.randint(0, 4)); x = r.uniform(-1, 1, 12 * n2**2); to = ['RING', 'NEST'][r.randint(2)]
    m.set_map(x, scheme=to); is_((m.nside(), m.scheme(), m.npix()), (n2, to, x.size), 'state'); same(m.get_map(), x, 'data'); m.set_map(x); is_(m.scheme(), 'RING', 'default scheme')
@check(gen=lambda rng, k: dict(seed=rng.randrange(10**6)), n=30, corners=[dict(seed=1)])
def geometry(seed):
    r = rs(seed); nside = int(2**r.randint(0, 8)); sch = ['RING', 'NEST'][r.randint(2)]; b = healpix.HealpixBase(nside, sch); is_((b.npix(), b.nside(), b.scheme(), b.order()), (12 * nside**2, nside, sch, int(np.log2(nside))), 'description')
    px = r.randint(0, b.npix(), 40); ring = px if sch == 'RING' else healpy.nest2ring(nside, px); v = np.array(b.px2crd(px)); close(v, np.array(healpy.pix2vec(nside, ring)), 1e-12, 'directions'); close((v**2).sum(axis=0), np.ones(40), 1e-12, 'length')
    th, ph = b.px2crd(px, ncrd=2); close(np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)]), v, 1e-12, 'angles')
    same(b.crd2px(*v), px, 'pixel of its direction'); same(b.crd2px(th, ph), px, 'pixel of its angles'); raises(AssertionError, lambda: b.px2crd(px, ncrd=4), 'four coordinates')
    p, w = b.crd2px(th, ph, interpolate=True); is_(p.shape, (40, 4), 'neighbours'); close(w.sum(axis=1), np.ones(40), 1e-9, 'sum of weights')
    p2, w2 = b.crd2px(*v, **dict(interpolate=True)); close((w2 * (p2 == px[:, None])).sum(axis=1), np.ones(40), 1e-6, 'the centre of a pixel has only that pixel')
@check(gen=lambda rng, k: dict(seed=rng.randrange(10**6)), n=40, corners=[dict(seed=1)])
def harmonics(seed):
    r = rs(seed); L = int(r.randint(0, 12)); M = int(r.randint(0, L + 1)); dt = [np.complex128, np.complex64][r.randint(2)]; a = healpix.Alm(L, M, dtype=dt)
    lm = [(l, m) for m in range(M + 1) for l in range(m, L + 1)]; is_((a.lmax(), a.mmax(), a.size()), (L, M, len(lm)), 'sizes'); same(a.get_data(), np.zeros(len(lm)), 'cleared')
    same(a.lm_indices(), np.array(lm).reshape(-1, 2), 'indices'); d = (r.uniform(-1, 1, len(lm)) + 1j * r.uniform(-1, 1, len(lm))).astype(dt); a.set_data(d)
    for k, (l, m) in enumerate(lm): is_(a[l, m], d[k], 'coefficient %d %d' % (l, m))
    for k in r.randint(0, len(lm), 5):
        v = dt(complex(*r.uniform(-1, 1, 2))); d2 = np.array(a.get_data()); d2[k] = v; a[lm[k]] = v; same(a.get_data(), d2, 'after setting one')
    d2 = np.array(a.get_data()); raises((AssertionError, ValueError), lambda: a.set_data(np.zeros(len(lm) + 1)), 'too many'); same(a.get_data(), d2, 'after a refusal'); raises(AssertionError, lambda: healpix.Alm(L, L + 1), 'm above l')
    # harmonics of a map: a_lm of the constant and of z, and back
    nside = 8; h = healpix.HealpixMap(nside=nside); z = healpy.pix2vec(nside, np.arange(12 * nside**2))[2]; c0, c1 = r.uniform(-3, 3, 2); h.set_map(c0 + c1 * z)
    q = h.to_alm(4, 4, iter=3)
    for (l, m) in [tuple(x) for x in q.lm_indices()]: close(q[l, m], {(0, 0): c0 * np.sqrt(4 * np.pi), (1, 0): c1 * np.sqrt(4 * np.pi / 3)}.get((l, m), 0), 1e-3, 'harmonic %d %d' % (l, m), scale=10.)
    b = healpix.HealpixMap(nside=nside); b.from_alm(q); close(b.map, h.map, 1e-3, 'map of the harmonics', scale=10.); same(q.to_map(nside), b.map, 'map'); is_(b.scheme(), 'RING', 'scheme')
    b.change_scheme('NEST'); raises(AssertionError, lambda: b.to_alm(2, 2), 'harmonics of a nested map'); q.set_to_zero(); same(q.get_data(), 0 * q.get_data(), 'cleared')
