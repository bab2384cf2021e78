from lib import *
from aipy import img
def gen(rng, k): return dict(seed=rng.randrange(10**6))
def fold(k, N): return np.where(k <= N // 2, k, k - N)
def world(r, mf=0, nmax=40, nmin=1):
    N = int(r.randint(nmin, nmax + 1)); res = float(r.choice([.5, 1., 2., .25, r.uniform(.2, 2)])); im = img.Img(N * res, res, mf) if mf or r.randint(2) else img.Img(size=N * res, res=res); is_(im.shape, (N, N), 'shape'); return im, N, res
def kernel(i1, i2, d, N):
    """what gridding the data d at positions (i1, i2) gives"""
    P = np.zeros((N, N), complex)
    for a, b, x in zip(np.float32(i1), np.float32(i2), d):
        R = np.arange(int(np.floor(a - np.float32(3))), int(np.ceil(a + np.float32(3))) + 1); C = np.arange(int(np.floor(b - np.float32(3))), int(np.ceil(b + np.float32(3))) + 1)
        g = .63661977236758149 * np.exp(-2. * ((float(a) - R)[:, None]**2 + (float(b) - C)[None, :]**2)) * x
        np.add.at(P, (np.broadcast_to((R % N)[:, None], g.shape), np.broadcast_to((C % N)[None, :], g.shape)), g)
    return P
def points(r, N, res, n, whole=False):
    s = 2 * N * res
    if whole: return [np.round(r.uniform(-s, s, n) / res) * res for _ in range(2)] + [r.uniform(-5, 5, n)]
    return [r.uniform(-s, s, n) for _ in range(3)]
@check(gen=gen, n=60, corners=[dict(seed=1)])
def sizes(seed=1):
    r = rs(seed); n = int(r.randint(1, 60)); res = float(r.uniform(.1, 3)); im = img.Img((n + r.uniform(-.45, .45)) * res, res, int(r.randint(3))); is_(im.shape, (n, n), 'shape')
    for p in [im.uv] + im.bm: same(p, np.zeros((n, n)), 'plane'); is_(p.dtype, np.dtype(np.complex64), 'type')
@check(gen=gen, n=160, corners=[dict(seed=1)])
def put(seed=1):
    r = rs(seed); mf = int(r.randint(2)); im, N, res = world(r, mf); n = int(r.randint(1, 12)); u, v, w = points(r, N, res, n, r.randint(2)); d = (r.normal(size=n) + 1j * r.normal(size=n)).astype(np.complex128 if r.randint(2) else np.complex64); wg = [r.uniform(0, 2, n) for _ in range(mf + 1)]
    want = [np.zeros((N, N), complex) for _ in range(mf + 2)]
    for k in range(2):
        keep = [x.copy() for x in (u, v, w, d)] + [x.copy() for x in wg]; how = r.randint(3); W = [np.ones(n)] + [np.zeros(n)] * mf
        if how == 0: args = ()
        elif how == 1 and mf == 0: args = (wg[0],); W = wg
        else: args = (list(wg),); W = wg
        apply = bool(r.randint(2)); before = [p.copy() for p in [im.uv] + im.bm]
        o = im.put((u, v, w), d, *args, apply=apply) if not apply or r.randint(2) else im.put((u, v, w), d, *args)
        add = [kernel(-v / res, u / res, x, N) for x in [d] + W]
        if apply:
            is_(o, None, 'returned'); want = [a + b for a, b in zip(want, add)]
            for x, y, nm in zip([im.uv] + im.bm, want, ['data', 'weights', 'next weights']): close(x, y, 3e-5, nm + ' plane', scale=10. + np.abs(y).max())
        else:
            for x, y in zip(before, [im.uv] + im.bm): same(x, y, 'stored plane')
            is_(len(o[1]), mf + 1, 'weight planes')
            for x, y, nm in zip([o[0]] + list(o[1]), add, ['data', 'weights', 'next weights']): close(x, y, 3e-5, 'returned %s plane' % nm, scale=10. + np.abs(y).max())
        for x, y in zip([u, v, w, d] + wg, keep): same(x, y, 'input')
@check(gen=gen, n=100, corners=[dict(seed=1)])
def get(seed=1):
    r = rs(seed); im, N, res = world(r, nmin=12, nmax=48); n = int(r.randint(1, 6)); u, v, w = points(r, N, res, n); wg = r.uniform(.5, 2, n); d = r.normal(size=n) + 1j * r.normal(size=n)
    im.put((u, v, w), d, wg)
    D, B = [kernel(-v / res, u / res, x, N) for x in (d, wg)]; q = points(r, N, res, 7); q = [np.concatenate([a + .3 * r.uniform(-res, res, n), b]) for a, b in zip((u, v, w), q)]
    def read(P):
        o = []
        for a, b in zip(np.float32(-q[1] / res), np.float32(q[0] / res)): K = kernel([a], [b], [1.], N); o.append((K * P).sum() / 1.)
        return np.array(o)
    nu, de = read(D), read(B); ok = np.abs(de) > 1e-3; before = [p.copy() for p in (im.uv, im.bm[0])]; o = im.get(tuple(q)); is_(o.shape, (n + 7,), 'shape')
    close(o[ok], (nu / np.where(ok, de, 1))[ok], 2e-3, 'data over weights', scale=1 + np.abs(d).max() * 2); same(before[0], im.uv, 'plane'); same(before[1], im.bm[0], 'weight plane')
    P = im.uv * 2; o2 = im.get(tuple(q), P, im.bm[0]); close(o2[ok], 2 * o[ok], 1e-4, 'planes handed in')
@check(gen=gen, n=60, corners=[dict(seed=1)])
def roundtrip(seed=1):
    r = rs(seed); im, N, res = world(r, nmin=12, nmax=48); n = int(r.randint(1, 2)); u, v, w = points(r, N, res, n); wg = r.uniform(.5, 2, n); d = wg * (r.normal(size=n) + 1j * r.normal(size=n)); im.put((u, v, w), d, wg)
    close(im.get((u, v, w)), d / wg, 1e-3, 'datum over weight', scale=3.)
@check(gen=gen, n=120, corners=[dict(seed=1)])
def hermitian(seed=1):
    r = rs(seed); mf = int(r.randint(2)); im, N, res = world(r, mf); n = int(r.randint(1, 12)); u, v, w = points(r, N, res, n, r.randint(2)); d = r.normal(size=n) + 1j * r.normal(size=n); wg = [r.uniform(0, 2, n) for _ in range(mf + 1)]; how = r.randint(3)
    keep = [x.copy() for x in [u, v, w, d] + wg]; lst = list(wg)
    o = im.append_hermitian((u, v, w), d) if how == 0 else im.append_hermitian((u, v, w), d, wg[0] if how == 1 and mf == 0 else lst)
    for x, y in zip([u, v, w, d] + lst, keep): same(x, y, 'input')
    is_(len(o), 2 if how == 0 else 3, 'parts')
    for a, b in zip(o[0], (u, v, w)): same(a, np.concatenate([b, -b]), 'points')
    same(o[1], np.concatenate([d, d.conj()]), 'data'); 
    if how:
        is_(len(o[2]), mf + 1, 'weights')
        for a, b in zip(o[2], wg): same(a, np.concatenate([b, b]), 'weights')
    im.put(tuple(o[0]), o[1], *([list(o[2])] if how else [])); z = np.fft.ifft2(im.uv); s = np.abs(z).max() + 1e-6
    if float(res) in (.25, .5, 1., 2.): close(z.imag, np.zeros((N, N)), 2e-4, 'imaginary part', scale=s + np.abs(d).max()); close(im.image(), z.real, 1e-4, 'image', scale=s)
    c = [int(r.randint(-2 * N, 2 * N)) for _ in range(2)]; close(im.image(tuple(c)), np.roll(z.real, (-c[0], -c[1]), (0, 1)), 1e-4, 'centred image', scale=s); is_(im.image(tuple(c)).dtype, np.dtype(np.float32), 'type')
    b = im.bm_image(tuple(c)); is_(len(b), mf + 1, 'beams')
    for k in range(mf + 1):
        x = np.roll(np.fft.ifft2(im.bm[k]).real, (-c[0], -c[1]), (0, 1)); close(b[k], x, 1e-4, 'beam', scale=1.); close(im.bm_image(tuple(c), term=k), x, 1e-4, 'beam term', scale=1.)
@check(gen=gen, n=200, corners=[dict(seed=1)])
def recenter(seed=1):
    r = rs(seed); A, B = r.randint(1, 14, 2); a = r.normal(size=(A, B)); c = (int(r.randint(-40, 40)), int(r.randint(-40, 40))); want = np.roll(a, (-c[0], -c[1]), (0, 1)); k = r.randint(4)
    if k == 1: c = (float(c[0]), float(c[1]))
    if k == 2: c = np.array(c)
    if k == 3: a = a + 1j; want = want + 1j
    m = r.uniform(size=(A, B)) < .4; keep = a.copy(); o = img.recenter(a, c); same(o, want, 'recentred'); is_(o.dtype, a.dtype, 'type'); same(a, keep, 'input'); c = (int(c[0]), int(c[1]))
    o = img.recenter(np.ma.array(a, mask=m), c); is_(np.ma.isMA(o), True, 'masked'); same(np.ma.getmaskarray(o), np.roll(m, (-c[0], -c[1]), (0, 1)), 'mask'); same(o.data, want, 'masked data'); same(img.recenter(img.recenter(a, c), (-c[0], -c[1])), a, 'and back')
@check(gen=gen, n=60, corners=[dict(seed=1)])
def image(seed=1):
    r = rs(seed); im, N, res = world(r, 1); im.uv[:] = r.normal(size=(N, N)) + 1j * r.normal(size=(N, N)); im.bm[1][:] = r.normal(size=(N, N)); c = tuple(int(x) for x in r.randint(-50, 50, 2))
    close(im.image(c), np.roll(np.fft.ifft2(im.uv).real, (-c[0], -c[1]), (0, 1)), 1e-4, 'image', scale=1.); close(im.bm_image(c)[1], np.roll(np.fft.ifft2(im.bm[1]).real, (-c[0], -c[1]), (0, 1)), 1e-4, 'beam', scale=1.)
def rot(ra, dec):
    """east, north and up at the direction (ra, dec), in equatorial coordinates"""
    return np.array([[-np.sin(ra), -np.sin(dec) * np.cos(ra), np.cos(dec) * np.cos(ra)], [np.cos(ra), -np.sin(dec) * np.sin(ra), np.cos(dec) * np.sin(ra)], [0, np.cos(dec), np.sin(dec)]])
@check(gen=gen, n=160, corners=[dict(seed=1)])
def coords(seed=1):
    r = rs(seed); im, N, res = world(r); row, col = np.indices((N, N)); u, v = im.get_uv()
    for nm, x, k in (('u', u / res, col), ('v', -v / res, row)): close(x, np.where(2 * k < N, k, k - N), 1e-9, nm)
    a, b = im.get_indices(u.flatten(), v.flatten()); close(a % N, row.flatten(), 1e-4, 'row of a coordinate', scale=N); close(b % N, col.flatten(), 1e-4, 'column', scale=N)
    c = tuple(int(x) for x in r.randint(-2 * N, 2 * N, 2)); s = lambda x: np.roll(x, (-c[0], -c[1]), (0, 1)); l, m = s(-fold(col, N) / (N * res)), s(fold(row, N) / (N * res)); L, M = im.get_LM(c)
    if r.randint(4) == 0: c = (0, 0); l, m = -fold(col, N) / (N * res), fold(row, N) / (N * res); L, M = im.get_LM()
    rr = l**2 + m**2; sure = np.abs(rr - 1) > 1e-5; off = rr >= 1
    for nm, x, y in (('l', L, l), ('m', M, m)): close(x.data, y, 1e-6, nm); same(np.ma.getmaskarray(x)[sure], off[sure], 'mask of ' + nm)
    X, Y, Z = im.get_top(c); g = sure & ~off
    for nm, x, y in (('x', X, l), ('y', Y, m)): close(x.data[g], y[g], 1e-6, nm)
    close(Z.data[g]**2, (1 - rr)[g], 1e-5, 'z'); is_(bool((Z.data[g] >= 0).all()), True, 'up')
    for x in (X, Y, Z): same(np.ma.getmaskarray(x)[sure], off[sure], 'topocentric mask')
    ra, dec = r.uniform(-3, 3), r.uniform(-1.5, 1.5); e = im.get_eq(ra, dec, c); want = np.einsum('ij,jkl->ikl', rot(ra, dec), np.array([X.data, Y.data, Z.data])); is_(e.shape, (3, N, N), 'shape')
    for k in range(3): close(e.data[k][g], want[k][g], 1e-5, 'equatorial'); same(np.ma.getmaskarray(e)[k][sure], off[sure], 'equatorial mask')
    e = im.get_eq(center=c); want = np.einsum('ij,jkl->ikl', rot(0, 0), np.array([X.data, Y.data, Z.data]))
    for k in range(3): close(e.data[k][g], want[k][g], 1e-5, 'equatorial at the origin')
