from lib import *
import aipy._dsp as dsp
def cells(x, fp, n):
    """cells of the footprint, unwrapped, with the distance of each"""
    x = np.float32(x); h = np.float32(abs(fp) // 2 * (1 if fp >= 0 else -1)); lo, hi = int(np.floor(np.float32(x - h))), int(np.ceil(np.float32(x + h)))
    return [(j % n, float(x) - j) for j in range(lo, hi + 1)]
def guarded(r, shape, dtype, vals):
    """the array inside a larger one whose other cells must stay as they are"""
    big = (r.uniform(-1, 1, (shape[0] + 6,) + tuple(shape[1:])) * 100).astype(dtype); a = big[3:3 + shape[0]]; a[...] = vals
    return big, a, big.copy()
def unchanged(big, before, n, what):
    same(big[:3], before[:3], what + ': memory before'); same(big[3 + n:], before[3 + n:], what + ': memory after')
POS = [lambda r, n, k: r.uniform(0, n, k), lambda r, n, k: r.uniform(-2 * n, 3 * n, k), lambda r, n, k: r.randint(-n, 2 * n, k).astype(float), lambda r, n, k: r.randint(-n, n, k) + .5, lambda r, n, k: n - r.uniform(0, 1e-3, k), lambda r, n, k: -r.uniform(0, 1e-3, k)]
def gen(rng, k): return dict(seed=rng.randrange(10**6), pos=k % 6, n1=[8, 3, 1, 17, 5, 2][(k // 6) % 6], n2=[5, 8, 4, 1, 13, 7][(k // 36 + k) % 6], fp=rng.choice([6, 1, 0, 3, 9, 2, None]), L=[5, 0, 1, 30][k % 4])
def args(fp): return [] if fp is None else [fp]
@check(gen=gen, n=216)
def grid(seed, pos=0, n1=8, n2=5, fp=6, L=5):
    r = rs(seed); f = 6 if fp is None else fp
    x = POS[pos](r, n1, L).astype(np.float32); y = POS[(pos + 1) % 6 if r.rand() < .5 else pos](r, n2, L).astype(np.float32); d = (r.normal(size=L) + 1j * r.normal(size=L)).astype(np.complex64)
    keep = [a.copy() for a in (x, y, d)]
    v = (r.normal(size=n1) + 1j * r.normal(size=n1)).astype(np.complex64); big, buf, before = guarded(r, (n1,), np.complex64, v)
    is_(dsp.grid1D_c(buf, x, d, *args(fp)), None, 'result')
    ref = v.astype(complex)
    for a, b in zip(x, d):
        for c, t in cells(a, f, n1): ref[c] += math.sqrt(2 / math.pi) * math.exp(-2 * t * t) * complex(b)
    s = 1 + np.abs(d).sum(); close(buf, ref, 3e-6 * s, 'grid1D', scale=1.); unchanged(big, before, n1, 'grid1D')
    v = (r.normal(size=(n1, n2)) + 1j * r.normal(size=(n1, n2))).astype(np.complex64); big, buf, before = guarded(r, (n1, n2), np.complex64, v)
    is_(dsp.grid2D_c(buf, x, y, d, *args(fp)), None, 'result')
    ref = v.astype(complex)
    for a, b, c in zip(x, y, d):
        for i, t in cells(a, f, n1):
            for j, u in cells(b, f, n2): ref[i, j] += 2 / math.pi * math.exp(-2 * (t * t + u * u)) * complex(c)
    close(buf, ref, 3e-6 * s, 'grid2D', scale=1.); unchanged(big, before, n1, 'grid2D')
    for a, b in zip(keep, (x, y, d)): same(b, a, 'arguments')
    # additive over samples
    one = np.zeros((n1, n2), np.complex64); two = np.zeros((n1, n2), np.complex64); dsp.grid2D_c(one, x, y, d, f)
    for k in range(L): dsp.grid2D_c(two, x[k:k + 1], y[k:k + 1], d[k:k + 1], f)
    close(one, two, 3e-6 * s, 'sample by sample', scale=1.)
@check(gen=gen, n=216)
def degrid(seed, pos=0, n1=8, n2=5, fp=6, L=5):
    r = rs(seed); f = 6 if fp is None else fp
    x = POS[pos](r, n1, L).astype(np.float32); y = POS[(pos + 1) % 6 if r.rand() < .5 else pos](r, n2, L).astype(np.float32)
    g = (r.normal(size=(n1, n2)) + 1j * r.normal(size=(n1, n2))).astype(np.complex64); g0 = g.copy(); keep = [x.copy(), y.copy()]
    big, d, before = guarded(r, (L,), np.complex64, r.normal(size=L)); is_(dsp.degrid2D_c(g, x, y, d, *args(fp)), None, 'result')
    ref = np.zeros(L, complex)
    for k in range(L):
        w = 0
        for i, t in cells(x[k], f, n1):
            for j, u in cells(y[k], f, n2): q = math.exp(-2 * (t * t + u * u)); w += q; ref[k] += q * complex(g[i, j])
        ref[k] /= w
    close(d, ref, 3e-5, 'weighted mean'); unchanged(big, before, L, 'degrid'); same(g, g0, 'grid')
    for a, b in zip(keep, (x, y)): same(b, a, 'positions')
    c = np.complex64(r.normal() + 1j * r.normal()); g = np.full((n1, n2), c); d = np.ones(L, np.complex64); dsp.degrid2D_c(g, x, y, d, *args(fp)); close(d, np.full(L, c), 2e-5, 'constant grid')
@check(gen=lambda rng, k: dict(seed=rng.randrange(10**6)), n=30, corners=[dict(seed=1)])
def wrapper(seed):
    r = rs(seed); n1, n2, L = r.randint(2, 8), r.randint(2, 8), r.randint(2, 6); x = r.uniform(0, n1, L).astype(np.float32); y = r.uniform(0, n2, L).astype(np.float32)
    d = np.ones(L, np.complex64); b1, b2 = np.zeros(n1, np.complex64), np.zeros((n1, n2), np.complex64)
    def no(f, *a):
        before = [z.copy() for z in a if isinstance(z, np.ndarray)]; raises((ValueError, TypeError), lambda: f(*a), 'bad arguments')
        for p, q in zip(before, [z for z in a if isinstance(z, np.ndarray)]): same(q, p, 'untouched after refusal')
    for f in (dsp.grid2D_c, dsp.degrid2D_c):
        no(f, b1, x, y, d); no(f, b2, x[:-1].copy(), y, d); no(f, b2, x, y[:-1].copy(), d); no(f, b2, x, y, d[:-1].copy())
        no(f, b2.astype(complex), x, y, d); no(f, b2, x.astype(float), y, d); no(f, b2, x, y.astype(float), d); no(f, b2, x, y, d.astype(complex)); no(f, b2, x, y, d.real.copy())
        no(f, b2, x[:, None].copy(), y, d); no(f, b2, np.repeat(x, 2)[::2], y, d); no(f, b2, x, y, np.repeat(d, 2)[::2]); no(f, np.zeros((n1, 2 * n2), np.complex64)[:, ::2], x, y, d); no(f, b2.T if n1 != n2 else b2.astype(complex), x, y, d)
        no(f, b2, x.astype('>f4'), y, d); no(f, b2, x, y); no(f, b2, x.tolist(), y, d)
    no(dsp.grid1D_c, b2, x, d); no(dsp.grid1D_c, b1, x[:-1].copy(), d); no(dsp.grid1D_c, b1.astype(complex), x, d); no(dsp.grid1D_c, b1, x.astype(float), d); no(dsp.grid1D_c, np.repeat(b1, 2)[::2], x, d)
    import sys
    refs = [sys.getrefcount(z) for z in (b2, x, y, d)]
    for _ in range(20): dsp.grid2D_c(b2, x, y, d); dsp.degrid2D_c(b2, x, y, d)
    is_([sys.getrefcount(z) for z in (b2, x, y, d)], refs, 'reference counts')
