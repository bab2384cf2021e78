from lib import *
from aipy import coord
TP = 2 * np.pi

def m_thphi(t, p): return np.array([np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)])
def m_radec(a, d): return np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)])
def m_azalt(a, e): return np.array([np.cos(e) * np.sin(a), np.cos(e) * np.cos(a), np.sin(e)])
FW = dict(xyz2thphi=(m_thphi, (0, np.pi), (-np.pi, np.pi), 'thphi2xyz'), eq2radec=(m_radec, (0, TP), (-np.pi / 2, np.pi / 2), 'radec2eq'),
          top2azalt=(m_azalt, (0, TP), (-np.pi / 2, np.pi / 2), 'azalt2top'))
BK = dict(thphi2xyz=m_thphi, radec2eq=m_radec, azalt2top=m_azalt, latlong2xyz=lambda la, lo: m_radec(lo, la))
def chk_dir(fn, v):
    v0 = np.array(v, float); vin = v0.copy()
    model, r0, r1, inv = FW[fn]
    a = getattr(coord, fn)(vin)
    same(vin, v0, fn + ' changed its argument')
    if np.shape(a) != v0.shape[:0] + (2,) + v0.shape[1:]: fail('%s: shape %r for input %r' % (fn, np.shape(a), v0.shape))
    for x, (lo, hi), nm in ((a[0], r0, 'first'), (a[1], r1, 'second')):
        if np.any(x < lo - 1e-12) or np.any(x > hi + 1e-12): fail('%s: %s angle %r out of [%r, %r]' % (fn, nm, x, lo, hi))
    close(model(a[0], a[1]), v0, 1e-9, fn + ' meaning')
    close(getattr(coord, inv)(a), v0, 1e-9, inv + '(' + fn + ')')
    # the tuple of components is as good as the array
    close(getattr(coord, fn)((v0[0], v0[1], v0[2])), a, 1e-15, fn + ' of a tuple')
SPECIAL = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1], [.6, .8, 0], [-.6, -.8, 0], [.6, -.8, 0], [0, .6, .8], [0, -.6, -.8], [-.6, 0, .8],
           [.6, -1e-9, .8], [-.6, -1e-9, .8], [-.6, 1e-12, -.8], [1e-8, 0, 1], [1e-8, -1e-8, -1]]
@check(lambda rng, k: dict(v=(lambda v: [x / math.sqrt(sum(y * y for y in v)) for x in v])([rng.gauss(0, 1) for _ in range(3)])), 300, corners=[dict(v=v) for v in SPECIAL])
def dirs(v):
    n = math.sqrt(sum(x * x for x in v))
    if abs(n - 1) > 1e-6: raise Skip
    for fn in FW: chk_dir(fn, v)
def chk_ang(inv, fn, a, b, period_first):
    v = getattr(coord, inv)((a, b))
    close(v, BK[inv](a, b), 1e-12, inv)
    close(getattr(coord, inv)(np.array([a, b])), BK[inv](a, b), 1e-12, inv + ' of an array')
    r = getattr(coord, fn)(v)
    for q, x, y in ((0, r[0], a), (1, r[1], b)):
        d = abs(x - y); d = min(d, abs(d - TP))
        if d > 1e-6: fail('%s(%s(%r, %r)) = %r' % (fn, inv, a, b, r))
@check(lambda rng, k: dict(a=rng.uniform(0, TP), b=rng.uniform(-1.57, 1.57)), 200, corners=[dict(a=a, b=b) for a in (0, 1, np.pi / 2, np.pi, 4, 1.5 * np.pi, 6.28) for b in (0, .5, -.5, 1.5, -1.5)])
def angles_radec(a, b):
    if not (0 <= a < TP and abs(b) < np.pi / 2): raise Skip
    chk_ang('radec2eq', 'eq2radec', a, b, True)
@check(lambda rng, k: dict(a=rng.uniform(0, TP), b=rng.uniform(-1.57, 1.57)), 200, corners=[dict(a=a, b=b) for a in (0, 1, np.pi / 2, np.pi, 4, 1.5 * np.pi, 6.28) for b in (0, .5, -.5, 1.5, -1.5)])
def angles_azalt(a, b):
    if not (0 <= a < TP and abs(b) < np.pi / 2): raise Skip
    chk_ang('azalt2top', 'top2azalt', a, b, True)
@check(lambda rng, k: dict(a=rng.uniform(0, np.pi), b=rng.uniform(-np.pi, np.pi)), 200, corners=[dict(a=a, b=b) for a in (1e-3, 1, np.pi / 2, 3) for b in (0, 1, -1, 3, -3, np.pi, -np.pi / 2)])
def angles_thphi(a, b):
    if not (0 < a < np.pi and -np.pi < b <= np.pi): raise Skip
    chk_ang('thphi2xyz', 'xyz2thphi', a, b, False)
@check(lambda rng, k: dict(a=rng.uniform(-1.57, 1.57), b=rng.uniform(-7, 7)), 100)
def latlong(a, b):
    close(coord.latlong2xyz((a, b)), m_radec(b, a), 1e-12, 'latlong2xyz'); close(coord.latlong2xyz(np.array([a, b])), m_radec(b, a), 1e-12)
def g_arr(rng, k): return dict(fn=sorted(list(FW) + list(BK))[k % 7], seed=rng.randrange(10**6), shape=[[1], [2], [3], [5], [2, 3], [3, 3], [1, 4], [40]][(k // 7) % 8])
@check(g_arr, 120)
def arrays(fn, seed, shape):
    r = rs(seed)
    if fn in FW:
        v = r.normal(size=[3] + shape); v /= np.sqrt((v**2).sum(0)); 
        if seed % 3 == 0: v[:, ...] = np.where(r.rand(*shape) < .3, np.array([1., 0, 0]).reshape([3] + [1] * len(shape)), v)
        chk_dir(fn, v)
    else: v = r.uniform(-1.5, 1.5, size=[2] + shape)
    out = getattr(coord, fn)(v.copy())
    for idx in np.ndindex(*shape):
        close(out[(slice(None),) + idx], getattr(coord, fn)(v[(slice(None),) + idx].copy()), 1e-12, '%s at %r' % (fn, idx))
def g_ma(rng, k): return dict(fn=sorted(FW)[k % 3], seed=rng.randrange(10**6), n=[1, 4, 9][k % 3])
@check(g_ma, 18)
def masked(fn, seed, n):
    r = rs(seed); v = r.normal(size=(3, n)); v /= np.sqrt((v**2).sum(0)); m = r.rand(n) < .4
    if seed % 3 == 0: m[:] = False
    mv = np.ma.array(v) if seed % 3 == 0 else np.ma.array(v, mask=[m, m, m])
    out = getattr(coord, fn)(mv); ref = getattr(coord, fn)(v)
    same(np.ma.getmaskarray(out), np.array([m, m]), fn + ' mask')
    close(np.ma.filled(out, 0)[:, ~m], np.asarray(ref)[:, ~m], 1e-12, fn + ' unmasked values')
    inv = FW[fn][3]
    b = getattr(coord, inv)(out)
    if seed % 3 == 0: b = getattr(coord, inv)(np.ma.array(np.asarray(out)))
    same(np.ma.getmaskarray(b), np.array([m, m, m]), inv + ' mask')
    close(np.ma.filled(b, 0)[:, ~m], v[:, ~m], 1e-9, inv + ' unmasked values')
