from lib import *
from aipy import coord

def rodr(ang, n):
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + np.sin(ang) * K + (1 - np.cos(ang)) * K.dot(K)
def spec_top(ha, dec):
    sH, cH, sd, cd = np.sin(ha), np.cos(ha), np.sin(dec), np.cos(dec)
    return np.array([[sH, cH, 0], [-sd * cH, sd * sH, cd], [cd * cH, -cd * sH, sd]])
def g_rot(rng, k):
    v = [rng.gauss(0, 1) for _ in range(3)]
    if k % 7 == 0: v = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, -1], [0, -1, 0], [-1, 0, 0]][(k // 7) % 6]
    r = math.sqrt(sum(x * x for x in v))
    ang = rng.uniform(-7, 7) if k % 3 else rng.choice([0, math.pi, -math.pi / 2, 1e-9, -1e-5, 2 * math.pi, 50.3, math.pi / 2, 3])
    return dict(ang=ang, n=[x / r for x in v])
@check(g_rot, 300)
def rot_one(ang, n):
    n0 = np.array(n, float)
    if abs(np.dot(n0, n0) - 1) > 1e-9: raise Skip
    n1 = n0.copy()
    m = coord.rot_m(ang, n1)
    same(n1, n0, 'axis argument changed')
    close(m, rodr(ang, n0), 1e-12, 'rot_m')
    close(m.dot(m.T), np.eye(3), 1e-12, 'orthogonality'); close(np.linalg.det(m), 1, 1e-12, 'det')
    close(m.dot(n0), n0, 1e-12, 'axis fixed')
    # integer axes and plain-array input
    if np.all(n0 == np.round(n0)): close(coord.rot_m(ang, n0.astype(int)), rodr(ang, n0), 1e-12, 'integer axis')
def g_many(rng, k): return dict(seed=rng.randrange(10**6), n=[1, 2, 3, 4, 5, 17][k % 6], av=bool(k % 3 != 1), xv=bool(k % 3 != 2))
@check(g_many, 60)
def rot_many(seed, n, av, xv):
    r = rs(seed)
    ang = r.uniform(-7, 7, n) if av else float(r.uniform(-7, 7))
    ax = r.normal(size=(n, 3)) if xv else r.normal(size=3)
    ax /= np.sqrt((ax**2).sum(-1, keepdims=True))
    m = coord.rot_m(ang, ax)
    if not av and not xv: return close(m, rodr(ang, ax), 1e-12)
    if m.shape != (n, 3, 3): fail('shape %r' % (m.shape,))
    for k in range(n):
        a, x = (ang[k] if av else ang), (ax[k] if xv else ax)
        close(m[k], rodr(a, x), 1e-12, 'rot_m[%d]' % k)
        close(m[k], coord.rot_m(a, x), 1e-12, 'one at a time')
@check(lambda rng, k: dict(ha=rng.uniform(-7, 7) if k % 3 else rng.choice([0, 1, -2, math.pi, -math.pi / 2, 2 * math.pi, 1e-7]), dec=rng.uniform(-1.57, 1.57) if k % 4 else rng.choice([0, math.pi / 2, -math.pi / 2, 1, 1e-8])), 300)
def eq2top_one(ha, dec):
    m = coord.eq2top_m(ha, dec)
    close(m, spec_top(ha, dec), 1e-12, 'eq2top_m')
    close(m.dot(m.T), np.eye(3), 1e-12); close(np.linalg.det(m), 1, 1e-12)
    close(coord.top2eq_m(ha, dec), spec_top(ha, dec).T, 1e-11, 'top2eq_m')
    close(coord.top2eq_m(ha, dec).dot(m), np.eye(3), 1e-11, 'inverse')
def g_m2(rng, k): return dict(seed=rng.randrange(10**6), n=[1, 2, 3, 5, 33][k % 5], hv=True, dv=True)
@check(g_m2, 40)
def eq2top_many(seed, n, hv, dv):
    r = rs(seed); ha, dec = r.uniform(-7, 7, n), r.uniform(-1.5, 1.5, n)
    if seed % 5 == 0: ha = ha.round().astype(int).astype(float)
    m = coord.eq2top_m(ha, dec)
    if m.shape != (n, 3, 3): fail('shape %r' % (m.shape,))
    for k in range(n): close(m[k], spec_top(ha[k], dec[k]), 1e-12, 'eq2top_m[%d]' % k)
@check(g_m2, 40)
def top2eq_many(seed, n, hv, dv):
    r = rs(seed); ha, dec = r.uniform(-7, 7, n), r.uniform(-1.5, 1.5, n)
    m = coord.top2eq_m(ha, dec)
    if m.shape != (n, 3, 3): fail('shape %r' % (m.shape,))
    for k in range(n): close(m[k], spec_top(ha[k], dec[k]).T, 1e-11, 'top2eq_m[%d]' % k)
    m1, m2 = coord.top2eq_m(ha, dec), coord.eq2top_m(ha, dec)
    for k in range(n): close(m1[k].dot(m2[k]), np.eye(3), 1e-11)
