from lib import *
import healpy
from aipy import map as amap, healpix
from aipy import coord
def gen(rng, k): return dict(seed=rng.randrange(10**6), ni=k % 3, mode=(k // 3) % 3)
class World:
    """a map and, per pixel, everything added to it"""
    def __init__(self, seed, ni, mode):
        r = self.r = rs(seed); self.nside = int(2**r.randint(0, 4)); self.sch = ['RING', 'NEST'][r.randint(2)]; self.ni = ni; self.mode = mode; self.N = 12 * self.nside**2
        kw = dict(nindices=ni) if ni or r.randint(2) else {}
        if r.randint(4) == 0: kw['dtype'] = np.float32
        self.tol = 1e-3 if 'dtype' in kw else 1e-8
        self.M = amap.Map(nside=self.nside, scheme=self.sch, **kw); self.w = np.zeros(self.N); self.s = np.zeros((1 + ni, self.N)); is_(len(self.M.ind), ni, 'index maps'); self.c = 0
    def key(self):
        r = self.r; n = int(r.randint(1, min(self.N, 40) + 1)); px = r.permutation(self.N)[:n]; nest = self.sch == 'NEST'
        if self.mode == 0: return px, px
        th, ph = healpy.pix2ang(self.nside, px, nest=nest)
        if self.mode == 1: return (th, ph), px
        return tuple(np.array(healpy.pix2vec(self.nside, px, nest=nest))), px
    def step(self):
        r = self.r; k, px = self.key(); w = r.uniform(0, 4, px.size) * (r.uniform(size=px.size) > .2) * (10. ** r.uniform(-14, 0, px.size) if r.rand() < .3 else 1); v = r.uniform(-5, 5, (1 + self.ni, px.size)); c = [x.copy() for x in (w, v)]
        op = r.randint(4)
        if op < 2:
            self.M.add(k, w, v[0], list(v[1:])) if self.ni or r.randint(2) else self.M.add(k, w, v[0]); self.w[px] += w; self.s[:, px] += w * v
        elif op == 2:
            self.M.put(k, w, v[0], list(v[1:])); self.w[px] = w; self.s[:, px] = w * v
        else:
            c0 = float(r.uniform(.1, 5)); self.M.reset_wgt(c0) if r.randint(2) else (self.M.reset_wgt(), c0 := 1.)[0]
            if op == 3: c0 = float(self.M.wgt.map.max()) if (self.w > 0).any() else c0
            g = self.w > 0; self.s[:, g] *= c0 / self.w[g]; self.w[g] = c0
        same(w, c[0], 'weights handed in'); same(v, c[1], 'values handed in')
    def expect(self): return np.where(self.w > 0, self.s / np.where(self.w > 0, self.w, 1), 0)
    def look(self, what):
        px = np.arange(self.N); q = self.M[px]; fl, ind = (q, []) if self.ni == 0 else q; want = self.expect(); is_(len(ind), self.ni, what + ': number of indices')
        for nm, x, y in zip(['flux'] + ['index'] * self.ni, [fl] + list(ind), want): close(x, y, self.tol, '%s: %s' % (what, nm), scale=10.)
        g = self.M.get(px); close(g[0], self.w, self.tol, what + ': weight', scale=20.); close(np.array([g[1]] + list(g[2])), self.s, self.tol, what + ': weighted', scale=100.)
        k, p = self.key(); q = self.M[k]; close(q if self.ni == 0 else q[0], want[0][p], self.tol, what + ': read at directions', scale=10.)
        is_((self.M.nside(), self.M.scheme()), (self.nside, self.sch), what + ': state')
@check(gen=gen, n=120, corners=[dict(seed=1, ni=1, mode=0)])
def history(seed, ni=1, mode=0):
    W = World(seed, ni, mode); W.look('empty')
    for k in range(6): W.step(); W.look('step %d' % k)
@check(gen=gen, n=60, corners=[dict(seed=1, ni=1)])
def reset(seed, ni=1, mode=0):
    W = World(seed, ni, mode)
    for k in range(3): W.step()
    a = W.expect(); g = W.w > 0
    for c in (None, 2, .5, 3.):
        W.M.reset_wgt() if c is None else W.M.reset_wgt(c); W.s[:, g] *= (c or 1) / W.w[g]; W.w[g] = c or 1; W.look('reset to %r' % c); close(W.expect(), a, 1e-9, 'averages kept')
    W.step(); W.look('step after')
@check(gen=gen, n=60, corners=[dict(seed=1, ni=1)])
def copy(seed, ni=1, mode=0):
    A = World(seed, ni, mode); A.step(); A.step(); B = amap.Map(nside=A.nside, scheme=['RING', 'NEST'][seed % 2], nindices=ni); B.from_map(A.M); v = np.array(healpy.pix2vec(A.nside, np.arange(A.N), nest=A.sch == 'NEST')); q = B[tuple(v)]
    for x, y in zip([q] if ni == 0 else [q[0]] + list(q[1]), A.expect()): close(x, y, A.tol, 'copy', scale=10.)
    A.look('source'); M = A.M; M.set_nindices(ni + 2); is_(len(M.ind), ni + 2, 'more'); A.ni += 2; A.s = np.concatenate([A.s, np.zeros((2, A.N))]); A.look('more indices'); A.step(); A.look('step after'); M.set_nindices(1); A.ni = 1; A.s = A.s[:2]; A.look('fewer indices')
    M.set_interpol(True); th, ph = [x[:5] for x in healpy.pix2ang(A.nside, np.arange(A.N), nest=A.sch == 'NEST')]; g = M.get((th, ph)); p, w = healpy.get_interp_weights(A.nside, th, ph, nest=A.sch == 'NEST'); close(g[0], (A.w[p] * w).sum(axis=0), A.tol, 'interpolated weight', scale=20.); M.set_interpol(False); A.look('interpolation off again')
@check(gen=lambda rng, k: dict(N=k + 1 if k < 70 else rng.randrange(1, 5000)), n=90, corners=[dict(seed=1, N=12)])
def sphere(N=12, seed=0):
    p = amap.pack_sphere(N); is_(p.shape, (3, N), 'shape'); close((p**2).sum(axis=0), np.ones(N), 1e-12, 'length'); close(p[2], (2 * np.arange(N) + 1. - N) / N, 1e-12, 'heights')
    L = np.pi * (3 - np.sqrt(5)) * np.arange(N); r = np.sqrt(1 - ((2 * np.arange(N) + 1. - N) / N)**2); close(p[0], r * np.cos(L), 1e-9, 'x'); close(p[1], r * np.sin(L), 1e-9, 'y')
@check(gen=lambda rng, k: dict(N=k + 1 if k < 130 else rng.randrange(1, 70000)), n=150, corners=[dict(seed=1, N=8)])
def bits(N=8, seed=0):
    nb = N.bit_length(); o = amap._bit_reverse_order(N); is_(sorted(int(x) for x in o), list(range(N)), 'every index once')
    ref = [int(format(i, '0%db' % nb)[::-1], 2) for i in range(2**nb)]; is_([int(x) for x in o], [x for x in ref if x < N], 'order'); is_([int(x) for x in amap._bit_reverse(np.arange(2**nb), nbits=nb)], ref, 'reversed bits')
@check(gen=lambda rng, k: dict(N=rng.randrange(0, 200), w=rng.choice([None, 1, 2, 3, 5, 8, 300]), lst=rng.randrange(2)), n=90, corners=[dict(seed=1, N=9)])
def shuffle(N=9, w=None, lst=0, seed=0):
    L = np.arange(N) * 3; L = L.tolist() if lst else L; amap._local_shuffle(L) if w is None else amap._local_shuffle(L, w); w = w or 2; x = [int(v) for v in L]; is_(sorted(x), [3 * i for i in range(N)], 'every element once')
    for k, v in enumerate(x): is_(v // 3 // w, k // w, 'chunk of element %d' % k)
@check(gen=lambda rng, k: dict(N=k + 1 if k < 70 else rng.randrange(1, 3000)), n=90, corners=[dict(seed=1, N=12)])
def facets(N=12, seed=0):
    p = amap.facet_centers(N, ncrd=3); s = amap.pack_sphere(N); is_(p.shape, (3, N), 'shape')
    order = np.rint((p[2] * N + N - 1) / 2).astype(int); is_(sorted(order.tolist()), list(range(N)), 'every point once'); close(p, s[:, order], 1e-12, 'points')
    q = amap.facet_centers(N); is_(q.shape, (2, N), 'shape'); v = np.array([np.cos(q[1]) * np.cos(q[0]), np.cos(q[1]) * np.sin(q[0]), np.sin(q[1])]); order = np.rint((v[2] * N + N - 1) / 2).astype(int); is_(sorted(order.tolist()), list(range(N)), 'every direction once'); close(v, s[:, order], 1e-6 if N > 2 else 1e-6, 'directions')
    raises(AssertionError, lambda: amap.facet_centers(N, ncrd=4), 'four coordinates')
