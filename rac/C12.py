from lib import *
from aipy import utils
DT = [np.bool_, np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64, np.longlong, np.ulonglong, np.float32, np.float64, np.longdouble, np.complex64, np.complex128, np.clongdouble]
def values(r, shape, dt, big=False):
    dt = np.dtype(dt)
    if dt == bool: return r.randint(0, 2, shape).astype(bool)
    if dt.kind in 'iu':
        i = np.iinfo(dt); n = int(np.prod(shape)); return np.frombuffer(r.bytes(n * dt.itemsize), dt).reshape(shape).copy() if big else r.randint(0, 50, shape).astype(dt)
    if dt.kind == 'c': return (r.randint(-50, 50, shape) / 4. + 1j * r.randint(-50, 50, shape) / 8.).astype(dt)
    return (r.randint(-100, 100, shape) / 8.).astype(dt)
def layout(r, arr, how):
    """the same values in another memory layout, as a view of a larger array; -> (view, owner)"""
    if arr.ndim == 0: own = arr.copy(); return own, own
    if how == 0: own = arr.copy(); return own, own
    if how == 1: own = arr.copy(order='F'); return own, own
    sh = [2 * s + 3 for s in arr.shape]; own = values(r, sh, arr.dtype); sl = tuple(slice(1, 1 + 2 * s, 2) for s in arr.shape)
    if how == 3: sl = tuple(slice(2 * s, None if s == 0 else 2 * s - 2 * s, -2) if s else slice(0, 0) for s in arr.shape)
    v = own[sl]
    if how == 4 and arr.ndim > 1: own = values(r, sh[::-1], arr.dtype); v = own[tuple(s for s in sl[::-1])].T
    v[...] = arr; return v, own
def gen(rng, k): return dict(seed=rng.randrange(10**6), dt=k % 17, rank=[1, 2, 3, 0, 4, 6][(k // 17) % 6], lay=rng.randrange(5), L=[7, 0, 1, 40][k % 4], big=k % 2)
def expected(a, ind, d):
    ref = a.copy()
    with np.errstate(all='ignore'):
        for row, x in zip(ind.tolist(), d):
            ix = tuple(row)
            ref[ix] = (ref[ix] | x) if ref.dtype == bool else (np.array(ref[ix]).astype(ref.dtype) + np.array(x, ref.dtype)).astype(ref.dtype)
    return ref
@check(gen=gen, n=408, corners=[dict(seed=1)])
def add(seed, dt=12, rank=2, lay=0, L=7, big=0):
    r = rs(seed); dt = DT[dt]; sh = tuple(int(x) for x in r.randint(1, 5, rank)); a0 = np.array(values(r, sh, dt, big), dt); d0 = np.array(values(r, (L,), dt, big), dt)
    i0 = np.array([[r.randint(-s, s) for s in sh] for _ in range(L)], dtype=np.int_).reshape(L, rank)
    a, oa = layout(r, a0, lay); d, od = layout(r, d0, [0, 2, 3][r.randint(3)]); i, oi = layout(r, i0, r.randint(5))
    mark = np.zeros(oa.shape, bool); ref = expected(a0, i0, d0); keep = [oa.copy(), od.copy(), oi.copy()]
    is_(utils.add2array(a, i, d), None, 'result'); same(a, ref, 'sums'); same(od, keep[1], 'data'); same(oi, keep[2], 'indices')
    a[...] = a0; same(oa, keep[0], 'memory outside the array')
@check(gen=gen, n=204, corners=[dict(seed=1)])
def refused(seed, dt=12, rank=2, lay=0, L=7, big=0):
    if rank == 0 or L == 0: raise Skip()
    r = rs(seed); dt = DT[dt]; sh = tuple(int(x) for x in r.randint(1, 5, rank)); a0 = np.array(values(r, sh, dt), dt); d = np.array(values(r, (L,), dt), dt)
    good = np.array([[r.randint(-s, s) for s in sh] for _ in range(L)], dtype=np.int_).reshape(L, rank)
    for off in (lambda s: s, lambda s: -s - 1, lambda s: s + r.randint(1, 1000), lambda s: 2**31 + 1, lambda s: 2**32, lambda s: 2**32 + s - 1, lambda s: -2**32, lambda s: -2**32 - 1, lambda s: -2**63, lambda s: 2**63 - 1):
        a, oa = layout(r, a0, lay); bad = good.copy(); k, j = r.randint(L), r.randint(rank); bad[k, j] = off(sh[j]); keep = oa.copy()
        raises((ValueError, IndexError), lambda: utils.add2array(a, bad, d), 'index %d in dimension of %d' % (bad[k, j], sh[j]))
        a[...] = a0; same(oa, keep, 'memory outside the array')
    a = a0.copy(); other = DT[(DT.index(dt) + 5) % 17]
    bads = [(a, good, d.astype(other)), (a, good[:, :-1].copy(), d), (a, np.concatenate([good, good[:, :1]], 1), d), (a, good[:-1].copy(), d), (a, good, d[:-1].copy()), (a, good[:, 0].copy(), d), (a, good, d[:, None].copy()), (a, good.astype(np.int32), d), (a, good.astype(float), d),
            (a, good.tolist(), d), (a.tolist(), good, d), (a, good, d.tolist()), (a, good, None), (a, good), (a, good[:, :, None].copy(), d), (a.astype('O'), good, d.astype('O')), (a.astype('U8'), good, d.astype('U8')), (a.astype(np.float16) if dt != np.complex64 else a.astype('O'), good, d.astype(np.float16) if dt != np.complex64 else d.astype('O'))]
    import sys, warnings
    for b in bads:
        ref = [sys.getrefcount(x) for x in b]
        raises((ValueError, TypeError), lambda: utils.add2array(*b), 'mismatched arguments'); same(a, a0, 'array after refusal')
        is_([sys.getrefcount(x) for x in b], ref, 'reference counts after refusal')
