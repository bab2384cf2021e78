"""Flag masks through the C routines of the built extension (ctypes) and through UV data sets: any offsets, lengths and histories."""
from lib import *
import ctypes as ct
from aipy import miriad, _miriad
L = ct.CDLL(_miriad.__file__); I64 = ct.c_longlong; PI = ct.POINTER(ct.c_int)
L.mkopen_c.restype = ct.c_void_p; L.mkopen_c.argtypes = [ct.c_int, ct.c_char_p, ct.c_char_p]
L.mkread_c.argtypes = L.mkwrite_c.argtypes = [ct.c_void_p, ct.c_int, PI, I64, ct.c_int, ct.c_int]; L.mkread_c.restype = ct.c_int; L.mkwrite_c.restype = None
L.mkflush_c.argtypes = L.mkclose_c.argtypes = [ct.c_void_p]; L.hopen_c.argtypes = [PI, ct.c_char_p, ct.c_char_p, PI]; L.hclose_c.argtypes = [ct.c_int]
def arr(a): a = np.ascontiguousarray(a, np.int32); return a, a.ctypes.data_as(PI)
class Mask:
    def __init__(self): self.path = tempname('mk'); self.h = None; self.open('new')
    def open(self, st):
        t, io = ct.c_int(), ct.c_int(); L.hopen_c(t, self.path.encode(), st.encode(), io); is_(io.value, 0, 'hopen status'); self.t = t.value
        self.h = L.mkopen_c(self.t, b'flags', st.encode())
        if not self.h: fail('mkopen %s failed' % st)
    def close(self): L.mkclose_c(self.h); L.hclose_c(self.t)
    def write(self, off, fl):
        a, p = arr(fl if len(fl) else [0]); L.mkwrite_c(self.h, 1, p, off, len(fl), len(fl))
    def write_runs(self, off, fl):
        r = runs(fl); a, p = arr(r + [0]); L.mkwrite_c(self.h, 2, p, off, len(fl), len(r))
    def read(self, off, n):
        a, p = arr(np.full(n + 8, 7)); is_(L.mkread_c(self.h, 1, p, off, n, n), n, 'number of flags read'); same(a[n:], np.full(8, 7), 'memory after the flags'); return a[:n]
    def read_runs(self, off, n): a, p = arr(np.full(n + 8, -7)); k = L.mkread_c(self.h, 2, p, off, n, n + 4); return a[:k].tolist()
def runs(fl):
    """[first, last, first, last...] (from 1) of the runs of true flags"""
    o = []; prev = 0
    for k, f in enumerate(list(fl) + [0]):
        f = bool(f)
        if f and not prev: o.append(k + 1)
        if prev and not f: o.append(k)
        prev = f
    return o
def pat(r, n):
    k = r.randint(6)
    if k == 0: return np.zeros(n, int)
    if k == 1: return np.ones(n, int)
    if k == 2: return r.randint(0, 2, n)
    if k == 3: return (np.arange(n) // max(1, int(r.randint(1, 70)))) % 2
    if k == 4: return (r.rand(n) < .03).astype(int)
    return (r.rand(n) < .97).astype(int)
def disk(m, cur):
    """one bit per flag, 31 to a big-endian word, the first in the least significant bit, after one word of header"""
    d = open(m.path + '/flags', 'rb').read() if os.path.exists(m.path + '/flags') else None
    if d is None: return
    w = np.frombuffer(d[:len(d) // 4 * 4], '>u4')[1:]; k = np.arange(len(cur))
    if len(w) * 31 < len(cur): fail('file holds %d words for %d flags' % (len(w), len(cur)))
    same((w[k // 31] >> (k % 31)) & 1, cur, 'flag bits on disk')
@check(gen=seeds, n=250, corners=[dict(seed=k) for k in range(20)], slow=.5)
def history(seed):
    """random writes (flags and runs), reads, flushes and reopens: every read returns what was last written"""
    r = rs(seed); m = Mask(); cur = np.zeros(0, int); big = r.rand() < .4; MX = 12000 if big else 400; fresh = True
    def size(): return int(r.choice([1, 2, 30, 31, 32, 61, 62, 63, 93])) if r.rand() < .5 else int(r.randint(1, [130, 9000][int(big and r.rand() < .4)]))
    for _ in range(r.randint(3, 25)):
        u = r.rand()
        if u < .45 or not len(cur):
            n = size(); off = len(cur) if r.rand() < .5 else int(r.randint(0, len(cur) + 1)); n = min(n, MX - off)
            if n <= 0: continue
            f = pat(r, n); vals = f * int(r.choice([1, 1, -1, 1]))
            if r.rand() < .6: m.write(off, vals)
            else: m.write_runs(off, f)
            if off + n > len(cur): cur = np.concatenate([cur, np.zeros(off + n - len(cur), int)])
            cur[off:off + n] = f
        elif u < .85:
            off = int(r.randint(0, len(cur))); n = min(size(), len(cur) - off)
            if r.rand() < .6: same(m.read(off, n) != 0, cur[off:off + n] != 0, 'flags read')
            else: is_(m.read_runs(off, n), runs(cur[off:off + n]), 'runs read')
        elif u < .92: pass
        elif len(cur): m.close(); disk(m, cur); m.open('old')
    if len(cur): same(m.read(0, len(cur)) != 0, cur != 0, 'all flags'); is_(m.read_runs(0, len(cur)), runs(cur), 'all runs')
    m.close()
    if len(cur): disk(m, cur)
@check(gen=seeds, n=30)
def splits(seed):
    """one long pattern, written in pieces and read in others"""
    r = rs(seed); N = int(r.choice([31, 124, 3968, 3969, 4000, 8000])); f = pat(r, N); m = Mask(); o = 0
    while o < N: k = min(N - o, int(r.choice([1, 7, 31, 62, 1000, 5000]))); m.write(o, f[o:o + k]); o += k
    if r.rand() < .5: m.close(); disk(m, f); m.open('old')
    o = 0; g = []
    while o < N: k = min(N - o, int(r.choice([3, 31, 100, 3968]))); g.append(m.read(o, k)); o += k
    same(np.concatenate(g) != 0, f != 0, 'flags'); same(m.read(N - 1, 1) != 0, f[-1:] != 0, 'last flag'); m.close()
@check(gen=seeds, n=40)
def records(seed):
    """flags of UV records of any numbers of channels"""
    r = rs(seed); fn = tempname('uv'); uv = miriad.UV(fn, status='new'); fl = [pat(r, int(r.choice([1, 4, 30, 31, 32, 61, 64, 500]))) for _ in range(r.randint(1, 12))]
    for k, f in enumerate(fl): uv.write((np.array([1., 2, 3]), 2455000. + k, (0, 1)), np.ma.array(np.ones(len(f)) * 1j, mask=f))
    del uv; u = miriad.UV(fn)
    for _ in range(2):
        for k, f in enumerate(fl): p, d = u.read(); same(np.ma.getmaskarray(d).astype(int), f, 'mask of record %d' % k)
        u.rewind()
