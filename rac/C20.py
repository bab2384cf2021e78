"""Typed items and variables on the built code: written, closed, reopened and read back; bytes on disk."""
from lib import *
import struct
from aipy import miriad, _miriad
M = _miriad
def wr(vars=(), hdr={}, recs=None, mode='r'):
    fn = tempname('uv'); uv = miriad.UV(fn, status='new', corrmode=mode)
    for k, t in vars: uv.add_var(k, t)
    for k in hdr: uv[k] = hdr[k]
    for vs in recs or [{}]:
        for k in vs: uv[k] = vs[k]
        uv.write((np.array([1., 2, 3]), 2455000.5, (0, 1)), np.ma.array(np.arange(3) * (1 + 0j), mask=np.zeros(3)))
    del uv; return fn
def f32(x): return np.float32(x).item() if np.ndim(x) == 0 else np.asarray(x, np.float32)
def c64(x): return complex(np.complex64(x)) if np.ndim(x) == 0 else np.asarray(x, np.complex64).astype(complex)
INTS = {'i': (-2**31, 2**31 - 1), 'j': (-2**15, 2**15 - 1), 'l': (-2**63, 2**63 - 1)}
TXT = ['', 'x', 'hello', 'café', '日本 語', 'tab\tnl\n', 'nul\0in', '\u00e9', 'ÿþ', 'end\0', ' lead', 'é' * 40]
def val(r, t, n=None):
    """a random value of Miriad type t (n elements), biased to corner bit patterns"""
    if t == 'a': return TXT[r.randint(len(TXT))] if r.rand() < .6 else ''.join(chr(int(c)) for c in r.choice([9, 10, 32, 65, 97, 122, 126, 233, 0x3b1, 0x4e2d, 0x1f600], r.randint(0, 80)))
    def one():
        if t in INTS:
            lo, hi = INTS[t]; u = r.rand()
            return int(r.choice([0, 1, -1, 127, 128, -128, 255, 256, -256])) if u < .4 else [lo, hi, lo + 1, hi - 1][r.randint(4)] if u < .6 else (sum(int(r.randint(2)) << k for k in range(64)) % (hi - lo + 1)) + lo
        g = lambda: float(r.choice([0., -0., 1., -1., 1.5, np.inf, -np.inf, np.pi, 1e-30, -1e30, 3e38, 1e-45, 1e-310, 256.])) if r.rand() < .5 else float(r.randn() * 10. ** r.uniform(-30, 30))
        x = g() if t != 'c' else complex(g(), g())
        if t == 'r': x = f32(x)
        return x
    if n is None: return one()
    return np.array([one() for _ in range(n)], dict(i='i4', j='i4', r='f4', d='f8', c='c16', l='i8')[t])
def eq(a, b, t, what):
    """same type and same value bit for bit (at the Miriad type's precision)"""
    if t == 'a': return is_((type(a), a), (str, b), what)
    b = c64(b) if t == 'c' else f32(b) if t == 'r' else b
    if np.ndim(b) == 0:
        want = {'i': int, 'j': int, 'l': int, 'c': complex}.get(t, float)
        if type(a) is not want: fail('%s: type %r, expected %r' % (what, type(a), want))
    a_, b_ = np.asarray(a), np.asarray(b)
    if a_.shape != b_.shape: fail('%s: shape %r, expected %r' % (what, a_.shape, b_.shape))
    if a_.dtype.kind != b_.dtype.kind: fail('%s: dtype %r, expected %r' % (what, a_.dtype, b_.dtype))
    v = lambda x: (x.astype('c16') if t == 'c' else x.astype('f8') if t in 'rd' else x.astype('i8')).tobytes()
    if v(a_) != v(b_): fail('%s: got %r, expected %r' % (what, a, b))
ITEMS = {k: t for k, t in miriad.itemtable.items() if t in 'aidc' and k not in ('obstype', 'vartable')}   # those two are written by the library itself
@check(gen=seeds, n=150, corners=[dict(seed=k) for k in range(10)])
def items(seed):
    """header items of every documented type and any length"""
    r = rs(seed); ks = list(r.permutation(sorted(ITEMS))[:r.randint(1, 6)]); h = {}
    for k in ks:
        t = ITEMS[k]; n = None if t == 'a' or r.rand() < .4 else int(r.choice([1, 2, 3, 7, 8, 9, 40, 300])); v = val(r, t, n)
        h[k] = v if n is None or r.rand() < .5 else list(v.tolist()) if r.rand() < .5 else tuple(v.tolist())
    u = miriad.UV(wr(hdr=h))
    for k in ks:
        e = h[k]
        if ITEMS[k] != 'a' and np.ndim(e) == 1: e = np.array(e); e = e[0].item() if len(e) == 1 else e
        eq(u[k], e, ITEMS[k], 'item %s' % k)
    for k in set(ITEMS) - set(h): raises(IOError, lambda: u[k], 'missing item %s' % k)
    is_(set(u.items()) - {'obstype', 'vartable'}, set(ks), 'items()')
@check(gen=seeds, n=40)
def freqs(seed):
    r = rs(seed); v = [int(r.randint(0, 30))]
    for _ in range(r.randint(0, 12)): v += [val(r, 'i'), val(r, 'd'), val(r, 'd')]
    a = miriad.UV(wr(hdr=dict(freqs=v)))['freqs']; is_(len(a), len(v), 'length of freqs')
    for k, (x, y) in enumerate(zip(a, v)): eq(x, y, 'i' if k == 0 or k % 3 == 1 else 'd', 'freqs[%d]' % k)
@check(gen=seeds, n=150, corners=[dict(seed=k) for k in range(12)])
def variables(seed):
    """variables of every type, with values and lengths that change from record to record"""
    r = rs(seed); vs = [('v%d%s' % (k, t), t) for k, t in enumerate(r.choice(list('aijrdc'), r.randint(1, 5)))]; cur = {}; recs = []; want = []
    for k in range(r.randint(1, 14)):
        new = {}
        for nm, t in vs:
            if k and r.rand() < .4: continue
            n = None if t == 'a' or r.rand() < .4 else int(r.choice([1, 2, 3, 5, 9, 100])); new[nm] = val(r, t, n)
            if n is not None and t in 'ij' and r.rand() < .5: new[nm] = new[nm].astype('i8')
            if n is not None and r.rand() < .2: new[nm] = np.repeat(new[nm], 2)[::2]
        cur.update(new); recs.append(new); want.append(dict(cur))
    u = miriad.UV(wr(vs, recs=recs))
    for k, w in enumerate(want):
        u.read()
        for nm, t in vs:
            e = w[nm]; e = e[0].item() if np.ndim(e) == 1 and len(e) == 1 else e
            eq(u[nm], e, t, '%s at record %d' % (nm, k))
    is_({k: u.vartable[k] for k, _ in vs}, dict(vs), 'vartable')
@check(gen=seeds, n=150, corners=[dict(seed=k) for k in range(12)])
def low(seed):
    """items through hwrite/hread, and their bytes on disk"""
    r = rs(seed); t = list('ijlrdca')[r.randint(7)]; n = int(r.choice([1, 2, 3, 17, 30, 100, 5000 if t == 'd' else 60])); fn = tempname('uv'); uv = miriad.UV(fn, status='new'); h = uv.haccess('myitem', 'write')
    vals = [val(r, t) for _ in range(n)] if t != 'a' else [chr(int(c)) for c in r.choice([0, 1, 65, 122, 127], n)]; o = M.hwrite_init(h, t); sz = dict(a=1, i=4, j=2, l=8, r=4, d=8, c=8)[t]
    is_(o, max(4, sz), 'offset of the first element'); off = o
    for v in vals: k = M.hwrite(h, off, v, t); is_(k, sz, 'bytes written'); off += k
    M.hdaccess(h); uv.write((np.array([1., 2, 3]), 2455000.5, (0, 1)), np.ma.array(np.ones(3) * 1j, mask=np.zeros(3))); del uv
    body = b''.join(v.encode() if t == 'a' else struct.pack('>ff', np.float32(v.real), np.float32(v.imag)) if t == 'c' else struct.pack('>' + dict(i='i', j='h', l='q', r='f', d='d')[t], v) for v in vals)
    if os.path.exists(fn + '/myitem'): raw = open(fn + '/myitem', 'rb').read()
    else:
        H = open(fn + '/header', 'rb').read(); p = H.index(b'myitem'); raw = H[p + 16:p + 16 + o + len(body)]
    is_(raw[o:o + len(body)], body, 'bytes of the item on disk (big-endian)')
    u = miriad.UV(fn); h = u.haccess('myitem', 'read'); is_(M.hread_init(h), (t, o), 'type of the item'); off = o
    for k, v in enumerate(vals):
        x, b = M.hread(h, off, t); off += b; is_(b, sz, 'bytes read')
        if t == 'a': is_(x, v.encode(), 'element %d' % k)
        else: eq(x, v, t, 'element %d' % k)
    raises(IOError, lambda: M.hread(h, off, t), 'reading past the end'); M.hdaccess(h)
    j = int(r.randint(n)); h = u.haccess('myitem', 'read'); x, b = M.hread(h, o + j * sz, t); M.hdaccess(h)        # out of order
    eq(x.decode() if t == 'a' else x, vals[j], t, 'element %d read first' % j); raises(IOError, lambda: u.haccess('other', 'read'), 'missing item')
@check(gen=seeds, n=30)
def rewrite(seed):
    """two data sets open at the same time, items rewritten: the last value counts"""
    r = rs(seed); A, B = [tempname('uv') for _ in 'ab']; u = [miriad.UV(f, status='new') for f in (A, B)]; w = [{}, {}]
    for _ in range(12):
        k = int(r.randint(2)); nm = sorted(ITEMS)[r.randint(len(ITEMS))]; t = ITEMS[nm]; v = val(r, t); u[k][nm] = v; w[k][nm] = v
        if r.rand() < .3: eq(u[k][nm], v, t, 'item just written')
    for x in u: x.write((np.array([1., 2, 3]), 2455000.5, (0, 1)), np.ma.array(np.ones(3) * 1j, mask=np.zeros(3)))
    del x; u[:] = []
    for f, h in zip((A, B), w):
        x = miriad.UV(f)
        for nm in h: eq(x[nm], h[nm], ITEMS[nm], 'item %s' % nm)
@check(gen=seeds, n=6, corners=[dict(seed=k) for k in range(6)])
def many(seed):
    """as many variables as the stream can number (256 with the library's own): all read back, one more is refused"""
    r = rs(seed); n = [10, 126, 129, 200, 250, 251][seed % 6]; ts = r.choice(list('aijrd'), n); v = {'v%d%s' % (k, t): val(r, t) for k, t in enumerate(ts)}
    u = miriad.UV(wr([(k, k[-1]) for k in v], recs=[v])); (p, t, ij), d = u.read(); is_(t, 2455000.5, 'time'); is_(ij, (0, 1), 'baseline'); is_(len(set(u.vars()) & set(v)), n, 'number of variables')
    for k in v: eq(u[k], v[k], k[-1], k)
@check(gen=seeds, n=3)
def alike(seed):
    """variables whose names are of the same letters, begin alike or continue another are apart"""
    from itertools import permutations
    r = rs(seed); w = [x for x in ('vbcdefg', 'zvq', 'xk')]; names = set(w[0] + c for c in 'hijk') | {w[0][:k] for k in (3, 5, 7)} | {''.join(x) for x in permutations(w[1])} | {w[2] + c for c in 'abzAB'} | {w[0][1:], w[0][2:] + 'v'} | {w[0][:5] + x for x in ('12', '21', '345', '354', '543')}
    names = sorted(names); r.shuffle(names); ts = dict(zip(names, r.choice(list('ijrd'), len(names)))); recs = [{k: val(r, ts[k]) for k in names}, {k: val(r, ts[k]) for k in names[::2]}]
    u = miriad.UV(wr([(k, ts[k]) for k in names], recs=recs)); now = {}
    for q, v in enumerate(recs):
        u.read(); now.update(v); is_(sorted(set(u.vars()) & set(names)), sorted(names), 'names')
        for k in names: eq(u[k], now[k], ts[k], k)
@check(gen=seeds, n=1)
def full(seed):
    uv = miriad.UV(tempname('uv'), status='new')
    def fill():
        for k in range(300): uv.add_var('v%d' % k, 'd'); uv['v%d' % k] = float(k)
    raises(RuntimeError, fill, 'more than 256 variables')
@check(gen=seeds, n=12)
def places(seed):
    """elements written in any order, over and beyond the end of an item of several buffers, leave every other byte alone"""
    r = rs(seed); fn = tempname('uv'); uv = miriad.UV(fn, status='new'); uv.write((np.array([1., 2, 3]), 2455000.5, (0, 1)), np.ma.array(np.ones(3) * 1j, mask=np.zeros(3))); n0 = int(r.choice([65, 1000, 16384, 16385, 40001])); body = bytearray(r.randint(1, 100, n0).astype(np.uint8).tobytes())
    open(fn + '/big', 'wb').write(bytes(body)); h = uv.haccess('big', 'append'); e, f = dict(a=1, j=2, i=4), dict(a='b', j='>h', i='>i'); t = 'aji'[seed % 3]
    for k in range(40):
        o = int(r.randint(0, len(body) + 1)) if r.rand() < .8 else len(body); o -= o % e[t]; x = int(r.randint(1, 120)); M.hwrite(h, o, chr(x) if t == 'a' else x, t); body[o:o + e[t]] = struct.pack(f[t], x)
    M.hdaccess(h); is_(open(fn + '/big', 'rb').read() == bytes(body), True, 'bytes on disk'); del uv
@check(gen=seeds, n=2)
def large(seed):
    """an item beyond the range of 32-bit numbers (a sparse file) goes on where it ends"""
    import ctypes as ct
    L = ct.CDLL(M.__file__); L.hio_c.argtypes = [ct.c_int, ct.c_int, ct.c_int, ct.c_char_p, ct.c_longlong, ct.c_size_t, ct.POINTER(ct.c_int)]; tno, it, st = ct.c_int(), ct.c_int(), ct.c_int(); io = ct.byref(st)
    fn = tempname('uv'); n = [2**32 + 101, 2**31 + 1][seed % 2]; L.hopen_c(ct.byref(tno), fn.encode(), b'new', io); L.hclose_c(tno)
    with open(fn + '/big', 'wb') as f: f.write(b'A' * 200); f.truncate(n); f.seek(n - 3); f.write(b'xyz')
    L.hopen_c(ct.byref(tno), fn.encode(), b'old', io); L.haccess_c(tno, ct.byref(it), b'big', b'append', io); L.hio_c(it, 1, 1, b'BC', n, 2, io); r = st.value; L.hdaccess_c(it, io); L.hclose_c(tno)
    f = open(fn + '/big', 'rb'); f.seek(n - 3); b = f.read(); f.close(); os.truncate(fn + '/big', 0); is_((r, b), (0, b'xyzBC'), 'status and bytes at the end')
