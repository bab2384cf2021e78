"""random UV data sets and what is expected of them (shared by C22, C23, C26)"""
from lib import *
from aipy import miriad
VARS = {'nchan': 'i', 'pol': 'i', 'lst': 'd', 'ra': 'd', 'inttime': 'r', 'source': 'a', 'bandpol': 'j', 'gain': 'c', 'antpos': 'd', 'nspec': 'i', 'sdf': 'd', 'sfreq': 'd', 'nants': 'i', 'tab': 'r', 'codes': 'i', 'resp': 'c', 'nspect': 'j'}
def f32(x): return float(np.float32(x))
def value(r, k):
    t = VARS[k]
    if k == 'pol': return int(r.choice([-5, -6, -7, -8, 1, 2]))
    if k == 'source': return ''.join(chr(int(c)) for c in r.choice([65, 98, 48, 233, 32], r.randint(0, 12)))
    if k == 'antpos': return r.randn(int(r.choice([2, 3, 6])))
    if k == 'tab': return r.randn(int(r.choice([2, 5]))).astype('f4')
    if k == 'nspect': return r.randint(-2**15, 2**15, int(r.choice([2, 3, 4, 6])))
    if k == 'codes': return r.randint(-2**31, 2**31 - 1, int(r.choice([2, 3])))
    if k == 'resp': return (r.randn(2) + 1j * r.randn(2)).astype('c8').astype('c16')
    if t == 'i': return int(r.randint(-5, 3000))
    if t == 'j': return int(r.randint(-2**15, 2**15))
    if t == 'r': return f32(r.randn())
    if t == 'c': return complex(np.complex64(complex(r.randn(), r.randn())))
    return float(r.randn())
def near(r, t, x):
    """a value of type t that differs from x as little as the type allows, or in one byte"""
    if t in 'ij': b = 31 if t == 'i' else 15; return int(x) ^ (1 << int(r.choice([0, 3, 8, b - 1])))
    if t == 'r': return f32(np.nextafter(np.float32(x), np.float32(r.choice([-9, 9]))))
    if t == 'c': return complex(f32(x.real), near(r, 'r', x.imag)) if r.rand() < .5 else complex(near(r, 'r', x.real), f32(x.imag))
    return float(np.nextafter(x, r.choice([-9, 9])))
def vary(r, k, old):
    """old with one element changed a little"""
    t = VARS[k]
    if t == 'a': return old if not old else old[:-1] + chr(ord(old[-1]) ^ 1)
    if not np.ndim(old): return near(r, t, old)
    v = np.array(old); j = int(r.choice([0, len(v) - 1, r.randint(len(v))])); v[j] = near(r, t, v[j]); return v
PAIRS = [(0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0), (1, 2), (3, 1), (254, 254), (254, 255), (255, 3), (300, 400), (2000, 7), (5, 2046)]
def records(r, n=None, late=True, same_nchan=False, pairs=None, times=None, vars=None, fixed=()):
    """[(uvw, t, (i, j), data complex64, flags bool, {variables set before this record})]"""
    n = int(r.randint(1, 15)) if n is None else n; ks = list(r.permutation([k for k in VARS if k not in ('nchan', 'nants', 'sdf', 'sfreq', 'pol', 'lst', 'inttime')])[:r.randint(0, 6)]) + list(fixed) if vars is None else vars
    nch = int(r.choice([1, 2, 4, 5, 8, 31, 32, 64, 200])); t = float(r.choice([2455000., 2456123.5, 0., 1000., 3., 1003., 1234.25])); u0 = r.randn(3) * 10. ** r.randint(-2, 4); out = []; cur = {}
    if r.rand() < .2: u0[2] = t - 1000
    if r.rand() < .1: u0[0] = 1e25
    for k in range(n):
        if not same_nchan and r.rand() < .3: nch = int(r.choice([1, 2, 3, 4, 5, 30, 31, 33, 62, 100, 700]))
        if k and r.rand() < .6: t = t + float(r.choice([0., .001, 1., -2., 1e-9])) if times is None else t
        if times is not None: t = times[k]
        if k and r.rand() < .7: u0 = u0 + r.randn(3) * r.choice([0, 1, 1e-7])
        sc = 10. ** (r.uniform(-4, 4) if r.rand() < .7 else r.uniform(-30, 30)); d = (sc * (r.randn(nch) + 1j * r.randn(nch))).astype('c8')
        if r.rand() < .1: d[:] = 0
        v = {x: (vary(r, x, cur[x]) if x in cur and r.rand() < .4 else value(r, x)) for x in ks if (k == 0 and not (late and r.rand() < .15)) or (k and r.rand() < .35)}
        cur.update(v)
        ij = PAIRS[r.randint(len(PAIRS))] if pairs is None else pairs[r.randint(len(pairs))]
        f = [np.zeros(nch, bool), np.ones(nch, bool), r.rand(nch) < .5, np.arange(nch) % 3 == 0][r.randint(4)]; out.append((u0.copy(), t, (int(ij[0]), int(ij[1])), d, f, v))
    return ks, out
def write(r, ks, recs, mode='r', hdr={}):
    """write the records in one of the documented ways"""
    fn = tempname('uv'); uv = miriad.UV(fn, status='new', corrmode=mode)
    for k in ks: uv.add_var(k, VARS[k])
    for k in hdr: uv[k] = hdr[k]
    for u, t, ij, d, f, v in recs:
        for k in v: uv[k] = v[k]
        if len(d) > 1 and r.rand() < .2: d = d.repeat(2)[::2]
        x = r.rand(); junk = (d.astype('c16') if r.rand() < .3 else d)
        if x < .4: uv.write((u, t, ij), np.ma.array(junk, mask=f))
        elif x < .6: uv.write((u, t, ij), np.ma.array(junk, mask=~f), f.astype(int) if r.rand() < .5 else f)
        elif x < .8: uv.write((u, t, ij), junk, f.astype('i4') if r.rand() < .5 else f)
        elif not f.any() and r.rand() < .7: uv.write((u, t, ij), np.ma.array(junk))
        else: uv.raw_write((u, t, ij), np.ascontiguousarray(d, 'c8'), (~f).astype('i4'))
        if r.rand() < .05: uv.write((u, t, ij), None)
    del uv; return fn
def track(recs):
    """the variables in force at each record"""
    cur = {}; out = []
    for x in recs: cur = dict(cur, **x[5]); out.append(cur)
    return out
def eqv(a, b, what):
    if np.ndim(b) and len(b) == 1: b = b[0]
    if isinstance(b, str): return is_(a, b, what)
    same(np.asarray(a), np.asarray(b), what)
def step(d): return max(np.abs(d.real).max(), np.abs(d.imag).max()) / 32767.
def eqd(a, d, mode, what):
    if mode == 'r': return same(np.asarray(a), d, what)
    e = np.asarray(a) - d; tol = step(d) * (1 + 1e-2)       # 2**-23 of the value is .004 of a step
    if a.shape != d.shape or not (max(np.abs(e.real).max(), np.abs(e.imag).max()) <= tol): fail('%s: off by %r, one step is %r' % (what, e[np.argmax(np.abs(e))], step(d)))
def novalue(u, k):
    try: v = u[k]
    except (RuntimeError, KeyError): return
    fail('%s has the value %r before it was set' % (k, v))
def compare(u, got, x, cur, ks, mode, what, raw=False, first=True):
    uw, t, ij, d, f, _ = x
    if raw: (p, gd, gf) = got
    else: p, m = got; gd, gf = m.data, np.ma.getmaskarray(m)
    same(p[0], uw, what + ' uvw'); is_(float(p[1]), float(t), what + ' time'); is_(tuple(p[2]), tuple(ij), what + ' antennas')
    is_(gd.dtype, np.dtype('c8'), what + ' dtype'); eqd(gd, d, mode, what + ' data'); same(np.asarray(gf).astype(bool), f, what + ' flags')
    for k in ks:
        if k in cur: eqv(u[k], cur[k], '%s variable %s' % (what, k))
        elif first: novalue(u, k)
