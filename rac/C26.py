"""init_from_uv and pipe: the clone against the original (built code, scratch files)."""
from uvs import *
ITEMS = {'history': 'a', 'ngains': 'i', 'nfeeds': 'i', 'interval': 'd', 'leakage': 'c', 'freq0': 'd', 'bandpass': 'c', 'stopt': 'd', 'freqs': '?'}
def item(r, k):
    t = ITEMS[k]; n = int(r.choice([1, 2, 5])); one = {'i': lambda: int(r.randint(-9, 99)), 'd': lambda: float(r.randn()), 'c': lambda: complex(np.complex64(complex(r.randn(), r.randn())))}
    if t == 'a': return ['h', 'log: made\n', 'é\n', ''][r.randint(4)]
    if t == '?': return [2, 256, .1, .2, 128, .3, float(r.randn())]
    return one[t]() if n == 1 else [one[t]() for _ in range(n)]
def eqi(a, b, what):
    if isinstance(b, str): return is_(a, b, what)
    same(np.asarray(a), np.asarray(b), what)
@check(gen=seeds, n=220, corners=[dict(seed=k) for k in range(20)])
def clone(seed):
    r = rs(seed); h = {k: item(r, k) for k in ITEMS if r.rand() < .5}; ks, recs = records(r); mode = 'rrj'[r.randint(3)]; src = write(r, ks, recs, mode, h)
    ov, ex = {}, []
    for k in list(h):
        if r.rand() < .2: ov[k] = item(r, k)
        if r.rand() < .12: ex.append(k)
    for k in ks:
        if r.rand() < .15: ov[k] = value(r, k)
        if r.rand() < .12: ex.append(k)
    app = ['', 'cloned\n', 'café\n'][r.randint(3)]; u = miriad.UV(src); orig = []
    for x in u.all(): orig.append((x, dict(recs[len(orig)][5])))
    u = miriad.UV(src); sel = None
    if r.rand() < .25: sel = sorted({recs[int(k)][2] for k in r.randint(0, len(recs), 2)}); [(u.select('or', 0, 0), u.select('antennae', *p)) for p in sel]
    dst = tempname('uv'); w = miriad.UV(dst, status='new', corrmode='r'); w.init_from_uv(u, **({} if not ov and not ex and r.rand() < .5 else dict(override=ov, exclude=ex))); raw = bool(r.rand() < .4); kind = r.randint(4); seen = []
    def change(n, p, d, f):
        """(uvw, t, ij), data, flags of the clone; None when dropped"""
        x = rs([seed, n][1] * 7919 + seed % 1000)
        if kind == 0: return p, d, f
        if kind == 1: return (p, d, f) if x.rand() < .5 else None
        if kind == 2: q = x.rand(); return (p[0] * (0 if q < .3 else 1), 2455000. if q < .6 else p[1], (0, 1) if .4 < q < .8 else p[2]), (d * 2).astype('c8'), ~f if q < .5 else f
        return p, d[:max(1, len(d) // 2)], f[:max(1, len(d) // 2)]
    def mf(uv, p, d, f=None):
        n = len(seen); msk = np.ma.getmaskarray(d) if f is None else f; seen.append((p, d)); is_(uv is u, True, 'the data set given to the function'); c = change(n, p, np.asarray(getattr(d, 'data', d)), np.asarray(msk).astype(bool))
        if c is None: return (p, None) if f is None else (p, None, None)
        return (c[0], np.ma.array(c[1], mask=c[2])) if f is None else c
    w.pipe(u, **dict({} if kind == 0 and r.rand() < .5 else dict(mfunc=mf), append2hist=app, raw=raw)) if app or raw or r.rand() < .5 else w.pipe(u, mfunc=mf)
    del w; keep = [k for k, x in enumerate(recs) if sel is None or any(sorted(x[2]) == sorted(p) for p in sel)]; cur = track(recs)
    out = []
    for n, k in enumerate(keep):
        (p, d), _ = orig[k]; c = change(n, p, d.data, np.ma.getmaskarray(d))
        if c is not None: out.append((c, k))
    if not out: raise Skip()                                          # a data set without records cannot be opened
    v = miriad.UV(dst)
    exp = {k: (ov.get(k, h[k])) for k in h if k not in ex}; hist = exp.get('history', '') + app if 'history' in exp or app else None
    if hist is not None: exp['history'] = hist
    for k in ITEMS:
        if k in exp: eqi(v[k], exp[k], 'item %s' % k)
        else: raises((IOError, KeyError), lambda: v[k], 'item %s, which should be absent' % k)
    for n, (c, k) in enumerate(out):
        p, d = v.read(); (q, e, f) = c; same(p[0], q[0], 'record %d uvw' % n); is_(float(p[1]), float(q[1]), 'record %d time' % n); is_(tuple(p[2]), tuple(q[2]), 'record %d antennas' % n)
        same(d.data, e, 'record %d data' % n); same(np.ma.getmaskarray(d), f, 'record %d flags' % n)
        for x in ks:
            if x in ex: continue
            if x in ov: eqv(v[x], ov[x], 'overridden %s at record %d' % (x, n)) if any(x in z[5] for z in recs) else None
            elif x in cur[k]: eqv(v[x], cur[k][x], 'variable %s at record %d' % (x, n))
    raises(IOError, lambda: v.read(), 'reading past the last record')
    for x in ks:
        if x in ex: raises((KeyError, RuntimeError), lambda: v[x], 'variable %s, which should be absent' % x)
@check(gen=seeds, n=25)
def chain(seed):
    """a clone of a clone of a clone is still the original"""
    r = rs(seed); h = dict(history='a\n'); ks, recs = records(r, late=False); f = write(r, ks, recs, 'r', h); cur = track(recs)
    for _ in range(3): g = tempname('uv'); w = miriad.UV(g, status='new'); u = miriad.UV(f); w.init_from_uv(u); w.pipe(u, append2hist='b\n'); del w, u; f = g
    v = miriad.UV(f); is_(v['history'], 'a\n' + 3 * 'b\n', 'history')
    for k, x in enumerate(recs): compare(v, v.read(), x, cur[k], ks, 'r', 'record %d' % k)
    raises(IOError, lambda: v.read(), 'reading past the last record')
