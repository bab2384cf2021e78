"""Images and uv planes: gridding, reading back, Hermitian data, recentring and pixel coordinates. Planes of any size, any resolution, any number of data."""
import types
from vc.api import *
from vc import npsym, num
from . import stubs

def typed(x, dt, rank):
    """the argument checks of the compiled gridders"""
    if not isinstance(x, npsym.ndarray): raise TypeError('array expected')
    if x.ndim != rank: raise ValueError('rank')
    if (x.dtype.name if hasattr(x.dtype, 'name') else str(x.dtype)) != dt: raise ValueError('type %s is not %s' % (x.dtype, dt))
def kern(i1, i2, r, c, D1, D2): return func('gridk', [Num.of(x) for x in (i1, i2, r, c, D1, D2)], False, 0, 1)
def dsp(session):
    """grid2D_c adds to every cell the sum over the data of kernel weight times datum; degrid2D_c adds a function of the
    plane and the position to each element handed in (both decided by C13). Arguments are checked as the C code does."""
    m = types.ModuleType('_dsp_contract')
    def chk(buf, i1, i2, dat):
        typed(buf, 'complex64', 2); typed(i1, 'float32', 1); typed(i2, 'float32', 1); typed(dat, 'complex64', 1)
        for i in (i1, i2):
            if not npsym.dim_eq(i._shape[0], dat._shape[0]): raise ValueError('Dimensions of ind and dat do not match')
    def grid(buf, i1, i2, dat, footprint=6):
        chk(buf, i1, i2, dat)
        if footprint != 6: raise Unsupported('footprint')
        a, b, d, old = i1.copy_fn(), i2.copy_fn(), dat.copy_fn(), buf.copy_fn(); n = dat._shape[0]; D1, D2 = buf._shape
        def f(idx):
            r, c = idx
            s = npsym.sum_over(n, lambda k: SComplex.of(d((k,))) * kern(a((k,)), b((k,)), r, c, D1, D2), True); SUMS(buf, r, c).append((s, n, a, b, d))
            return SComplex.of(old(idx)) + s
        buf.cell.f = f; buf.cell.memo = {}; buf.cell.ver += 1
        E().grids = E().__dict__.get('grids', []) if E().__dict__.get('gpc') is E().pc else []; E().gpc = E().pc
        E().grids.append((buf, a, b, d, n, old))
    def SUMS(buf, r, c): return []
    def degrid(buf, i1, i2, dat, footprint=6):
        chk(buf, i1, i2, dat)
        if footprint != 6: raise Unsupported('footprint')
        a, b, old = i1.copy_fn(), i2.copy_fn(), dat.copy_fn(); t = 'plane%d_%d' % (id(buf.cell) % 100003, buf.cell.ver)
        dat.cell.f = lambda idx: SComplex.of(old(idx)) + SComplex(func(t + 're', [a(idx), b(idx)]), func(t + 'im', [a(idx), b(idx)])); dat.cell.memo = {}; dat.cell.ver += 1
    m.grid2D_c, m.degrid2D_c = grid, degrid
    def ga(n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('_dsp.' + n)
    m.__getattr__ = ga
    return m
def planeval(buf, a, b):
    t = 'plane%d_%d' % (id(buf.cell) % 100003, buf.cell.ver); return SComplex(func(t + 're', [a, b]), func(t + 'im', [a, b]))

def iff(a, b): return b_and(implies(a, b), implies(b, a))
def turn(r, c, N):
    """(r + c) mod N for 0 <= r < N"""
    x = r + c % N; return x if x < N else x - N
def wrap(k, N): return Num.of(k) if k <= N // 2 else Num.of(k) - N
def build(root, **kw):
    S = Suite(root, dict(stubs.ALL, _dsp=dsp), **kw)
    S.assumptions += ['floating-point arithmetic treated as real arithmetic (planes are single precision)', 'the size is a whole number of resolution cells for the plane size obligations marked so; otherwise it is rounded', 'the W-projecting subclass, FITS files and text wrapping are not covered']
    S.trusted += ['aipy._dsp gridders by their contracts (decided by C13)', 'numpy array contracts (vc/npsym.py)', 'numpy.fft.ifft2 named only: the image is checked to be the recentred real part of the transform of the plane']
    W = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k))
    def mk(s, mf=0):
        i = s.load('img'); N = size('N', 1); res = real('res', .1, 3); assume(res > 0)
        im = i.Img(N * res, res) if mf == 0 else i.Img(N * res, res, mf)
        prove('square plane', len(im.shape) == 2 and bool(Num.of(im.shape[0]) == N) and bool(Num.of(im.shape[1]) == N)); prove('weight planes', len(im.bm) == mf + 1)
        for nm, p in [('data', im.uv)] + [('weights', b) for b in im.bm]: shape_is(nm + ' plane', p, (N, N)); eq('empty ' + nm, p.at(index('q0', N), index('q1', N)), SComplex(0, 0)); prove('single precision', p.dtype.name == 'complex64')
        return i, im, N, res
    @S.fn('img.Img.size', ['img.Img.__init__'], W('sizes'))
    def _(s):
        i = s.load('img'); n = size('n', 1); res = real('res', .1, 3); assume(res > 0); e = real('e', -.4, .4); assume(e > Num.of(-.5)); assume(e < Num.of(.5))
        im = i.Img((n + e) * res, res); prove('nearest number of cells', bool(Num.of(im.shape[0]) == n) and bool(Num.of(im.shape[1]) == n)); eq('resolution', im.res, res)
    # ---- gridding
    for mf in (0, 1):
        for how in ('default', 'array', 'list'):
            if mf and how == 'array': continue
            @S.fn('img.Img.put.%d.%s' % (mf, how), ['img.Img.put', 'img.Img.get_indices'], W('put'))
            def _(s, mf=mf, how=how):
                i, im, N, res = mk(s, mf); n = size('n', 1); u, v, w = [array(x, (n,)) for x in 'uvw']; d = array('d', (n,), 'c'); wg = [array('wt%d' % k, (n,), 'f') for k in range(mf + 1)]
                planes = [im.uv] + list(im.bm); before = [array('plane%d' % k, (N, N), 'c') for k in range(mf + 2)]
                for p, q in zip(planes, before): p[...] = q
                ver = [x.cell.ver for x in [u, v, w, d] + wg]; pv = [p.cell.ver for p in planes]
                apply = bool(E().choose('apply')); kw = {} if apply and E().choose('by default') else dict(apply=apply)
                out = im.put((u, v, w), d, **kw) if how == 'default' else im.put((u, v, w), d, wg[0] if how == 'array' else list(wg), **kw)
                prove('inputs unchanged', ver == [x.cell.ver for x in [u, v, w, d] + wg]); prove('same planes', [im.uv] + list(im.bm) == planes if False else im.uv is planes[0] and all(a is b for a, b in zip(im.bm, planes[1:])))
                G = E().grids; prove('data and every weight once', len(G) == mf + 2)
                if apply: prove('nothing returned', out is None); target = planes
                else:
                    prove('stored planes untouched', pv == [p.cell.ver for p in planes]); prove('planes returned', len(out) == 2 and len(out[1]) == mf + 1); target = [out[0]] + list(out[1])
                k = index('k', n); r, c = index('r', N), index('c', N)
                for t, p in enumerate(target):
                    g = [x for x in G if x[0].cell is p.cell]; prove('plane %d gridded once' % t, len(g) == 1); _, a, b, dat, m, old = g[0]
                    prove('every datum', Num.of(m) == n); eq('row', a((k,)), -v.at(k) / res); eq('column', b((k,)), u.at(k) / res); shape_is('plane shape', p, (N, N))
                    want = SComplex.of(d.at(k)) if t == 0 else SComplex.of(wg[t - 1].at(k)) if how != 'default' else SComplex(1 if t == 1 else 0, 0)
                    eq('value %d' % t, SComplex.of(dat((k,))), want); eq('on top of', SComplex.of(old((r, c))), SComplex.of(before[t].at(r, c)) if apply else SComplex(0, 0))
    @S.fn('img.Img.put.refused', ['img.Img.put'], W('put'))
    def _(s):
        i, im, N, res = mk(s, 1); n = size('n', 1); u, v, w = [array(x, (n,)) for x in 'uvw']; d = array('d', (n,), 'c')
        prove('wrong number of weights', raises(AssertionError, lambda: im.put((u, v, w), d, [array('w0', (n,))])))
    @S.fn('img.Img.get', ['img.Img.get', 'img.Img.get_indices'], W('get'))
    def _(s):
        i, im, N, res = mk(s); n = size('n', 1); u, v, w = [array(x, (n,)) for x in 'uvw']; k = index('k', n); im.uv[...] = array('plane0', (N, N), 'c'); im.bm[0][...] = array('plane1', (N, N), 'c')
        uv, bm = im.uv, im.bm[0]; given = bool(E().choose('other planes'))
        if given:
            uv, bm = npsym.zeros((N, N), npsym.complex64), npsym.zeros((N, N), npsym.complex64)
        ver = [x.cell.ver for x in (im.uv, im.bm[0], u, v, w, uv, bm)]
        den = planeval(bm, -v.at(k) / res, u.at(k) / res); assume(den.re * den.re + den.im * den.im > 0)
        o = im.get((u, v, w), uv, bm) if given else im.get((u, v, w)); shape_is('one value per point', o, (n,)); prove('nothing changed', ver == [x.cell.ver for x in (im.uv, im.bm[0], u, v, w, uv, bm)])
        eq('data over weight at the coordinate', o.at(k) * den, planeval(uv, -v.at(k) / res, u.at(k) / res))
    for how in ('none', 'array', 'list'):
        @S.fn('img.Img.append_hermitian.' + how, ['img.Img.append_hermitian'], W('hermitian'))
        def _(s, how=how):
            mf = 1 if how == 'list' else 0; i, im, N, res = mk(s, mf); n = size('n', 1); C = [array(x, (n,)) for x in 'uvw']; d = array('d', (n,), 'c'); wg = [array('wt%d' % k, (n,)) for k in range(mf + 1)]; k = index('k', n)
            ver = [x.cell.ver for x in C + [d] + wg]
            out = im.append_hermitian(tuple(C), d) if how == 'none' else im.append_hermitian(tuple(C), d, wg[0] if how == 'array' else list(wg))
            prove('inputs unchanged', ver == [x.cell.ver for x in C + [d] + wg])
            prove('parts', len(out) == (2 if how == 'none' else 3)); c2, d2 = out[0], out[1]
            for q, x in enumerate(C): shape_is('points', c2[q], (2 * n,)); eq('point', c2[q].at(k), x.at(k)); eq('negated point', c2[q].at(n + k), -x.at(k))
            shape_is('data', d2, (2 * n,)); eq('datum', d2.at(k), d.at(k)); z = SComplex.of(d.at(k)); eq('conjugate', d2.at(n + k), SComplex(z.re, -z.im))
            if how != 'none':
                prove('weights for every plane', len(out[2]) == mf + 1)
                for q, x in enumerate(wg): shape_is('weights', out[2][q], (2 * n,)); eq('weight', out[2][q].at(k), x.at(k)); eq('same weight', out[2][q].at(n + k), x.at(k))
    # ---- recentring
    for masked in (False, True):
        @S.fn('img.recenter' + ('.masked' if masked else ''), ['img.recenter'], W('recenter'))
        def _(s, masked=masked):
            i = s.load('img'); A, B = size('A', 1), size('B', 1); a = array('a', (A, B)); c = (integer('c0'), integer('c1')); x = a
            if masked: mk_ = array('m', (A, B), 'b'); x = npsym.ma_array(a, mask=mk_)
            o = i.recenter(x, c); shape_is('shape', o, (A, B)); r, q = index('r', A), index('q', B); R, Q = turn(r, c[0], A), turn(q, c[1], B)
            eq('element', o.at(r, q), a.at(R, Q)); prove('input unchanged', a.cell.ver == 0)
            if masked: prove('masked array', npsym.ma.isMA(o)); prove('mask', iff(o.mask.at(r, q), mk_.at(R, Q)))
    @S.fn('img.Img.image', ['img.Img.image', 'img.Img.bm_image', 'img.Img._gen_img'], W('image'))
    def _(s):
        i, im, N, res = mk(s, 1); seen = []
        def ifft2(x):
            seen.append(x); t = 'ifft%d' % len(seen); return npsym.ndarray(x._shape, lambda idx: SComplex(func(t + 're', list(idx)), func(t + 'im', list(idx))), 'c')
        i.np = types.SimpleNamespace(**{k: getattr(s.L.npm, k) for k in dir(s.L.npm) if not k.startswith('__')}); i.np.fft = types.SimpleNamespace(ifft2=ifft2)
        c = (integer('c0'), integer('c1')); r, q = index('r', N), index('q', N); R, Q = turn(r, c[0], N), turn(q, c[1], N)
        def same(nm, o, t, plane): prove(nm + ' of its plane', seen[t] is plane); eq(nm, o.at(r, q), func('ifft%dre' % (t + 1), [R, Q])); prove(nm + ' real', o.dtype.name == 'float32'); shape_is(nm, o, (N, N))
        same('image', im.image(c), 0, im.uv); bs = im.bm_image(c); prove('one image for each weight plane', len(bs) == 2)
        same('beam 0', bs[0], 1, im.bm[0]); same('beam 1', bs[1], 2, im.bm[1]); same('beam term', im.bm_image(c, term=1), 3, im.bm[1])
        o = im.image(); eq('uncentred', o.at(r, q), func('ifft5re', [r, q]))
    # ---- coordinates of the pixels
    @S.fn('img.Img.get_uv', ['img.Img.get_uv', 'img.Img.get_indices'], W('coords'))
    def _(s):
        i, im, N, res = mk(s); u, v = im.get_uv(); r, c = index('r', N), index('c', N); shape_is('u', u, (N, N)); shape_is('v', v, (N, N)); U, V = u.at(r, c), v.at(r, c)
        # data at the coordinates of a pixel are placed at that pixel, up to whole turns of the plane
        a, b = im.get_indices(npsym.ndarray((1,), lambda _: U, 'f'), npsym.ndarray((1,), lambda _: V, 'f')); a, b = a.at(0), b.at(0)
        prove('row', b_or(a == r, a == r - N)); prove('column', b_or(b == c, b == c - N))
        prove('nearest turn', b_and(2 * a <= N, 2 * a >= -N, 2 * b <= N, 2 * b >= -N))
    def coords(s, im, N):
        l, m, mask = array('l', (N, N), 'f', -.5, .5), array('m', (N, N), 'f', -.5, .5), array('mask', (N, N), 'b')
        def get_LM(center=(0, 0)): return npsym.ma_array(l, mask=mask), npsym.ma_array(m, mask=mask)
        return l, m, mask, modular(im, 'get_LM', get_LM)
    @S.fn('img.Img.get_LM', ['img.Img.get_LM', 'img.Img.get_top', 'img.recenter'], W('coords'))
    def _(s):
        i, im, N, res = mk(s); dflt = bool(E().choose('centre by default')); c = (Num.of(0), Num.of(0)) if dflt else (integer('c0'), integer('c1')); r, q = index('r', N), index('q', N); R, Q = (turn(r, c[0], N), turn(q, c[1], N)) if not dflt else (r, q)
        L, M = im.get_LM() if dflt else im.get_LM(c); shape_is('L', L, (N, N)); shape_is('M', M, (N, N)); l, m = -wrap(Q, N) / (N * res), wrap(R, N) / (N * res)
        eq('l', L.at(r, q), l); eq('m', M.at(r, q), m); off = l * l + m * m >= 1
        prove('mask of l', iff(L.mask.at(r, q), off)); prove('mask of m', iff(M.mask.at(r, q), off))
    @S.fn('img.Img.get_top', ['img.Img.get_top'], W('coords'))
    def _(s):
        i, im, N, res = mk(s); l, m, mask, lm = coords(s, im, N); x, y, z = im.get_top((integer('c0'), integer('c1'))) if E().choose('centred') else im.get_top(); r, q = index('r', N), index('q', N); using(lm)
        eq('x', x.at(r, q), l.at(r, q)); eq('y', y.at(r, q), m.at(r, q)); prove('mask', b_and(*[iff(a.mask.at(r, q), mask.at(r, q)) for a in (x, y)]))
        lv, mv = l.at(r, q), m.at(r, q); assume(iff(mask.at(r, q), lv * lv + mv * mv >= 1))
        if mask.at(r, q): prove('masked', z.mask.at(r, q))
        else: prove('not masked', b_not(z.mask.at(r, q))); zz = z.at(r, q); prove('up', zz >= 0); eq('unit vector', lv * lv + mv * mv + zz * zz, 1)
    @S.fn('img.Img.get_eq', ['img.Img.get_eq'], W('coords'))
    def _(s):
        i, im, N, res = mk(s); x, y, z, mask = array('x', (N, N)), array('y', (N, N)), array('z', (N, N)), array('mask', (N, N), 'b'); A = lambda a: npsym.ma_array(a, mask=mask)
        def top(center=(0, 0)): calls.append(center); return A(x), A(y), A(z)
        calls = []; t = modular(im, 'get_top', top); ra, dec = real('ra', -3, 3), real('dec', -1.5, 1.5); c = (integer('c0'), integer('c1')); o = im.get_eq(ra, dec, c); using(t); prove('centre passed on', len(calls) == 1 and calls[0] is c); shape_is('three coordinates', o, (3, N, N)); r, q = index('r', N), index('q', N)
        for k in range(3): prove('mask %d' % k, iff(o.mask.at(k, r, q), mask.at(r, q)))
        assume(b_not(mask.at(r, q))); X, Y, Z = x.at(r, q), y.at(r, q), z.at(r, q); cr, sr = num.cossin(ra); cd, sd = num.cossin(dec)
        # east, north and up of the direction (ra, dec)
        eq('equatorial x', o.at(0, r, q), -sr * X - sd * cr * Y + cd * cr * Z); eq('equatorial y', o.at(1, r, q), cr * X - sd * sr * Y + cd * sr * Z); eq('equatorial z', o.at(2, r, q), cd * Y + sd * Z)
    def bad(s):
        i, im, N, res = mk(s); L, M = im.get_LM(); r, q = index('r', N), index('q', N); eq('east to the right', L.at(r, q), wrap(q, N) / (N * res))
    S.must_fail('east to the right', bad)
    return S
