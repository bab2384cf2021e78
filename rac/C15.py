"""CLEAN on the built code: an independent replay with direct circular convolution."""
from lib import *
import warnings
from aipy import deconv
from aipy import _deconv
warnings.simplefilter('ignore'); np.seterr(all='ignore')
TY = ['f4', 'f8', 'g', 'c8', 'c16', 'G']
def roll(k, a): return np.roll(k, a, axis=tuple(range(k.ndim)))
def conv(x, k):
    r = np.zeros(x.shape, np.promote_types(x.dtype, 'g'))
    for a in np.ndindex(*x.shape):
        if x[a] != 0: r += x[a] * roll(k, a)
    return r
def replay(res, ker, mdl, area, gain, maxiter, tol, stop, pos):
    """the documented loop -> (rv, res, mdl, sound): sound is False when a decision was too close to call"""
    W = 'G' if res.dtype.kind == 'c' else 'g'; e = 1e-4 if res.dtype in (np.dtype('f4'), np.dtype('c8')) else 1e-9
    res, ker, mdl = [x.astype(W) for x in (res, ker, mdl)]; sound = True; p = np.abs(ker)**2; q = 1 / ker.flat[np.argmax(p)]; s = np.sort(p.flat)
    if len(s) > 1 and s[-1] > 0 and s[-1] - s[-2] <= e * s[-1] and abs(ker.flat[np.argmax(p)] - ker.flat[p.size - 1 - np.argmax(p.flat[::-1])]) > 0: sound = False
    at, mx, score, first, best = (0,) * res.ndim, 0, -1, 0, -1; i = total = 0
    while i < maxiter:
        total += 1
        if total > 3000: return None, res, mdl, False
        step = gain * mx * q; mdl[at] += step; res = res - step * roll(ker, at)
        ns = np.sqrt((np.abs(res)**2).mean()); ok = (area != 0) & ((res > 0) if pos else True); m2 = np.where(ok, np.abs(res)**2, -1)
        nat = np.unravel_index(np.argmax(m2), m2.shape) if ok.any() else at; mx_ = res[nat] if ok.any() else 0; ss = np.sort(m2.flat)
        if len(ss) > 1 and ss[-1] >= 0 and ss[-1] - ss[-2] <= e * (1 + ss[-1]): sound = False
        if pos and (np.abs(res)[area != 0] < e).any(): sound = False
        if first == 0 and score < 0: first = ns
        if score > 0:
            if abs(ns - score) < e * (score + ns): sound = False
            if abs((score - ns) - tol * first) < e * first: sound = False
        if score > 0 and ns > score:
            if stop: mdl[at] -= step; res = res + step * roll(ker, at); return -i, res, mdl, sound
            if best < 0 or score < best: best = score; i = 0       # without stop_if_div the count starts again
        elif score > 0 and (score - ns) / first < tol: return i, res, mdl, sound
        elif not stop and (best < 0 or ns < best): i = 0
        score, at, mx = ns, nat, mx_; i += 1
    return maxiter, res, mdl, sound and best < 0
def world(seed, sz=7):
    r = rs(seed); D = int(r.randint(1, 3)); shp = tuple(int(x) for x in r.randint(1, sz, D)); t = TY[r.randint(6)] if r.rand() < .6 else ['f8', 'c16'][r.randint(2)]; cx = np.dtype(t).kind == 'c'
    def rnd(s=1.): x = s * r.randn(*shp); return (x + 1j * s * r.randn(*shp) if cx else x).astype(t)
    ker = (rnd(.15) * r.choice([0, 1], shp)).astype(t); pk = (0,) * D if r.rand() < .6 else tuple(int(r.randint(n)) for n in shp); ker[pk] = float(r.choice([1, 1, -2, .5])); mdl0 = np.zeros(shp, t)
    for _ in range(3): mdl0[tuple(int(r.randint(n)) for n in shp)] += r.uniform(.5, 4) * (np.exp(1j * r.uniform(0, 6)) if cx else r.choice([1, 1, -1]))
    im = (conv(mdl0, ker) + r.choice([0, .05]) * rnd()).astype(t); mdl = None if r.rand() < .5 else rnd(); u = r.rand()
    area = None if u < .35 else r.randint(0, 2, shp) if u < .8 else np.zeros(shp, int) if u < .85 else r.randint(0, 2, shp) * r.choice([2**32, 1, -1], shp) if u < .95 else r.randint(0, 2, shp).astype(['f8', 'bool', 'i4', 'u1'][r.randint(4)])
    opt = dict(gain=float(r.choice([.1, .3, .7, 1., 1.9])), maxiter=int(r.choice([1, 2, 3, 8, 40])), tol=float(r.choice([0, 1e-6, 1e-3, .05, .5])), stop_if_div=bool(r.rand() < .75), pos_def=bool(r.rand() < .3 and not cx))
    return r, im, ker, mdl, area, opt
def eps(a): return 1e-3 if a.dtype in (np.dtype('f4'), np.dtype('c8')) else 1e-8
def mayhang(f):
    """without stop_if_div the loop need not end: run it in a child that is given 5 s"""
    import os, pickle, signal
    r, w = os.pipe(); pid = os.fork()
    if not pid:
        try:
            signal.alarm(5); out = pickle.dumps(f())
            with os.fdopen(w, 'wb') as h: h.write(out)
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as h: d = h.read()
    st = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM: raise Skip
    if not d: fail('clean died (status %d)' % st)
    return pickle.loads(d)
def audit(im, ker, mdl, area, opt, nm):
    shp = im.shape; start = np.zeros(shp, im.dtype) if mdl is None else mdl; ar = np.ones(shp, int) if area is None else area.astype(int)
    want = replay((im - conv(start, ker)), ker, start, ar, **{dict(stop_if_div='stop', pos_def='pos').get(k, k): v for k, v in opt.items()})
    if want[0] is None and not opt['stop_if_div']: raise Skip     # without stop_if_div the loop need not end
    ins = [(a, a.copy()) for a in (im, ker, mdl, area) if a is not None]
    x, info = deconv.clean(im, ker, mdl=mdl, area=area, **opt) if opt['stop_if_div'] else mayhang(lambda: deconv.clean(im, ker, mdl=mdl, area=area, **opt))
    for a, b in ins: same(a, b, nm + ' input changed')
    is_((x.shape, x.dtype, info['res'].shape, info['res'].dtype), (shp, im.dtype, shp, im.dtype), nm + ' shapes and types'); is_(info['tol'], opt['tol'], nm + ' tol')
    add = x.astype('G') - start; sc = float(np.abs(im).sum() + np.abs(x).sum() * np.abs(ker).max() + 1); ok = np.all(np.isfinite(x))
    if ok: close(info['res'], im - conv(x, ker), eps(im), nm + ' residual is image minus model*kernel', scale=sc)
    close(info['score'], np.sqrt(np.mean(np.abs(info['res'].astype('G'))**2)), 1e-5, nm + ' score')
    out = (ar == 0) & (np.abs(add) > eps(im) * sc)
    if out.any(): fail('%s: component outside the area at %r' % (nm, np.argwhere(out)[0].tolist()))
    if opt['pos_def'] and (np.abs(ker).max() == ker.max()) and (add.real < -eps(im) * sc).any(): fail('%s: negative component' % nm)
    n = info['iter']
    if not 0 <= n <= opt['maxiter']: fail('%s: %r iterations of %r' % (nm, n, opt['maxiter']))
    is_(info['success'], info['term'] == 'tol' and n > 0, nm + ' success')
    if info['term'] == 'maxiter': is_(n, opt['maxiter'], nm + ' iterations')
    if want[3] and want[0] is not None:
        rv = want[0]; t = 'divergence' if rv < 0 else 'tol' if rv < opt['maxiter'] else 'maxiter'
        is_((info['term'], n), (t, abs(rv)), nm + ' termination')
        close(x, want[2], 10 * eps(im), nm + ' model', scale=sc); close(info['res'], want[1], 10 * eps(im), nm + ' residual', scale=sc)
@check(seeds, 1200, corners=[dict(seed=s) for s in range(25)])
def clean(seed): r, im, ker, mdl, area, opt = world(seed); audit(im, ker, mdl, area, opt, 'clean(seed %d)' % seed)
@check(seeds, 20, corners=[dict(seed=s) for s in range(4)])
def long_runs(seed):
    r, im, ker, mdl, area, opt = world(seed, 12); opt.update(maxiter=400, stop_if_div=True, gain=float(r.choice([.05, .1, .3]))); audit(im, ker, mdl, area, opt, 'clean, many iterations')
@check(seeds, 40, corners=[dict(seed=s) for s in range(6)])
def raw(seed):
    """the extension itself: non-contiguous arguments, in-place results, refusals"""
    r, im, ker, mdl, area, opt = world(seed); opt['stop_if_div'] = True; D = im.ndim; shp = im.shape; wide = lambda a: np.repeat(a, 3, axis=-1)[..., ::3] if a is not None else None
    res = wide(im); m = wide(np.zeros(shp, im.dtype) if mdl is None else mdl); m0 = m.copy(); k = wide(ker); a = wide(np.ones(shp, int) if area is None else area.astype(int)); o = dict(opt, stop_if_div=1, pos_def=int(opt['pos_def']))
    if mdl is not None: res[...] = (im - conv(mdl, ker)).astype(im.dtype)
    r0 = res.copy(); rv = _deconv.clean(res, k, m, a, **o); sc = float(np.abs(im).sum() + np.abs(m).sum() * np.abs(ker).max() + np.abs(m0).sum() + 1)
    close(res, r0.astype('G') - conv((m - m0), ker), eps(im), 'residual of the extension', scale=sc); same(k, wide(ker), 'kernel')
    w = replay(r0, ker, m0, np.asarray(a), opt['gain'], opt['maxiter'], opt['tol'], True, opt['pos_def'])
    if w[3]: is_(rv, w[0], 'count')
    bad = np.zeros(tuple(n + 1 for n in shp), im.dtype)
    for i in range(4):
        args = [res, k, m, a]; args[i] = bad.astype(args[i].dtype); raises(ValueError, lambda: _deconv.clean(*args), 'shape mismatch of argument %d' % i)
        args = [res, k, m, a]; args[i] = args[i].astype('i2'); raises(ValueError, lambda: _deconv.clean(*args), 'type of argument %d' % i)
        args = [res, k, m, a]; args[i] = args[i].tolist(); raises(TypeError, lambda: _deconv.clean(*args), 'list as argument %d' % i)
    raises(ValueError, lambda: _deconv.clean(*[x.reshape((1, 1) + x.shape) for x in args_copy(res, k, m, a)]), 'rank 3 or more')
    raises(ValueError, lambda: _deconv.clean(*[x.astype('i8') for x in (res.real, k.real, m.real, a)]), 'integer images')
def args_copy(*a): return [x.copy() for x in a]
@check(corners=[dict(shape=s) for s in ([], [0], [0, 3], [3, 0], [2, 2, 2])])
def refused(shape):
    z = np.zeros(shape); raises(ValueError, lambda: _deconv.clean(z, z.copy(), z.copy(), np.zeros(shape, int)), 'shape %r' % (shape,))
    if len(shape) == 3: raises(ValueError, lambda: deconv.clean(z, z, mdl=z), 'model of rank 3')
