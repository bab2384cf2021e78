from lib import *
import warnings
from aipy import deconv
np.seterr(all='ignore')
def G(rng, k): return dict(seed=rng.randrange(10**6))
def conv(x, k): return np.fft.ifft2(np.fft.fft2(x) * np.fft.fft2(k)).real
def world(seed):
    r = rs(seed); A, B = int(r.randint(1, 9)), int(r.randint(1, 9)); ker = np.zeros((A, B)); ker[0, 0] = 1
    if r.rand() < .7: ker = ker + r.uniform(0, .3, (A, B)) * r.choice([0, 1], (A, B))
    x = np.zeros((A, B)); x[r.randint(0, A), r.randint(0, B)] = r.uniform(1, 5); im = conv(x + r.choice([0, .3]) * r.rand(A, B), ker) + r.choice([0, .1]) * r.randn(A, B)
    mdl = None if r.rand() < .5 else r.uniform(-.5, 2, (A, B)); lo, hi = [(deconv.lo_clip_lev, np.inf), (-1., 1.), (.25, .75), (.5, .5), (0., 3.)][r.randint(5)]
    return r, im, ker, mdl, lo, hi
def audit(nm, call, im, ker, mdl, lo, hi, n, start, terms):
    keep = [a.copy() for a in (im, ker, mdl) if a is not None]; shp = [a.shape for a in keep]; x, info = call()
    for a, b in zip([a for a in (im, ker, mdl) if a is not None], keep): same(a, b, nm + ' input changed')
    is_(x.shape, im.shape, nm + ' shape'); is_(info['res'].shape, im.shape, nm + ' residual shape')
    sc = np.abs(im).sum() + np.abs(np.nan_to_num(x)).sum() * np.abs(ker).sum() + 1
    if np.all(np.isfinite(x)): close(info['res'], im - conv(x, ker), 1e-9, nm + ' residual', scale=sc)
    if not 1 <= info['iter'] <= n: fail('%s ran %d of %d iterations' % (nm, info['iter'], n))
    if info['term'] not in terms: fail('%s ended with %r' % (nm, info['term']))
    if info['term'] == 'maxiter': is_(info['iter'], n, nm + ' iterations')
    inb = (x >= lo) & (x <= hi); st = np.isclose(x, start, rtol=1e-14, atol=0) if start is not None else np.zeros(x.shape, bool)
    stepped = info['iter'] > 1 or info['term'] == 'maxiter'
    if nm == 'anneal': ok = inb.all() or (start is not None and st.all())
    else: ok = inb[~np.isnan(x)].all() if stepped else st.all() or start is None
    if not ok: fail('%s: pixels outside [%r, %r] (iter %r, %s)' % (nm, lo, hi, info['iter'], info['term']))
    return x, info
@check(G, 60, corners=[dict(seed=s) for s in range(12)])
def lsq(seed):
    r, im, ker, mdl, lo, hi = world(seed); n = int(r.choice([1, 2, 3, 10, 50])); tol = float(r.choice([1e-6, 1e-3, .1, .5])); gain = float(r.uniform(.05, .9)); area = None if r.rand() < .6 else r.randint(0, 2, im.shape); M = 1 if area is None else area; start = np.zeros(im.shape) if mdl is None else mdl
    x, info = audit('lsq', lambda: deconv.lsq(im, ker, mdl=mdl, gain=gain, tol=tol, maxiter=n, lower=lo, upper=hi, area=area), im, ker, mdl, lo, hi, n, start, ('tol', 'maxiter'))
    is_(info['tol'], tol, 'tol'); is_(info['success'], True, 'success')
    s1 = np.average(((im - conv(x, ker)) * M)**2)
    if info['term'] == 'tol' and s1 > 1e-20:
        if not abs(1 - info['score'] / s1) < tol * (1 + 1e-6) + 1e-9: fail('lsq says it converged: score %r after %r, tol %r' % (s1, info['score'], tol))
    # replay of the documented iteration
    y, sc, q, it, term = start.copy(), 0, np.sqrt((np.abs(ker)**2).sum()), 0, 'maxiter'
    for it in range(1, n + 1):
        d = (im - conv(y, ker)) * M; ns = np.average(d**2)
        if ns < 1e-18: return
        t = abs(1 - sc / ns)
        if abs(t - tol) < 1e-9: return
        if t < tol: term = 'tol'; break
        sc = ns; y = np.clip(np.where(np.abs(d) > 0, y + gain * d / (2 * q), y), lo, hi)
    is_((info['term'], info['iter']), (term, it), 'lsq termination'); close(x, y, 1e-6, 'lsq model', scale=1 + np.abs(y).max())
@check(G, 60, corners=[dict(seed=s) for s in range(12)])
def maxent(seed):
    r, im, ker, mdl, lo, hi = world(seed); n = int(r.choice([1, 2, 3, 10, 50])); tol = float(r.choice([1e-6, 1e-3, .1, 5.])); var0 = float(r.choice([1e-3, .1, 1.]))
    if mdl is not None: mdl = np.abs(mdl) + .1
    if lo < 0: lo = .01
    start = np.ones(im.shape) * np.average(im) / ker.sum() if mdl is None else mdl
    x, info = audit('maxent', lambda: deconv.maxent(im, ker, var0, mdl=mdl, gain=float(r.uniform(.05, .5)), tol=tol, maxiter=n, lower=lo, upper=hi), im, ker, mdl, lo, hi, n, start, ('tol', 'maxiter', 'divergence'))
    sc = info['score']; is_(info['success'], info['term'] != 'divergence', 'success'); is_((info['tol'], info['var0']), (tol, var0), 'tol, var0')
    if info['term'] == 'tol' and not 0 < sc < tol: fail('maxent converged at score %r, tol %r' % (sc, tol))
    if info['term'] == 'divergence' and 0 < sc <= 1e10: fail('maxent diverged at score %r' % sc)
    if info['term'] == 'maxiter' and not (tol <= sc <= 1e10): fail('maxent went on at score %r, tol %r' % (sc, tol))
@check(G, 60, corners=[dict(seed=s) for s in range(12)])
def anneal(seed):
    r, im, ker, mdl, lo, hi = world(seed); n = int(r.choice([1, 2, 10, 60])); start = np.zeros(im.shape) if mdl is None else mdl; np.random.seed(seed); seen = []
    def cool(i, x):
        seen.append(i); return np.abs(x) * .3
    x, info = audit('anneal', lambda: deconv.anneal(im, ker, mdl=mdl, maxiter=n, lower=lo, upper=hi, **({} if r.rand() < .3 else dict(cooling=cool))), im, ker, mdl, lo, hi, n, start, ('maxiter',))
    s0, s1 = np.average((im - conv(start, ker))**2), np.average((im - conv(x, ker))**2); is_(info['iter'], n, 'anneal iterations')
    if s1 > s0 * (1 + 1e-9) + 1e-20: fail('annealing made the score worse: %r -> %r' % (s0, s1))
    close(info['score'], s1, 1e-9, 'anneal score', scale=1 + s1)
    if seen: is_(seen, list(range(n)), 'cooling schedule')
@check(corners=[dict(seed=0), dict(seed=3)])
def findvar(seed):
    r = rs(seed); im = np.zeros((16, 16)); im[8, 8] = 4.; im[3, 5] = 2.; im += .1; ker = np.zeros((16, 16)); ker[0, 0] = 1; import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()): x, info = deconv.maxent_findvar(im, ker, var=.01 if seed else None, maxiter=40, tol=1e-2, maxiterok=True)
    close(info['res'], im - conv(x, ker), 1e-9, 'findvar residual'); is_(info['success'], True, 'findvar success')
