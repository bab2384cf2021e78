from lib import *
from aipy import dsp, interp, cal
import scipy.special
def G(rng, k): return dict(seed=rng.randrange(10**6))
PI = np.pi
def cosines(*c): return lambda n, L: sum((-1)**k * a * np.cos(2 * PI * k * n / (L - 1)) for k, a in enumerate(c)) + 0 * n
def kaiser(b): return lambda n, L: scipy.special.i0(b * PI * np.sqrt(np.maximum(0, 1 - ((n - (L - 1) / 2) / ((L - 1) / 2))**2))) / scipy.special.i0(b * PI)
def bh(n, L):
    t = np.abs(n / (L - 1) - .5); return .62 - .48 * t + .38 * np.cos(2 * PI * t)
REF = {'blackman': cosines(.42, .5, .08), 'blackman-harris': cosines(.35875, .48829, .14128, .01168), 'hamming': cosines(.54, .46), 'hanning': cosines(.5, .5),
       'gaussian0.4': lambda n, L: np.exp(-((n - (L - 1) / 2) / (.4 * (L - 1) / 2))**2 / 2), 'kaiser2': kaiser(2), 'kaiser3': kaiser(3),
       'parzen': lambda n, L: 1 - np.abs(n - L / 2) / (L / 2), 'none': lambda n, L: 1 + 0 * n, 'barthann': bh}
def tuk(n, L, a):
    if a <= 0: return 1 + 0 * n
    if a >= 1: return REF['hanning'](n, L)
    d = np.minimum(n, L - 1 - n); return np.where(d <= a * (L - 1) / 2, .5 * (1 - np.cos(2 * PI * d / (a * (L - 1)))), 1.)
def lengths(r): return sorted(set([2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 64, 101, 1024] + [int(x) for x in r.randint(2, 700, 6)]))
@check(G, 6, corners=[dict(seed=1)])
def windows(seed, name=None):
    for L in lengths(rs(seed)):
        n = np.arange(L, dtype=float)
        for w in ([name] if name else REF):
            v = dsp.gen_window(L, w); close(v, REF[w](n, L), 1e-7 if 'kaiser' in w else 1e-12, '%s window of length %d' % (w, L))
            if v.min() < -1e-12 or v.max() > 1 + 1e-12: fail('%s window of length %d leaves [0,1]' % (w, L))
            close(*((v[1:], v[1:][::-1]) if w == 'parzen' else (v, v[::-1])), tol=1e-7 if 'kaiser' in w else 1e-12, what='%s of length %d symmetric' % (w, L))
@check(corners=[dict(seed=1)])
def names(seed):
    if not set(dsp.WINDOW_FUNC) >= set(REF) | {'tukey'}: fail('missing windows')
    for L in (2, 9, 32):
        same(dsp.gen_window(L), dsp.gen_window(L, 'hamming'), 'default window'); same(dsp.gen_window(L, window='tukey'), dsp.gen_window(L, 'tukey', alpha=.5), 'default tukey')
    for nm in dsp.WINDOW_FUNC:
        if nm not in REF and nm != 'tukey':
            v = dsp.gen_window(64, nm); is_(v.shape, (64,), nm)
@check(G, 20, corners=[dict(seed=1)])
def tukey(seed):
    r = rs(seed)
    for L in lengths(r):
        n = np.arange(L, dtype=float)
        for a in [-1., 0., 0, 1e-3, .1, .25, .5, .75, .9, .999, 1., 1, 2., float(r.uniform(0, 1))]:
            ref = tuk(n, L, a); v = dsp.gen_window(L, 'tukey', alpha=a); is_(v.shape, (L,), 'tukey length')
            # at the very edge of the taper both formulas agree to rounding
            close(v, ref, 1e-6, 'tukey %r of length %d' % (a, L)); close(v, v[::-1], 1e-6, 'tukey symmetric')
            if v.min() < -1e-12 or v.max() > 1 + 1e-12: fail('tukey leaves [0,1]')
@check(G, 60, corners=[dict(seed=1)])
def freqs(seed):
    r = rs(seed); n = int(r.randint(1, 3000)); a, b = float(r.uniform(-1e-3, 1e-3)), float(r.uniform(.05, .2))
    close(cal.get_freqs(a, b, n), np.array([b + a * k for k in range(n)]), 1e-13, 'channel frequencies')
@check(G, 60, corners=[dict(seed=1)])
def resample(seed):
    r = rs(seed)
    for rep in range(20):
        order = int(r.randint(2, 9)); f = int(r.randint(1, 130)) if rep % 2 else int(r.randint(1, 9)); n = order + int(r.randint(0, 40))
        dt = [float, complex, int, np.float32][rep % 4]; c = dt(r.randint(-9, 10)) if dt is int else dt(r.uniform(-5, 5)) + (1j * r.uniform(-2, 2) if dt is complex else 0)
        kw = {}
        if rep % 5 == 4: kw['filter'] = lambda xs: np.exp(-xs**2 / 3.)
        if order != 4 or rep % 3: kw['order'] = order
        ys = np.full(n, c, dtype=dt); y0 = ys.copy(); v = interp.interpolate(ys, f, **kw); same(ys, y0, 'the samples handed in')
        is_(v.shape, (n * f,), 'number of samples (order %d, factor %d)' % (order, f))
        # positions where the default filter's weights all but cancel are outside the contract
        if np.all(np.isfinite(v)): close(v, np.full(n * f, c), 1e-4 if dt is np.float32 else 1e-6, 'constant (order %d, factor %d)' % (order, f))
        elif order <= 4: fail('not finite')
    # at factor 1 the default filter of a single tap reproduces any samples
    y = r.normal(size=12); seen = []
    interp.interpolate(y, 5, filter=lambda xs: seen.append(xs) or np.ones(xs.size), order=3); close(seen[0], np.arange(-15, 16) / 5., 1e-12, 'filter taps')
