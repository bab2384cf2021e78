"""Window functions, channel frequencies and resampling."""
from vc.api import *
from vc import npsym
from . import stubs

def build(root, **kw):
    S = Suite(root, dict(stubs.ALL, src=stubs.generic_any('aipy.src')), **kw)
    S.assumptions += ['floating-point arithmetic treated as real arithmetic', 'window lengths of at least 2 (the formulas divide by L-1)',
                      'resampling: the interpolation weights at a sample position do not sum to zero; at least as many samples as the order, order at least 2']
    S.trusted += ['numpy array contracts (vc/npsym.py)', 'numpy.polyfit of constant data returns the constant polynomial', 'the Bessel function I0 is at least 1 and increasing on [0, oo)',
                  'linearity of finite sums: sum of c*t(j) is c times the sum of t(j)']
    W = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k))
    T = Num.of(1e-9)
    def cosk(x, L, k): return num.cossin(Num.of(2 * k) * PI * x / (L - 1))[0]
    Q = npsym.to_frac if hasattr(npsym, 'to_frac') else num.to_frac
    F = lambda t: Num.of(t)
    cosines = lambda *c: lambda x, L: sum(((-1)**k * F(a) * (cosk(x, L, k) if k else 1) for k, a in enumerate(c)), F(0))
    def kaiser(b): return lambda x, L: npsym.i0(b * PI * num.sqrt(1 - (2 * x / (L - 1) - 1)**2)) / npsym.i0(b * PI)
    def bh(x, L):
        f = abs(x / (L - 1) - F(.5)); return F(.62) - F(.48) * f + F(.38) * num.cossin(2 * PI * f)[0]
    REF = {'blackman': cosines(.42, .5, .08), 'blackman-harris': cosines(.35875, .48829, .14128, .01168), 'hamming': cosines(.54, .46), 'hanning': cosines(.5, .5),
           'gaussian0.4': lambda x, L: num.exp(-((x - (L - 1) / 2) / (F(.4) * (L - 1) / 2))**2 / 2), 'kaiser2': kaiser(2), 'kaiser3': kaiser(3),
           'parzen': lambda x, L: 1 - abs(L / 2 - x) / (L / 2), 'none': lambda x, L: F(1), 'barthann': bh}
    def sample(name, **k):
        def go(s):
            d = s.load('dsp'); L = size('L', 2); w = d.gen_window(L, name, **k); x = index('x', L)
            return d, L, w, x
        return go
    for name in REF:
        @S.fn('dsp.window.' + name, ['dsp.gen_window', 'dsp.WINDOW_FUNC'] + (['dsp.barthann'] if name == 'barthann' else []), W('windows', name=name))
        def _(s, name=name):
            d, L, w, x = sample(name)(s)
            shape_is('length', w, (L,)); v = w.at(x); eq('formula', v, REF[name](x, L))
            prove('at least 0', v >= -T); prove('at most 1', v <= 1 + T)
            if name == 'parzen': assume(x >= 1); eq('symmetric about L/2', v, w.at(L - x))
            else: eq('symmetric', v, w.at(L - 1 - x))
    @S.fn('dsp.window.names', ['dsp.WINDOW_FUNC', 'dsp.gen_window'], W('names'))
    def _(s):
        d = s.load('dsp'); L = size('L', 2); prove('every documented window', set(d.WINDOW_FUNC) >= set(REF) | {'tukey'})
        x = index('x', L); eq('default is hamming', d.gen_window(L).at(x), REF['hamming'](x, L))
    @S.fn('dsp.window.tukey', ['dsp.tukey', 'dsp.gen_window'], W('tukey'))
    def _(s):
        d = s.load('dsp'); L = size('L', 2)
        dflt = bool(E().choose('default alpha')); al = F(.5) if dflt else real('alpha', 0, 1)
        if not dflt: assume(al > 0); assume(al < 1)
        wd = num.floor(al * (L - 1) / 2)
        prove('room for both tapers', 2 * wd <= L - 2); assume(2 * wd <= L - 2); assume(wd >= 0)
        w = d.gen_window(L, 'tukey') if dflt else d.gen_window(L, 'tukey', alpha=al)
        x = index('x', L); v = w.at(x); shape_is('length', w, (L,))
        y = L - 1 - x # distance from the other end
        def taper(t): return (1 - num.cossin(2 * PI * t / (al * (L - 1)))[0]) / 2
        if x <= al * (L - 1) / 2: eq('rising taper', v, taper(x)); eq('symmetric', v, w.at(y))
        elif y <= al * (L - 1) / 2: eq('falling taper', v, taper(y)); eq('symmetric', v, w.at(y))
        else: eq('flat', v, 1); eq('symmetric', v, w.at(y))
        prove('at least 0', v >= -T); prove('at most 1', v <= 1 + T)
    @S.fn('dsp.window.tukey_limits', ['dsp.tukey', 'dsp.gen_window'], W('tukey'))
    def _(s):
        d = s.load('dsp'); L = size('L', 2); al = real('alpha', -2, 3); x = index('x', L)
        if E().choose('flat'):
            assume(al <= 0); w = d.gen_window(L, 'tukey', alpha=al); shape_is('length', w, (L,)); eq('flat', w.at(x), 1)
        else:
            assume(al >= 1); w = d.gen_window(L, 'tukey', alpha=al); shape_is('length', w, (L,)); eq('hann', w.at(x), REF['hanning'](x, L))
    # ---- frequencies
    @S.fn('cal.get_freqs', ['cal.get_freqs'], W('freqs'))
    def _(s):
        c = s.load('cal'); n = size('n', 1); a, b = real('sdf'), real('sfreq'); f = c.get_freqs(a, b, n); k = index('k', n)
        shape_is('length', f, (n,)); eq('frequency', f.at(k), b + k * a)
    # ---- resampling
    def resample(s, fac, order, kind):
        m = s.load('interp'); n = size('n', 1); f = fac if fac else integer('factor', lo=1, hi=5, ge=1)
        o = 4 if order is None else order if order else integer('order', lo=2, hi=5, ge=2); assume(n >= o)
        assume(Num.of(n) * f >= 1)
        c = cplx('c') if kind == 'c' else integer('c') if kind == 'i' else real('c')
        ys = npsym.ndarray((n,), lambda idx: c, kind)
        if E().choose('own filter'):
            g = []
            def filt(xs):
                g.append(xs); return array('taps', (xs._shape[0],))
            r = m.interpolate(ys, f, filt) if order is None else m.interpolate(ys, f, filt, o)
            shape_is('taps', g[0], (2 * Num.of(o) * f + 1,)); j = index('jt', g[0]._shape[0]); eq('tap positions', g[0].at(j), -Num.of(o) + j / Num.of(f))
        else: r = m.interpolate(ys, f) if order is None else m.interpolate(ys, f, order=o)
        shape_is('factor times as many samples', r, (Num.of(n) * f,))
        k = integer('k', lo=0, hi=3, ge=0); assume(k < Num.of(n) * f); v = r.at(k)
        for p, cp in ([('re', c.re), ('im', c.im)] if kind == 'c' else [('', c)]):
            vp = (v.re if p == 're' else v.im) if isinstance(v, SComplex) else v
            # v = (sum of values times taps)/(sum of weights times taps)
            a, b = sums(vp); prove('sums over the same taps' + p, Num.of(a.n) == Num.of(b.n)); j = index('j', a.n)
            ta = a.f(j); ta = (ta.re if p == 're' else ta.im) if isinstance(ta, SComplex) else ta
            tb = b.f(j); tb = tb.re if isinstance(tb, SComplex) else tb
            eq('each term of the numerator is the constant times that of the denominator' + p, ta, cp * tb)
    def sums(v):
        v = Num.of(v)
        def one(p):
            if len(p) != 1: raise Unsupported('not a ratio of sums')
            (mn, c), = p.items()
            if c != 1 or len(mn) != 1 or mn[0][1] != 1 or not isinstance(num.ATOMS[mn[0][0]].meta, npsym.SumInfo): raise Unsupported('not a ratio of sums')
            return num.ATOMS[mn[0][0]].meta
        return one(v.n), one(v.d)
    for tag, fac, order, kind in (('general', None, 0, 'f'), ('default', None, None, 'f'), ('complex', None, 0, 'c'), ('integer', None, 0, 'i')):
        @S.fn('interp.interpolate.' + tag, ['interp.interpolate', 'interp.polyextend', 'interp.subsample', 'interp.default_filter'], W('resample'))
        def _(s, fac=fac, order=order, kind=kind): resample(s, fac, order, kind)
    def bad(s):
        d, L, w, x = sample('hanning')(s); prove('stays below .9', w.at(x) <= F(.9))
    S.must_fail('hann below .9', bad)
    return S
