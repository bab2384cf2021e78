"""Least-squares, maximum-entropy and annealing deconvolution: residual, bounds, termination. Images of any size, any number of iterations."""
import types
from vc.api import *
from vc import npsym, num, loops, pyload
from . import stubs

# ---- FFT convolution by contract: ifft2(fft2(a) * fft2(k)) is a function of the contents of a and k only
class FT:
    def __init__(self, src): self.src = src; self.tok = token(src)
    def __mul__(self, o):
        if not isinstance(o, FT): raise Unsupported('arithmetic on a transform')
        return Prod(self, o)
class Prod:
    def __init__(self, a, b): self.a, self.b = a, b
def token(a):
    """what the contents of a are: its generic element if that is unconditional, else the identity of its storage"""
    e = E(); p = [Num.var(num.atom(('gen', q), 'g%d' % q, True)) for q in range(2)]; old = e.branch
    def no(z):
        z2 = z3_simplify(z)
        if z2 is not None: return z2
        raise Unsupported('conditional element')
    e.branch = no
    try: return ('el', repr(Num.of(a.at(*p)).key()))
    except Unsupported: return ('cell', cellno(a.cell), a.cell.ver)
    finally: e.__dict__.pop('branch', None)
def cellno(c):
    """storage blocks numbered in the order a path meets them (a path run again gives the same numbers)"""
    e = E(); r = e.__dict__.get('cellnos')
    if r is None or r[0] is not e.pc: r = e.cellnos = (e.pc, [])
    for k, x in enumerate(r[1]):
        if x is c: return k
    r[1].append(c); return len(r[1]) - 1
def z3_simplify(z):
    import z3
    z = z3.simplify(z); return True if z3.is_true(z) else False if z3.is_false(z) else None
def conv(a, k):
    ta, tk = a if isinstance(a, tuple) else token(a), k if isinstance(k, tuple) else token(k); nm = 'conv' + __import__('hashlib').md5(repr((ta, tk)).encode()).hexdigest()[:10]
    E().__dict__.setdefault('keep', []).extend([a, k])
    return lambda idx: func(nm, list(idx))
def fftns(npm):
    def fft2(a):
        a = npsym.asarray(a)
        if a.ndim != 2: raise Unsupported('fft2 of rank %d' % a.ndim)
        return FT(a)
    def ifft2(p):
        if not isinstance(p, Prod): raise Unsupported('ifft2')
        a, b = p.a, p.b
        if not all(npsym.dim_eq(x, y) for x, y in zip(a.src._shape, b.src._shape)): raise ValueError('shapes')
        E().__dict__.setdefault('keep', []).extend([a.src, b.src])
        f = conv(a.tok, b.tok); g = 'convi'
        return npsym.ndarray(a.src._shape, lambda idx: SComplex(f(idx), func(g, list(idx))), 'c')
    ns = types.SimpleNamespace(**{k: getattr(npm, k) for k in dir(npm) if not k.startswith('__')}); ns.fft = types.SimpleNamespace(fft2=fft2, ifft2=ifft2)
    cnt = [0]
    def normal(loc=0, scale=1, size=None): cnt[0] += 1; return array('noise%d' % cnt[0], size)
    ns.random = types.SimpleNamespace(normal=normal); return ns
def build(root, **kw):
    def _deconv(s): m = types.ModuleType('_deconv'); return m
    S = Suite(root, dict(stubs.ALL, _deconv=_deconv), transforms=dict(deconv=loops.transform('lsq', 'maxent', 'anneal')), **kw)
    S.assumptions += ['floating-point arithmetic treated as real arithmetic', 'real images, lower bound not above the upper bound, at least one iteration allowed']
    S.trusted += ['numpy.fft: ifft2(fft2(a) fft2(k)) depends on the contents of a and k only (circular convolution)', 'numpy.random.normal returns an arbitrary array of the size asked for', 'numpy array contracts (vc/npsym.py)']
    W = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k))
    def world(s, fn, start=None):
        d = s.load('deconv'); d.np = fftns(s.L.npm); A, B = size('A', 1), size('B', 1); im, ker = array('im', (A, B)), array('ker', (A, B)); n = integer('maxiter', ge=1); lo, hi = real('lower', -1, 1), real('upper', 1, 3); assume(lo <= hi)
        mdl = array('mdl', (A, B)) if E().choose('starting model') else None; tol = real('tol', 0, 1)
        return d, A, B, im, ker, n, lo, hi, mdl, tol
    def common(nm, x, info, im, ker, A, B, n):
        shape_is('shape of the image', x, (A, B)); shape_is('residual shape', info['res'], (A, B)); r, q = index('r', A), index('q', B); eq('residual', info['res'].at(r, q), im.at(r, q) - conv(x, ker)((r, q)))
        it = Num.of(info['iter']); prove('iterations', b_and(it >= 1, it <= n))
        return r, q, it
    def inbounds(x, lo, hi, r, q): v = x.at(r, q); prove('within the bounds', b_and(v >= lo, v <= hi))
    def box(nm, shape, lo, hi): return array(nm, shape, axioms=lambda a: [a.z >= lo.zr, a.z <= hi.zr], record=False)
    # ---- least squares
    for area in (False, True):
        @S.fn('deconv.lsq' + ('.area' if area else ''), ['deconv.lsq'], W('lsq'))
        def _(s, area=area):
            d, A, B, im, ker, n, lo, hi, mdl, tol = world(s, 'lsq'); st = {}; ar = array('area', (A, B), 'i') if area else None; arrs = [a for a in (im, ker, mdl, ar) if a is not None]; ver = [a.cell.ver for a in arrs]; gain = real('gain', 0, 1)
            start = mdl if mdl is not None else npsym.zeros((A, B)); M = lambda idx: ar.at(*idx) if area else 1
            def havoc(k, env):
                st['k'] = k; st['first'] = bool(k == 0)
                if st['first']: x, sc = start.copy(), Num.of(0)
                else: x, sc = box('x', (A, B), lo, hi), real('score', 0, 1)
                st['x'], st['sc'] = x, sc
                i = k if E().loopstate['lsq:0']['generic'] else k - 1
                return dict(x=x, score=sc, i=i)
            def inv(k, env, ask):
                if ask.__name__ != 'ask': return
                x = env['x']; r, q = index('r', A), index('q', B)
                info = env['info']; ask('running', info.get('term') == 'maxiter' and info.get('success') is True)
                if 'k' not in st: eq('starts from the model', x.at(r, q), start.at(r, q)); ask('no score yet', Num.of(env['score']) == 0); ask('own copy', mdl is None or x.cell is not mdl.cell); return
                shape_is('shape', x, (A, B)); inbounds(x, lo, hi, r, q); ask('own storage', all(x.cell is not a.cell for a in arrs))
                eq('score of the model before the step', env['score'], avg(st['x']))
                ask('goes on only above the tolerance', abs(1 - st['sc'] / avg(st['x'])) >= tol)
            def avg(x): f = conv(x, ker); return npsym.average(npsym.ndarray((A, B), lambda idx: abs((im.at(*idx) - f(idx)) * M(idx))**2, 'f'))
            loops.contract('lsq:0', inv, havoc, count=lambda it, env: n, item=lambda k, it, env: k)
            x, info = d.lsq(im, ker, mdl=mdl, gain=gain, tol=tol, maxiter=n, lower=lo, upper=hi, **(dict(area=ar) if area else {}))
            r, q, it = common('lsq', x, info, im, ker, A, B, n); prove('inputs unchanged', ver == [a.cell.ver for a in arrs]); prove('tolerance reported', info['tol'] is tol); prove('success', info['success'] is True)
            if st['first']: eq('starting model', x.at(r, q), start.at(r, q))
            else: inbounds(x, lo, hi, r, q)
            if E().loopstate['lsq:0']['generic']: prove('stopped by the tolerance', info['term'] == 'tol'); prove('below the tolerance', abs(1 - st['sc'] / avg(st['x'])) < tol); prove('at this iteration', it == st['k'] + 1)
            else: prove('ran out of iterations', info['term'] == 'maxiter'); prove('every iteration', it == n)
    # ---- maximum entropy
    @S.fn('deconv.maxent', ['deconv.maxent', 'deconv.maxent.next_step'], W('maxent'))
    def _(s):
        d, A, B, im, ker, n, lo, hi, mdl, tol = world(s, 'maxent'); st = {}; arrs = [a for a in (im, ker, mdl) if a is not None]; ver = [a.cell.ver for a in arrs]; shp = [a._shape for a in arrs]; gain = real('gain', 0, 1); var0 = real('var0', .1, 1)
        def havoc(k, env):
            st['k'] = k; st['first'] = bool(k == 0)
            x = env['b_i'].copy() if st['first'] else box('x', (A * B,), lo, hi)
            st['x'] = x; i = k if E().loopstate['maxent:0']['generic'] else k - 1
            return dict(b_i=x, alpha=Num.of(0) if st['first'] else real('alpha', 0, 1), i=i, score=real('score', 0, 1))
        def inv(k, env, ask):
            if ask.__name__ != 'ask': return
            x, info = env['b_i'], env['info']; ask('running', info.get('term') == 'maxiter' and info.get('success') is True); r, q = index('r', A), index('q', B); j = r * B + q
            if mdl is not None: ask('own storage', all(x.cell is not a.cell for a in arrs))
            if 'k' not in st:
                st['start'] = env['b_i']
                if mdl is not None: eq('starts from the model', x.at(j), mdl.at(r, q))
                return
            shape_is('shape', x, (A * B,)); v = x.at(j); ask('within the bounds', b_and(v >= lo, v <= hi)); sc = env['score']; ask('goes on only above the tolerance', b_and(sc >= tol, sc > 0, sc <= 10000000000))
        loops.contract('maxent:0', inv, havoc, count=lambda it, env: n, item=lambda k, it, env: k)
        x, info = d.maxent(im, ker, var0, mdl=mdl, gain=gain, tol=tol, maxiter=n, lower=lo, upper=hi)
        r, q, it = common('maxent', x, info, im, ker, A, B, n); prove('inputs unchanged', ver == [a.cell.ver for a in arrs] and all(all(npsym.dim_eq(u, w) for u, w in zip(a._shape, b)) for a, b in zip(arrs, shp))); prove('reported', info['tol'] is tol and info['var0'] is var0); sc = info['score']
        if not st['first']: inbounds(x, lo, hi, r, q)
        elif mdl is not None: eq('starting model', x.at(r, q), mdl.at(r, q))
        if E().loopstate['maxent:0']['generic']:
            prove('at this iteration', it == st['k'] + 1)
            if info['term'] == 'tol': prove('converged', b_and(sc < tol, sc > 0)); prove('success', info['success'] is True)
            else: prove('diverged', info['term'] == 'divergence' and info['success'] is False); prove('bad score', b_or(sc > 10000000000, sc <= 0)); 
        else: prove('ran out of iterations', info['term'] == 'maxiter' and info['success'] is True); prove('every iteration', it == n)
    # ---- annealing
    @S.fn('deconv.anneal', ['deconv.anneal'], W('anneal'))
    def _(s):
        d, A, B, im, ker, n, lo, hi, mdl, tol = world(s, 'anneal'); st = {}; arrs = [a for a in (im, ker, mdl) if a is not None]; ver = [a.cell.ver for a in arrs]; start = mdl if mdl is not None else npsym.zeros((A, B)); cnt = [0]
        def cooling(i, x): cnt[0] += 1; return array('cool%d' % cnt[0], (A, B))
        def res(x): f = conv(x, ker); return npsym.ndarray((A, B), lambda idx: im.at(*idx) - f(idx), 'f')
        def avg(x): return npsym.average(res(x)**2)
        s0 = avg(start)
        def havoc(k, env):
            st['k'] = k; st['kept'] = bool(k == 0) or bool(E().choose('nothing accepted yet')); x = start if st['kept'] else box('x', (A, B), lo, hi); sc = avg(x); assume(sc <= s0); st['x'] = x
            return dict(mdl=x, dif=res(x), score=sc, i=k if E().loopstate['anneal:0']['generic'] else k - 1)
        def inv(k, env, ask):
            if ask.__name__ != 'ask': return
            x, df, sc = env['mdl'], env['dif'], env['score']; r, q = index('r', A), index('q', B); eq('residual of the model', df.at(r, q), im.at(r, q) - conv(x, ker)((r, q))); ask('score not worse', sc <= s0); eq('score of the model', sc, avg(x)); shape_is('shape', x, (A, B))
            if 'k' not in st: eq('starts from the model', x.at(r, q), start.at(r, q)); return
            if x is st['x']: ask('kept', True)
            else: inbounds(x, lo, hi, r, q); ask('better', sc < avg(st['x']))
        loops.contract('anneal:0', inv, havoc, count=lambda it, env: n, item=lambda k, it, env: k)
        x, info = d.anneal(im, ker, mdl=mdl, maxiter=n, lower=lo, upper=hi, cooling=cooling); r, q, it = common('anneal', x, info, im, ker, A, B, n); prove('inputs unchanged', ver == [a.cell.ver for a in arrs]); prove('every iteration', it == n); prove('term', info['term'] == 'maxiter'); prove('score not worse', info['score'] <= s0); eq('score', info['score'], avg(x))
        if not st['kept']: inbounds(x, lo, hi, r, q)
    def bad(s):
        d, A, B, im, ker, n, lo, hi, mdl, tol = world(s, 'anneal'); assume(n == 1)
        def havoc(k, env): return dict(mdl=env['mdl'], dif=env['dif'], score=env['score'], i=k)
        def inv(k, env, ask):
            if ask.__name__ == 'ask': r, q = index('r', A), index('q', B); v = env['mdl'].at(r, q); ask('always in bounds', b_and(v >= lo, v <= hi))
        loops.contract('anneal:0', inv, havoc, count=lambda it, env: n, item=lambda k, it, env: k); d.anneal(im, ker, mdl=mdl, maxiter=n, lower=lo, upper=hi, cooling=lambda i, x: array('cool', (A, B)))
    S.must_fail('starting models are clipped', bad)
    return S
