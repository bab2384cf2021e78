"""CLEAN: model and residual stay a consistent pair at every exit of the loop; components only where they belong; the C++ loops over the LLVM IR, their wrapper and the Python function."""
from vc.api import *
import types
from vc import llvm, num, npsym, pyload
from . import stubs
from vc.num import Num
from vc.engine import PathEnd
from vc.llvm import Ptr, pm, NULL, Undef
from . import cc

TYPES = [('float', 'float', 'FLOAT', 'CFLOAT'), ('double', 'double', 'DOUBLE', 'CDOUBLE'), ('long double', 'x86_fp80', 'LONGDOUBLE', 'CLONGDOUBLE')]
def lexbefore(x, p):
    """x comes before position p in row order"""
    r = False
    for a, b in reversed(list(zip(x, p))): r = b_or(a < b, b_and(a == b, r))
    return r
def apart(label, f):
    """obligations on a path of their own"""
    if E().choose(label): f(); raise PathEnd()
def build(root, **kw):
    def _deconv(s): m = types.ModuleType('_deconv'); return m
    S = Suite(root, dict(stubs.ALL, _deconv=_deconv), **kw)
    S.assumptions += ['floating-point arithmetic treated as real arithmetic', 'machine integers mathematical: the number of pixels fits an int with room for wrapped indices', 'the kernel is not identically zero; images not empty; the four arrays do not overlap',
                      'the score of the first iteration is not zero when scores are compared to it', 'memory allocation succeeds', 'termination of the loops is not proved']
    S.trusted += ['clang: the IR is compiled from the current text of aipy/_deconv/deconv.cpp (-O0)', 'IR semantics of vc/llvm.py', 'sqrt of the C library by its mathematical meaning', 'CPython and numpy C API by contract (contracts/cc.py)',
                  'bilinearity: adding s at pixel a to the model and s*kernel shifted (circularly) by a to the convolution keeps one the convolution of the other with the kernel']
    S.trusted += ['numpy.fft: ifft(fft(a) fft(k)) (1-D and 2-D) is the circular convolution of a and k', 'numpy array contracts (vc/npsym.py)']
    W = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k))
    d = {}
    def mod():
        if 'm' not in d: d['m'] = llvm.Module(root, '_deconv/deconv.cpp')
        return d['m']
    def run(D, cplx, T, ty, sd):
        name = 'Clean<%s>::clean_%dd_%s' % (T, D, 'c' if cplx else 'r'); m = llvm.Machine(mod()); es = m.mod.size(ty); C = [0, 1] if cplx else [0]
        comps = [(0, ty), (es, ty)] if cplx else [(0, ty)]; n = [integer('n%d' % k, 1, 5, ge=1) for k in range(D)]
        npix = n[0]
        for x in n[1:]: npix = npix * x
        for x in n + [npix]: assume(x < 2**29)
        val = lambda nm: (lambda c, *x: func('%s.%d' % (nm, c), list(x)))
        O = {}
        for nm in ('res', 'ker', 'mdl'): O[nm] = cc.ndarray(m, nm, n, 'DOUBLE', data=m.array(nm, n, comps, f=(lambda nm: lambda c, x: val(nm + '0')(c, *x))(nm), readonly=nm == 'ker'))
        O['area'] = cc.ndarray(m, 'area', n, 'LONG', data=m.array('area', n, [(0, 'i64')], readonly=True))
        res, ker, mdl, area = [O[k].b.arr for k in ('res', 'ker', 'mdl', 'area')]
        res0, mdl0, kerf = val('res0'), val('mdl0'), val('ker0')
        z = [index('nonzero%d' % k, x) for k, x in enumerate(n)]; assume(b_or(*[kerf(c, *z) != 0 for c in C]))
        gain, tol, maxiter = real('gain', 0, 1), real('tol', 0, 1), integer('maxiter', 0, 9)
        stop, posdef, verb = integer('stop_if_div', 0, 1), integer('pos_def', 0, 1), integer('verbose', 0, 1)
        assume(stop != 0 if sd else stop == 0)
        STOP = bool(stop != 0); POS = posdef != 0
        jn = ['n'] if D == 1 else ['n1', 'n2']; an = ['argmax'] if D == 1 else ['argmax1', 'argmax2']
        vn = lambda s: [s + 'r', s + 'i'] if cplx else [s]
        mul = lambda a, b: [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]] if cplx else [a[0] * b[0]]
        sq = lambda a: sum((q * q for q in a), Num.of(0))
        K = lambda x: [kerf(c, *x) for c in C]
        X = lambda t='x': [index('%s%d' % (t, k), s) for k, s in enumerate(n)]
        shift = lambda x, a: [pm(q - b, s) for q, b, s in zip(x, a, n)]
        same = lambda x, y: b_and(*[p == q for p, q in zip(x, y)])
        eq2 = lambda ask, nm, a, b: ask(nm, Num.of(a) == Num.of(b))
        B = {}        # buffers from malloc
        def malloc(m, size):
            r = llvm.Raw('malloc%d' % len(B), size); m.blocks.append(r); B[len(B)] = r
            prove('buffer holds the image', Num.of(size) == npix * es * len(C))
            st = [Num.of(es * len(C))]
            for q in reversed(n[1:]): st.insert(0, st[0] * q)
            r.arr = llvm.Arr(r.name, n, st, comps, lambda c, x: Undef('uninitialised buffer')); m.blocks.append(r.arr); return Ptr(r, 0)
        m.ext['malloc'] = malloc
        # ---- a nest of loops over all pixels
        def nest(base, st, content, vars_=None, use=None, check=None, cells=None):
            """content(pos) -> {array: f(c, x)}; cells(pos) -> {array: cell written in the step at pos}"""
            def level(q):
                s = {}
                def pos_of(env): return [env[jn[k]] for k in range(q + 1)]
                def inv(env, ask):
                    J = pos_of(env); P = J + [Num.of(0)] * (D - q - 1); stage = ask.__name__
                    ask('range', b_and(*[b_and(j >= 0, j < s_ if k < q else j <= s_) for k, (j, s_) in enumerate(zip(J, n))]))
                    if stage == 'use': 
                        if use: use(P)
                        return
                    first = 'j' not in s
                    if first: ask('starts at the first', J[q] == 0)
                    else: ask('one step', J[q] == s['j'] + 1)
                    if first and q == 0 and 'init' in st: st['pre'](env); st['init'](env, ask)
                    step = not first and q == D - 1; last = J[:q] + [s['j']] if not first else None
                    con = content(P, step and last)
                    if check: apart('check', lambda: check(env, ask, P, last if step else None, not first, J[:q] + [s['j'], n[-1]][:D - q] if not first else None))
                    def one(arr, f):
                        x = X('at'); hit = False
                        if step:
                            w = cells(last)[arr]
                            if w is not None:
                                hit = bool(E().choose('the cell written'))
                                if hit: x = w
                                else: assume(b_not(same(x, w)))
                        for c in C:
                            want = f(c, x, hit)
                            if isinstance(want, Undef): continue
                            eq2(ask, arr.name + (' cell' if hit else ''), arr.get(c, *x), want)
                    for arr, f in con.items(): apart(arr.name, lambda: one(arr, f))
                def havoc(env):
                    s['j'] = integer('%s.%d.%d' % (jn[q], base, q), 0, 3, record=False); J = [env[jn[k]] for k in range(q)] + [s['j']]; P = J + [Num.of(0)] * (D - q - 1)
                    dd = {jn[q]: s['j']}
                    if 'init' in st and q == 0: st['pre'](env); st['enter'](env)
                    if vars_: dd.update(vars_(P, q))
                    for b in B.values():
                        if b.arr in content(P, None): b.ver += 1
                    for arr, f in content(P, None).items(): arr.set_all((lambda f: lambda c, x: f(c, x, False))(f))
                    return dd
                m.contract('%s:%d' % (name, base + q), inv, havoc, side=True, fixed=('step', 'stepr', 'stepi'))
            for q in range(D): level(q)
        # ---- kernel peak
        pk = {}
        def kvars(P, q):
            if bool(E().choose('a peak found')):
                pk['p'] = [index('peak%d' % k, s) for k, s in enumerate(n)]; pk['P'] = P; v = K(pk['p']); return dict(zip(vn('q'), v), mq=sq(v))
            pk['p'] = None; pk['P'] = P; return dict({k: Num.of(0) for k in vn('q')}, mq=Num.of(0))
        def kuse(P):
            if pk['p'] is not None: assume(b_and(lexbefore(pk['p'], P), sq(K(pk['p'])) > 0))
            for x in (z,): assume(implies(lexbefore(x, P), sq(K(x)) <= (sq(K(pk['p'])) if pk['p'] is not None else 0)))
        def kcheck(env, ask, P, last, again, end):
            qv = [env[k] for k in vn('q')]; mq = env['mq']; x = X('k')
            if not again and pk.get('P') is None: [eq2(ask, 'no peak yet', v, 0) for v in qv + [mq]]; return
            o = pk['p']
            mo = sq(K(o)) if o is not None else Num.of(0)
            if last is not None:
                new = mq.key() != mo.key()
                here = bool(E().choose('the cell seen'))
                if here: x = last
                else: assume(b_not(same(x, last))); assume(implies(lexbefore(x, last), sq(K(x)) <= mo))
                if new: [eq2(ask, 'peak is the kernel value', v, w) for v, w in zip(qv, K(last))]; ask('peak not zero', mq > 0)
                else: [eq2(ask, 'peak kept', v, w) for v, w in zip(qv, K(o) if o is not None else [0, 0])]
                ask('magnitude', mq == sq(qv))
            else:
                [eq2(ask, 'peak kept', v, w) for v, w in zip(qv, K(o) if o is not None else [0, 0])]; eq2(ask, 'magnitude', mq, mo)
                assume(implies(lexbefore(x, pk['P']), sq(K(x)) <= mo))
            ask('no larger kernel value so far', implies(lexbefore(x, P), sq(K(x)) <= mq))
        def kcontent(P, last): return {}
        nest(0, {}, kcontent, kvars, kuse, kcheck)
        # ---- the clean loop
        H = {}
        def peak():
            return K(pk['p']) if pk['p'] is not None else [Num.of(0)] * len(C)
        def pair(tag): return (lambda c, x: mdl0(c, *x) + val('D' + tag)(c, *x)), (lambda c, x: res0(c, *x) - val('R' + tag)(c, *x))
        def elig(x, v): return b_and(area.get(0, *x) != 0, True if cplx else b_or(b_not(POS), v[0] > 0))
        def oinv(env, ask):
            i = env['i']; stage = ask.__name__
            if stage == 'use': return
            a = [env[k] for k in an]; mx = [env[k] for k in vn('max')]; x = X('o')
            if 'i' not in H:
                eq2(ask, 'first iteration', i, 0); [eq2(ask, 'first step at the origin', v, 0) for v in a]; [eq2(ask, 'first step is of zero size', v, 0) for v in mx]
                for k in an: eq2(ask, 'no candidate yet', env['n' + k], 0)
                for k in ('score', 'firstscore', 'best_score'): eq2(ask, k, env[k], -1)
                q_ = [env[k] for k in vn('q')]; one = mul(q_, peak()); eq2(ask, 'inverse of the kernel peak', one[0], 1)
                if cplx: eq2(ask, 'inverse of the kernel peak (imaginary)', one[1], 0)
                for c in C: eq2(ask, 'model', mdl.get(c, *x), mdl0(c, *x)); eq2(ask, 'residual', res.get(c, *x), res0(c, *x))
                return
            # one iteration later
            ask('iteration counted', i == H['i'] + 1 if STOP else b_or(i == H['i'] + 1, i == 1)); ask('within the limit', b_and(i >= 1, i <= maxiter))
            ns = M['ns'](); sc = H['score']
            div = b_and(sc > 0, ns > sc)
            if STOP: ask('divergence stops the loop', b_not(div))
            ask('convergence stops the loop', b_or(div, b_not(b_and(sc > 0, sc - ns < tol * H['firstscore']))))
            eq2(ask, 'first score', env['firstscore'], H['firstscore'] if bool(H['firstscore'] >= 0) else ns)
            eq2(ask, 'score is the rms residual', env['score'], ns)
            for k in an: eq2(ask, 'candidate becomes the next pixel', env[k], env['n' + k])
            apart('residual', lambda: [eq2(ask, 'residual', res.get(c, *x), M['N'](c, x)) for c in C])
            apart('model', lambda: [eq2(ask, 'model', mdl.get(c, *x), M['mdl'](c, x)) for c in C])
            apart('next pixel', lambda: nextpixel(a, mx, x, ask))
            bs = env['best_score']
            if STOP: eq2(ask, 'no buffer', bs, -1); return
            if bs.key() == H['best'].key():
                if H['saved']:
                    apart('buffered model', lambda: [eq2(ask, 'buffered model', B[0].arr.get(c, *x), pair('B')[0](c, x)) for c in C])
                    for c in C: eq2(ask, 'buffered residual', B[1].arr.get(c, *x), pair('B')[1](c, x))
            else:
                ask('buffer is of a scored state', b_and(bs == sc, bs > 0))
                apart('buffered residual', lambda: [eq2(ask, 'buffered residual', B[1].arr.get(c, *x), H['res'](c, x)) for c in C])
                at = M['a']
                if E().choose('at the pixel of the step'): x = at
                else: assume(b_not(same(x, at)))
                for c in C: eq2(ask, 'buffered model', B[0].arr.get(c, *x), H['mdl'](c, x))
        def nextpixel(a, mx, x, ask):
            assume(M['claim'](x)) ; v = [M['N'](c, x) for c in C]
            ask('next pixel in the image', b_and(*[b_and(p >= 0, p < s) for p, s in zip(a, n)]))
            if M['g'] is None:
                [eq2(ask, 'no step where no pixel qualifies', v_, 0) for v_ in mx]; ask('no pixel qualifies', b_not(elig(x, v)))
            else:
                [eq2(ask, 'step from the residual of that pixel', v_, res.get(c, *a)) for c, v_ in enumerate(mx)]
                ask('next pixel inside the area', area.get(0, *a) != 0)
                if not cplx: ask('next pixel positive', b_or(b_not(POS), mx[0] > 0))
                ask('no larger residual inside the area', implies(elig(x, v), sq(v) <= sq(mx)))
        def ohavoc(env):
            dd = {}
            i = integer('iter', 0, 5, ge=0); sc = real('score', -1, 5); f = real('firstscore', -1, 5); first = b_and(i == 0, sc == -1, f == -1)
            P = pair('H'); a = X('argmax'); saved = not STOP and E().choose('a state is buffered'); best = Num.of(-1)
            assume(b_and(i >= 1, i <= maxiter, sc >= 0, f > 0) if saved else b_or(first, b_and(i >= 1, i <= maxiter, sc >= 0, f > 0)))
            if saved: best = real('best_score', 0.1, 5); assume(best > 0)
            H.update(i=i, score=sc, firstscore=f, best=best, saved=saved, mdl=P[0], res=P[1], a=a, max=[real('max%d' % c) for c in C])
            dd = dict(i=i, score=sc, firstscore=f, best_score=best)
            if env.has('nscore'): dd['nscore'] = sc
            if saved: B[0].arr.set_all(pair('B')[0]); B[1].arr.set_all(pair('B')[1])
            for b in B.values(): b.ver += 1
            if not STOP and not H['saved']: [b.arr.set_all(lambda c, x: Undef('empty buffer')) for b in B.values()]
            dd.update(zip(an, H['a'])); dd.update(zip(['n' + k for k in an], H['a'])); dd.update(zip(vn('max'), H['max']))
            mdl.set_all(H['mdl']); res.set_all(H['res']); return dd
        m.contract('%s:%d' % (name, D), oinv, ohavoc, side=True)
        # ---- subtracting the step from the residual
        M = dict(g=None)
        G = lambda P: func('G', list(P)); Nf = val('N')
        M['N'] = lambda c, x: Nf(c, *x)
        M['ns'] = lambda: num.sqrt(G([M['P'][0], n[1]] if D == 2 and False else M['end']) / npix)
        def define(x, k):
            """the definition of N at x, k being x shifted back by the pixel of the step"""
            v = mul(K(k), M['s'])
            for c in C: assume(Nf(c, *x) == H['res'](c, x) - v[c])
        def mpre(env): M['a'] = H['a']; M['raw'] = [env[k] for k in vn('step')]; M['s'] = [real('s%d' % c) for c in C]
        def minit(env, ask):
            st = M['raw']
            want = mul(st, peak())
            for c in C: eq2(ask, 'step times kernel peak is gain times residual', want[c], gain * H['max'][c])
        def menter(env): 
            v = mul(M['s'], peak())
            for c in C: assume(v[c] == gain * H['max'][c])
        st_m = dict(pre=mpre, init=minit, enter=menter)
        def mcontent(P, last):
            a = H['a']
            def r(c, x, hit):
                if hit: define(x, last); return Nf(c, *x)
                b = lexbefore(shift(x, a), P); return Nf(c, *x) if (b if isinstance(b, bool) else bool(b)) else H['res'](c, x)
            s = M['s'] if M.get('entered') else M['raw']
            def md(c, x, hit): t = same(x, a); return H['mdl'](c, x) + (s[c] if (t if isinstance(t, bool) else bool(t)) else 0)
            return {res: r, mdl: md}
        M['mdl'] = lambda c, x: mcontent([Num.of(0)] * D, None)[mdl](c, x, False)
        def mvars(P, q):
            M['entered'] = True; M['P'] = P
            dd = dict(zip(vn('step'), M['s'])); dd['nscore'] = G(P)
            if E().choose('a candidate'):
                M['g'] = [index('g%d.%d' % (q, k), s) for k, s in enumerate(n)]; v = [Nf(c, *M['g']) for c in C]
                dd.update(zip(vn('max'), v)); dd['mmax'] = sq(v); dd.update(zip(['n' + k for k in an], M['g']))
            else:
                M['g'] = None; dd.update({k: Num.of(0) for k in vn('max')}); dd['mmax'] = Num.of(-1); dd.update(zip(['n' + k for k in an], H['a']))
            return dd
        def claimat(P, g):
            def f(x):
                v = [Nf(c, *x) for c in C]; done = lexbefore(shift(x, H['a']), P)
                if g is None: return implies(done, b_not(elig(x, v)))
                return implies(b_and(done, elig(x, v)), sq(v) <= sq([Nf(c, *g) for c in C]))
            return f
        def muse(P):
            g = M['g']; M['claim'] = claimat(P, g); M['end'] = P
            if g is not None: assume(b_and(lexbefore(shift(g, H['a']), P), elig(g, [Nf(c, *g) for c in C])))
        def mcheck(env, ask, P, last, again, end):
            a = H['a']; g = M['g']; mx = [env[k] for k in vn('max')]; mm = env['mmax']; na = [env['n' + k] for k in an]; x = X('c')
            if not M.get('entered'):
                eq2(ask, 'score starts at zero', env['nscore'], 0); [eq2(ask, 'no candidate', v, 0) for v in mx]; eq2(ask, 'no candidate magnitude', mm, -1)
                for u, v in zip(na, a): eq2(ask, 'candidate pixel', u, v)
                assume(G([Num.of(0)] * D) == 0); return
            for k, v in zip(vn('step'), M['s']): eq2(ask, 'step kept', env[k], v)
            G0 = G(M['P'])
            if last is None:
                eq2(ask, 'score kept', env['nscore'], G0); eq2(ask, 'candidate magnitude kept', mm, sq([Nf(c, *g) for c in C]) if g is not None else -1)
                for c, v in enumerate(mx): eq2(ask, 'candidate kept', v, Nf(c, *g) if g is not None else 0)
                for u, v in zip(na, g if g is not None else a): eq2(ask, 'candidate pixel kept', u, v)
                assume(M['claim'](x)); v = [Nf(c, *x) for c in C]
                ask('best so far', implies(lexbefore(shift(x, a), P), implies(elig(x, v), sq(v) <= mm) if g is not None else b_not(elig(x, v)))); return
            w = cells(last)[res]; ask('the cell is the one this kernel cell lands on', same(shift(w, a), last))
            v = [res.get(c, *w) for c in C]
            eq2(ask, 'score adds the squared residual', env['nscore'] - G0, sq(v))
            if mm.key() != (sq([Nf(c, *g) for c in C]) if g is not None else Num.of(-1)).key():
                for u, t in zip(na, w): eq2(ask, 'new candidate pixel', u, t)
                for u, t in zip(mx, v): eq2(ask, 'new candidate residual', u, t)
                eq2(ask, 'new candidate magnitude', mm, sq(v)); ask('new candidate qualifies', elig(w, v))
            else:
                for c, u in enumerate(mx): eq2(ask, 'candidate kept', u, Nf(c, *g) if g is not None else 0)
                for u, t in zip(na, g if g is not None else a): eq2(ask, 'candidate pixel kept', u, t)
            if E().choose('the pixel compared'): x = w; ux = v
            else: assume(b_not(same(x, w))); assume(M['claim'](x)); ux = [Nf(c, *x) for c in C]
            none = mm.isconst()
            ask('best so far', implies(lexbefore(shift(x, a), P), b_not(elig(x, ux)) if none else implies(elig(x, ux), sq(ux) <= mm)))
        def cells(last):
            w = [pm(p + q, s) for p, q, s in zip(last, H['a'], n)]; return {res: w, mdl: None}
        nest(D + 1, st_m, mcontent, mvars, muse, mcheck, cells)
        # ---- undoing it
        U = {}
        def ucontent(P, last):
            def r(c, x, hit):
                if hit: define(x, last); return H['res'](c, x)
                b = lexbefore(shift(x, H['a']), P); return H['res'](c, x) if (b if isinstance(b, bool) else bool(b)) else Nf(c, *x)
            return {res: r}
        def ucheck(env, ask, P, last, again, end):
            U['on'] = True
            if last is not None: w = cells(last)[res]; ask('the cell is the one this kernel cell lands on', same(shift(w, H['a']), last))
        nest(2 * D + 1, {}, ucontent, None, None, ucheck, cells)
        # ---- buffering the state before the step
        Q = {}
        def bcontent(P, last):
            if 'old' not in Q: Q['old'] = [B[0].arr.snapshot(), B[1].arr.snapshot()]
            o = Q['old']
            def bm(c, x, hit):
                if hit: return mdl.get(c, *x)
                b = lexbefore(x, P); return mdl.get(c, *x) if (b if isinstance(b, bool) else bool(b)) else o[0](c, *x)
            def br(c, x, hit):
                if hit: define(x, last); return H['res'](c, x)
                b = lexbefore(shift(x, H['a']), P); return H['res'](c, x) if (b if isinstance(b, bool) else bool(b)) else o[1](c, *x)
            return {B[0].arr: bm, B[1].arr: br}
        nest(3 * D + 1, {}, bcontent, None, None, ucheck, lambda last: {B[0].arr: last, B[1].arr: cells(last)[res], res: cells(last)[res]})
        # ---- copying the buffered state
        def fcontent(P, last):
            Q['final'] = True
            if 'fm' not in Q: Q['fm'], Q['fr'] = mdl.snapshot(), res.snapshot()
            def cp(src, old):
                def f(c, x, hit):
                    if hit: return src.get(c, *x)
                    b = lexbefore(x, P); return src.get(c, *x) if (b if isinstance(b, bool) else bool(b)) else old(c, *x)
                return f
            return {mdl: cp(B[0].arr, Q['fm']), res: cp(B[1].arr, Q['fr'])}
        nest(4 * D + 1, {}, fcontent, None, None, None, lambda last: {mdl: last, res: last})
        rv = m.call(name, [O['res'], O['ker'], O['mdl'], O['area'], gain, maxiter, tol, stop, verb, posdef])
        x = X('end')
        for b in B.values(): prove('%s freed' % b.name, b.freed)
        cc.refs('after', *O.values())
        def state(nm, mf, rf):
            apart('model', lambda: [eq('%s: model' % nm, mdl.get(c, *x), mf(c, x)) for c in C])
            for c in C: eq('%s: residual is the dirty residual less the kernel convolved with what was added' % nm, res.get(c, *x), rf(c, x))
        if not M.get('entered'):
            eq('exhaustion reported', rv, maxiter)
            if Q.get('final'): state('best state restored', *pair('B'))
            else: state('exhausted', H['mdl'], H['res'])
            return
        ns, sc = M['ns'](), H['score']
        if bool(b_and(sc > 0, ns > sc)):
            prove('leaves on divergence only if asked', STOP); eq('divergence reported', rv, -H['i'])
            if E().choose('at the pixel of the step'): x = H['a']
            else: assume(b_not(same(x, H['a'])))
            state('step undone', H['mdl'], H['res'])
        else:
            prove('converged', b_and(sc > 0, sc - ns < tol * H['firstscore'])); eq('convergence reported', rv, H['i'])
            state('converged', M['mdl'], lambda c, x: M['N'](c, x))
    for T, ty, r, c in TYPES:
        for D in (1, 2):
            for cx in (False, True):
                nm = 'Clean<%s>::clean_%dd_%s' % (T, D, 'c' if cx else 'r')
                for sd in (1, 0):        # the two cases of the flag, explored apart
                    @S.fn('deconv.%s%s' % (nm, ', stopping' if sd else ''), ['_deconv/deconv.cpp:%s' % nm], W('clean'))
                    def _(s, T=T, ty=ty, D=D, cx=cx, sd=sd): run(D, cx, T, ty, sd)
    # ---- the wrapper
    def wrapper(rank, bad):
        m = llvm.Machine(mod()); calls = []; rvs = []
        def callee(nm): return lambda m, *a: (calls.append((nm, a)), rvs.append(integer('rv', -3, 3)), rvs[-1])[2]
        names = {'Clean<%s>::clean_%dd_%s' % (T, D, 'c' if cx else 'r'): (D, llvm.NPT[c if cx else r]) for T, ty, r, c in TYPES for D in (1, 2) for cx in (False, True)}
        w = cc.World(m, []); m.ext.update(cc.ext(w)); cc.constants(m)
        for nm in names: m.ext[nm] = callee(nm)
        nms = ['res', 'ker', 'mdl', 'area']; tn = {k: integer('type_' + k, 0, 24, ge=0) for k in nms}; A = {}; dims = {}
        for k in nms:
            r = bad[1] if bad and bad[0] == k else rank; dims[k] = [size('%s_n%d' % (k, q), 0) for q in range(r)]
            for x in dims[k]: assume(x < 2**31)
            A[k] = cc.ndarray(m, k, dims[k], 'DOUBLE', typenum=tn[k])
        opt = [real('gain', 0, 1), integer('maxiter', 0, 9), real('tol', 0, 1), integer('stop_if_div', 0, 1), integer('verbose', 0, 1), integer('pos_def', 0, 1)]
        given = 6 if E().choose('options given') else 0
        for o in (opt[1], opt[3], opt[4], opt[5]): assume(b_and(o >= -2**31, o < 2**31))
        w.objs = [A[k] for k in nms] + opt[:given]
        r = m.call('clean', [NULL, NULL, NULL]); cc.refs('after', *A.values())
        prove('arguments are checked to be arrays', w.fmt.startswith('O!O!O!O!')); prove('names of the arguments', w.kw == ['res', 'ker', 'mdl', 'area', 'gain', 'maxiter', 'tol', 'stop_if_div', 'verbose', 'pos_def'])
        ok = False if bad or rank not in (1, 2) else b_and(*[dims[k][q] == dims['res'][q] for k in nms[1:] for q in range(rank)] + [x > 0 for x in dims['res']] + [tn['ker'] == tn['res'], tn['mdl'] == tn['res'], tn['area'] == llvm.NPT['LONG']])
        if ok if isinstance(ok, bool) else bool(ok):
            fits = [nm for nm, (D, t) in names.items() if D == rank and bool(tn['res'] == t)]
            if not fits: prove('unsupported type refused', r.b is None and w.err is not None and not calls) if isinstance(r, Ptr) else prove('unsupported type refused', False); return
            prove('the loop of this type and rank is run once', len(calls) == 1 and calls[0][0] == fits[0]); a = list(calls[0][1])
            prove('on the four arrays', [x.b for x in a[:4]] == [A[k].b for k in nms])
            want = opt if given else [.1, 200, .001, 0, 0, 0]
            for k, (x, y) in enumerate(zip(a[4:], want)): prove('option %d' % k, x == y if given else abs(float(x.const()) - float(y)) < 1e-12)
            prove('options complete', len(a) == 10)
            prove('returns the count of the loop', isinstance(r, tuple) and r[1] == 'i' and SBool.of(Num.of(r[2][0]) == rvs[0]) if isinstance(r, tuple) else False)
        else: prove('refused', isinstance(r, Ptr) and r.b is None and w.err is not None and not calls)
        prove('arrays not touched by the wrapper', all(A[k].b.arr.ver == 0 for k in nms))
    for rank in (0, 1, 2, 3):
        @S.fn('deconv.clean.wrapper.%d' % rank, ['_deconv/deconv.cpp:clean'], W('wrapper'))
        def _(s, rank=rank): wrapper(rank, None)
    @S.fn('deconv.clean.wrapper.ranks', ['_deconv/deconv.cpp:clean'], W('wrapper'))
    def _(s):
        bs = [(rk, (k, q)) for rk in (1, 2) for k in ('ker', 'mdl', 'area') for q in range(4) if q != rk]
        for rk, b in bs[1:]:
            if E().choose('%s %s' % (rk, b)): wrapper(rk, b); return
        wrapper(*bs[0])
    # ---- the Python function
    class FT:
        def __init__(self, a, D): self.a, self.D = a, D
        def __mul__(self, o):
            if not isinstance(o, FT): raise Unsupported('arithmetic on a transform')
            return Prod(self, o)
    class Prod:
        def __init__(self, x, y): self.x, self.y = x, y
    def python(s, D, start, cx, ar):
        d = s.load('deconv'); convs = []; kind = 'c' if cx else 'f'
        def fft(D): return lambda a: FT(npsym.asarray(a).copy(), D)
        def ifft(D):
            def f(p):
                if not isinstance(p, Prod) or not p.x.D == p.y.D == D: raise Unsupported('inverse transform of this')
                for a in (p.x.a, p.y.a):
                    if a.ndim != D: raise Unsupported('transform over some axes only')
                if not all(npsym.dim_eq(x, y) for x, y in zip(p.x.a._shape, p.y.a._shape)): raise ValueError('operands could not be broadcast together')
                k = len(convs); convs.append((p.x.a, p.y.a)); return npsym.ndarray(p.x.a._shape, lambda idx: SComplex(func('conv%d.re' % k, list(idx)), func('conv%d.im' % k, list(idx))), 'c')
            return f
        ns = types.SimpleNamespace(**{k: getattr(s.L.npm, k) for k in dir(s.L.npm) if not k.startswith('__')})
        ns.fft = types.SimpleNamespace(fft=fft(1), ifft=ifft(1), fft2=fft(2), ifft2=ifft(2)); d.np = ns
        n = [size('n%d' % k, 1) for k in range(D)]; q = [index('q%d' % k, n[k]) for k in range(D)]; im, ker = array('im', n, kind), array('ker', n, kind); mdl = array('mdl', n, kind) if start else None
        area = {None: None, 'f': array('area', n, 'f'), 'i': array('area', n, 'i'), 'b': array('area', n, 'b')}[ar] if ar else None
        arrs = [a for a in (im, ker, mdl, area) if a is not None]; ver = [a.cell.ver for a in arrs]; rv = integer('rv', -5, 5); calls = []
        after = {}
        def cl(res, ker_, mdl_, area_, gain=.1, maxiter=200, tol=.001, stop_if_div=0, verbose=0, pos_def=0):
            calls.append((res, ker_, mdl_, area_))
            shape_is('residual shape', res, n); shape_is('model shape', mdl_, n); shape_is('area shape', area_, n)
            prove('kinds', (res.dtype.kind, mdl_.dtype.kind, ker_.dtype.kind) == (kind, kind, kind) and area_.dtype.kind == 'i' and area_.dtype == npsym.int_)
            eq('kernel', ker_.at(*q), ker.at(*q)); eq('area', area_.at(*q), 1 if area is None else area.astype(npsym.int_).at(*q))
            if start:
                prove('one convolution', len(convs) == 1); a, k = convs[0]
                u, v = SComplex.of(a.at(*q)), SComplex.of(mdl.at(*q))
                if not bool(b_and(u.re == v.re, u.im == v.im)): a, k = k, a
                eq('starting model convolved', a.at(*q), mdl.at(*q)); eq('with the kernel', k.at(*q), ker.at(*q)); c = (func('conv0.re', q), func('conv0.im', q)); c = SComplex(*c) if cx else c[0]
                eq('residual of the starting model', res.at(*q), im.at(*q) - c); eq('model', mdl_.at(*q), mdl.at(*q))
            else: eq('residual of an empty model', res.at(*q), im.at(*q)); eq('empty model', mdl_.at(*q), 0)
            own = [res.cell, mdl_.cell]; prove('own storage', own[0] is not own[1] and not any(x is a.cell for x in own for a in arrs) and area_.cell not in own)
            prove('option gain', gain is G['gain']); prove('option maxiter', maxiter is G['maxiter']); prove('option tol', tol is G['tol'])
            for nm, v in (('stop_if_div', stop_if_div), ('verbose', verbose), ('pos_def', pos_def)): prove('option ' + nm, type(v) is int and v == int(G[nm]))
            for nm, a in (('res', res), ('mdl', mdl_)): after[nm] = array(nm + '1', n, kind); a[...] = after[nm]
            return rv
        d._deconv.clean = cl
        G = dict(gain=.1, maxiter=10000, tol=1e-3, stop_if_div=True, verbose=False, pos_def=False); given = E().choose('options given')
        if given:
            G = dict(gain=real('gain', 0, 1), maxiter=integer('maxiter', 1, 9), tol=real('tol', 0, 1), stop_if_div=bool(E().choose('stop')), verbose=False, pos_def=bool(E().choose('positive')))
            x, info = d.clean(im, ker, mdl=mdl, area=area, **G)
        else:
            G = types.SimpleNamespace(**G); dd = dict(zip(['mdl', 'area', 'gain', 'maxiter', 'tol', 'stop_if_div', 'verbose', 'pos_def'], d.clean.__defaults__))
            for k, v in vars(G).items(): prove('default of ' + k, Num.of(dd[k]) == Num.of(v)); setattr(G, k, dd[k])
            G = vars(G); x, info = d.clean(im, ker, mdl=mdl, area=area)
        prove('the loop is run once', len(calls) == 1); prove('inputs unchanged', ver == [a.cell.ver for a in arrs])
        shape_is('model returned', x, n); eq('model returned', x.at(*q), after['mdl'].at(*q)); eq('residual returned', info['res'].at(*q), after['res'].at(*q))
        prove('success', SBool.of(info['success']) == b_and(rv > 0, rv < G['maxiter'])); prove('tolerance', info['tol'] is G['tol'])
        if bool(rv < 0): prove('divergence', info['term'] == 'divergence'); eq('iterations', info['iter'], -rv)
        elif bool(rv < G['maxiter']): prove('tolerance reached', info['term'] == 'tol'); eq('iterations', info['iter'], rv)
        else: prove('iterations exhausted', info['term'] == 'maxiter'); eq('iterations', info['iter'], rv)
        eq('score', info['score'], npsym.sqrt(npsym.average(npsym.absolute(info['res'])**2)))
    for D in (1, 2):
        for cx in (False, True):
            for start in (False, True):
                @S.fn('deconv.clean.%dd%s%s' % (D, '.complex' if cx else '', '.model' if start else ''), ['deconv.clean'], W('python'))
                def _(s, D=D, cx=cx, start=start):
                    python(s, D, start, cx, None if E().choose('whole image') else 'i' if E().choose('int') else 'f' if E().choose('float') else 'b')
    @S.fn('deconv.clean.rank', ['deconv.clean'], W('python'))
    def _(s):
        d = s.load('deconv'); n = [size('n%d' % k, 1) for k in range(3)]; im, ker, mdl = [array(nm, n) for nm in ('im', 'ker', 'mdl')]
        def no(*a, **k): prove('a model of another rank never reaches the loop', False)
        d._deconv.clean = no; prove('a model of another rank is refused', raises(ValueError, lambda: d.clean(im, ker, mdl=mdl)))
    return S
