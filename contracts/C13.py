"""Gridding and degridding onto periodic buffers: the C functions for any buffer shape, footprint, number and position of samples, and their Python wrappers."""
import math
from vc.api import *
from vc import llvm, num
from vc.num import Num
from vc.llvm import Ptr, pm, NULL
from . import cc

K1, K2 = math.sqrt(2 / math.pi), 2 / math.pi
def build(root, **kw):
    S = Suite(root, {}, **kw)
    S.assumptions += ['floating-point arithmetic treated as real arithmetic (positions and weights are rounded to single precision by the code)', 'machine integers mathematical (no overflow of long)',
                      'positions finite, footprint not negative, buffers not empty, the arrays handed in do not overlap', 'termination of the loops is not proved']
    S.trusted += ['clang: the IR is compiled from the current text of aipy/_dsp/*.c (-O0)', 'IR semantics of vc/llvm.py', 'exp, floor, ceil of the C library by their mathematical meaning', 'CPython and numpy C API by contract (contracts/cc.py)']
    W = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k))
    grid = []
    def module(f):
        d = {}
        def get():
            if 'm' not in d: d['m'] = llvm.Module(root, f)
            return d['m']
        return get
    GRID, DSP = module('_dsp/grid/grid.c'), module('_dsp/dsp.c')
    def scaled(nm, got, unit, K):
        """got = k * unit for the weight constant k"""
        got, unit = Num.of(got), Num.of(unit)
        if got.n and len(got.n) == len(unit.n):
            r = got / unit
            if r.isconst() and abs(float(r.const()) - K) < 1e-6: prove(nm, True); return
        eq(nm, got, unit * K)
    def run(name, dims, cplx, degrid=False, const=False):
        m = llvm.Machine(GRID()); n = [integer('n%d' % k, 1, 5, ge=1) for k in range(dims)]; L = integer('L', 0, 4, ge=0); fp = integer('footprint', 0, 6, ge=0)
        cs = [(0, 'float'), (4, 'float')] if cplx else [(0, 'float')]; cn = [0, 1] if cplx else [0]
        C = [real('const.re'), real('const.im')]
        buf = m.array('buf', n, cs, strided=False, readonly=degrid, f=(lambda c, i: C[c]) if const else None)
        ind = [m.array('ind%d' % k, [L], [(0, 'float')], strided=False, readonly=True) for k in range(dims)]
        dat = m.array('data', [L], cs, strided=False, readonly=not degrid)
        b0, d0 = buf.snapshot(), dat.snapshot(); h = num.floordiv(fp, Num.of(2))
        lo = lambda k, i: num.floor(ind[k].get(0, i) - h); hi = lambda k, i: num.ceil(ind[k].get(0, i) + h)
        keys = ['%s:%d' % (name, k) for k in range(dims + 1)]; jn = ['j'] if dims == 1 else ['j1', 'j2']; D = dims
        def lv(env): return env['i'], [env[x] for x in jn]
        # ---- ghost sums: U[k](c, i, j_1..j_k, cell) contributions of sample i from the cells before j_k in the current row(s)
        def gfun(tag): return lambda c, *a: func('%s.%d' % (tag, c), list(a))
        U = [gfun('G')] + [gfun('H%d' % k) for k in range(1, D + 1)]
        T = [None] + [gfun('T%d' % k) for k in range(1, D + 1)]; A = gfun('A'); TW = gfun('TW')
        def weight(i, js): return num.exp(-2 * sum((ind[k].get(0, i) - js[k])**2 for k in range(D)))
        def level(q):
            """contract of the loop at depth q: 0 over samples, then over the cells of each axis"""
            st = {}
            def vars_of(env):
                i = env['i']; return i, [env[jn[k]] for k in range(q)]
            def content(i, js):
                if not degrid: return lambda c, x: b0(c, *x) + U[0](c, i, *x) + sum((U[k](c, i, *(list(js[:k]) + list(x))) for k in range(1, q + 1)), Num.of(0))
                def f(c, x):
                    before = x[0] < i
                    if before if isinstance(before, bool) else bool(before): return A(c, x[0])
                    if q and bool(x[0] == i): return C[c] * tot(i, js) if const else sum((U[k](c, i, *js[:k]) for k in range(1, q + 1)), Num.of(0))
                    return d0(c, *x)
                return f
            def tot(i, js): return sum((T[k](0, i, *js[:k]) for k in range(1, q + 1)), Num.of(0))
            arr = dat if degrid else buf
            def inv(env, ask):
                i, js = vars_of(env); stage = ask.__name__
                if stage == 'use':
                    ask('range', b_and(i >= 0, i <= L if q == 0 else i < L, *[b_and(js[k] >= lo(k, i), js[k] <= hi(k, i) + (1 if k == q - 1 else 0)) for k in range(q)]))
                    if const and degrid and q: ask('positive', tot(i, js) >= 0); [ask('begun', b_or(js[q - 1] == lo(q - 1, i), tot(i, js) > 0)) ] 
                    return
                first = 'i' not in st
                cells = [index('q%d' % k, d) for k, d in enumerate(arr.shape)]
                if first and not degrid or first and q == 0:       # arrival at the loop
                    pass
                ask('range', b_and(i >= 0, i <= L if q == 0 else i < L, *[b_and(js[k] >= lo(k, i), js[k] <= hi(k, i) + (1 if k == q - 1 else 0)) for k in range(q)]))
                if not first: ask('one step', (i if q == 0 else js[q - 1]) == st['i'] + 1)
                elif q: ask('first cell', js[q - 1] == lo(q - 1, i))
                else: ask('first sample', i == 0)
                I = st['i'] if q == 0 and not first else i; J = js[:q - 1] + [st['i']] if q and not first else js
                k0 = cells[0] if degrid else None; written = False
                if not degrid and not first and q == D:
                    target = [pm(j, d) for j, d in zip(J, n)]; written = bool(E().choose('the cell written'))
                    if written: cells = target
                    else: t = b_not(b_and(*[x == y for x, y in zip(cells, target)])); assume(t)
                for c in cn:
                    v = arr.get(c, *cells)
                    if not degrid:
                        old = b0(c, *cells) + sum((U[k](c, I, *(J[:k] + cells)) for k in range(0, q + (0 if first else 1))), Num.of(0))
                        if first and q == 0: old = b0(c, *cells)
                        if first: eq2(ask, 'buffer', v, old); continue
                        if q == D:
                            if written: scaled('loop %s preserve cell' % keys[q], v - old, weight(I, J) * dat.get(c, I), K1 if D == 1 else K2)
                            else: eq2(ask, 'other cells', v, old)
                        else:        # everything the inner loop adds
                            e = hi(q, I) + 1; eq2(ask, 'buffer', v, old + U[q + 1](c, I, *(J + [e] + cells)))
                    else:
                        if bool(k0 != I):
                            b = bool(k0 < I); eq2(ask, 'other samples', v, A(c, k0) if b else d0(c, k0)); continue
                        tw = env['tot_wgt'] if q else None
                        if first:
                            if q == 0: eq2(ask, 'data', v, d0(c, k0)); continue
                            z = sum((U[k](c, I, *J[:k]) for k in range(1, q)), Num.of(0)); t = sum((T[k](0, I, *J[:k]) for k in range(1, q)), Num.of(0))
                            eq2(ask, 'data', v, C[c] * t if const else z); eq2(ask, 'weights', tw, t); continue
                        if q == D:
                            z = sum((U[k](c, I, *J[:k]) for k in range(1, q + 1)), Num.of(0)); t = tot(I, J); w = weight(I, J)
                            if const: eq2(ask, 'data', v, C[c] * tw); ask('positive', tw > t)
                            else: scaled('loop %s preserve data' % keys[q], v - z, w * buf.get(c, *[pm(j, d) for j, d in zip(J, n)]), K2)
                            scaled('loop %s preserve weights' % keys[q], tw - t, w, K2)
                        elif q:
                            e = hi(q, I) + 1; z = sum((U[k](c, I, *J[:k]) for k in range(1, q + 1)), Num.of(0)) + U[q + 1](c, I, *(J + [e])); t = tot(I, J) + T[q + 1](0, I, *(J + [e]))
                            if const: eq2(ask, 'data', v, C[c] * tw); ask('positive', tw > 0)
                            else: eq2(ask, 'data', v, z)
                            eq2(ask, 'weights', tw, t)
                        else:
                            e = hi(0, I) + 1
                            if const: eq2(ask, 'the constant', v, C[c])
                            else: eq2(ask, 'weighted mean', v * T[1](0, I, e), U[1](c, I, e))
            def havoc(env):
                d = {}
                if q == 0: d['i'] = integer('i', 0, 3, record=False); i, js = d['i'], []
                else:
                    i = env['i']; js = [env[jn[k]] for k in range(q - 1)]; d[jn[q - 1]] = integer(jn[q - 1] + '_', -3, 3, record=False); js = js + [d[jn[q - 1]]]
                    if degrid: d['tot_wgt'] = tot(i, js)
                st['i'] = d['i'] if q == 0 else js[-1]
                arr.set_all(content(i, js))
                return d
            m.contract(keys[q], inv, havoc)
        def eq2(ask, nm, a, b): ask(nm, Num.of(a) == Num.of(b))
        for q in range(D + 1): level(q)
        args = [Ptr(buf, 0)] + n + [Ptr(x, 0) for x in ind] + [Ptr(dat, 0), L, fp]
        for k in range(D): pass
        r = m.call(name, args)
        prove('returns success', r == 0)
        cells = [index('q%d' % k, d) for k, d in enumerate((dat if degrid else buf).shape)]
        for c in cn:
            if not degrid: eq('every cell holds its old value plus all contributions', buf.get(c, *cells), b0(c, *cells) + U[0](c, L, *cells))
            elif const: pass
            else: eq('every sample done', dat.get(c, *cells), A(c, *cells))
        prove('sample positions untouched', all(x.ver == 0 for x in ind)); prove('input untouched', (buf if degrid else dat).ver == 0)
    for nm, dims, cplx in (('grid1D_r', 1, False), ('grid1D_c', 1, True), ('grid2D_c', 2, True)):
        @S.fn('grid.%s' % nm, ['_dsp/grid/grid.c:%s' % nm], W('grid'))
        def _(s, nm=nm, dims=dims, cplx=cplx): run(nm, dims, cplx)
    @S.fn('grid.degrid2D_c', ['_dsp/grid/grid.c:degrid2D_c'], W('degrid'))
    def _(s): run('degrid2D_c', 2, True, True)
    @S.fn('grid.degrid2D_c.constant', ['_dsp/grid/grid.c:degrid2D_c'], W('degrid'))
    def _(s): run('degrid2D_c', 2, True, True, True)
    # ---- wrappers
    def wrap(wname, fname, names, bad):
        dims = 1 if '1D' in wname else 2
        calls = []; rvs = []
        def callee(m, *a): calls.append(a); rvs.append(integer('rv', 0, 1)); return rvs[-1]
        m = llvm.Machine(DSP()); w = cc.World(m, []); m.ext.update(cc.ext(w)); m.ext[fname] = callee; cc.constants(m)
        wrong = None if bad is None else names[bad[0]]; objs = []; good = []
        tn = {}; L = size('L', 0); n = [size('n%d' % k, 0) for k in range(dims)]
        for x in names:
            sh = list(n) if x == 'buf' else [L if bad is None and x == names[-1] else size('L' + x, 0) if bad is None else L]
            if x == wrong and bad[1] == 'rank': sh = [size('r%d' % k, 0) for k in range(bad[2])]
            fl = cc.FLAGS
            if x == wrong and bad[1] == 'flags': fl = cc.FLAGS & ~bad[2]
            bo = ord('=')
            if x == wrong and bad[1] == 'order': bo = ord('>')
            t = 'FLOAT' if x.startswith('ind') else 'CFLOAT'; tn[x] = integer('type_' + x, 0, 20, ge=0)
            objs.append(cc.ndarray(m, x, sh, t, flags=fl, byteorder=bo, typenum=tn[x]))
        w.objs = list(objs); fp = integer('fp', 0, 9)
        given = E().choose('footprint given')
        if given: w.objs.append(fp)
        r = m.call(wname, [NULL, NULL])
        cc.refs('after', *objs)
        ok = b_and(*[tn[x] == llvm.NPT['FLOAT' if x.startswith('ind') else 'CFLOAT'] for x in names])
        arrs = dict(zip(names, objs))
        if bad is not None: prove('refused', w.err is not None and r.b is None and not calls); return
        ok = b_and(ok, *[arrs[x].b.arr.shape[0] == L for x in names if x != 'buf'])
        if w.err == 'overflow': prove('footprint does not fit', r.b is None and not calls); return
        if bool(ok):
            prove('the gridding function is called once', len(calls) == 1); a = list(calls[0])
            want = [arrs['buf'].b.arr] + [arrs[x].b.arr for x in names if x.startswith('ind')] + [arrs[names[-1]].b.arr]
            ptrs = [x for x in a if isinstance(x, llvm.Ptr)]; nums = [x for x in a if not isinstance(x, llvm.Ptr)]
            prove('on the data of the arrays', len(ptrs) == len(want) and all(x.b is y for x, y in zip(ptrs, want))); [eq('from their start', x.off, 0) for x in ptrs]
            prove('dimensions', len(nums) == dims + 2); [eq('buffer dimension %d' % k, nums[k], n[k]) for k in range(dims)]; eq('number of samples', nums[dims], L)
            eq('footprint', nums[-1], fp if given else 6)
            if bool(rvs[0] == 0): prove('returns None', r.b is m.globals['_Py_NoneStruct'].b and w.err is None)
            else: prove('error reported', r.b is None and w.err is not None)
        else: prove('refused', w.err is not None and r.b is None and not calls)
        prove('data not changed by the wrapper', all(o.b.arr.ver == 0 for o in objs))
    for nm, names in (('grid1D_c', ['buf', 'ind', 'dat']), ('grid2D_c', ['buf', 'ind1', 'ind2', 'dat']), ('degrid2D_c', ['buf', 'ind1', 'ind2', 'dat'])):
        dims = 1 if '1D' in nm else 2
        bads = [None] + [(k, 'rank', r) for k, x in enumerate(names) for r in range(4) if r != (dims if x == 'buf' else 1)] + [(k, 'flags', f) for k in range(len(names)) for f in (1, 0x100)] + [(k, 'order') for k in range(len(names))]
        @S.fn('dsp.wrap_%s' % nm, ['_dsp/dsp.c:wrap_%s' % nm], W('wrapper'))
        def _(s, nm=nm, names=names): wrap('wrap_' + nm, nm, names, None)
        @S.fn('dsp.wrap_%s.refusals' % nm, ['_dsp/dsp.c:wrap_%s' % nm], W('wrapper'))
        def _(s, nm=nm, names=names, bads=bads):
            for b in bads[1:-1]:
                if E().choose(str(b)): wrap('wrap_' + nm, nm, names, b); return
            wrap('wrap_' + nm, nm, names, bads[-1])
    return S
