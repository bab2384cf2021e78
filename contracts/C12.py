"""add2array: every occurrence of an index is added, for any rank, memory layout and supported type; the C++ loops over the LLVM IR and their Python wrapper."""
from vc.api import *
from vc import llvm, num
from vc.num import Num
from vc.llvm import Ptr, NULL, Block, Undef
from . import cc

TYPES = dict(BOOL=('AddStuff<bool>::addloop', 'i8'), BYTE=('AddStuff<char>::addloop', 'i8'), UBYTE=('AddStuff<unsigned char>::addloop', 'i8'), SHORT=('AddStuff<short>::addloop', 'i16'),
             USHORT=('AddStuff<unsigned short>::addloop', 'i16'), INT=('AddStuff<int>::addloop', 'i32'), UINT=('AddStuff<unsigned int>::addloop', 'i32'), LONG=('AddStuff<long>::addloop', 'i64'),
             ULONG=('AddStuff<unsigned long>::addloop', 'i64'), LONGLONG=('AddStuff<long long>::addloop', 'i64'), ULONGLONG=('AddStuff<unsigned long long>::addloop', 'i64'), FLOAT=('AddStuff<float>::addloop', 'float'),
             DOUBLE=('AddStuff<double>::addloop', 'double'), LONGDOUBLE=('AddStuff<long double>::addloop', 'x86_fp80'), CFLOAT=('AddStuff<float>::caddloop', 'float'), CDOUBLE=('AddStuff<double>::caddloop', 'double'),
             CLONGDOUBLE=('AddStuff<long double>::caddloop', 'x86_fp80'))
class Cells(Block):
    """the elements of an array of any rank, addressed by byte offset; an access is allowed at the element the current index row names"""
    def __init__(self, ty, cx, size): self.name, self.ty, self.off, self.ver = 'a', ty, [0, size] if cx else [0], 0; self.f = None; self.here = None
    def get(self, c, o): return self.f(c, Num.of(o))
    def at(self, m, off, ty):
        if ty != self.ty: prove('access to a has the element type', False); raise PathEnd()
        if self.here is None: prove('access to a without an index', False); raise PathEnd()
        p, ok = self.here()
        for c, o in enumerate(self.off):
            d = off - o - p
            if (d.isconst() and d.const() == 0) or (not d.isconst() and E().valid(SBool.of(d == 0).z)):
                if not prove('index in range at the access', ok): raise PathEnd()
                return c, p
        prove('access to a at the indexed element', False); raise PathEnd()
    def load(self, m, off, ty): c, p = self.at(m, off, ty); return self.f(c, p)
    def store(self, m, off, ty, v):
        c, p = self.at(m, off, ty); old = self.f
        if isinstance(v, Undef): bool(v)
        def f(c2, o):
            if c2 != c: return old(c2, o)
            t = o == p
            return v if (t if isinstance(t, bool) else bool(t)) else old(c2, o)
        self.f = f; self.ver += 1
def build(root, **kw):
    S = Suite(root, {}, **kw)
    S.assumptions += ['floating-point arithmetic treated as real arithmetic', 'fewer than 2^31 index rows', 'sums of signed int, long and long long fit their type', 'arrays aligned, writeable and of native byte order', 'the array added to has distinct elements at distinct offsets and overlaps neither of the others',
                      'termination of the loops is not proved']
    S.trusted += ['clang: the IR is compiled from the current text of aipy/utils/utils.cpp (-O0)', 'IR semantics of vc/llvm.py', 'CPython and numpy C API by contract (contracts/cc.py)']
    W = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k))
    d = {}
    def mod():
        if 'm' not in d: d['m'] = llvm.Module(root, 'utils/utils.cpp')
        return d['m']
    def loop(T):
        fname, ty = TYPES[T]; cx = T.startswith('C') ; m = llvm.Machine(mod()); w = int(ty[1:]) if ty[0] == 'i' else 0
        R, L = integer('rank', 0, 4, ge=0), integer('L', 0, 4, ge=0); assume(L < 2**31); assume(R <= 64)
        es = {'float': 4, 'double': 8, 'x86_fp80': 16}.get(ty, w // 8)
        A = Cells(ty, cx, es); m.blocks.append(A); val = lambda nm: (lambda c, *x: func('%s.%d' % (nm, c), list(x), bool(w), axioms=(lambda a: [a.z >= -(1 << (w - 1)), a.z < (1 << (w - 1))]) if w and T != 'BOOL' else (lambda a: [a.z >= 0, a.z <= 1]) if w else None))
        old = val('a'); A.f = old
        st = [integer('a.stride%d', record=False)]
        dimf = lambda j: func('dim', [j], True, 0, 5, axioms=lambda a: [a.z >= 0]); strf = lambda j: func('stride', [j], True, -8, 8)
        dims = m.array('a.dims', [R], [(0, 'i64')], lambda c, i: dimf(i[0]), strided=False, readonly=True); strs = m.array('a.strides', [R], [(0, 'i64')], lambda c, i: strf(i[0]), strided=False, readonly=True)
        ao = Ptr(m.rec('a', {0: ('i64', Num.of(7)), 16: ('ptr', Ptr(A, 0)), 24: ('i32', R), 32: ('ptr', Ptr(dims, 0)), 40: ('ptr', Ptr(strs, 0))}), 0)
        ind = cc.ndarray(m, 'ind', [L, R], 'LONG', strided=True); IND = ind.b.arr; IND.readonly = True
        dat = m.array('data', [L], [(0, ty), (es, ty)] if cx else [(0, ty)], lambda c, i: val('data')(c, *i), strided=True, readonly=True)
        do = cc.ndarray(m, 'data', [L], T, data=dat)
        def norm(i, j):
            v = IND.get(0, i, j); return v + dimf(j) if bool(v < 0) else v
        P = lambda i, j: func('P', [i, j], True, 0, 9); OK = lambda i, j: func('OK', [i, j], True, 0, 1); G = val('S')
        def plus(x, y):
            if T == 'BOOL': return Num.of(1) if bool(x + y != 0) else Num.of(0)
            if T in ('INT', 'LONG', 'LONGLONG'): r = x + y; assume(b_and(r >= -(1 << (w - 1)), r < (1 << (w - 1)))); return r       # signed sums have to fit their type
            return llvm.wrap(x + y, w) if w else x + y
        k0, k1 = '%s:0' % fname, '%s:1' % fname; s0, s1 = {}, {}
        ncomp = 2 if cx else 1
        def inv0(env, ask):
            i = env['i']; ask('range', b_and(i >= 0, i <= L))
            if ask.__name__ == 'use': return
            o = integer('off', -9, 9)
            if 'i' not in s0:
                ask('first row', i == 0); [eq0(ask, 'array', A.get(c, o), old(c, o)) for c in range(ncomp)]; return
            I = s0['i']; ask('next row', i == I + 1); p = P(I, R)
            if E().choose('the cell named'):
                ask('row valid', OK(I, R) == 1)
                for c in range(ncomp): eq0(ask, 'sum', A.get(c, p), plus(G(c, I, p), dat.get(c, I)))
            else:
                assume(o != p); [eq0(ask, 'other cells', A.get(c, o), G(c, I, o)) for c in range(ncomp)]
        def eq0(ask, nm, a, b): ask(nm, Num.of(a) == Num.of(b))
        def havoc0(env):
            i = integer('i', 0, 3, record=False); s0['i'] = i; A.f = lambda c, o: G(c, i, o); A.ver += 1; A.here = lambda: (P(i, R), OK(i, R) == 1); return dict(i=i)
        def inv1(env, ask):
            i, j, x = env['i'], env['j'], env['index']
            ask('range', b_and(j >= 0, j <= R))
            if not isinstance(x, Ptr) or x.b is not A: ask('points into the array', False); return
            if ask.__name__ == 'use': ask('so far', OK(i, j) == 1); return
            if 'j' not in s1: ask('first dimension', j == 0); eq0(ask, 'start', x.off, 0); return
            J = s1['j']; ask('next dimension', j == J + 1); n = norm(i, J); ask('index in range', b_and(n >= 0, n < dimf(J))); eq0(ask, 'offset', x.off, P(i, J) + n * strf(J))
        def havoc1(env):
            j = integer('j', 0, 3, record=False); s1['j'] = j; i = env['i']; return dict(j=j, index=Ptr(A, P(i, j)))
        m.contract(k0, inv0, havoc0); m.contract(k1, inv1, havoc1)
        r = m.call(fname, [ao, ind, do])
        if bool(r == 0):
            prove('every row was added', 'i' in s0 and (SBool.of(s0['i'] == L))); o = integer('off', -9, 9)
            for c in range(ncomp): eq('cells hold their old value plus every occurrence', A.get(c, o), G(c, L, o))
        else:
            prove('reports an error', r == -1); i, j = s0.get('i'), s1.get('j'); n = norm(i, j); prove('only for an index out of range', b_and(i < L, j < R, b_or(n < 0, n >= dimf(j))))
            o = integer('off', -9, 9); [eq('rows before it are added', A.get(c, o), G(c, i, o)) for c in range(ncomp)]
        prove('indices and data untouched', IND.ver == 0 and dat.ver == 0)
    for T in TYPES:
        @S.fn('utils.%s.%s' % (TYPES[T][0], T), ['utils/utils.cpp:%s' % TYPES[T][0]], W('add'))
        def _(s, T=T): loop(T)
    # ---- wrapper
    def wrap(rank, bad):
        m = llvm.Machine(mod()); calls = []; rvs = []
        def callee(nm): return lambda m, *a: (calls.append((nm, a)), rvs.append(integer('rv', -1, 0)), rvs[-1])[2]
        w = cc.World(m, []); m.ext.update(cc.ext(w)); cc.constants(m)
        for n in set(x[0] for x in TYPES.values()): m.ext[n] = callee(n)
        ta, td, ti = integer('type_a', 0, 24, ge=0), integer('type_data', 0, 24, ge=0), integer('type_ind', 0, 24, ge=0)
        dims = [size('n%d' % k, 0) for k in range(rank)]; L, L2, R2 = size('L', 0), size('L2', 0), size('R2', 0)
        a = cc.ndarray(m, 'a', dims, 'DOUBLE', typenum=ta); sh = {'ind': [L2, R2], 'data': [L]}
        if bad: sh[bad[0]] = [size('q%d' % k, 0) for k in range(bad[1])]
        ind = cc.ndarray(m, 'ind', sh['ind'], 'LONG', typenum=ti); dat = cc.ndarray(m, 'data', sh['data'], 'DOUBLE', typenum=td)
        w.objs = [a, ind, dat]; r = m.call('add2array', [NULL, NULL]); cc.refs('after', a, ind, dat)
        ok = False if bad else b_and(L2 == L, R2 == rank, ti == llvm.NPT['LONG'], ta == td)
        if ok if isinstance(ok, bool) else bool(ok):
            T = next((t for t in TYPES if bool(ta == llvm.NPT[t])), None)
            if T is None: prove('unsupported type refused', r.b is None and w.err is not None and not calls); return
            prove('the loop of this type is run once', len(calls) == 1 and calls[0][0] in same_loops(T)); c = calls[0][1]
            prove('on the three arrays', [x.b for x in c] == [a.b, ind.b, dat.b])
            if bool(rvs[0] == 0): prove('returns None', r.b is m.globals['_Py_NoneStruct'].b and w.err is None)
            else: prove('error reported', r.b is None and w.err is not None)
        else: prove('refused', r.b is None and w.err is not None and not calls)
    def same_loops(T):
        f, ty = TYPES[T]; i = ty[0] == 'i' and T != 'BOOL'      # two's complement addition is the same for signed and unsigned of a size
        return [f] + ([g for t, (g, y) in TYPES.items() if y == ty and t != 'BOOL'] if i else [])
    for rank in (0, 1, 2, 3):
        @S.fn('utils.add2array.%d' % rank, ['utils/utils.cpp:add2array'], W('wrapper'))
        def _(s, rank=rank): wrap(rank, None)
    @S.fn('utils.add2array.ranks', ['utils/utils.cpp:add2array'], W('wrapper'))
    def _(s):
        for b in [('ind', k) for k in (0, 1, 3)] + [('data', k) for k in (2, 3)]:
            if E().choose(str(b)): wrap(2, b); return
        wrap(1, ('data', 0))
    @S.fn('utils.add2array.arguments', ['utils/utils.cpp:add2array'], W('wrapper'))
    def _(s):
        m = llvm.Machine(mod()); w = cc.World(m, [NULL] * 3); m.ext.update(cc.ext(w)); cc.constants(m); w.objs = [cc.ndarray(m, x, [1], 'LONG') for x in 'abc']
        r = m.call('add2array', [NULL, NULL]); prove('arguments are checked to be arrays', w.fmt.startswith('O!O!O!'))
    return S
