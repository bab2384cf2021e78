"""Sky maps: weighted accumulation at distinct pixels from an arbitrary earlier state; facet centres and bit reversal for every N."""
import types
from vc.api import *
from vc import npsym, loops
from vc.loops import contract
from . import stubs, hp

SHUF = {}
def random_stub(session):
    """random.shuffle rearranges its argument in place by a permutation (any)"""
    m = types.ModuleType('random_contract'); m.seed = lambda *a: None
    def shuffle(x):
        if not isinstance(x, npsym.ndarray) or x.ndim != 1: raise Unsupported('shuffle of %s' % type(x))
        n = x._shape[0]; f = x.copy_fn(); e = E(); e.fresh += 1; t = 'shuf%d' % e.fresh
        def s(k):
            v = func(t, [k], True, 0, 1); e.assume(v >= 0); e.assume(v < Num.of(n)); e.assume(func(t + 'inv', [v], True, 0, 1) == Num.of(k)); return v
        x[...] = npsym.ndarray((n,), lambda idx: f((npsym.nidx(s(Num.of(idx[0]))),)), x.kind)
    m.shuffle = shuffle
    def ga(n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('random.' + n)
    m.__getattr__ = ga
    return m

def build(root, **kw):
    S = Suite(root, dict(stubs.ALL, healpy=hp.healpy, utils=hp.utils, random=random_stub), transforms=dict(map=loops.transform('_local_shuffle', '_bit_reverse')), **kw)
    S.assumptions += ['floating-point arithmetic treated as real arithmetic', 'pixels addressed in one call are distinct and in range; weights are not negative; interpolation is off while adding', 'maps hold floating-point data', 'FITS input and output are not covered']
    S.trusted += ['HealpixMap.__setitem__ at distinct pixels by its contract (decided by C17)', 'healpy contracts (contracts/hp.py)', 'random.shuffle permutes its argument in place',
                  'a one-to-one map of a finite set into itself is onto (and two finite sets with one-to-one maps both ways have the same size)', 'right shift: x>>(k+1) = (x>>k)>>1, 2**(k+1) = 2*2**k, 2**floor(log2 n) <= n < 2**(floor(log2 n)+1)',
                  'numpy array contracts (vc/npsym.py)', 'termination of loops is not proved']
    W = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k))
    SCH = ['RING', 'NEST']
    # ---- maps
    class World:
        def __init__(self, s, nind=None, mode='pixels', tag='', nside=None, noset=False):
            self.m = s.load('map'); self.h = s.load('healpix')
            self.n = nside if nside is not None else hp.nside_sym('nside' + tag); self.sch = SCH[1 if E().choose('nested' + tag) else 0]; self.N = hp.npix_of(self.n)
            self.ni = nind if nind is not None else sum(bool(E().choose('index map %d' % i)) for i in range(2))
            self.M = self.m.Map(nside=self.n, scheme=self.sch, nindices=[None, 1, 2][self.ni] if self.ni else None)
            prove('number of index maps', len(self.M.ind) == self.ni)
            self.d = {}
            for nm, h in self.maps():
                shape_is('new ' + nm, h.map, (self.N,)); eq('new %s is zero' % nm, h.map.at(index('q0', self.N)), 0); prove('scheme', h.scheme() == self.sch)
                d = self.d[nm] = array(tag + nm, (self.N,), 'f', 0 if nm == 'W' else -3, 3, axioms=(lambda a: [a.z >= 0]) if nm == 'W' else None); h.map = d
        def maps(self): return [('W', self.M.wgt), ('F', self.M.map)] + [('I%d' % k, x) for k, x in enumerate(self.M.ind)]
        def invariant(self, i):
            """what every earlier history guarantees: nothing is stored where the weight is zero"""
            for nm in self.d:
                if nm != 'W': assume(implies(self.d['W'].at(i) == 0, self.d[nm].at(i) == 0))
        def key(self, mode):
            """distinct pixels, with the inverse of k -> pixel"""
            c = self.c = size('n', 1); n, sch = self.n, self.sch
            inv = lambda v: func('slot', [Num.of(v)], True, 0, 3)
            if mode == 'pixels':
                px = array('px', (c,), 'i', 0, 11); k = px; raw = lambda j: px.at(j)
                E().universals.append(((c,), lambda j: b_and(px.at(j[0]) >= 0, px.at(j[0]) < self.N)))
            else:
                xs = [array('c%d' % i, (c,)) for i in range(2 if mode == 'ang' else 3)]; k = tuple(xs)
                def raw(j):
                    r = hp.pxf('ang2pix' if mode == 'ang' else 'vec2pix', n, [x.at(j) for x in xs]); return hp.r2n(n, r) if sch == 'NEST' else r
            def pix(j):
                instantiate(Num.of(j)); v = raw(j); assume(inv(v) == Num.of(j)); return v
            self.pix, self.inv, self.kind = pix, inv, mode
            def hit(i):
                j = inv(i); return b_and(j >= 0, j < Num.of(c), raw(j) == i)
            self.hit = hit
            def setitem(hm, key, val):
                if not (key is k or (isinstance(key, tuple) and key == k)): raise Unsupported('pixels other than those handed in')
                if not isinstance(val, npsym.ndarray) or val.ndim != 1: raise Unsupported('value')
                if not npsym.dim_eq(val._shape[0], c): raise ValueError('sizes')
                old, new = hm.map.copy_fn(), val.copy_fn(); self.sets += 1
                def el(idx):
                    i = Num.of(idx[0])
                    if bool(SBool.of(hit(i))): return npsym.castk(new((npsym.nidx(inv(i)),)), 'f')
                    return old(idx)
                hm.map = npsym.ndarray(hm.map._shape, el, 'f')
            self.sets = 0; type.__setattr__(self.h.HealpixMap, '__setitem__', setitem)
            return k
        def state(self, i):
            for nm, h in self.maps(): prove('floating-point ' + nm, h.map.kind == 'f')
            return {nm: h.map.at(i) for nm, h in self.maps()}
        def average(self, what, i, S):
            """reading pixel i gives the averages S = (w, {map: weighted sum})"""
            q = npsym.array([i]) if False else npsym.ndarray((1,), lambda idx: i, 'i'); r = self.M[q]; w, sums = S
            fl, ind = (r, []) if self.ni == 0 else r
            prove(what + ': number of indices', len(ind) == self.ni)
            for nm, v in [('F', fl)] + [('I%d' % k, x) for k, x in enumerate(ind)]:
                x = v.at(0)
                if w > 0: eq('%s: average %s' % (what, nm), x * w, sums[nm])
                else: eq('%s: %s without weight' % (what, nm), x, 0)
    for mode in ('pixels', 'ang', 'vec'):
        for op in ('add', 'put'):
            @S.fn('map.Map.%s.%s' % (op, mode), ['map.Map.' + op, 'map.Map.__getitem__', 'map.Map.get', 'map.Map.__init__', 'map.Map.set_nindices', 'healpix.HealpixMap.__getitem__'], W('history'))
            def _(s, mode=mode, op=op):
                w = World(s); k = w.key(mode); wt = array('wt', (w.c,), 'f', 0, 3, axioms=lambda a: [a.z >= 0]); fl = array('fl', (w.c,)); inds = [array('in%d' % j, (w.c,)) for j in range(w.ni)]
                ver = [x.cell.ver for x in [wt, fl] + inds]
                if w.ni == 0 and E().choose('without the list'): getattr(w.M, op)(k, wt, fl)
                else: getattr(w.M, op)(k, wt, fl, inds)
                prove('inputs unchanged', ver == [x.cell.ver for x in [wt, fl] + inds])
                vals = dict([('F', fl)] + [('I%d' % j, x) for j, x in enumerate(inds)])
                if E().choose('a pixel that is addressed'):
                    k0 = index('k0', w.c); i = w.pix(k0); w.invariant(i); st = w.state(i); old = {nm: (d.at(i) if op == 'add' else Num.of(0)) for nm, d in w.d.items()}
                    eq('weight', st['W'], old['W'] + wt.at(k0))
                    for nm, x in vals.items(): eq('weighted ' + nm, st[nm], old[nm] + x.at(k0) * wt.at(k0))
                    w.average('read', i, (old['W'] + wt.at(k0), {nm: old[nm] + x.at(k0) * wt.at(k0) for nm, x in vals.items()}))
                    if st['W'] == 0:
                        for nm in vals: eq('nothing without weight ' + nm, st[nm], 0)
                else:
                    i = index('i', w.N); assume(b_not(w.hit(i))); w.invariant(i); st = w.state(i)
                    for nm, v in st.items(): eq('others keep ' + nm, v, w.d[nm].at(i))
                    w.average('read elsewhere', i, (w.d['W'].at(i), {nm: w.d[nm].at(i) for nm in vals}))
        @S.fn('map.Map.get.' + mode, ['map.Map.get', 'map.Map.__getitem__'], W('history'))
        def _(s, mode=mode):
            w = World(s); k = w.key(mode); k0 = index('k0', w.c); i = w.pix(k0); w.invariant(i)
            g = w.M.get(k); prove('three parts', len(g) == 3 and len(g[2]) == w.ni); eq('weight', g[0].at(k0), w.d['W'].at(i)); eq('weighted flux', g[1].at(k0), w.d['F'].at(i))
            for j, x in enumerate(g[2]): eq('weighted index', x.at(k0), w.d['I%d' % j].at(i))
            r = w.M[k]; fl, ind = (r, []) if w.ni == 0 else r
            for nm, x in [('F', fl)] + [('I%d' % j, x) for j, x in enumerate(ind)]:
                if w.d['W'].at(i) > 0: eq('average ' + nm, x.at(k0) * w.d['W'].at(i), w.d[nm].at(i))
                else: eq('zero ' + nm, x.at(k0), 0)
            prove('map unchanged', all(h.map is w.d[nm] and h.map.cell.ver == 0 for nm, h in w.maps()))
    @S.fn('map.Map.reset_wgt', ['map.Map.reset_wgt', 'map.Map.__getitem__'], W('reset'))
    def _(s):
        w = World(s); i = index('i', w.N); w.invariant(i); old = {nm: d.at(i) for nm, d in w.d.items()}
        if E().choose('default'): c = Num.of(1); w.M.reset_wgt()
        else: c = real('c', .1, 3); assume(c > 0); w.M.reset_wgt(c)
        st = w.state(i)
        if old['W'] > 0:
            eq('weight', st['W'], c)
            w.average('read', i, (old['W'], {nm: v for nm, v in old.items() if nm != 'W'}))
        else:
            eq('still no weight', st['W'], 0)
            for nm in old:
                if nm != 'W': eq('still nothing in ' + nm, st[nm], 0)
            w.average('read', i, (Num.of(0), {}))
    @S.fn('map.Map.from_map', ['map.Map.from_map', 'healpix.HealpixMap.from_hpm'], W('copy'))
    def _(s):
        a = World(s, nind=1); b = World(s, nind=1, tag='b', nside=a.n); b.M.from_map(a.M); r = hp.pxf('vec2pix', a.n, [real('dx'), real('dy'), real('dz')]); p = {'RING': r, 'NEST': hp.r2n(a.n, r)}
        for (nm, x), (_, y) in zip(a.maps(), b.maps()): eq('value of a direction ' + nm, y.map.at(p[b.sch]), a.d[nm].at(p[a.sch])); prove('source ' + nm, x.map is a.d[nm] and x.map.cell.ver == 0)
    @S.fn('map.Map.set_nindices', ['map.Map.set_nindices', 'map.Map.set_interpol'], W('copy'))
    def _(s):
        w = World(s, nind=1); i = index('i', w.N); w.M.set_nindices(3); prove('more', len(w.M.ind) == 3); eq('kept', w.M.ind[0].map.at(i), w.d['I0'].at(i)); eq('new', w.M.ind[2].map.at(i), 0); prove('like the map', w.M.ind[2].scheme() == w.sch and len(set(map(id, w.M.ind))) == 3)
        w.M.set_nindices(None); prove('none', len(w.M.ind) == 3); w.M.set_nindices(1); prove('fewer', len(w.M.ind) == 1); eq('kept', w.M.ind[0].map.at(i), w.d['I0'].at(i))
        w.M.set_interpol(True); prove('all', all(h._use_interpol for _, h in w.maps())); w.M.set_interpol(False); prove('none', not any(h._use_interpol for _, h in w.maps()))
    # ---- points on the sphere
    @S.fn('map.pack_sphere', ['map.pack_sphere'], W('sphere'))
    def _(s):
        m = s.load('map'); N = size('N', 1); p = m.pack_sphere(N); shape_is('points', p, (3, N)); k = index('k', N); x, y, z = [p.at(c, k) for c in range(3)]
        eq('length', x * x + y * y + z * z, 1); eq('height', z, (2 * k + 1 - N) / Num.of(N)); j = index('j', N); assume(j > k); prove('from south to north', p.at(2, j) > z)
        prove('strictly inside', b_and(z > -1, z < 1))
    @S.fn('map._bit_reverse', ['map._bit_reverse'], W('bits'))
    def _(s):
        m = s.load('map'); n = size('nbits', 1); P = num.pow2; i, j = index('i', P(n)), index('j', P(n)); sh = num.shr
        arr = npsym.arange(P(n))
        el = lambda ans, x: npsym.asarray(ans).at(x) if isinstance(ans, npsym.ndarray) else Num.of(ans)
        A = lambda k, x: func('rev', [Num.of(k), Num.of(x)], True, 0, 3)
        e = E()
        def lemmas(k):
            for x in (i, j): assume(sh(x, k) == 2 * sh(x, k + 1) + sh(x, k) % 2)
            assume(P(k + 1) == 2 * P(k))
            if n - k >= 1: assume(P(n - k) == 2 * P(n - k - 1))
        def inv(k, env, ask):
            ans = env['ans']; first = k.key() == Num.of(0).key()
            B = {}
            for x in (i, j):
                if first: B[x.key()] = Num.of(0)
                elif 'A' in st and ask is not None and (k - 1).key() == st['k'].key(): B[x.key()] = 2 * A(st['k'], x) + sh(x, st['k']) % 2
                else: B[x.key()] = A(k, x)
            q = n - k
            for nm, x in (('i', i), ('j', j)):
                b = B[x.key()]; v = el(ans, x); ask('value ' + nm, v == P(q) * b); ask('bits so far ' + nm, b_and(b >= 0, b < P(k))); ask('bits left ' + nm, b_and(sh(x, k) >= 0, sh(x, k) < P(q)))
            ask('different', implies(b_and(B[i.key()] == B[j.key()], sh(i, k) == sh(j, k)), i == j))
        st = {}
        def havoc(k, env):
            st['k'] = k; st['A'] = 1; lemmas(k)
            q = n - k
            def f(idx):
                x = Num.of(idx[0]); return P(q) * A(k, x)
            return dict(ans=npsym.ndarray((npsym.nidx(P(n)),), f, 'i'))
        contract('_bit_reverse:0', inv, havoc, count=lambda it, env: it.hi, item=lambda k, it, env: k)
        r = m._bit_reverse(arr, nbits=n); shape_is('one for each', r, (P(n),))
        a, b = r.at(i), r.at(j); prove('in range', b_and(a >= 0, a < P(n)))
        if i == j: pass
        else: prove('no index twice', b_not(a == b))
    @S.fn('map._bit_reverse_order', ['map._bit_reverse_order'], W('bits'))
    def _(s):
        m = s.load('map'); E().mono = E().pc; N = size('N', 1); P = num.pow2; box = {}
        def rv(x):
            v = func('rv', [x], True, 0, 3); assume(v >= 0); assume(v < box['P']); assume(func('rvinv', [v], True, 0, 3) == Num.of(x)); return v
        def contract_(ind, nbits=None):
            if nbits is None: raise Unsupported('nbits')
            b = Num.of(nbits); box['b'] = b; assume(P(b) == 2 * P(b - 1)); box['P'] = P(b); k = npsym.fresh_index(ind._shape[0], 'chk')
            prove('all indices of nbits bits', b_and(Num.of(ind._shape[0]) == P(b), ind.at(k) == k)); f = ind.copy_fn()
            return npsym.ndarray(ind._shape, lambda idx: rv(Num.of(f(idx))), 'i')
        c = modular(m, '_bit_reverse', contract_)
        r = m._bit_reverse_order(N); using(c); prove('enough bits', box['P'] >= N); M = Num.of(r._shape[0])
        k, l = index('k', M), index('l', M); a, b = r.at(k), r.at(l); prove('in range', b_and(a >= 0, a < N))
        if k == l: pass
        else: prove('no index twice', b_not(a == b))
        # onto: the slot of an arbitrary index
        v = index('v', N); x = func('rvinv', [v], True, 0, 3); assume(b_and(x >= 0, x < box['P'], rv(x) == v))
        t = npsym.fresh_index(M, 'slot'); M2, pi, mask = npsym.last_map(); prove('every index below N is kept', mask.at(x)); assume(pi(t) == x)
        eq('every index', r.at(t), v)
    @S.fn('map._local_shuffle', ['map._local_shuffle'], W('shuffle'))
    def _(s):
        m = s.load('map'); N = size('N', 1); dflt = bool(E().choose('default width')); w = Num.of(2) if dflt else Num.of([1, 3, 5][bool(E().choose('3')) + bool(E().choose('5'))]); L = npsym.arange(N); L.cell.memo = {}
        i, j = index('i', N), index('j', N)
        def inv(k, env, ask):
            x = env['L']; a, b = x.at(i), x.at(j)
            ask('in range', b_and(a >= 0, a < N, b >= 0, b < N)); ask('different', implies(a == b, i == j)); ask('near', num.floordiv(a, w) == num.floordiv(i, w)); ask('later ones untouched', implies(i >= w * k, a == i))
        def havoc(k, env):
            e = E(); e.fresh += 1; t = 'L%d' % e.fresh
            def f(idx):
                x = Num.of(idx[0]); v = func(t, [x], True, 0, 3); assume(v >= 0); assume(v < N); assume(func(t + 'inv', [v], True, 0, 3) == x); assume(num.floordiv(v, w) == num.floordiv(x, w)); assume(implies(x >= w * k, v == x)); return v
            L.cell.f = f; L.cell.memo = {}; L.cell.ver += 1
            return dict(L=L)
        contract('_local_shuffle:0', inv, havoc, count=lambda it, env: it.hi, item=lambda k, it, env: k)
        m._local_shuffle(L) if dflt else m._local_shuffle(L, w)
        a, b = L.at(i), L.at(j); prove('in range', b_and(a >= 0, a < N)); prove('moved within its chunk', num.floordiv(a, w) == num.floordiv(i, w))
        if i == j: pass
        else: prove('nothing twice', b_not(a == b))
    @S.fn('map.facet_centers', ['map.facet_centers'], W('facets'))
    def _(s):
        m = s.load('map'); N = size('N', 1); bij = {}
        def perm(t, x):
            v = func(t, [x], True, 0, 3); assume(v >= 0); assume(v < N); assume(func(t + 'inv', [v], True, 0, 3) == Num.of(x)); return v
        def shuf(L, width=2):
            f = L.copy_fn(); L.cell.f = lambda idx: f((npsym.nidx(perm('sh', Num.of(idx[0]))),)); L.cell.memo = {}; L.cell.ver += 1
        c1 = modular(m, '_local_shuffle', shuf)
        def order(n): prove('all N', Num.of(n) == N); return npsym.ndarray((npsym.nidx(N),), lambda idx: perm('br', Num.of(idx[0])), 'i')
        c2 = modular(m, '_bit_reverse_order', order)
        def sphere(n): prove('N points', Num.of(n) == N); return npsym.ndarray((3, npsym.nidx(N)), lambda idx: func('pt%d' % idx[0] if isinstance(idx[0], int) else 'pt', [Num.of(idx[1])], False, -1, 1), 'f')
        c3 = modular(m, 'pack_sphere', sphere)
        two = bool(E().choose('angles'))
        if two:
            rd = lambda p: npsym.ndarray((2, p._shape[1]), lambda idx, f=p.copy_fn(): func('radec%s' % idx[0], [Num.of(f((c, idx[1]))) for c in range(3)], False, -3, 3), 'f')
            co = s.load('coord'); modular(co, 'eq2radec', rd)
        r = m.facet_centers(N) if two and E().choose('default') else m.facet_centers(N, ncrd=2 if two else 3); using(c1, c2, c3)
        k = index('k', N); p = perm('sh', perm('br', k)); pt = [func('pt%d' % c, [p], False, -1, 1) for c in range(3)]
        shape_is('one per point', r, (2 if two else 3, N))
        if two:
            for c in range(2): eq('angle %d' % c, r.at(c, k), func('radec%d' % c, pt, False, -3, 3))
        else:
            for c in range(3): eq('coordinate %d' % c, r.at(c, k), pt[c])
        j = index('j', N)
        if k == j: pass
        else: prove('no point twice', b_not(perm('sh', perm('br', j)) == p))
        prove('other coordinate counts refused', raises(AssertionError, lambda: m.facet_centers(N, ncrd=4)))
    def bad(s):
        w = World(s, nind=0); k = w.key('pixels'); wt = array('wt', (w.c,), 'f', 0, 3, axioms=lambda a: [a.z >= 0]); fl = array('fl', (w.c,)); w.M.add(k, wt, fl); k0 = index('k0', w.c); i = w.pix(k0); eq('replaces', w.M.map.map.at(i), fl.at(k0) * wt.at(k0))
    S.must_fail('adding replaces', bad)
    return S
