"""Source catalogues: phs.SrcCatalog.add_srcs / get_srcs / get_crds / get / compute and amp.SrcCatalog.get_jys / update_jys, for any number of sources
(loops cut at invariants, comprehensions element by element), with the real RadioBody.get_crds and get_jys of each source."""
from vc.api import *
from vc import npsym, loops, seq
from . import stubs
from .arr import *

def build(root, **kw):
    T = dict(phs=loops.transform('SrcCatalog.add_srcs', 'SrcCatalog.compute'), amp=loops.transform('SrcCatalog.update_jys'))
    S = Suite(root, stubs.ALL, transforms=T, **kw)
    S.assumptions += ['contract of dict: a lookup returns what was last stored under that name; keys() and values() enumerate every entry once, in the same order', 'floating-point arithmetic treated as real arithmetic',
                      'sources given as separate arguments (rather than in a list): zero to four of them (bounded)']
    S.trusted += ['numpy array contracts (vc/npsym.py)', 'ephem body and Observer contracts (contracts/stubs.py)']
    W = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k))
    class Name(seq.Sym):
        """a source name: equal when the (integer) identities are equal"""
        def __init__(self, i): self.i = Num.of(i)
        def __eq__(self, o): return isinstance(o, Name) and bool(self.i == o.i)
        def __ne__(self, o): return not self.__eq__(o)
        def __hash__(self): raise Unsupported('hash of a name')
    def source(m, k, cls='RadioFixedBody', nf=None):
        """the k-th source: every attribute an arbitrary function of k"""
        k = Num.of(k); s = object.__new__(getattr(m, cls)); d = s.__dict__
        for n in ('ra', 'dec', 'az', 'alt', 'mfreq', '_jys', 'index'): d[n] = func('src_' + n, [k])
        d['ionref'] = [func('src_dra', [k]), func('src_ddec', [k])]; d['srcshape'] = [func('src_a1', [k]), func('src_a2', [k]), func('src_th', [k])]
        d['src_name'] = Name(func('name', [k], True, 0, 5)); d['vk'] = k
        if nf is not None: d['jys'] = npsym.ndarray((nf,), lambda ix: func('src_jys', [k, ix[0]]), 'f')
        return s
    def catalogue(m, n, mk, old=None):
        """a catalogue of n sources under distinct names; mk(k) the k-th; or, with old, one whose content is described by old(name)"""
        class Cat(m.SrcCatalog):
            def __setitem__(self, k, v):
                if not isinstance(k, Name): raise Unsupported('key')
                self.ver += 1; self.w.append((k, v))
            def lookup(self, name):
                for k, v in reversed(self.w):
                    if k == name: return v.vk
                return old(name)
            def __getitem__(self, k):
                if not isinstance(k, Entry) or self.w: raise Unsupported('lookup')
                return mk(k.k)
            def keys(self): return seq.SymList(n, lambda k: Entry(k))
            def values(self): return seq.SymList(n, mk)
            def items(self): return seq.SymList(n, lambda k: (Entry(k), mk(k)))
            def __iter__(self): raise Unsupported('loop over a catalogue without a loop contract')
            def __len__(self): raise Unsupported('len')
            def __symlen__(self): return n
            def get(self, *a, **k): return m.SrcCatalog.get(self, *a, **k)
        c = Cat.__new__(Cat); c.w = []; c.ver = 0
        return c
    class Entry:
        """the name of entry k of a catalogue with distinct names"""
        def __init__(self, k): self.k = Num.of(k)
    # ---- filing
    def last(x, k): return func('last', [x, k], True, -1, 4)
    def filing(s, how):
        m = s.load('phs'); n = integer('n', 0, 4, ge=0); x = Name(integer('x', 0, 5))
        old0 = func('before', [x.i], True, -9, -1)
        state = dict(k=Num.of(0))
        def old(name): return last(name.i, state['k'])
        cat = catalogue(m, None, None, old)
        assume(last(x.i, 0) == old0)      # what was filed under x before
        def inv(k, env, ask):
            if env.get('self', cat) is not cat: ask('same catalogue', False)
            # definition of last, unrolled where the body used it
            ask('newest source under the name', cat.lookup(x) == last(x.i, k))
        def havoc(k, env): cat.w = []; state['k'] = k; return dict(self=cat)
        def item(k, it, env):
            if it is not L: raise Unsupported('iteration over something else')
            nm = func('name', [k], True, 0, 5); assume(implies(nm == x.i, last(x.i, k + 1) == k)); assume(implies(b_not(nm == x.i), last(x.i, k + 1) == last(x.i, k)))
            return source(m, k)
        L = seq.SymList(n, lambda k: source(m, k))
        loops.contract('SrcCatalog.add_srcs:0', inv, havoc, count=lambda it, env: n, item=item)
        if how == 'list': cat.add_srcs(L)
        else:
            state['clear'] = True; old0 = None
            m.SrcCatalog.__init__(cat, L)
        prove('after filing', cat.lookup(x) == last(x.i, n))
    @S.fn('phs.add_srcs.list', ['phs.SrcCatalog.add_srcs'], W('filing'))
    def _(s): filing(s, 'list')
    @S.fn('phs.SrcCatalog.init', ['phs.SrcCatalog.__init__', 'phs.SrcCatalog.add_srcs'], W('filing'))
    def _(s): filing(s, 'init')
    for n in range(5):
        @S.fn('phs.add_srcs.args%d' % n, ['phs.SrcCatalog.add_srcs (separate arguments: bounded)'], W('filing'))
        def _(s, n=n):
            m = s.load('phs'); x = Name(integer('x', 0, 5)); cat = catalogue(m, None, None, lambda nm: Num.of(-1)); S_ = [source(m, Num.of(k)) for k in range(n)]
            if n: cat.add_srcs(*S_)
            else: cat.add_srcs(); cat.add_srcs([])
            want = Num.of(-1)
            for k in range(n):
                if S_[k].src_name == x: want = Num.of(k)
            prove('newest under the name', cat.lookup(x) == want)
    @S.fn('phs.add_srcs.same', ['phs.SrcCatalog.add_srcs', 'phs.SrcCatalog.get_srcs', 'phs.SrcCatalog.__init__'], W('filing'))
    def _(s):
        m = s.load('phs')
        B = [m.RadioFixedBody(real('r' + t), real('d' + t), name=t) for t in ('a', 'b', 'c', 'a')]
        C = [m.SrcCatalog(), m.SrcCatalog(B), m.SrcCatalog(*B), m.SrcCatalog(B[:2])]
        for b in B: C[0].add_srcs(b)
        C[3].add_srcs(*B[2:])
        for c in C:
            prove('names in order', list(c.keys()) == ['a', 'b', 'c']); prove('own source', c['a'] is B[3] and c['b'] is B[1] and c['c'] is B[2])
            prove('all', c.get_srcs() == [B[3], B[1], B[2]]); prove('one', c.get_srcs('b') == [B[1]]); prove('two', c.get_srcs('c', 'a') == [B[2], B[3]])
            prove('list', c.get_srcs(['c', 'a', 'c']) == [B[2], B[3], B[2]]); prove('empty list', c.get_srcs([]) == []); prove('tuple', c.get_srcs(('b',)) == [B[1]])
            prove('missing', raises(KeyError, lambda: c.get_srcs('zz')) and raises(KeyError, lambda: c.get_srcs(['a', 'zz'])))
        prove('empty', m.SrcCatalog().get_srcs() == [] and len(m.SrcCatalog([])) == 0)
    # ---- listing
    def listing(s, mod, cls='RadioFixedBody', named=True, nf=None):
        m = s.load(mod); n = integer('n', 1, 4, ge=1); cat = catalogue(m, n, lambda k: source(m, k, cls, nf))
        if named:
            q = integer('q', 1, 4, ge=1)
            sel = lambda p: func('sel', [p], True, 0, 3, axioms=lambda a: [a.z >= 0])
            return m, cat, seq.SymList(q, lambda p: Entry(sel(Num.of(p)))), q, sel
        return m, cat, None, n, lambda p: Num.of(p)
    for named in (True, False):
        tag = 'named' if named else 'all'
        @S.fn('phs.get_srcs.' + tag, ['phs.SrcCatalog.get_srcs'], W('listing'))
        def _(s, named=named):
            m, cat, names, q, sel = listing(s, 'phs', named=named)
            r = cat.get_srcs(names) if named else cat.get_srcs()
            p = integer('p', 0, 3, ge=0); assume(p < q)
            prove('a list', isinstance(r, seq.SymList)); prove('as many', r.n == q); eq('source', r.f(p).vk, sel(p))
        for crd in ('eq', 'top'):
            for ncrd in (2, 3):
                @S.fn('phs.get_crds.%s%d.%s' % (crd, ncrd, tag), ['phs.SrcCatalog.get_crds', 'phs.RadioBody.get_crds'], W('listing'))
                def _(s, named=named, crd=crd, ncrd=ncrd):
                    m, cat, names, q, sel = listing(s, 'phs', named=named)
                    r = cat.get_crds(crd, ncrd=ncrd, srcs=names) if named else cat.get_crds(crd, ncrd=ncrd)
                    shape_is('one column per source', r, (ncrd, q)); p = integer('p', 0, 3, ge=0); assume(p < q); k = sel(p)
                    g = lambda a: func('src_' + a, [k])
                    a, b = (g('ra'), g('dec')) if crd == 'eq' else (g('az'), g('alt'))
                    if ncrd == 2: want = (a, b)
                    else:
                        (ca, sa), (cb, sb) = num.cossin(a), num.cossin(b)
                        want = (cb * ca, cb * sa, sb) if crd == 'eq' else (cb * sa, cb * ca, sb)
                    for c in range(ncrd): eq('coordinate %d' % c, r.at(c, p), want[c])
        @S.fn('phs.get.' + tag, ['phs.SrcCatalog.get'], W('listing'))
        def _(s, named=named):
            m, cat, names, q, sel = listing(s, 'phs', named=named)
            p = integer('p', 0, 3, ge=0); assume(p < q); k = sel(p)
            for a in ('mfreq', 'ra', 'alt'):
                r = cat.get(a, srcs=names) if named else cat.get(a); shape_is(a, r, (q,)); eq('value ' + a, r.at(p), func('src_' + a, [k]))
            for a, parts in (('ionref', ('dra', 'ddec')), ('srcshape', ('a1', 'a2', 'th'))):
                r = cat.get(a, names) if named else cat.get(a); shape_is(a, r, (len(parts), q))
                for c, x in enumerate(parts): eq('value ' + x, r.at(c, p), func('src_' + x, [k]))
        @S.fn('amp.get_jys.' + tag, ['amp.SrcCatalog.get_jys', 'amp.RadioBody.get_jys'], W('listing'))
        def _(s, named=named):
            nf = size('nf'); m, cat, names, q, sel = listing(s, 'amp', named=named, nf=nf)
            r = cat.get_jys(srcs=names) if named else cat.get_jys()
            shape_is('one row per source', r, (q, nf)); p = integer('p', 0, 3, ge=0); assume(p < q); f = index('f', nf)
            eq('flux', r.at(p, f), func('src_jys', [sel(p), f]))
    def refused(s):
        m = s.load('phs'); b = m.RadioFixedBody(real('r'), real('d'), name='a')
        prove('other systems', all(raises(AssertionError, lambda: b.get_crds(c, n)) for c, n in (('ga', 3), ('eq', 1), ('top', 4), ('', 2))))
    @S.fn('phs.get_crds.refused', ['phs.RadioBody.get_crds'], W('listing'))
    def _(s): refused(s)
    # ---- every source, once
    def every(s, mod, method, key, call, args):
        m = s.load(mod); n = integer('n', 0, 4, ge=0); done = []
        class Probe(object):
            def __init__(self, k): self.k = k
        def rec(self, *a, **kk): done.append((self.k, a, kk))
        setattr(Probe, method, rec)
        cat = catalogue(m, n, Probe); j = integer('j', 0, 3, ge=0); assume(j < n)
        st = dict(k=Num.of(0))
        cnt = lambda k: func('count', [k], True, 0, 1)     # how often source j was reached in the first k iterations: 1 iff j < k
        def now(): 
            c = st['c']
            for k, a, kk in done:
                prove(method + ' arguments', len(a) == len(args) and all(x is y for x, y in zip(a, args)) and not kk)
                if bool(k == j): c = c + 1
            return c
        def inv(k, env, ask):
            c = now() if st.get('c') is not None else Num.of(len(done))
            ask('each source once so far', c == (Num.of(1) if bool(j < k) else Num.of(0)))
        def havoc(k, env):
            del done[:]; st['c'] = integer('reached%d' % E().fresh, 0, 1, record=False); st['k'] = k
            return {}
        def item(k, it, env):
            if not (it is cat or isinstance(it, seq.SymList)): raise Unsupported('iteration over something else')
            return Entry(k) if it is cat else it.f(k)
        loops.contract(key, inv, havoc, count=lambda it, env: it.n if isinstance(it, seq.SymList) else n, item=item)
        call(cat)
        prove('every source once', st['c'] == 1); prove('nothing more', len(done) == 0)
    @S.fn('phs.compute', ['phs.SrcCatalog.compute'], W('listing'))
    def _(s):
        obs = object(); every(s, 'phs', 'compute', 'SrcCatalog.compute:0', lambda c: c.compute(obs), (obs,))
    @S.fn('amp.update_jys', ['amp.SrcCatalog.update_jys'], W('listing'))
    def _(s):
        f = object(); every(s, 'amp', 'update_jys', 'SrcCatalog.update_jys:0', lambda c: c.update_jys(f), (f,))
    def bad(s):
        m, cat, names, q, sel = listing(s, 'phs'); p = integer('p', 0, 3, ge=0); assume(p < q)
        r = cat.get_crds('eq', ncrd=2, srcs=names); eq('column', r.at(0, p), func('src_ra', [p]))
    S.must_fail('columns in catalogue order', bad)
    return S
