"""Flattening of parameter dictionaries: fit.flatten_prms, fit.reconstruct_prms, for dictionaries with any number of keys,
values of any length and any nesting (the recursive calls are replaced by the contract: structural induction)."""
from vc.api import *
from vc import npsym, loops, seq
from . import stubs

def build(root, **kw):
    S = Suite(root, stubs.ALL, transforms=dict(fit=loops.transform('flatten_prms', 'reconstruct_prms')), **kw)
    S.assumptions += ['recursion: nested dictionaries are finite trees (structural induction; the recursive call is used by its contract)',
                      'sorted() returns the keys once each in increasing order']
    S.trusted += ['contracts of list (append, +, slicing, len) and dict (store, lookup) in vc/seq.py']
    W = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k))
    KINDS = ['scalar', 'seq', 'dict']
    class Key:
        def __init__(self, k, order='sorted'): self.k, self.order = Num.of(k), order
        def __repr__(self): return 'key(%r)' % self.k
    class World:
        """an arbitrary dictionary: key k (in sorted order) holds a scalar, a sequence of len(k)>=1 numbers or a dictionary of size sz(k)"""
        def __init__(self, tag=''):
            self.m = integer('m' + tag, 0, 4, ge=0); self.n0 = integer('n0' + tag, 0, 4, ge=0)
            self.tag = tag; self.kinds = {}
            self.d = seq.SymDict(self.m, self.get); self.nested = {}
        def kind(self, k):
            """chosen once per key index"""
            for k0, v in self.kinds.items():
                pass
            k = Num.of(k)
            t = func('kind' + self.tag, [k], True, 0, 2, axioms=lambda a: [a.z >= 0, a.z <= 2])
            if bool(t == 0): return 'scalar'
            return 'seq' if bool(t == 1) else 'dict'
        def sz(self, k):
            k = Num.of(k)
            kd = self.kind(k)
            if kd == 'scalar': return Num.of(1)
            if kd == 'seq': return func('len' + self.tag, [k], True, 1, 3, axioms=lambda a: [a.z >= 1])
            return func('size' + self.tag, [k], True, 0, 3, axioms=lambda a: [a.z >= 0])
        def off(self, k): return func('off' + self.tag, [Num.of(k)], True, 0, 9)
        def el(self, k, t): return func('val' + self.tag, [Num.of(k), Num.of(t)])
        def get(self, key):
            kd = self.kind(key.k)
            if kd == 'scalar': return self.el(key.k, 0)
            if kd == 'seq': return seq.SymList(self.sz(key.k), lambda t: self.el(key.k, t))
            if key.k.key() not in self.nested:
                x = seq.SymDict(None, None); x.owner = key.k; self.nested[key.k.key()] = x
            return self.nested[key.k.key()]
        def step(self, k):
            """off(k+1) = off(k) + size of value k; off(0) = 0 (definition of off)"""
            assume(self.off(k + 1) == self.off(k) + self.sz(k))
        def zero(self): assume(self.off(0) == 0)
    class KeyList:
        """the index of a nested dictionary, as promised by the contract of the recursive call"""
        _symtype = dict
        def __init__(self, owner, base): self.owner, self.base = owner, base
    def flat_contract(s, w, fm):
        """stand-in for the recursive call: appends the flat list of the nested dictionary"""
        def call(prms, prm_list=None):
            if not isinstance(prms, seq.SymDict) or not hasattr(prms, 'owner'): raise Unsupported('recursive call on something else')
            k = prms.owner; base = prm_list.n
            f, n = prm_list.f, prm_list.n
            out = seq.SymList(n + w.sz(k), lambda i: f(i) if bool(Num.of(i) < n) else w.el(k, Num.of(i) - n))
            return out, type('D', (seq.Sym,), dict(_symtype=dict, owner=k, base=base))()
        return call
    def run_flatten(s, initial):
        fm = s.load('fit'); w = World(); w.zero()
        j, t, i0 = integer('j', 0, 4, ge=0), integer('t', 0, 3, ge=0), integer('i0', 0, 4, ge=0)
        assume(j < w.m); assume(t < w.sz(j)); assume(i0 < w.n0)
        orig = lambda i: func('orig', [i])
        real_fn = fm.flatten_prms
        rec = flat_contract(s, w, fm)
        base = w.n0 if initial else Num.of(0)
        def same(k): 
            return isinstance(k, Key) and bool(k.k == j)
        def entry_ok(v, ask, nm):
            kd = w.kind(j)
            if kd == 'dict':
                ask(nm + 'nested index', getattr(v, 'owner', None) is not None and num_eq(v.owner, j) and num_eq(v.base, base + w.off(j)))
            else:
                if not isinstance(v, tuple) or len(v) != 2: ask(nm + 'index entry', False); return
                ask(nm + 'index start', Num.of(v[0]) == base + w.off(j)); ask(nm + 'index length', Num.of(v[1]) == w.sz(j))
        def num_eq(a, b): return E().valid((Num.of(a) == Num.of(b)).z) if isinstance(Num.of(a) == Num.of(b), SBool) else bool(Num.of(a) == Num.of(b))
        def inv(k, env, ask):
            P, K = env['prm_list'], env['key_list']
            if k.isconst and k.const() == 0 and not isinstance(P, seq.SymList): P = seq.SymList(len(P), lambda i: npsym.pick(P, i)) if False else P
            if isinstance(P, list):
                ask('starts empty', len(P) == 0 and not initial); ask('no index yet', isinstance(K, dict) and len(K) == 0)
                ask('offset', w.off(0) == 0); return
            ask('length', P.n == base + w.off(k)); ask('not shorter', w.off(k) >= 0)
            if initial: ask('earlier entries kept', P.f(i0) == orig(i0))
            if bool(j < k):
                ask('offsets increase', w.off(j) + w.sz(j) <= w.off(k)); ask('offset >= 0', w.off(j) >= 0)
                ask('element in place', P.f(base + w.off(j) + t) == w.el(j, t))
                if isinstance(K, seq.Store):
                    v = K.lookup(same)
                    if v is None: ask('index entry present', False)
                    else: entry_ok(v, ask, '')
                else: ask('index entry present', False)
            elif isinstance(K, seq.Store):
                pass
            if not isinstance(K, (seq.Store, dict)): ask('index is a dictionary', False)
        def havoc(k, env):
            tag = ('P', E().fresh)
            P = seq.SymList(base + w.off(k), lambda i, tag=tag: func('P%d' % tag[1], [Num.of(i)]))
            def old():
                if not bool(j < k): return None
                return (base + w.off(j), w.sz(j)) if w.kind(j) != 'dict' else type('D', (seq.Sym,), dict(_symtype=dict, owner=j, base=base + w.off(j)))()
            return dict(prm_list=P, key_list=seq.Store(old))
        def item(k, it, env):
            if not isinstance(it, seq.SymKeys) or it.d is not w.d: raise Unsupported('iteration over something else')
            prove('keys in sorted order', it.order == 'sorted')
            w.step(k); return Key(k)
        loops.contract('flatten_prms:0', inv, havoc, count=lambda it, env: w.m, item=item)
        # the recursive call goes to the contract
        fm.__dict__['flatten_prms'] = rec
        P0 = seq.SymList(w.n0, lambda i: orig(Num.of(i))) if initial else None
        out = real_fn(w.d, P0) if initial else real_fn(w.d)
        P, K = out
        assume(w.off(0) == 0)
        prove('whole length', P.n == base + w.off(w.m)); prove('element', P.f(base + w.off(j) + t) == w.el(j, t))
        if initial: prove('kept', P.f(i0) == orig(i0))
        v = K.lookup(same) if isinstance(K, seq.Store) else None
        if v is None: prove('entry', False)
        else: entry_ok(v, prove, 'result ')
        prove('input dictionary untouched', w.d.ver == 0)
    @S.fn('fit.flatten_prms', ['fit.flatten_prms'], W('flat'))
    def _(s): run_flatten(s, False)
    @S.fn('fit.flatten_prms.inner', ['fit.flatten_prms'], W('flat'))
    def _(s): run_flatten(s, True)
    def run_reconstruct(s):
        """the index is any index a flattening could have returned; the list is any list of that length"""
        fm = s.load('fit'); w = World(); w.zero()
        j, t = integer('j', 0, 4, ge=0), integer('t', 0, 3, ge=0)
        assume(j < w.m); assume(t < w.sz(j))
        N = integer('N', 0, 9, ge=0)
        assume(w.off(j) >= 0); assume(w.off(j) + w.sz(j) <= N)      # from the contract of flatten_prms
        new = seq.SymList(N, lambda i: func('new', [Num.of(i)]))
        def entry(key):
            kd = w.kind(key.k)
            if kd == 'dict': return type('D', (seq.Sym,), dict(_symtype=dict, owner=key.k, base=w.off(key.k)))()
            return (w.off(key.k), w.sz(key.k))
        kl = seq.SymDict(w.m, entry)
        real_fn = fm.reconstruct_prms
        class R(seq.Sym):
            def __init__(self, lst, v): self.lst, self.v = lst, v
        def rec(lst, v):
            prove('the whole list is passed down', lst is new); return R(lst, v)
        def same(k): return isinstance(k, Key) and bool(k.k == j)
        def check(v, ask):
            kd = w.kind(j)
            if kd == 'dict': ask('nested part', isinstance(v, R) and bool(v.v.owner == j)); return
            L = w.sz(j)
            if isinstance(v, seq.SymList):
                ask('several elements', b_and(v.n == L)); ask('element', v.f(t) == new.f(w.off(j) + t))
                ask('a fresh list', v is not new)
            else: ask('one element stands for itself', L == 1); ask('element', Num.of(v) == new.f(w.off(j)))
        def inv(k, env, ask):
            D = env['prms']
            if isinstance(D, dict): ask('starts empty', len(D) == 0); return
            if not isinstance(D, seq.Store): ask('result is a dictionary', False); return
            if bool(j < k):
                v = D.lookup(same)
                if v is None: ask('entry present', False)
                else: check(v, ask)
        def havoc(k, env):
            def old():
                if not bool(j < k): return None
                kd = w.kind(j)
                if kd == 'dict': return R(new, entry(Key(j)))
                if bool(w.sz(j) == 1): return new.f(w.off(j))
                return seq.SymList(w.sz(j), lambda i: new.f(w.off(j) + i))
            return dict(prms=seq.Store(old))
        def item(k, it, env):
            if it is not kl and getattr(it, 'd', None) is not kl: raise Unsupported('iteration over something else')
            # every key is visited: any enumeration order does
            k = Num.of(k); assume(w.off(k) >= 0); assume(w.off(k) + w.sz(k) <= N); return Key(k)
        loops.contract('reconstruct_prms:0', inv, havoc, count=lambda it, env: w.m, item=item)
        fm.__dict__['reconstruct_prms'] = rec
        D = real_fn(new, kl)
        v = D.lookup(same) if isinstance(D, seq.Store) else None
        if v is None: prove('entry', False)
        else: check(v, prove)
        prove('input list untouched', new.ver == 0); prove('index untouched', kl.ver == 0)
    @S.fn('fit.reconstruct_prms', ['fit.reconstruct_prms'], W('flat'))
    def _(s): run_reconstruct(s)
    @S.fn('lemma.disjoint', ['(specification) different values occupy different places of the flat list'])
    def _(s):
        w = World(); j, k = integer('j', 0, 4, ge=0), integer('k', 0, 4, ge=0); t, u = integer('t', 0, 3, ge=0), integer('u', 0, 3, ge=0)
        assume(j < k); assume(t < w.sz(j)); assume(u < w.sz(k)); assume(w.off(j) + w.sz(j) <= w.off(k))
        prove('places differ', w.off(j) + t != w.off(k) + u)
    def bad(s):
        w = World(); j = integer('j', 0, 4, ge=0); t, u = integer('t', 0, 3, ge=0), integer('u', 0, 3, ge=0)
        assume(t < w.sz(j)); assume(u < w.sz(j)); prove('places differ', w.off(j) + t != w.off(j) + u)
    S.must_fail('all places differ', bad)
    return S
