"""Selection: the wrapper and the library's selection clauses (LLVM IR), UV.select, uv_selector and read_files over their contracts."""
from vc.api import *
import types
from vc import llvm, num, npsym, loops, seq, pyload
from vc.num import Num, SBool
from vc.engine import PathEnd
from vc.llvm import Ptr, NULL, Undef, iff
from . import stubs, cc, mir, uvstub, uvsel, uvread
from .C22 import UVO, antpair, none, reading, divides

LOOPS = dict(miriad=loops.transform('read_files'), scripting=loops.transform('uv_selector'))
POLS = dict(I=1, Q=2, U=3, V=4, rr=-1, ll=-2, rl=-3, lr=-4, xx=-5, yy=-6, xy=-7, yx=-8)
def yes(x): return x if isinstance(x, bool) else bool(SBool.of(x))
class Clauses:
    """what a sequence of selections means for one record (antennas i, j, time t, polarisation p): each clause is the
    conjunction of its kinds, a kind starts as the opposite of its first entry and every matching entry decides; clauses
    are joined from left to right"""
    def __init__(self, i, j, p, t=None): self.i, self.j, self.p, self.t = i, j, p, t; self.sel = None; self.op = None; self.kinds = {}; self.closed = False
    def clause(self): return b_and(*self.kinds.values()) if self.kinds else True
    def total(self):
        if self.closed or not self.started(): return True if self.sel is None else self.sel
        c = self.clause(); return c if self.op is None else b_and(self.sel, c) if self.op == 'and' else b_or(self.sel, c)
    def started(self): return self.op is not None or bool(self.kinds)
    def start(self, s):
        """a state in which the selections so far amount to s"""
        self.sel, self.op, self.kinds, self.closed = s, None, {}, True
    def select(self, name, a, b, include=1):
        if isinstance(include, (Num, SBool)): include = bool(include)
        inc = bool(include)
        if name in ('or', 'and'):
            if not self.started() and not self.closed: return        # nothing to join yet
            self.sel, self.op, self.kinds, self.closed = self.total(), name, {}, False; return
        if name == 'clear': self.__init__(self.i, self.j, self.p, self.t); return
        if self.closed: prove('joined to what was selected before', False); raise PathEnd()
        if name == 'auto': m, k = self.i == self.j, 'ants'
        elif name == 'antennae':
            a, b = Num.of(a), Num.of(b); k = 'ants'; one = lambda x, y: b_or(x == -1, x == y)
            m = b_or(b_and(one(a, self.i), one(b, self.j)), b_and(one(a, self.j), one(b, self.i)))
        elif name == 'polarization': m, k = Num.of(a) == self.p, 'pol'
        elif name == 'time': m, k = b_and(a <= self.t, self.t <= b), 'time'
        else: prove('a documented selection', False); raise PathEnd()
        old = self.kinds.get(k, not inc); self.kinds[k] = b_or(old, m) if inc else b_and(old, b_not(m))
class Names:
    """a string that splits at commas into any number of polarisation names"""
    def __init__(self, tag): self.tag = tag; self.n = integer('names in %s' % tag, 1, 4); assume(self.n >= 1); self.memo = {}
    def split(self, sep=None, *a):
        if sep != ',': raise Unsupported('split')
        return self
    def code(self, k): return func('code %s' % self.tag, [k], True, -8, 4)
    def hit(self, k, p): return func('hit %s' % self.tag, [k, p], True, 0, 1) == 1        # one of the first k is p
    def name(self, k):
        key = Num.of(k).key()
        if key not in self.memo:
            q = sorted(POLS); c = next((x for x in q[:-1] if bool(self.code(k) == POLS[x])), q[-1]); assume(self.code(k) == POLS[c]); self.memo[key] = c
        return self.memo[key]
    def step(self, k, p):
        """hit(k + 1) by definition"""
        assume(iff(self.hit(k + 1, p), b_or(self.hit(k, p), self.code(k) == p)))
    def zero(self, p): assume(b_not(self.hit(Num.of(0), p)))
    def __symlen__(self): return self.n
    def __iter__(self): raise Unsupported('loop over polarisations without a loop contract')
    def __eq__(self, o): return self is o
    __hash__ = None
def build(root, **kw):
    def other(names):
        def f(session):
            m = types.ModuleType('contract')
            def ga(n):
                if n in names: return names[n]
                raise Unsupported('no contract for %s' % n)
            m.__getattr__ = ga; return m
        return f
    CAL = {}
    S = Suite(root, dict(stubs.ALL, _miriad=uvstub.stub, fit=other({}), src=other({}), phs=other({}), cal=other(CAL)), transforms=LOOPS, **kw)
    S.assumptions += ['machine integers mathematical except where narrowed', 'times positive', 'antennas numbered from 0 to 2046', 'time ranges of Julian dates (not fractions of a day)']
    S.trusted += ['clang: the IR is compiled from the current text of the sources (-O0)', 'IR semantics of vc/llvm.py', 'uvread_c: returns the records the selection keeps, in the order of the file']
    Wl = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k)); d = {}
    def mod(f):
        if f not in d: d[f] = llvm.Module(root, f)
        return d[f]
    wrap = lambda: mod('_miriad/miriad_wrap.cpp')
    sel = lambda l: next(x for k, x in enumerate(l) if k == len(l) - 1 or E().choose('of %s' % (x,)))
    reading(S, Wl, wrap, '_miriad.UV.raw_read (decimated)', True)
    @S.fn('_miriad.UV._select', ['_miriad/miriad_wrap.cpp:UVObject_select'], Wl('select'))
    def _(s):
        m = llvm.Machine(wrap()); w = mir.W(m); tno, d0, p0 = integer('tno'), integer('every'), integer('phase'); self = UVO(m, tno=tno, decimate=d0, decphase=p0, intcnt=integer('intcnt'), curtime=real('curtime'))
        nm = sel(['decimate', 'decimation', 'antennae', 'time', 'auto', 'polarization', 'or', 'and', 'clear', 'dec', 'shadow']); n1, n2, inc = real('n1'), real('n2'), integer('include', 0, 1); assume(b_and(inc >= 0, inc <= 1)); throw = E().choose('the library fails'); calls = []
        if nm.startswith('decim'): n1, n2 = integer('n1', 1, 9), integer('n2', 0, 9)
        t = w.text(nm)
        def strncmp(m, a, b, k):
            x, y = cc.cstr(m, a)[:int(Num.of(k).const())], cc.cstr(m, b)[:int(Num.of(k).const())]; return Num.of((x > y) - (x < y))
        def us(m, tn, o, a, b, i):
            calls.append(1); eq('data set', tn, tno); prove('what', cc.cstr(m, o) == nm); eq('first value', a, n1); eq('second value', b, n2); eq('included', i, inc)
            if throw: raise llvm.Throw()
        m.ext.update(uvselect_c=us, strncmp=strncmp, strcmp=lambda m, a, b: strncmp(m, a, b, 99)); w.objs = [t, n1, n2, inc]; r = m.call('UVObject_select', [self.p, NULL]); prove('arguments', w.fmt == 'sddi')
        if nm.startswith('decim'): none(m, r); prove('decimation is the wrapper\'s own', not calls); eq('every', self['decimate'], n1); eq('phase', self['decphase'], n2)
        else:
            prove('handed to the library once', len(calls) == 1); eq('decimation unchanged', self['decimate'], d0); eq('phase unchanged', self['decphase'], p0)
            if throw: prove('the error is reported', r.b is None and w.err is not None and w.exc.b.name == 'PyExc_RuntimeError'); return
            none(m, r)
        prove('no error', w.err is None)
    # ---- the library's selection
    uvsel.build(S, mod, Wl, sel); uvread.build(S, mod, Wl, sel, 'C23')
    # ---- the Python layer
    @S.fn('UV.select', ['miriad.UV.select'], Wl('select'))
    def _(s):
        mi = s.load('miriad'); M = s.miriad; u = mi.UV('name', 'new'); M.calls[:] = []; nm = sel(['antennae', 'time', 'polarization', 'decimate', 'auto', 'or', 'and', 'clear']); n1, n2 = (integer('n1', -1, 9), integer('n2', -1, 9)) if nm != 'time' else (real('t1'), real('t2')); how = sel(['default', 'true', 'false', 'one', 'zero', 'named'])
        {'default': lambda: u.select(nm, n1, n2), 'true': lambda: u.select(nm, n1, n2, True), 'false': lambda: u.select(nm, n1, n2, False), 'one': lambda: u.select(nm, n1, n2, 1), 'zero': lambda: u.select(nm, n1, n2, 0), 'named': lambda: u.select(nm, n1, n2, include=False)}[how]()
        prove('one selection', len(M.calls) == 1 and M.calls[0][0] == '_select'); _, a, x, y, i = M.calls[0]; prove('what', a == nm); q = 1 if nm == 'antennae' else 0
        eq('first value', x, n1 + q); eq('second value', y, n2 + q); prove('included', type(i) is int and i == (0 if how in ('false', 'zero', 'named') else 1))
    @S.fn('ij2bl and bl2ij', ['miriad.ij2bl', 'miriad.bl2ij'], Wl('baselines'))
    def _(s):
        mi = s.load('miriad'); i, j = integer('i', 0, 300, ge=0), integer('j', 0, 300, ge=0); assume(b_and(i < 2047, j < 2047)); a, b = (i, j) if bool(i <= j) else (j, i)
        bl = mi.ij2bl(i, j); eq('number of the pair', bl, antpair(a, b)); x, y = mi.bl2ij(bl); eq('first', x, a); eq('second', y, b); eq('whichever order', mi.ij2bl(j, i), bl)
    def polloop(key, cl, P):
        """the loop over the polarisations of a list of names"""
        stt = {}
        def inv(k, env, ask):
            p = P(env)
            if ask.__name__ == 'use': return
            if 'base' not in stt: stt['base'] = True; p.zero(cl.p); stt['rest'] = {q: v for q, v in cl.kinds.items() if q != 'pol'}; prove('no polarisation yet in this clause', 'pol' not in cl.kinds); return
            p.step(k - 1, cl.p); ask('selected so far', iff(cl.kinds.get('pol', False), p.hit(k, cl.p))); ask('nothing else selected', set(cl.kinds) <= set(stt['rest']) | {'pol'} and all(cl.kinds[q] is v for q, v in stt['rest'].items()))
        def havoc(k, env):
            p = P(env); cl.kinds = dict(stt['rest'])
            if not bool(k == 0): cl.kinds['pol'] = p.hit(k, cl.p)
            return dict(uv=env['uv'])
        loops.contract(key, inv, havoc, count=lambda it, env: it.n, item=lambda k, it, env: it.name(k))
    @S.fn('uv_selector', ['scripting.uv_selector', 'miriad.bl2ij'], Wl('files'))
    def _(s):
        sc = s.load('scripting'); mi = s.load('miriad'); i, j = integer('i', 0, 9, ge=0), integer('j', 0, 9, ge=0); p = integer('p', -8, 4); cl = Clauses(i, j, p); n = integer('entries', 0, 3, ge=0); nants = object(); form = sel(['list', 'text', 'none']); calls = []
        class U:
            def __getitem__(self, k): prove('number of antennas', k == 'nants'); return nants
            def select(self, *a, **k): cl.select(*a, **k)
        P0 = sel([-1, 'given']); P0 = Names('argument') if P0 == 'given' else -1; made = {}
        def entry(k):
            key = Num.of(k).key()
            if key not in made:
                auto = E().choose('auto'); inc = func('include', [k], True, 0, 1) == 1; inc = 1 if bool(inc) else 0
                if auto: made[key] = ('auto', inc, -1), lambda: i == j
                else:
                    a, b = func('ant a', [k], True, 0, 9), func('ant b', [k], True, 0, 9); assume(b_and(a <= b, a >= 0, b < 2047)); bl = antpair(a, b); made[key] = (bl, inc, Names('entry') if E().choose('polarisation given') else -1), lambda: b_or(b_and(a == i, b == j), b_and(a == j, b == i))
            return made[key]
        lst = seq.SymList(n, lambda k: entry(k)[0])
        def parse(t, na): prove('the specification is parsed with the number of antennas', t == '0_1,2' and na is nants); calls.append(1); return lst
        sc.parse_ants = parse; S_ = lambda k: func('selected', [k], True, 0, 1) == 1
        st = {}
        def inv(k, env, ask):
            if ask.__name__ == 'use': return
            if 'first' not in st: st['first'] = True; prove('nothing selected yet', not cl.started() and not cl.closed); return
            (bl, inc, pol), match = entry(k - 1); c = match() if inc else b_not(match()); q = P0 if isinstance(pol, int) else pol
            if not isinstance(q, int): c = b_and(c, q.hit(q.n, p))
            ask('selected after this entry', iff(cl.total(), c if bool(k == 1) else b_or(S_(k - 1), c) if inc else b_and(S_(k - 1), c)))
        def havoc(k, env):
            if bool(k == 0): cl.__init__(i, j, p)
            else: cl.start(S_(k))
            return dict(uv=env['uv'])
        def en(it): return it if isinstance(it, seq.SymList) else getattr(it, 'l', None)
        isenum = lambda it: isinstance(it, seq.SymList) and it is not lst
        loops.contract('uv_selector:0', inv, havoc, count=lambda it, env: n, item=lambda k, it, env: it.f(k))
        pl = lambda env: env['pol'] if isinstance(env.get('pol'), Names) else P0
        polloop('uv_selector:1', cl, pl); polloop('uv_selector:2', cl, lambda env: P0)
        arg = lst if form == 'list' else '0_1,2' if form == 'text' else -1
        if arg == -1 and P0 == -1: sc.uv_selector(U()) if E().choose('no arguments') else sc.uv_selector(U(), -1, -1)
        else: sc.uv_selector(U(), arg, P0)
        prove('parsed once' if form == 'text' else 'not parsed', len(calls) == (1 if form == 'text' else 0))
        want = S_(n) if form != 'none' and not bool(n == 0) else True if isinstance(P0, int) else P0.hit(P0.n, p); prove('the records selected', iff(cl.total(), want))
    # ---- read_files
    class Lst(seq.Sym):
        """a list: what it was at the cut, and what was appended since"""
        _symtype = list
        def __init__(self, tag, n, new=(), last=None): self.tag, self.n, self.new, self.last_ = tag, Num.of(n), list(new), last
        def __symlen__(self): return self.n + len(self.new)
        def __len__(self):
            if bool(self.n == 0): return len(self.new)
            raise Unsupported('length of a list')
        def __bool__(self): return bool(self.n > 0) or bool(self.new)
        def append(self, v): self.new.append(v); self.ver += 1
        def __add__(self, o): return Lst(self.tag, self.n, self.new + list(o), self.last_)
        def __iadd__(self, o): self.new += list(o); self.ver += 1; return self
        def extend(self, o): self.__iadd__(o)
        def __getitem__(self, i):
            if i != -1: raise Unsupported('element of a list')
            if self.new: return self.new[-1]
            if bool(self.n == 0): raise IndexError('list index out of range')
            return self.last_
        def is_(self, o, new): return isinstance(self, Lst) and self.tag == o and len(self.new) == len(new) and all(a is b for a, b in zip(self.new, new))
    class Dct(seq.Sym):
        """a dictionary with keys (i, j, polarisation): what it was at the cut, and what was stored since"""
        _symtype = dict
        def __init__(self, base, default=None): self.base, self.w, self.default = base, [], default
        def same(self, a, b):
            if not (isinstance(a, tuple) and len(a) == 3): prove('filed under antennas and polarisation', False); raise PathEnd()
            return a[2] == b[2] and bool(b_and(Num.of(a[0]) == b[0], Num.of(a[1]) == b[1]))
        def find(self, k):
            for a, v in reversed(self.w):
                if self.same(a, k): return v
            v = self.base(k)
            if v is not None: self.w.append((k, v))
            return v
        def get(self, k, d=None): v = self.find(k); return d if v is None else v
        def __contains__(self, k): return self.find(k) is not None
        def __getitem__(self, k):
            v = self.find(k)
            if v is None:
                if self.default is None: raise KeyError(k)
                v = self.default(); self[k] = v
            return v
        def setdefault(self, k, d=None):
            v = self.find(k)
            if v is None: v = d; self[k] = v
            return v
        def __setitem__(self, k, v): self.w.append((k, v)); self.ver += 1
        def keys(self): return self
        def __iter__(self): raise Unsupported('loop over keys without a loop contract')
    class Stacked:
        def __init__(self, l): self.l = l
    @S.fn('read_files', ['miriad.read_files'], Wl('files'))
    def _(s):
        mi = s.load('miriad'); sc = s.load('scripting'); nf = integer('files', 1, 3); assume(nf >= 1); ant, pol = object(), object(); every, ph = integer('every', 1, 4, ge=1), integer('phase', 0, 3, ge=0); recast, single, which = sel([(True, False, 'data'), (False, False, 'flgs'), (True, True, 'flgs')])
        if single: assume(nf == 1)
        st = dict(f=None, rec=None); fname = lambda f: ('file', f)
        R = lambda f: func('records selected', [f], True, 0, 3, axioms=lambda a: [a.z >= 0]); T = lambda f, k: func('time', [f, k], False, 2450000, 2450003); I = lambda f, k: func('ant i', [f, k], True, 0, 3); J = lambda f, k: func('ant j', [f, k], True, 0, 3)
        names = sorted(POLS); pmemo = {}; LS = {}; DT = {}
        def obj(what, f, k): key = (what, Num.of(f).key(), Num.of(k).key()); return LS.setdefault(key, ('%s of the record' % what, key))
        def polname(f, k):
            """the polarisation of record k: either of two, by name"""
            key = (Num.of(f).key(), Num.of(k).key())
            if key not in pmemo: pmemo[key] = sel(['xx', 'I'])
            return pmemo[key]
        class UV:
            def __init__(self, name, *a):
                prove('opened for reading', a in ((), ('old',))); prove('a file of the list', isinstance(name, tuple) and name[0] == 'file' if not single else name == 'thefile'); self.f = name[1] if not single else Num.of(0); self.done = []; self.k = None; st['uv'] = self; E().inputs
            def select(self, *a): self.done.append(('select',) + a)
            def all(self, raw=False):
                prove('plain arrays', bool(raw) is True); w = ['uv_selector']; prove('selected before it is read', [x[0] for x in self.done] == ['uv_selector'] + (['select'] if bool(every > 1) else [])); 
                if bool(every > 1): _, nm, a, b = self.done[-1]; prove('decimation', nm.startswith('decim') and bool(a == every) and bool(b == ph))
                self.done.append(('all',)); return seq.SymList(R(self.f), lambda k: self.rec(k))
            def rec(self, k):
                self.k = k; f = self.f; return ((obj('coordinates', f, k), T(f, k), (I(f, k), J(f, k))), obj('data', f, k), obj('flags', f, k))
            def __getitem__(self, v):
                if v in ('sdf', 'sfreq', 'nchan', 'inttime'): return ('variable', v)
                if self.k is None: prove('variables of a record', False); raise PathEnd()
                if v == 'lst': return obj('lst', self.f, self.k)
                if v == 'pol': return POLS[polname(self.f, self.k)]
                raise Unsupported('variable ' + v)
        mi.UV = UV
        def usel(uv, a, p): prove('selected as asked', uv is st['uv'] and a is ant and p is pol and uv.done == []); uv.done.append(('uv_selector',))
        sc.uv_selector = usel; CAL['get_freqs'] = lambda *a: ('freqs', a)
        arrays = []
        class NP:
            def __getattr__(self, n): return getattr(s.L.npm, n)
            def array(self, x, *a, **k):
                if not isinstance(x, Lst): raise Unsupported('np.array')
                return Stacked(x)
        mi.np = NP()
        # state after k records of file f: number of times, lists by key
        def cut(env, f, k, fresh):
            """an arbitrary state, described by ghost lists"""
            tag = ('cut', fresh); nt = integer('times read %d' % fresh, 0, 3, ge=0, record=False); last = real('last time %d' % fresh, 2450000, 2450003, record=False); memo = []
            tl, ll = Lst(tag + ('times',), nt, last=last), Lst(tag + ('lsts',), nt); has = {}
            def base(which):
                def g(key):
                    # both dictionaries have the same keys
                    for q, b in memo:
                        if q[2] == key[2] and bool(b_and(Num.of(q[0]) == key[0], Num.of(q[1]) == key[1])): break
                    else: b = E().choose('key seen'); memo.append((key, b)); q = key
                    return Lst(tag + (which,) + (repr(memo.index((q, b))),), integer('n %s' % which, 1, 4, ge=1, record=False)) if b else None
                return g
            df = lambda nm: getattr(env.get(nm), 'default_factory', None) or getattr(env.get(nm), 'default', None)
            st.update(tl=tl, ll=ll, nt=nt, last=last, tag=tag, memo=memo, data=Dct(base('data'), df('data')), flgs=Dct(base('flgs'), df('flgs')), base=base)
            return dict(info=dict(times=tl, lsts=ll), data=st['data'], flgs=st['flgs'])
        ix = {}
        def inv(k, env, ask):
            if ask.__name__ == 'use': return
            if ask.__name__ != 'ask': raise Unsupported('stage')
            if 'inner' not in ix:
                # entering the loop over records: the state is that of the loop over files
                ix['inner'] = True; prove('nothing changed since the last file', env['info']['times'] is st['tl'] and env['info']['lsts'] is st['ll'] and env['data'] is st['data'] and env['flgs'] is st['flgs'] and not st['tl'].new and not st['ll'].new and not st['data'].w and not st['flgs'].w); return
            f, r = st['f'], k - 1; t = T(f, r); info = env['info']; new = bool(b_or(st['nt'] == 0, st['last'] != t))
            ask('times', Lst.is_(info['times'], st['tag'] + ('times',), [t] if new else []) if not new else isinstance(info['times'], Lst) and info['times'].tag == st['tag'] + ('times',) and len(info['times'].new) == 1 and bool(Num.of(info['times'].new[0]) == t))
            ask('lsts', Lst.is_(info['lsts'], st['tag'] + ('lsts',), [obj('lst', f, r)] if new else []))
            key = (I(f, r), J(f, r), polname(f, r)); probe = (integer('probe i', 0, 3), integer('probe j', 0, 3), sel(['xx', 'I']))
            for what in ([dict(data='data', flgs='flags')[which]]):
                D = env[which]; prove('filled in place', isinstance(D, Dct)); mine = D.same(key, probe); v = D.find(probe); b = st['base'](which)(probe)
                if not mine: ask('%s of other keys' % what, (v is None and b is None) or (v is not None and b is not None and Lst.is_(v, b.tag, []))); continue
                d = obj(what, f, r)
                if b is None: ask('%s: a new key' % what, isinstance(v, list) and len(v) == 1 and v[0] is d)
                else: ask('%s: appended' % what, Lst.is_(v, b.tag, [d]))
            ask('the same file', env['uv'] is st['uv'])
        def havoc(k, env): return cut(env, st['f'], k, 2)
        loops.contract('read_files:1', inv, havoc, count=lambda it, env: it.n, item=lambda k, it, env: it.f(k))
        # files: each is opened, selected and read
        def finv(k, env, ask):
            if ask.__name__ == 'use': return
            if 'outer' not in ix: ix['outer'] = True; prove('nothing read yet', env['info'] == dict(lsts=[], times=[]) and env['data'] == {} and env['flgs'] == {}); return
            prove('the file was read', st['uv'].done[-1:] == [('all',)] and (single or bool(st['uv'].f == k - 1)))
        def fhavoc(k, env):
            st['f'] = Num.of(0) if single else k; r = cut(env, k, None, 1)
            if bool(k == 0): assume(st['nt'] == 0); st['data'].base = st['flgs'].base = lambda key: None; st['base'] = lambda w: (lambda key: None)
            if not bool(k == 0) and not loops.RT.st()['read_files:0']['generic']: u = UV(fname(k - 1) if not single else 'thefile'); u.done = ['read']; r['uv'] = u
            return r
        loops.contract('read_files:0', finv, fhavoc, count=lambda it, env: Num.of(len(it)) if isinstance(it, list) else it.n, item=lambda k, it, env: it[0] if isinstance(it, list) else it.f(k))
        # keys: every list becomes an array
        probe = (integer('key i', 0, 3), integer('key j', 0, 3), 'xx'); nk = integer('keys', 0, 4, ge=0); at = integer('probe at', 0, 3, ge=0); assume(at < nk)
        def kinv(k, env, ask):
            if ask.__name__ == 'use': return
            if 'keys' not in ix: ix['keys'] = True; prove('asked for', recast); prove('as read', env['data'] is st['data'] and env['flgs'] is st['flgs'] and not st['data'].w and not st['flgs'].w); return
            for w in (which,):
                v = env[w].find(probe); done = bool(at < k); ask('%s stacked' % w, isinstance(v, Stacked) and Lst.is_(v.l, ('final', w), []) if done else Lst.is_(v, ('final', w), []))
        def khavoc(k, env):
            r = {}
            for w in ('data', 'flgs'):
                def base(key, w=w):
                    mine = r[w].same(key, probe); l = Lst(('final', w) if mine else ('final other', w), integer('n', 1, 4, ge=1, record=False)); return Stacked(l) if mine and bool(at < k) else l
                r[w] = Dct(base)
            st['final'] = r; return r
        def kitem(k, it, env):
            if bool(k == at): return probe
            o = (integer('other i', 0, 3), integer('other j', 0, 3), sel(['xx', 'I'])); assume(not Dct.same(None, o, probe)); return o
        loops.contract('read_files:2', kinv, khavoc, count=lambda it, env: nk, item=kitem)
        files = 'thefile' if single else seq.SymList(nf, lambda k: fname(k)); kw_ = {} if recast else dict(recast_as_array=False)
        if bool(every == 1) and bool(ph == 0) and E().choose('no decimation given'): info, data, flgs = mi.read_files(files, ant, pol, **kw_)
        else: info, data, flgs = mi.read_files(files, ant, pol, decimate=every, decphs=ph, **kw_)
        prove('frequencies', info['freqs'] == ('freqs', (('variable', 'sdf'), ('variable', 'sfreq'), ('variable', 'nchan')))); prove('integration time, channel width', info['inttime'] == ('variable', 'inttime') and info['sdf'] == ('variable', 'sdf')); un = lambda x: x.l if isinstance(x, Stacked) else x
        for w in ('times', 'lsts'): prove('%s as read' % w, isinstance(info[w], Stacked) == recast and Lst.is_(un(info[w]), st['tag'] + (w,), []))
        if recast: prove('every key stacked', data is st['final']['data'] and flgs is st['final']['flgs'])
        else: prove('as read', data is st['data'] and flgs is st['flgs'] and not st['data'].w and not st['flgs'].w)
    return S
