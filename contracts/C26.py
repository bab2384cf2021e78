"""Cloning: UV.init_from_uv and UV.pipe over the contracts of the data sets they read and write, trackvr and copyvr in the wrapper and the library (LLVM IR)."""
from vc.api import *
import types
from vc import llvm, num, npsym, loops, seq, pyload
from vc.num import Num, SBool
from vc.engine import PathEnd
from vc.llvm import Ptr, NULL, Undef, iff
from . import stubs, cc, mir, uvstub, uvvar
from .C22 import UVO, none

LOOPS = dict(miriad=loops.transform('UV.init_from_uv', 'UV.pipe'))
def flag(nm, *k): return func(nm, list(k), True, 0, 1, axioms=lambda x: [x.z >= 0, x.z <= 1]) == 1
class Name(str):
    """the k-th name of a list of different names; which literal it is, if any, is not fixed"""
    def __new__(cls, tag, k): s = str.__new__(cls, 'name'); s.tag, s.k = tag, Num.of(k); return s
    def __eq__(self, o):
        if isinstance(o, Name): return o.tag == self.tag and bool(o.k == self.k)
        return isinstance(o, str) and bool(flag('%s is %s' % (self.tag, o), self.k))
    def __ne__(self, o): return not self == o
    def __hash__(self): return 0
class Val:
    def __init__(self, kind, *k): self.kind, self.k = kind, [Num.of(x) for x in k]
    def is_(self, kind, *k): return self.kind == kind and len(k) == len(self.k) and all(bool(a == Num.of(b)) for a, b in zip(self.k, k))
    def _no(self, *a, **k): raise Unsupported('a value is looked at')
    __iter__ = __len__ = __bool__ = __getitem__ = __add__ = __float__ = _no
class Chosen:
    """names given by the caller, in any order: membership by name"""
    def __init__(self, what): self.what = what
    def __contains__(self, n): return isinstance(n, Name) and bool(flag('%s %s' % (n.tag, self.what), n.k))
    def __iter__(self): raise Unsupported('going through the names of %s' % self.what)
class Override(Chosen):
    def __getitem__(self, n):
        if n not in self: raise KeyError(n)
        return Val('override ' + n.tag, n.k)
    def get(self, n, d=None): return self[n] if n in self else d
class Types:
    """types of variables: the source's"""
    def __getitem__(self, n): return Val('type', n.k)
    def get(self, n, d=None): return self[n]
    def __contains__(self, n): return isinstance(n, Name) and n.tag == 'variable'
class Table(dict):
    """the table of variables of the clone in the middle of the loop: what was entered by earlier iterations is not looked at"""
    def __init__(self): self.new = []
    def __setitem__(self, n, v): self.new.append((n, v))
    def __contains__(self, n): return any(n == a for a, _ in self.new)
    def __getitem__(self, n):
        for a, v in self.new:
            if a == n: return v
        raise Unsupported('entry of the table')
    def __len__(self): raise Unsupported('size of the table')
    __iter__ = keys = values = items = update = pop = setdefault = __delitem__ = __len__
def build(root, **kw):
    S = Suite(root, dict(stubs.ALL, _miriad=uvstub.stub), transforms=LOOPS, **kw)
    S.assumptions += ['machine integers mathematical except where narrowed', 'variables the record itself determines are written by the library (nchan, coord, time, baseline, corr, tscale)', 'the names in a data set are different']
    S.trusted += ['clang: the IR is compiled from the current text of the sources (-O0)', 'IR semantics of vc/llvm.py']
    Wl = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k)); d = {}
    def mod(f):
        if f not in d: d[f] = llvm.Module(root, f)
        return d[f]
    sel = lambda l: next(x for k, x in enumerate(l) if k == len(l) - 1 or E().choose('of %s' % (x,)))
    def newuv(s):
        mi = s.load('miriad'); M = s.miriad; u = mi.UV('name', 'new'); M.calls[:] = []; L = M.calls
        u._wrhd = lambda n, v: L.append(('header', n, v)); u._wrvr = lambda n, t, v: L.append(('value', n, t, v)); return mi, M, u, L
    class Source:
        """a data set as its user sees it: header items, variables, which of them have a value at the first record"""
        def __init__(self, L, mi): self.L, self.ni, self.nv = L, integer('items', 0, 4, ge=0), integer('variables', 0, 4, ge=0); self.vartable = Types(); self.itemtable = mi.itemtable
        def items(self): return Lst('item', self.ni)
        def vars(self): return Lst('variable', self.nv)
        def __getitem__(self, n):
            if not isinstance(n, Name): raise Unsupported('name')
            if n.tag == 'variable':
                if bool(flag('variable is corr', n.k)): prove('corr is never read', False); raise PathEnd()
                if bool(flag('no value yet', n.k)): raise RuntimeError('Variable currently has no value')
            return Val(n.tag, n.k)
        def _rdhd(self, n): prove('a header item', n.tag == 'item'); return self[n]
        def _rdvr(self, n, t): prove('a variable, with its type', n.tag == 'variable' and t.is_('type', n.k)); return self[n]
        def trackvr(self, *a): self.L.append(('track',) + a)
    class Lst(seq.SymList):
        def __init__(self, tag, n): seq.SymList.__init__(self, n, lambda k: Name(tag, k)); self.tag = tag
    @S.fn('UV.init_from_uv', ['miriad.UV.init_from_uv'], Wl('clone'))
    def _(s):
        mi, M, u, L = newuv(s); src = Source(L, mi); given = sel(['both', 'override', 'exclude', 'neither']); ov, ex = Override('overridden'), Chosen('excluded'); kw = {}
        if given in ('both', 'override'): kw['override'] = ov
        if given in ('both', 'exclude'): kw['exclude'] = ex
        over = lambda n: 'override' in kw and n in ov; excl = lambda n: 'exclude' in kw and n in ex
        st = dict(loop=None); done = []
        def spec(key):
            def count(it, env):
                if not isinstance(it, seq.SymList) or not hasattr(it, 'tag'): raise Unsupported('a loop over something else')
                prove('gone through once', it.tag not in done); done.append(it.tag); st['tag'] = it.tag; return it.n
            def inv(k, env, ask):
                if ask.__name__ == 'use': return
                if bool(k == 0): ask('nothing written outside the loops', not L); ask('no variables of its own', all(n == 'corr' for n in u.vartable)) if st['tag'] == 'variable' and not isinstance(u.vartable, Table) else None; return
                tag = st['tag']; n = Name(tag, k - 1); w = [c for c in L if c[0] in ('header', 'value')]; tr = [c for c in L if c[0] == 'track']
                ask('only this name', all(isinstance(c[1], Name) and c[1] == n for c in L)); new = u.vartable.new if isinstance(u.vartable, Table) else []
                if tag == 'item':
                    ask('nothing about variables', not tr and not new and all(c[0] == 'header' for c in w))
                    if excl(n): ask('excluded items are left out', not w); return
                    ask('written once', len(w) == 1); ask('with its value', w[0][2].is_('override item', k - 1) if over(n) else w[0][2].is_('item', k - 1)); return
                if excl(n) or n == 'corr': ask('excluded variables, and the data themselves, are left out and not copied along', not w and not tr and not new); return
                ask('known, with its type', len(new) >= 1 and all(a == n and t.is_('type', k - 1) for a, t in new))
                if over(n): ask('overridden: written once, never copied along', len(w) == 1 and w[0][0] == 'value' and w[0][2].is_('type', k - 1) and w[0][3].is_('override variable', k - 1) and not tr); return
                ask('copied along whenever it changes', len(tr) >= 1 and all(len(c) == 3 and c[2] == 'c' for c in tr))
                if bool(flag('no value yet', k - 1)): ask('nothing to write yet', not w)
                else: ask('its first value is written', len(w) == 1 and w[0][0] == 'value' and w[0][2].is_('type', k - 1) and w[0][3].is_('variable', k - 1))
            def havoc(k, env):
                L[:] = []
                if st['tag'] == 'variable': u.vartable = Table()
                return {}
            loops.contract(key, inv, havoc, count=count, item=lambda k, it, env: Name(it.tag, k))
        for k in range(4): spec('UV.init_from_uv:%d' % k)
        u.init_from_uv(src, **kw); prove('the items and the variables', sorted(done) == ['item', 'variable']); prove('nothing else written', not L)
    class All:
        def __init__(self, raw): self.raw = raw
    @S.fn('UV.pipe', ['miriad.UV.pipe', 'miriad.echo'], Wl('clone'))
    def _(s):
        mi, M, u, L = newuv(s); N = integer('records', 0, 4, ge=0); H = sel([None, 'log\n', '']); A = sel(['', 'cloned\n']); raw = E().choose('raw'); fn = sel(['given', 'dropping', 'none']); over = []
        def hist(n):
            prove('only the history is read', n == 'history' and not L)
            if H is None: raise IOError('IO failed')
            return H
        u._rdhd = hist
        class Src:
            def all(self, raw=False): over.append(bool(raw)); return All(bool(raw))
        src = Src(); P = lambda k: Val('preamble', k); D = lambda k: Val('data', k); F = lambda k: Val('flags', k); st = {}
        def mf(uv, p, d, *f):
            prove('called with the data set and the record', uv is src and p.is_('preamble', st['k']) and d.is_('data', st['k']) and (len(f) == 1 and f[0].is_('flags', st['k']) if raw else not f)); L.append(('function',))
            if fn == 'dropping': return (Val('new preamble', st['k']), None, None) if raw else (Val('new preamble', st['k']), None)
            r = [Val('new preamble', st['k']), Val('new data', st['k'])]; return tuple(r + [Val('new flags', st['k'])] if raw else r)
        u.copyvr = lambda *a: L.append(('copy',) + a)
        u.write = lambda *a: L.append(('record',) + a)
        def spec(key):
            def count(it, env):
                if not isinstance(it, All): raise Unsupported('a loop over something else')
                prove('raw as asked', it.raw == raw); return N
            def inv(k, env, ask):
                if ask.__name__ == 'use': return
                if bool(k == 0): st['before'] = list(L); return
                c = [x[0] for x in L]; ask('the function once', c.count('function') == (0 if fn == 'none' else 1)); ask('no header is written', 'header' not in c); ask('no variable is written but by copying', 'value' not in c); ask('variables that changed are copied along', all(len(x) == 2 and x[1] is src for x in L if x[0] == 'copy') and 'copy' in c)
                w = [x for x in L if x[0] == 'record']; q = '' if fn == 'none' else 'new '
                if fn == 'dropping': ask('no record', all(x[2] is None for x in w)); return
                ask('one record', len(w) == 1); ask('the variables before the record', 'copy' in c[:c.index('record')] and (fn == 'none' or 'function' in c[:c.index('record')])); x = w[0][1:]
                ask('what the function returned', len(x) == (3 if raw else 2) and x[0].is_(q + 'preamble', k - 1) and x[1].is_(q + 'data', k - 1) and (not raw or x[2].is_(q + 'flags', k - 1)))
            def havoc(k, env): L[:] = []; st['k'] = k; return {}
            loops.contract(key, inv, havoc, count=count, item=lambda k, it, env: (P(k), D(k), F(k)) if it.raw else (P(k), D(k)))
        for k in range(3): spec('UV.pipe:%d' % k)
        kw = {}
        if fn != 'none': kw['mfunc'] = mf
        if A or E().choose('given'): kw['append2hist'] = A
        if raw or E().choose('given raw'): kw['raw'] = raw
        u.pipe(src, **kw); prove('gone through once', over == [raw]); h = st['before'] + L; text = (H or '') + A; w = [c for c in h if c[0] == 'header']; prove('only the history is written', len(w) == len(h) and len(w) <= 1)
        if A: prove('the text is added to the history', w == [('header', 'history', text)])
        else: prove('the history stays', not w or (H is not None and w == [('header', 'history', text)]))
    wrap = lambda: mod('_miriad/miriad_wrap.cpp')
    @S.fn('_miriad.UV.trackvr', ['_miriad/miriad_wrap.cpp:UVObject_trackvr'], Wl('clone'))
    def _(s):
        m = llvm.Machine(wrap()); w = mir.W(m); tno = integer('tno'); self = UVO(m, tno=tno); n, c = w.text('somevar'), w.text('c'); seen = []; throw = E().choose('the library fails')
        def track(m, t, a, b):
            eq('data set', t, tno); prove('the name and the switches', a.b is n.b and b.b is c.b and bool(a.off == 0) and bool(b.off == 0)); seen.append(1)
            if throw: raise llvm.Throw()
        m.ext['uvtrack_c'] = track; w.objs = [n, c]; r = m.call('UVObject_trackvr', [self.p, NULL]); prove('arguments', w.fmt == 'ss' and len(seen) == 1)
        if throw: prove('the error is reported', r.b is None and w.err is not None and w.exc.b.name == 'PyExc_RuntimeError'); return
        prove('no error', w.err is None); none(m, r)
    @S.fn('_miriad.UV.copyvr', ['_miriad/miriad_wrap.cpp:UVObject_copyvr'], Wl('clone'))
    def _(s):
        m = llvm.Machine(wrap()); w = mir.W(m); a, b = integer('to'), integer('from'); self, src = UVO(m, tno=a), UVO(m, tno=b); seen = []; throw = E().choose('the library fails')
        def copy(m, i, o):
            eq('from the other data set', i, b); eq('to this one', o, a); seen.append(1)
            if throw: raise llvm.Throw()
        m.ext['uvcopyvr_c'] = copy; w.objs = [src.p]; r = m.call('UVObject_copyvr', [self.p, NULL]); prove('arguments', w.fmt == 'O!' and len(seen) == 1)
        if throw: prove('the error is reported', r.b is None and w.err is not None and w.exc.b.name == 'PyExc_RuntimeError'); return
        prove('no error', w.err is None); none(m, r)
    uvvar.tracking(S, mod, Wl, sel, 'clone')
    return S
