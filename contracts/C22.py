"""Visibility records: reading, writing, rewinding, opening in the wrapper (LLVM IR); UV.read, write, all, __init__ over the wrapper's contract."""
from vc.api import *
from vc import llvm, num, npsym, loops, seq, pyload
from vc.num import Num
from vc.engine import PathEnd
from vc.llvm import Ptr, NULL, Undef, iff
from . import uvread, uvrec, stubs, cc, mir, uvstub

LOOPS = dict(miriad=loops.transform('UV.all', 'UV.init_from_uv', 'UV.pipe'))
FIELDS = dict(tno=(16, 'i32'), decimate=(24, 'i64'), decphase=(32, 'i64'), intcnt=(40, 'i64'), curtime=(48, 'double'))
class UVO:
    """the wrapper's object"""
    def __init__(self, m, **k):
        self.m = m; f = {0: ('i64', Num.of(7))}
        for n, (o, t) in FIELDS.items(): f[o] = (t, k.get(n, Undef(n)))
        self.b = m.rec('UV object', f, 56); self.p = Ptr(self.b, 0)
    def __getitem__(self, n): return self.b.d[FIELDS[n][0]][1]
    def set(self, n, v): self.b.d[FIELDS[n][0]] = (FIELDS[n][1], Num.of(v)); self.b.ver += 1
def antpair(a, b):
    """number of a pair of antennas (numbered from 0)"""
    assume(b_and(a >= 0, b >= 0, a < 2047, b < 2047)); return 256 * (a + 1) + (b + 1) if bool(b_and(a + 1 < 256, b + 1 < 256)) else 65536 + 2048 * (a + 1) + (b + 1)
def none(m, r): prove('returns None', r.b is m.globals['_Py_NoneStruct'].b)
def reading(S, Wl, wrap, name, decimated):
    @S.fn(name, ['_miriad/miriad_wrap.cpp:UVObject_read'], Wl('records'))
    def _(s):
        m = llvm.Machine(wrap()); w = mir.W(m); w.api(); tno = integer('tno'); d, ph = (integer('every', 1, 4), integer('phase', 0, 3)) if decimated else (Num.of(1), Num.of(0))
        if decimated: assume(b_and(d >= 1, d < 2**31, ph > -2**31, ph < 2**31))
        # record k of those the library returns: time T(k), integration I(k), channels NR(k) (0: no more); k0 of them read before
        T = lambda k: func('time', [k], False, 2450000, 2450003); Ix = {}; I = lambda k: Ix.get(Num.of(k).key()) or func('integration', [k], True, 0, 5); NR = lambda k: func('channels', [k], True, 0, 4)
        k0 = integer('read before', 0, 5, ge=0); n2 = integer('at most', 0, 5, ge=0); assume(n2 < 2**26)
        self = UVO(m, tno=tno, decimate=d, decphase=ph, intcnt=Num.of(-1) if bool(k0 == 0) else I(k0 - 1), curtime=Num.of(-1) if bool(k0 == 0) else T(k0 - 1)); st = dict(k=k0); throw = E().choose('the library fails'); y = integer('y', 0, 9); assume(y >= k0)
        def fact(k):
            """what is counted: a new integration begins where the time differs from the record before"""
            assume(b_and(T(k) > 0, I(k) >= 0, I(k) < 2**31, NR(k) >= 0, NR(k) <= n2)); first = bool(k == 0); same = False if first else bool(T(k) == T(k - 1))
            x = Num.of(0) if first else I(k - 1) + (0 if same else 1); assume(I(k) == x); Ix[Num.of(k).key()] = x
            if not first: assume(b_and(T(k - 1) > 0, I(k - 1) >= 0))
            assume(iff(chosen(k), b_or(NR(k) == 0, divides(x - ph, d))))
        a, b = integer('antenna 1', 0, 300), integer('antenna 2', 0, 300); bl = antpair(a, b); uvw = [real('u'), real('v'), real('w')]
        chosen = lambda k: func('chosen', [k], True, 0, 1) == 1        # no more records, or one of a chosen integration (as fact says)
        def read(m, tn, pre, dat, fl, n, nread):
            k = st['k']; fact(k); eq('data set', tn, tno); eq('room', n, n2); st['arr'] = (dat, fl)
            prove('room for the preamble', isinstance(pre.b, llvm.Arr) and bool(b_and(pre.off == 0, pre.b.shape[0] >= 5)))
            for buf, sh, ty in ((dat, 2 * n2, 'float'), (fl, n2, 'i32')): prove('room for the data', isinstance(buf.b, llvm.Arr) and buf.b.comps == [(0, ty)] and bool(buf.off == 0)); prove('room for all channels', buf.b.shape[0] >= sh)
            if throw and E().choose('fails now'): raise llvm.Throw()
            for q, v in enumerate(uvw + [T(k), bl]): m.store(pre.add(8 * q), 'double', Num.of(v))
            dat.b.set_all(lambda c, i: func('data', [k, i[0]])); fl.b.set_all(lambda c, i: func('flag', [k, i[0]], True)); m.store(nread, 'i32', NR(k)); st['k'] = k + 1
        def inv(env, ask):
            k = st['k']; ask('in order', k >= k0); o = UVOview(env)
            if ask.__name__ == 'use': assume(implies(b_and(y >= k0, y < k), b_not(chosen(y)))); return
            if bool(k > k0): ask('time of the last record', o['curtime'] == T(k - 1)); ask('integration of the last record', o['intcnt'] == I(k - 1))
            else: ask('nothing changed yet', b_and(o['curtime'] == (Num.of(-1) if bool(k0 == 0) else T(k0 - 1)), o['intcnt'] == (Num.of(-1) if bool(k0 == 0) else I(k0 - 1))))
            ask('none passed over', implies(b_and(y >= k0, y < k), b_not(chosen(y))))
        def UVOview(env): return self
        def havoc(env):
            k = integer('passed', 0, 5, record=False); assume(k >= k0); st['k'] = k; z = bool(k == 0); self.set('curtime', Num.of(-1) if z else T(k - 1)); self.set('intcnt', Num.of(-1) if z else I(k - 1))
            if not z: fact(k - 1) if False else assume(b_and(T(k - 1) > 0, I(k - 1) >= 0, I(k - 1) < 2**31))
            p = env['preamble'].b if isinstance(env['preamble'], Ptr) else None
            for x in ('data', 'flags'): env[x].b.arr.set_all(lambda c, i: Undef('from the record before'))
            for bb in m.blocks:
                if getattr(bb, 'ty', None) == '[5 x double]': bb.set_all(lambda c, i: Undef('preamble'))
            return dict(nread=Undef('nread'))
        m.ext['uvread_c'] = read; m.contract('UVObject_read:0', inv, havoc, side=True); w.objs = [n2]; r = m.call('UVObject_read', [self.p, NULL]); prove('arguments', w.fmt == 'i')
        if r.b is None: prove('an error only when the library fails', throw and w.err is not None and w.exc.b.name == 'PyExc_RuntimeError'); return
        k = st['k'] - 1; prove('no error', w.err is None); prove('a record was read', k >= k0); prove('it is a chosen one, or there are no more', chosen(k)); prove('none passed over before it', implies(b_and(y >= k0, y < k), b_not(chosen(y))))
        f, x = w.built; form = ''.join('x' if z.isalpha() else z for z in f); prove('form of the result', form == '((xx(xx))xxx)'); kinds, x = zip(*[w.built_item(z, y2) for z, y2 in zip([z for z in f if z.isalpha()], x)]); prove('kinds of objects', kinds == ('array', 'float', 'int', 'int', 'array', 'array', 'int')); u, t, i, j, dat, fl, nr = x; eq('time', t, T(k)); eq('first antenna', i, a); eq('second antenna', j, b); eq('number of channels', nr, NR(k))
        prove('uvw: three numbers', u.b.kind == 'array' and u.b.typenum == 12 and bool(u.b.n == 3))
        for q in range(3): eq('uvw', u.b.arr.get(0, Num.of(q)), uvw[q])
        for v, tn, nn, ty in ((dat, 14, 'data', False), (fl, 5, 'flag', True)):
            prove('%s array' % nn, v.b.kind == 'array' and v.b.typenum == tn); eq('size of %s' % nn, v.b.n, n2); c = index('c', n2 * (1 if ty else 2)); eq('%s of the record' % nn, v.b.arr.get(0, c), func(nn, [k, c], ty)); eq('one reference of %s' % nn, v.b.d[0][1], 1)
        eq('one reference of uvw', u.b.d[0][1], 1); eq('time of the last record kept', self['curtime'], T(k)); eq('integration kept', self['intcnt'], I(k)); eq('decimation unchanged', self['decimate'], d); eq('phase unchanged', self['decphase'], ph)
def divides(x, d):
    """d divides x (d >= 1)"""
    if d.isconst() and d == 1: return True
    return llvm.crem(x, d) == 0
def build(root, **kw):
    S = Suite(root, dict(stubs.ALL, _miriad=uvstub.stub), transforms=LOOPS, **kw)
    S.assumptions += ['machine integers mathematical except where narrowed', 'times positive', 'antennas numbered from 0 to 2046']
    S.trusted += ['clang: the IR is compiled from the current text of the sources (-O0)', 'IR semantics of vc/llvm.py', 'uvopen_c, uvset_c, uvread_c, uvwrite_c, uvrewind_c: records in the order of the file']
    Wl = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k)); d = {}
    def wrap():
        if not d: d['w'] = llvm.Module(root, '_miriad/miriad_wrap.cpp')
        return d['w']
    reading(S, Wl, wrap, '_miriad.UV.raw_read', False)
    sel = lambda l: next(x for k, x in enumerate(l) if k == len(l) - 1 or E().choose('of %s' % (x,)))
    @S.fn('_miriad.UV.raw_write', ['_miriad/miriad_wrap.cpp:UVObject_write'], Wl('records'))
    def _(s):
        m = llvm.Machine(wrap()); w = mir.W(m); w.api(); tno = integer('tno'); self = UVO(m, tno=tno); n = size('n', 0); assume(n < 2**26); bad = sel([None, 'uvw rank', 'uvw length', 'data rank', 'flags length', 'uvw type', 'data type', 'flags type']); seen = []; throw = bad is None and E().choose('the library fails')
        uvw = cc.ndarray(m, 'uvw', [3] if bad not in ('uvw rank', 'uvw length') else [3, 2] if bad == 'uvw rank' else [4], 'DOUBLE' if bad != 'uvw type' else 'FLOAT', strided=True)
        dat = cc.ndarray(m, 'data', [n] if bad != 'data rank' else [n, 1], 'CFLOAT' if bad != 'data type' else 'CDOUBLE'); fl = cc.ndarray(m, 'flags', [n if bad != 'flags length' else n + 1], 'INT' if bad != 'flags type' else 'DOUBLE')
        t, a, b = real('time'), integer('antenna 1', 0, 300), integer('antenna 2', 0, 300); bl = antpair(a, b)
        def write(m, tn, pre, p, q, k):
            eq('data set', tn, tno); seen.append(1); prove('the data themselves', p.b is dat.b.arr and bool(p.off == 0)); prove('the flags themselves', q.b is fl.b.arr and bool(q.off == 0)); eq('all channels', k, n)
            for c in range(3): eq('uvw', m.load(pre.add(8 * c), 'double'), uvw.b.arr.get(0, Num.of(c)))
            eq('time', m.load(pre.add(24), 'double'), t); eq('antenna pair', m.load(pre.add(32), 'double'), bl)
            if throw: raise llvm.Throw()
        m.ext['uvwrite_c'] = write; w.objs = [uvw, t, a, b, dat, fl]
        r = m.call('UVObject_write', [self.p, NULL]); prove('arguments', w.fmt == '(O!d(ii))O!O!'); cc.refs('raw_write', uvw, dat, fl)
        if bad: prove('refused, nothing written', r.b is None and w.err is not None and not seen); return
        prove('written once', len(seen) == 1)
        if throw: prove('the error is reported', r.b is None and w.err is not None and w.exc.b.name == 'PyExc_RuntimeError'); return
        prove('no error', w.err is None); none(m, r)
    @S.fn('_miriad.UV.rewind', ['_miriad/miriad_wrap.cpp:UVObject_rewind'], Wl('records'))
    def _(s):
        m = llvm.Machine(wrap()); w = mir.W(m); tno = integer('tno'); d, p = integer('every'), integer('phase'); self = UVO(m, tno=tno, decimate=d, decphase=p, intcnt=integer('intcnt'), curtime=real('curtime')); seen = []
        m.ext['uvrewind_c'] = lambda m, t: (eq('data set', t, tno), seen.append(1))[1]; none(m, m.call('UVObject_rewind', [self.p])); prove('rewound once', len(seen) == 1)
        eq('counting starts again', self['intcnt'], -1); prove('no time read yet', self['curtime'] < 0); eq('decimation kept', self['decimate'], d); eq('phase kept', self['decphase'], p); eq('data set kept', self['tno'], tno)
    @S.fn('_miriad.UV.__init__', ['_miriad/miriad_wrap.cpp:UVObject_init'], Wl('records'))
    def _(s):
        m = llvm.Machine(wrap()); w = mir.W(m); self = UVO(m, intcnt=Num.of(0), curtime=Num.of(0), decimate=Num.of(0), decphase=Num.of(0), tno=Num.of(0)); name, status, mode = w.text('file'), w.text(sel(['old', 'new', 'append'])), sel(['r', 'j', 'd', 'x']); mt = w.text(mode); tno = integer('tno', ge=0); calls = []; fails = sel([None, 'open', 'set']); handler = []
        def opn(m, p, n, st):
            prove('the errors of the library come back', handler == [1]); prove('the file and how it is opened', n.b is name.b and st.b is status.b); calls.append('open')
            if fails == 'open': raise llvm.Throw()
            m.store(p, 'i32', tno)
        def st(m, t, obj, typ, n, p1, p2, p3):
            eq('data set', t, tno); calls.append((cc.cstr(m, obj), cc.cstr(m, typ)))
            if fails == 'set': raise llvm.Throw()
        def rec(m, f): prove('handler', f[0] == 'fn' if isinstance(f, tuple) else f.b is not None); handler.append(1)
        m.ext.update(uvopen_c=opn, uvset_c=st, bugrecover_c=rec); w.objs = [name, status, mt]; r = m.call('UVObject_init', [self.p, NULL, NULL]); prove('arguments', w.fmt == 'sss')
        if mode not in 'rj': prove('unknown modes refused, nothing opened', bool(r == -1) and w.err is not None and not calls); eq('no data set', self['tno'], -1); return
        if fails: prove('the error is reported', bool(r == -1) and w.err is not None and w.exc.b.name == 'PyExc_RuntimeError'); eq('no data set', self['tno'], -1); return
        prove('opened', bool(r == 0) and w.err is None); prove('opened once, then the preamble and the mode are set', calls[0] == 'open' and sorted(calls[1:]) == sorted([('preamble', 'uvw/time/baseline'), ('corr', mode)])); eq('data set', self['tno'], tno)
        eq('nothing read yet', self['intcnt'], -1); prove('no time read yet', self['curtime'] < 0); eq('no decimation', self['decimate'], 1); eq('no phase', self['decphase'], 0)
    # ---- the Python layer
    def newuv(s): mi = s.load('miriad'); M = s.miriad; u = mi.UV('name', 'new'); M.calls[:] = []; return mi, M, u
    @S.fn('UV.read', ['miriad.UV.read'], Wl('records'))
    def _(s):
        mi, M, u = newuv(s); n = integer('channels', 0, 9, ge=0); assume(n <= 65536); pre = object(); calls = []
        dat, fl = array('data', (Num.of(65536),), 'c'), npsym.ndarray((Num.of(65536),), lambda i: func('flag', [i[0]], True, 0, 1), 'i')
        def rr(self_, k): calls.append(k); prove('its own data', self_ is u); return pre, dat, fl, n
        M.raw_read = rr; raw = E().choose('raw'); f = (lambda: u.read(raw=True)) if raw else (lambda: u.read()) if E().choose('default') else (lambda: u.read(False))
        if bool(n == 0): prove('no record: an I/O error', raises(IOError, f)); prove('one read', calls == [65536]); return
        r = f(); prove('one read, of as many channels as there may be', len(calls) == 1 and bool(Num.of(calls[0]) == 65536)); prove('the preamble', r[0] is pre); prove('form', isinstance(r, tuple) and len(r) == (3 if raw else 2)); c = index('c', n)
        x, k = r[1], (r[2] if raw else npsym.ma_getmask(r[1]) if hasattr(npsym, 'ma_getmask') else r[1].mask); shape_is('data', x, (n,)); shape_is('flags', k, (n,)); prove('masked array' if not raw else 'plain array', npsym.ma.isMA(x) == (not raw)); y = npsym.asarray(x.data if not raw else x).at(c)
        eq('the data of the record', y, dat.at(c)); prove('flagged where the library says it is not good', iff(k.at(c), fl.at(c) == 0)); prove('flags are true or false', k.kind == 'b')
    @S.fn('UV.write', ['miriad.UV.write'], Wl('records'))
    def _(s):
        mi, M, u = newuv(s); n = integer('channels', 1, 9); assume(n >= 1); pre = object(); form = sel(['none', 'flags', 'mask', 'nomask', 'flags, masked data']); x = array('data', (n,), 'c'); fk = sel('bi'); 
        F = npsym.ndarray((n,), lambda i: (func('flag', [i[0]], True, 0, 1) == 1) if fk == 'b' else func('flag', [i[0]], True, -2, 2), fk); is_ = lambda c: F.at(c) if fk == 'b' else F.at(c) != 0
        if form == 'none':
            r = u.write(pre, None) if E().choose('without flags') else u.write(pre, None, F); prove('nothing is written', r is None and not M.calls); return
        if form == 'flags': r = u.write(pre, x, F)
        elif form == 'flags, masked data': r = u.write(pre, npsym.ma_array(x, mask=array('m', (n,), 'b')), F)
        elif form == 'mask': r = u.write(pre, npsym.ma_array(x, mask=F))
        else:
            y = npsym.ma_array(x); y.mask = npsym.ndarray((), lambda i: False, 'b') if E().choose('no mask at all') else y.mask; r = u.write(pre, y)
        prove('one record', len(M.calls) == 1 and M.calls[0][:2] == ('raw_write', u)); p, d, f = M.calls[0][2:]; prove('the preamble', p is pre); shape_is('data', d, (n,)); shape_is('flags', f, (n,)); c = index('c', n)
        eq('the data', npsym.asarray(d.data if npsym.ma.isMA(d) else d).at(c), x.at(c)); g = npsym.asarray(f).at(c); prove('kinds', f.kind == 'i' and d.kind == 'c'); g = Num.of(g); prove('good where it is not flagged', b_or(b_and(g == 1, True if form == 'nomask' else b_not(is_(c))), b_and(g == 0, False if form == 'nomask' else is_(c))))
    @S.fn('UV.all', ['miriad.UV.all'], Wl('records'))
    def _(s):
        mi, M, u = newuv(s); raw = E().choose('raw'); calls = []; N = integer('records', 0, 4, ge=0); st = dict(k=Num.of(0))
        def read(self_, raw=False):
            k = st['k']; prove('as asked', bool(raw) == want)
            if bool(k >= N): 
                st['end'] = st.get('end', 0) + 1
                if st['end'] > 2: prove('stops at the end', False); raise PathEnd()
                raise IOError('No data read')
            st['k'] = k + 1; return ('record', k)
        want = raw; s.patch(mi.UV, 'read', read) if hasattr(s, 'patch') else setattr(mi.UV, 'read', read); y = []
        g = u.all(raw=raw) if raw or E().choose('named') else u.all(); nmax = 3
        for i in range(nmax + 1):
            try: v = next(g)
            except StopIteration: prove('ends with the records', b_and(N == i, st.get('end') == 1)); break
            prove('the records in order, each once', v[0] == 'record' and bool(v[1] == i) and bool(i < N))
            if i == nmax: break
    @S.fn('UV.__init__', ['miriad.UV.__init__', 'miriad.UV._gen_vartable'], Wl('records'))
    def _(s):
        mi = s.load('miriad'); M = s.miriad; status, mode = sel(['old', 'new', 'append', 'other']), sel(['r', 'j', 'd']); M.rdvr = lambda u, n, t: nch if n == 'nchan' else ('variable', n); nch = integer('nchan', 1, 9); has = E().choose('a variable nchan'); tab = sel(['r coord\ni nants\n', 'd time\nr ut\n\n', 'j corr\n']) + ('i nchan\n' if has else '')
        it = uvstub.Item('vartable'); it.bytes = tab.encode(); it.n = Num.of(len(it.bytes)); it.f = lambda k: it.bytes[int(Num.of(k).const()):][:1]; M.items['vartable'] = it
        if status == 'other' or mode == 'd': prove('refused', raises(AssertionError, lambda: mi.UV('name', status, mode)) and not M.calls); return
        M.raw_read = lambda u, n: (M.calls.append('read'), (('uvw', 1, (0, 1)), array('data', (Num.of(65536),), 'c'), npsym.ndarray((Num.of(65536),), lambda i: func('flag', [i[0]], True, 0, 1), 'i'), Num.of(4)))[1]
        u = mi.UV('name', status, mode) if mode == 'j' or status != 'old' or E().choose('all given') else mi.UV('name'); prove('opened', M.calls[0] == ('open', 'name', status, mode)); prove('status', u.status == status)
        if status != 'old': prove('nothing read, no variables yet', len(M.calls) == 1 and u.vartable == {'corr': mode}); return
        prove('the first record is looked at, then back to the start', [c if isinstance(c, str) else c[0] for c in M.calls[1:] if c[0] != '_rdvr'] == ['read', 'rewind']); prove('variables and their types', u.vartable == dict(reversed(l.split()) for l in tab.split('\n') if l))
        if has: prove('channels', u.nchan is nch or bool(Num.of(u.nchan) == nch))
        else: prove('channels', u.nchan == 65536)
    mods = {}
    def mod(f):
        if f not in mods: mods[f] = llvm.Module(root, f)
        return mods[f]
    uvrec.build(S, mod, Wl, sel, 'C22')
    uvread.build(S, mod, Wl, sel, 'C22')
    return S
