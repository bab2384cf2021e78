"""Flag masks: the buffered bit store of maskio.c over its LLVM IR, for any history (state invariant), offset, length and pattern."""
from vc.api import *
from vc import llvm, num
from vc.num import Num
from vc.engine import PathEnd
from vc.llvm import Ptr, NULL, Undef, Bits, as_bits
from . import stubs, cc
from .mir import H

NB, W = 128, 31
OFF = dict(modified=516, rdonly=520, tno=524, offset=528, length=536, size=544)
TY = dict(modified='i32', rdonly='i32', tno='i32', offset='i64', length='i64', size='i64')
def word(n): return Num(n.n, n.d, True)
class Mask:
    """a mask as the routines see it: the file's words (bit functions), the window held in memory, the record's fields.
    The flag at position p (bits counted from the start of the file, 31 to a word) is the window's where the window reaches, the file's elsewhere."""
    def __init__(self, m, name='st'):
        self.m, self.seq, self.calls = m, 0, []; self.buf = m.array('buf', [NB], [(0, 'i32')], lambda c, i: Undef('buffer'), strides=[Num.of(4)])
        self.rec = m.rec('mask', {0: ('i32', integer('item', record=False))}, 584, regions=[(4, 516, self.buf)]); self.p = Ptr(self.rec, 0); self.fver = m.rec('the file', {0: ('i64', Num.of(0))}); self.open = True
    def __getattr__(self, n):
        if n in OFF: return self.rec.d[OFF[n]][1]
        raise AttributeError(n)
    def set(self, **k):
        for n, v in k.items(): self.m.store(self.p.add(OFF[n]), TY[n], Num.of(v))
    def setfile(self, f, sz): self.file, self.sz = f, Num.of(sz); self.fver.ver += 1
    def flag(self, p, n='L'): return func(n, [p], True, 0, 1, axioms=lambda a: [a.z >= 0, a.z <= 1]) == 1
    def end(self): return num_max(self.size, self.offset + self.length) if bool(self.modified != 0) else self.size
    def havoc(self, L, E0, tag, rdonly=None, mod=None, hole=None):
        """an arbitrary state that satisfies the invariant, in which the flag at every position p < E0 (outside the hole, still to be written) is L(p)"""
        self.seq += 1; t = '%s%d' % (tag, self.seq); I = lambda n, lo=0, hi=9: integer('%s.%s' % (t, n), lo, hi, record=False)
        mo, ln, sz = I('window', -128, 9), I('length'), I('words', 1); assume(b_and(sz >= 1, sz < 2**31 - NB)); assume(b_and(ln >= 0, ln <= NB * W)); assume(b_or(mo >= 1, b_and(mo == -NB, ln == 0)))
        mod = mod if mod is not None else E().choose('%s modified' % tag); ro = rdonly if rdonly is not None else (not mod and E().choose('%s read-only' % tag))
        if mod: assume(ln > 0); assume(mo <= sz); assume(mo >= 1)
        else: assume(b_or(ln == 0, W * mo + ln <= W * sz)); 
        if E0 is not None: assume(E0 <= W * sz if not mod else b_or(E0 <= W * sz, E0 <= W * mo + ln))
        self.set(offset=W * mo, length=ln, size=W * sz, modified=1 if mod else 0, rdonly=1 if ro else 0)
        G = lambda nm, p: self.flag(p, '%s.%s' % (t, nm)); T0 = lambda p: L(p) if E0 is None else ite(p < E0, lambda: L(p), lambda: G('beyond', p)); T = T0 if hole is None else lambda p: ite(within(p, *hole), lambda: G('to be written', p), lambda: T0(p))
        inwin = lambda p: within(p, W * mo, W * mo + ln)
        self.buf.set_all(lambda c, i: Bits(32, lambda j: G('top', W * i[0] + j) if not inword(j) else ite(inwin(W * (mo + i[0]) + j), lambda: T(W * (mo + i[0]) + j), lambda: G('stale', W * i[0] + j))))
        self.setfile(lambda w: Bits(32, lambda j: G('ftop', W * w + j) if not inword(j) else ite(inwin(W * w + j), lambda: G('old', W * w + j), lambda: T(W * w + j)) if mod else T(W * w + j)), sz)
        self.mo = mo; return self
    def bit(self, w, j):
        """the flag at word w, bit j of the file as it stands"""
        p = W * w + j; off = self.offset
        if self.length.isconst() and self.length == 0: return as_bits(self.file(w), 32).bit(j)
        return ite(within(p, off, off + self.length), lambda: as_bits(self.buf.get(0, w - word(off / W)), 32).bit(j), lambda: as_bits(self.file(w), 32).bit(j))
    def invariant(self, ask, L, E1, names='', x=None, hole=None):
        """the state satisfies the invariant and the flag at every position p < E1 is L(p)"""
        off, ln = self.offset, self.length; mo = off / W
        ok = all(c.denominator == 1 for c in mo.n.values()); ask('window on a word boundary' + names, ok)
        if not ok: raise PathEnd()
        mo = word(mo); sz = self.sz; mod, ro = self.modified, self.rdonly; ask('flag values' + names, mod.isconst() and ro.isconst()); mod = bool(mod != 0)
        ask('window length' + names, b_and(ln >= 0, ln <= NB * W)); ask('window after the header' + names, b_or(mo >= 1, b_and(mo == -NB, ln == 0))); ask('size of the file' + names, self.size == W * sz); ask('header' + names, sz >= 1)
        if mod: ask('changes in a window that starts inside the file or at its end' + names, b_and(ln > 0, mo >= 1, mo <= sz)); ask('changes only when writable' + names, ro == 0)
        else: ask('unchanged window inside the file' + names, b_or(ln == 0, off + ln <= W * sz))
        if E1 is not None: ask('nothing lost' + names, b_or(E1 <= W * sz, E1 <= off + ln))
        w, j = x or where(); p = W * w + j
        ask('flag at every position' + names, implies(b_and(True if E1 is None else p < E1, True if hole is None else b_not(within(p, *hole))), iff(self.bit(w, j), L(p))))
        if not mod and not (self.length.isconst() and self.length == 0): ask('window as in the file' + names, implies(within(p, off, off + ln), iff(as_bits(self.buf.get(0, w - mo), 32).bit(j), as_bits(self.file(w), 32).bit(j))))
    # ---- the item by contract: words of the file
    def hio(self, m, item, dw, ty, buf, off, ln, st):
        eq('item of the mask', item, self.rec.d[0][1]); prove('words', b_and(ty == H['INT'])); k, w0 = ln / 4, off / 4
        ok = all(c.denominator == 1 for c in list(k.n.values()) + list(w0.n.values())); prove('whole words', ok)
        if not ok: raise PathEnd()
        k, w0 = word(k), word(w0); self.calls.append(('write' if dw.const() else 'read', w0, k))
        prove('not before the header ends', w0 >= 1) if self.open else None
        prove('some words', k >= 1)
        if self.fail: m.store(st, 'i32', Num.of(5)); return
        m.store(st, 'i32', Num.of(0))
        if buf.b is self.rec:
            t = (buf.off - 4) / 4; t = word(t); prove('within the buffer', b_and(t >= 0, t + k <= NB))
            if dw.const() == 0:
                prove('words that exist', w0 + k <= self.sz); g = self.buf.snapshot(); F = self.file
                self.buf.set_all(lambda c, i: mix(within(i[0], t, t + k), lambda: F(i[0] - t + w0), lambda: g(c, *i)))
            else:
                prove('item is writable', self.rdonly == 0); prove('no hole', w0 <= self.sz); g = self.buf.snapshot(); F = self.file; sz = self.sz
                self.setfile(lambda w: mix(within(w, w0, w0 + k), lambda: g(0, w - w0 + t), lambda: F(w)), num_max(sz, w0 + k))
        else:
            eq('one word', k, 1); prove('a read', dw.const() == 0); prove('words that exist', w0 + k <= self.sz); m.store(buf, 'i32', self.file(w0))
def ite(c, a, b):
    """a() if c else b(), as a truth value"""
    if isinstance(c, bool): return a() if c else b()
    x, y = a(), b()
    if x is y: return x
    return b_or(b_and(c, x), b_and(b_not(c), y))
def mix(c, a, b):
    """word a() where c, else b()"""
    if isinstance(c, bool): return a() if c else b()
    return Bits(32, lambda j: ite(c, lambda: as_bits(a(), 32).bit(j), lambda: as_bits(b(), 32).bit(j)))
def within(p, lo, hi): return b_and(p >= lo, p < hi)
def inword(j):
    j = Num.of(j); return bool(j != 31)
def where(nm=''):
    """an arbitrary word and bit"""
    w, j = integer('word' + nm, 0, 3, ge=0), integer('bit' + nm, 0, 30, ge=0); assume(j < W); return w, j
def num_max(a, b): return Num.of(a) if bool(Num.of(a) >= b) else Num.of(b)
def num_min(a, b): return Num.of(a) if bool(Num.of(a) <= b) else Num.of(b)
def iff(a, b): return llvm.iff(a, b)
def num_even(k): return Num.of(k) % 2 == 0
def progress(st, ask, env):
    """every turn of the inner loop does at least one channel, every turn of the outer one leaves fewer to do"""
    if 'l' in st: ask('fewer left of these', env['len'] < st['l']); ask('the others left alone', env['n'] == st['rest'])
    elif 'n' in st: ask('fewer left', env['n'] < st['n'])
def up(n): return W * ((n - 1) // W + 1)
def build(root, **kw):
    S = Suite(root, dict(stubs.ALL), **kw)
    S.assumptions += ['machine integers mathematical except where narrowed', 'reads inside what has been written, writes starting at or before its end', 'flag buffers as large as the call says', 'mask items of less than 8 GB']
    S.trusted += ['clang: the IR is compiled from the current text of maskio.c (-O0)', 'IR semantics of vc/llvm.py', 'hio_c, haccess_c, hdaccess_c, hsize_c: items as arrays of words (big-endian by C20)']
    Wl = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k))
    d = {}
    def mod():
        if not d: d['m'] = llvm.Module(root, '_miriad/mir/maskio.c')
        return d['m']
    def machine(fail=False, **ext):
        m = llvm.Machine(mod()); K = Mask(m); K.fail = fail
        def die(m, sev, *a):
            if not fail: prove('no error is reported', False)
            raise PathEnd()
        m.ext.update(hio_c=K.hio, bug_c=die, bugno_c=die, **ext); return m, K
    any_ = lambda p: func('L', [p], True, 0, 1, axioms=lambda a: [a.z >= 0, a.z <= 1]) == 1
    # ---- flush
    def flush_contract(K):
        def f(m, p):
            prove('the mask', p.b is K.rec and p.off == 0); prove('changes to write', K.modified != 0); off, ln, sz = K.offset, K.length, K.sz; E0 = K.end(); mo = word(off / W)
            g, F = K.buf.snapshot(), K.file; K.seq += 1; t = 'flush%d' % K.seq; G = lambda nm, q: K.flag(q, '%s.%s' % (t, nm))
            def K0(p, w, j): return ite(within(p, off, off + ln), lambda: as_bits(g(0, w - mo), 32).bit(j), lambda: as_bits(F(w), 32).bit(j))
            K.setfile(lambda w: Bits(32, lambda j: G('ftop', W * w + j) if not inword(j) else ite(W * w + j < E0, lambda: K0(W * w + j, w, j), lambda: G('new', W * w + j))), num_max(sz, mo + (ln - 1) // W + 1))
            K.set(size=W * K.sz, length=up(ln), modified=0); K.buf.set_all(lambda c, i: Bits(32, lambda j: G('top', W * i[0] + j) if not inword(j) else ite(W * i[0] + j < up(ln), lambda: K.file(mo + i[0]).bit(j), lambda: G('stale', W * i[0] + j))))
        return f
    for fail in (False, True):
        @S.fn('maskio.mkflush' + ('.failure' if fail else ''), ['_miriad/mir/maskio.c:mkflush_c'], Wl('history'))
        def _(s, fail=fail):
            m, K = machine(fail); K.havoc(any_, None, 'st', rdonly=False); assume(K.modified != 0); E0 = K.end(); off, ln, sz = K.offset, K.length, K.sz
            m.call('mkflush_c', [K.p])
            if fail: prove('a failure is reported', False); return
            prove('no changes left', K.modified == 0); K.invariant(prove, any_, E0); eq('same window', K.offset, off); prove('window not smaller', K.length >= ln); eq('length', K.length, up(ln)); eq('size', K.size, num_max(W * sz, off + up(ln)))
    # ---- filling in
    def fill_contract(K):
        def f(m, p, o):
            prove('the mask', p.b is K.rec and p.off == 0); off, ln, sz = K.offset, K.length, K.sz; mo = word(off / W)
            prove('gap inside the window', b_and(mo >= 1, o > off + ln, o < off + NB * W)); prove('starts at or before the end', o <= W * sz); g, F = K.buf.snapshot(), K.file; K.seq += 1; t = 'fill%d' % K.seq
            n2 = integer(t + '.length', 0, 9, record=False); assume(b_and(n2 >= ln, off + n2 >= o, n2 <= NB * W, off + n2 <= W * sz))
            def K0(p, w, j): return ite(within(p, off, off + ln), lambda: as_bits(g(0, w - mo), 32).bit(j), lambda: as_bits(F(w), 32).bit(j))
            G = lambda nm, q: K.flag(q, '%s.%s' % (t, nm))
            K.set(length=n2); K.buf.set_all(lambda c, i: Bits(32, lambda j: G('top', W * i[0] + j) if not inword(j) else ite(W * i[0] + j < n2, lambda: K0(W * (mo + i[0]) + j, mo + i[0], j), lambda: G('stale', W * i[0] + j))))
        return f
    for fail in (False, True):
        @S.fn('maskio.mkfill' + ('.failure' if fail else ''), ['_miriad/mir/maskio.c:mkfill'], Wl('history'))
        def _(s, fail=fail):
            m, K = machine(fail); K.havoc(any_, None, 'st', rdonly=False); E0 = K.end(); off, ln, sz, mo, md = K.offset, K.length, K.sz, K.mo, K.modified; o = integer('at'); assume(o < W * (2**31 - NB)); assume(b_and(mo >= 1, o > off + ln, o < off + NB * W, o <= W * sz))
            m.call('mkfill', [K.p, o])
            if fail: prove('a failure is reported', False); return
            K.invariant(prove, any_, E0); eq('same window', K.offset, off); prove('window not smaller', K.length >= ln); eq('size', K.size, W * sz); eq('changes still to be written', K.modified, md); prove('reaches the position', off + K.length >= o); prove('inside the file', off + K.length <= W * sz)
    # ---- writing
    def reopen(K):
        """the item is closed and opened again for changes"""
        def hd(m, item, st): eq('item closed', item, K.rec.d[0][1]); prove('open', K.open); K.open = False; m.store(st, 'i32', Num.of(0))
        def ha(m, tno, ip, name, mode, st):
            eq('data set', tno, K.tno); prove('the item of this name', name.b is K.rec and name.off == 552); prove('closed before it is opened again', not K.open); prove('opened for changes', cc.cstr(m, mode) == 'append'); prove('handle kept', ip.b is K.rec and ip.off == 0); m.store(ip, 'i32', integer('item2', record=False)); K.open = True; m.store(st, 'i32', Num.of(5 if K.fail else 0))
        return dict(hdaccess_c=hd, haccess_c=ha)
    def start(fail=False, **ext):
        m, K = machine(fail, **ext); K.set(tno=integer('tno')); m.ext.update(mkflush_c=flush_contract(K), mkfill=fill_contract(K), **reopen(K)); K.havoc(any_, None, 'st'); return m, K
    def at(name, b, off): return b is not None and (name.b is b and bool(name.off == off))
    def bufptr(K, p):
        """word index of a pointer into the buffer"""
        ok = isinstance(p, Ptr) and p.b is K.rec
        if not ok: return None
        q = (p.off - 4) / 4; return word(q) if all(c.denominator == 1 for c in q.n.values()) else None
    def writing(mode):
        m, K = machine(); K.set(tno=integer('tno')); m.ext.update(mkflush_c=flush_contract(K), mkfill=fill_contract(K), **reopen(K))
        E0, o, n = integer('end', 31, 99), integer('offset', 0, 64, ge=0), integer('n', 0, 64, ge=0); assume(o + W <= E0); assume(b_and(n < 2**31, o + n < W * (2**31 - 2 * NB))); P0 = o + W; n0 = n
        val = lambda k: func('value', [k], True, -1, 2); uid = [0]
        if mode == 1: nr = n; fl = m.array('flags', [n], [(0, 'i32')], lambda c, i: val(i[0]), strides=[Num.of(4)], readonly=True); new = lambda k: val(k) != 0
        else:
            # runs by their boundaries: flag k is set iff b(2i) <= k < b(2i+1) for some i
            nr = integer('runs', 0, 5, ge=0); b = lambda k: func('b', [k], True, 0, 9)
            assume(b_and(b(Num.of(-1)) == 0, b(Num.of(-2)) == 0)); fl = m.array('runs', [nr], [(0, 'i32')], lambda c, i: b(i[0]) + (1 if bool(num_even(i[0])) else 0), strides=[Num.of(4)], readonly=True); new = lambda k: func('in run', [k], True, 0, 1, axioms=lambda a: [a.z >= 0, a.z <= 1]) == 1
        m.setmark('mask', 'flags0'); K.havoc(any_, E0, 'st')
        def upto(x): return lambda p: ite(within(p, P0, P0 + x), lambda: new(p - P0), lambda: any_(p))
        def Ex(x):
            """the larger of the old end and the end of what was written"""
            uid[0] += 1; e = func('end', [x], True); assume(b_and(e >= E0, e >= P0 + x, b_or(e == E0, e == P0 + x))); return e
        # boundaries passed: k of them, the flags before boundary k - 1 done; tail: all passed, the last state to the end
        B = lambda k: b(k)
        def runfacts(k):
            """the boundaries are in order; flags between boundaries k-1 and k"""
            for q in (k - 1, k): assume(implies(b_and(q >= 0, q < nr), b_and(B(q) >= B(q - 1), B(q) < 2**31 - 1)))
            for q in (k - 2, k - 1): assume(implies(q < 0, B(q) == 0))
        def define(k, y, tail):
            e = bool(num_even(k)) != tail
            assume(implies(b_and(y >= B(k - 2), y < B(k - 1)) if not tail else y >= B(k - 1), iff(new(y), e)))
        def runstate(env, ask, x, rest):
            k = (fl_off(env['flags'])); ok = k is not None; ask('pointer into the runs', ok)
            if not ok: raise PathEnd()
            ask('runs left', b_and(k >= 0, env['nsize'] == nr - k)); s, r = env['state'], env['run']; even = bool(num_even(k)); tail = bool(s == (0 if even else 1))
            if not tail: ask('boundary', env['curr'] == B(k - 1)); ask('state', s == (1 if even else 0)); ask('run', b_and(r == B(k - 1) - x, r >= 0)); ask('in this run', x >= B(k - 2))
            else: ask('no runs left', k == nr); ask('to the end', r == rest); ask('after the last boundary', x >= B(k - 1))
        def fl_off(p):
            if not (isinstance(p, Ptr) and p.b is fl): return None
            q = p.off / 4; return word(q) if all(c.denominator == 1 for c in q.n.values()) else None
        def anyrun(x, rest):
            uid[0] += 1; k = integer('k%d' % uid[0], 0, 5, record=False); assume(b_and(k >= 0, k <= nr)); even = bool(num_even(k)); tail = E().choose('after the last run'); runfacts(k); st['k'], st['tail'] = k, tail
            if tail: assume(k == nr); assume(x >= B(k - 1)); r = rest; s = 0 if even else 1; c = integer('curr%d' % uid[0], 0, 5, record=False)
            else: r = B(k - 1) - x; assume(r >= 0); assume(x >= B(k - 2)); s = 1 if even else 0; c = B(k - 1)
            return dict(nsize=nr - k, flags=Ptr(fl, 4 * k), state=Num.of(s), run=r, curr=c)
        st = {}
        def inv0(env, ask):
            if ask.__name__ == 'use': return
            x = n0 - env['n']; ask('no more than asked', b_and(x >= 0, x <= n0)); ask('next position', env['offset'] == P0 + x)
            if mode == 1: ask('next flag', at(env['flags'], fl, 4 * x))
            else: runstate(env, ask, x, n0 - x)
            ask('writable', K.rdonly == 0); K.invariant(ask, upto(x), Ex(x), x=where('.0'))
        def havoc0(env):
            x = st['x'] = integer('done', 0, 9, record=False); st['n'] = n0 - x; assume(b_and(x >= 0, x <= n0)); K.havoc(upto(x), Ex(x), 'w', rdonly=False); K.rec.d[0] = ('i32', integer('item3', record=False)); K.open = True
            v = dict(n=n0 - x, offset=P0 + x)
            if mode == 1: v['flags'] = Ptr(fl, 4 * x)
            else: v.update(anyrun(x, n0 - x))
            return v
        m.contract('mkwrite_c:0', inv0, havoc0, cut=True)
        # within the window; x flags done
        def words(env, ask):
            if ask.__name__ == 'use': return
            progress(st, ask, env); l = env['len']; x = n0 - env['n'] - l; pos = P0 + x; ask('no more than asked', b_and(l >= 0, x >= 0, env['n'] >= 0)); ask('position after these', env['offset'] == pos + l)
            if mode == 1: ask('next flag', at(env['flags'], fl, 4 * x))
            else: runstate(env, ask, x, n0 - x)
            ask('to be written', K.modified == 1); ask('writable', K.rdonly == 0); ask('window reaches from here to the end of these', b_and(K.offset <= pos, pos + l <= K.offset + K.length))
            if mode == 2 or bool(l > 0):
                t = bufptr(K, env['buf']); ask('pointer into the buffer', t is not None)
                if t is None: raise PathEnd()
                ask('next bit', b_and(K.offset + W * t + env['boff'] == pos, env['boff'] >= 0, env['boff'] < W))
            w, j = where('.1')
            if mode == 2 and 'k' in st: define(st['k'], W * w + j - P0, st['tail'])
            K.invariant(ask, upto(x), Ex(x), x=(w, j), hole=(pos, pos + l))
        def havocw(env):
            x, l, rest = [integer(q, 0, 9, record=False) for q in ('x', 'l', 'rest')]; assume(b_and(x >= 0, l >= 0, rest >= 0, x + l + rest == n0)); st['x'] = x; pos = P0 + x; st['l'], st['rest'] = l, rest
            K.havoc(upto(x), Ex(x), 'b', rdonly=False, mod=True, hole=(pos, pos + l)); assume(b_and(K.offset <= pos, pos + l <= K.offset + K.length)); K.rec.d[0] = ('i32', integer('item4', record=False)); K.open = True
            v = dict(len=l, n=rest, offset=pos + l)
            if mode == 1: v['flags'] = Ptr(fl, 4 * x)
            else: v.update(anyrun(x, n0 - x))
            if mode == 2 or bool(l > 0):
                t, j = integer('wordno', 0, 9, record=False), integer('bitno', 0, 30, record=False); assume(b_and(j >= 0, j < W, W * (K.mo + t) + j == pos)); v.update(buf=Ptr(K.rec, 4 + 4 * t), boff=j); st['t'] = t
            return v
        m.contract('mkwrite_c:%d' % (1 if mode == 1 else 3), words, havocw, cut=True, fixed=('n', 'offset', 'state'))
        def bitsof(env, ask):
            if ask.__name__ == 'use': return
            i = env['i']; k = st['x'] + i - env['boff']; ask('range', b_and(i >= env['boff'], i <= env['boff'] + env['blen'])); ask('next flag', at(env['flags'], fl, 4 * k)); j = where('.c')[1]
            ask('bits of the word', iff(as_bits(env['bitmask'], 32).bit(j), newbits(env, i)(j)))
        def newbits(env, i):
            t, a = st['t'], env['boff']; old = as_bits(K.buf.get(0, t), 32)
            return lambda j: ite(within(j, a, i), lambda: new(W * (K.mo + t) + j - P0), lambda: old.bit(j))
        def havocb(env):
            i = integer('bit at', 0, 30, record=False); assume(b_and(i >= env['boff'], i <= env['boff'] + env['blen'])); f = newbits(env, i); old = as_bits(K.buf.get(0, st['t']), 32)
            return dict(i=i, bitmask=Bits(32, lambda j: old.bit(j) if not inword(j) else f(j)), flags=Ptr(fl, 4 * (st['x'] + i - env['boff'])))
        def nextrun(env, ask):
            if ask.__name__ == 'use': return
            if 'size' in st: ask('a run read or the last one found', b_or(env['nsize'] < st['size'], env['run'] > 0))
            runstate(env, ask, st['x'], n0 - st['x'])
        def next_(env): v = anyrun(st['x'], n0 - st['x']); st['size'] = v['nsize']; return v
        if mode == 1: m.contract('mkwrite_c:2', bitsof, havocb)
        else: m.contract('mkwrite_c:4', nextrun, next_, side=True)
        r = m.call('mkwrite_c', [K.p, Num.of(mode), Ptr(fl, 0), o, n, nr]); K.invariant(prove, upto(n0), Ex(n0)); prove('item left open', K.open)
    @S.fn('maskio.mkwrite.flags', ['_miriad/mir/maskio.c:mkwrite_c'], Wl('history'))
    def _(s): writing(1)
    @S.fn('maskio.mkwrite.runs', ['_miriad/mir/maskio.c:mkwrite_c'], Wl('history'))
    def _(s): writing(2)
    # ---- reading
    def reading(mode):
        m, K = machine(); K.set(tno=integer('tno')); m.ext.update(mkflush_c=flush_contract(K))
        E0, o, n = integer('end', 31, 99), integer('offset', 0, 64, ge=0), integer('n', 0, 64, ge=0); assume(b_and(o + n + W <= E0, E0 < W * (2**31 - 2 * NB), n < 2**31)); P0 = o + W; n0 = n; nr = n
        fl = m.array('flags', [nr], [(0, 'i32')], lambda c, i: Undef('flags'), strides=[Num.of(4)]); is_ = lambda k: any_(P0 + k); st = {}
        m.setmark('mask', 'flags0'); K.havoc(any_, E0, 'st')
        def done(ask, x):
            k = integer('flag', 0, 9, record=False); assume(b_and(k >= 0, k < x)); v = fl.get(0, k)
            ok = not isinstance(v, Undef); ask('every flag up to here is set', ok)
            if not ok: raise PathEnd()
            ask('every flag up to here', b_and(b_or(v == 0, v == 1), iff(v == 1, is_(k))))
        def filled(x): fl.set_all(lambda c, i: func('L', [P0 + i[0]], True, 0, 1, axioms=lambda a: [a.z >= 0, a.z <= 1]) if bool(within(i[0], 0, x)) else Undef('flags not yet read'))
        def count(nm): 
            x = integer(nm, 0, 9, record=False); assume(b_and(x >= 0, x <= n0)); return x
        def inv0(env, ask):
            if ask.__name__ == 'use': return
            x = n0 - env['n']; ask('no more than asked', b_and(x >= 0, x <= n0)); ask('next position', env['offset'] == P0 + x); ask('next flag', at(env['flags'], fl, 4 * x)); K.invariant(ask, any_, E0, x=where('.0'))
            done(ask, x)
        def havoc0(env):
            x = st['x'] = count('done'); st['n'] = n0 - x; K.havoc(any_, E0, 'w'); filled(x); return dict(state=Num.of(0), n=n0 - x, offset=P0 + x, flags=Ptr(fl, 4 * x))
        m.contract('mkread_c:0', inv0, havoc0, cut=True)
        def words(env, ask):
            if ask.__name__ == 'use': return
            progress(st, ask, env); l = env['len']; x = n0 - env['n'] - l; pos = P0 + x; ask('no more than asked', b_and(l >= 0, x >= 0, env['n'] >= 0)); ask('position after these', env['offset'] == pos + l); ask('next flag', at(env['flags'], fl, 4 * x))
            ask('window reaches from here to the end of these', b_and(K.offset <= pos, pos + l <= K.offset + K.length))
            if bool(l > 0):
                t = bufptr(K, env['buf']); ask('pointer into the buffer', t is not None)
                if t is None: raise PathEnd()
                ask('next bit', b_and(K.offset + W * t + env['boff'] == pos, env['boff'] >= 0, env['boff'] < W))
            ask('no run open', env['state'] == 0); K.invariant(ask, any_, E0, x=where('.1')); done(ask, x)
        def havocw(env):
            x, l, rest = [integer(q, 0, 9, record=False) for q in ('x', 'l', 'rest')]; assume(b_and(x >= 0, l >= 0, rest >= 0, x + l + rest == n0)); st['x'] = x; pos = P0 + x; st['l'], st['rest'] = l, rest
            K.havoc(any_, E0, 'b'); assume(b_and(K.offset <= pos, pos + l <= K.offset + K.length)); filled(x); v = dict(state=Num.of(0), len=l, n=rest, offset=pos + l, flags=Ptr(fl, 4 * x))
            if bool(l > 0):
                t, j = integer('wordno', 0, 9, record=False), integer('bitno', 0, 30, record=False); assume(b_and(j >= 0, j < W, W * (K.mo + t) + j == pos)); v.update(buf=Ptr(K.rec, 4 + 4 * t), boff=j); st['t'] = t
            return v
        m.contract('mkread_c:1', words, havocw, cut=True, fixed=('n', 'offset', 'state'))
        def bits(first):
            def inv(env, ask):
                if ask.__name__ == 'use': return
                a = env['boff']; b0 = a if first else 0; i = env['i']; x = st['x']; ask('range', b_and(i >= b0, i <= b0 + env['blen'])); ask('next flag', at(env['flags'], fl, 4 * (x + i - b0)))
                def rest():
                    k = integer('flag', 0, 9, record=False); assume(b_and(k >= 0, k < x + i - b0)); instantiate(k - x + a); v = fl.get(0, k)
                    ok = not isinstance(v, Undef); ask('every flag up to here is set', ok)
                    if not ok: raise PathEnd()
                    ask('every flag up to here', b_and(b_or(v == 0, v == 1), iff(v == 1, is_(k))))
                rest()
            def havoc(env):
                a = env['boff']; b0 = a if first else 0; i = integer('bit at', 0, 30, record=False); assume(b_and(i >= b0, i <= b0 + env['blen'])); filled(st['x'] + i - b0); return dict(i=i, flags=Ptr(fl, 4 * (st['x'] + i - b0)))
            return inv, havoc
        if mode == 1:
            m.contract('mkread_c:2', *bits(False)); m.contract('mkread_c:3', *bits(False)); m.contract('mkread_c:4', *bits(True))
        r = m.call('mkread_c', [K.p, Num.of(mode), Ptr(fl, 0), o, n, nr]); K.invariant(prove, any_, E0); eq('number of flags', r, n0); done(prove, n0)
    @S.fn('maskio.mkread.flags', ['_miriad/mir/maskio.c:mkread_c'], Wl('history'))
    def _(s): reading(1)
    # ---- reading as runs: C(x) counts the changes among the flags before x (the first counts when it is set)
    Cn = lambda x: func('changes', [x], True, 0, 9)
    def readruns():
        m, K = machine(); K.set(tno=integer('tno')); m.ext.update(mkflush_c=flush_contract(K))
        E0, o, n, nr = integer('end', 31, 99), integer('offset', 0, 64, ge=0), integer('n', 0, 64, ge=0), integer('capacity', 0, 65); assume(b_and(o + n + W <= E0, E0 < W * (2**31 - 2 * NB), n < 2**31 - 1, nr >= n + 1, nr < 2**31)); P0 = o + W; n0 = n
        fl = m.array('flags', [nr], [(0, 'i32')], lambda c, i: Undef('flags'), strides=[Num.of(4)]); is_ = lambda k: any_(P0 + k); prev = lambda x: b_and(x > 0, is_(x - 1)); st = {}; pos = lambda i: func('run', [i], True, 0, 9)
        changed = lambda y: b_not(iff(is_(y), prev(y))); bitval = lambda y: func('L', [P0 + y], True, 0, 1, axioms=lambda a: [a.z >= 0, a.z <= 1])
        m.setmark('mask', 'flags0'); K.havoc(any_, E0, 'st')
        def unfold(x): assume(implies(x == 0, Cn(x) == 0)); assume(b_and(Cn(x) >= 0, Cn(x) <= x)); c = changed(x); assume(b_or(b_and(c, Cn(x + 1) == Cn(x) + 1), b_and(b_not(c), Cn(x + 1) == Cn(x))))
        def filled(x): st['h'] = x; unfold(x); fl.set_all(lambda c, i: pos(i[0]) if bool(i[0] < Cn(x)) else Undef('runs not yet found'))
        def done(ask, x, last=None):
            y = integer('change', 0, 9, record=False); h = st.get('h', Num.of(0)); assume(b_and(y >= 0, y < x, changed(y))); instantiate_bits(y); unfold(y)
            assume(implies(y < h, b_and(Cn(y) + 1 <= Cn(h), pos(Cn(y)) == y + bitval(y)))); assume(implies(y == h, Cn(y) == Cn(h)))
            v = fl.get(0, Cn(y)); ok = not isinstance(v, Undef); ask('every change up to here is listed', ok)
            if not ok: raise PathEnd()
            ask('every change up to here', v == y + bitval(y))
        def instantiate_bits(y):
            if 'a' in st and 'x' in st: instantiate(y - st['x'] + st['a']); instantiate(y - 1 - st['x'] + st['a'])
        def states(env, ask, x):
            s, q = env['state'], env['otherstate']; ok = s.isconst() and q.isconst() and {int(s.const()), int(q.const())} == {0, 0x7FFFFFFF}; ask('states', ok)
            if not ok: raise PathEnd()
            ask('state is the last flag', iff(bool(s != 0), prev(x))); ask('flags read', env['runs'] == x); f = env['flags']; ask('next run', isinstance(f, Ptr) and f.b is fl and f.off == 4 * Cn(x))
        def anystate(x):
            s = E().choose('last flag set'); assume(iff(s, prev(x))); filled(x); return dict(state=Num.of(0x7FFFFFFF if s else 0), otherstate=Num.of(0 if s else 0x7FFFFFFF), runs=x, flags=Ptr(fl, 4 * Cn(x)))
        def inv0(env, ask):
            if ask.__name__ == 'use': return
            x = n0 - env['n']; ask('no more than asked', b_and(x >= 0, x <= n0)); ask('next position', env['offset'] == P0 + x)
            if 'h' not in st: unfold(Num.of(0))
            states(env, ask, x); K.invariant(ask, any_, E0, x=where('.0')); done(ask, x)
        def count(nm):
            x = integer(nm, 0, 9, record=False); assume(b_and(x >= 0, x <= n0)); return x
        def havoc0(env):
            st.clear(); x = count('done'); st['n'] = n0 - x; K.havoc(any_, E0, 'w'); return dict(anystate(x), n=n0 - x, offset=P0 + x)
        m.contract('mkread_c:0', inv0, havoc0, cut=True)
        def words(env, ask):
            if ask.__name__ == 'use': return
            progress(st, ask, env); l = env['len']; x = n0 - env['n'] - l; p = P0 + x; ask('no more than asked', b_and(l >= 0, x >= 0, env['n'] >= 0)); ask('position after these', env['offset'] == p + l)
            ask('window reaches from here to the end of these', b_and(K.offset <= p, p + l <= K.offset + K.length))
            if bool(l > 0):
                t = bufptr(K, env['buf']); ask('pointer into the buffer', t is not None)
                if t is None: raise PathEnd()
                ask('next bit', b_and(K.offset + W * t + env['boff'] == p, env['boff'] >= 0, env['boff'] < W))
            if 'a' in st and 'bits' not in st: uniform(env, ask, x)
            states(env, ask, x); K.invariant(ask, any_, E0, x=where('.1')); done(ask, x)
        def uniform(env, ask, x1):
            """the word's flags are all the same: by the lemma, no change between the first of them and the last"""
            x0 = st['x']; s = bool(env['state'] != 0); j = integer('flag of the word', 0, 30, record=False); assume(b_and(j >= x0, j < x1)); instantiate_bits(j); ask('the flags of the word are all the same', iff(is_(j), s))
            instantiate_bits(x0); instantiate_bits(x1 - 1); assume(implies(x1 > x0, b_and(Cn(x1) == Cn(x0 + 1), iff(is_(x0), s), iff(is_(x1 - 1), s))))
        def havocw(env):
            st.clear(); x, l, rest = [integer(q, 0, 9, record=False) for q in ('x', 'l', 'rest')]; assume(b_and(x >= 0, l >= 0, rest >= 0, x + l + rest == n0)); p = P0 + x; st['x'] = x; st['l'], st['rest'] = l, rest
            K.havoc(any_, E0, 'b'); assume(b_and(K.offset <= p, p + l <= K.offset + K.length)); v = dict(anystate(x), len=l, n=rest, offset=p + l)
            if bool(l > 0):
                t, j = integer('wordno', 0, 9, record=False), integer('bitno', 0, 30, record=False); assume(b_and(j >= 0, j < W, W * (K.mo + t) + j == p)); v.update(buf=Ptr(K.rec, 4 + 4 * t), boff=j); st['a'] = j
            return v
        m.contract('mkread_c:5', words, havocw, cut=True, fixed=('n', 'offset', 'state'))
        def bitsof(env, ask):
            if ask.__name__ == 'use': return
            i = env['i']; x = st['x'] + i - st['a']; ask('range', b_and(i >= env['boff'], i <= env['boff'] + env['blen'])); states(env, ask, x); done(ask, x)
        def havocb(env):
            i = integer('bit at', 0, 30, record=False); assume(b_and(i >= env['boff'], i <= env['boff'] + env['blen'])); x = st['x'] + i - st['a']; st['bits'] = True; return dict(anystate(x), i=i)
        m.contract('mkread_c:6', bitsof, havocb, side=True)
        r = m.call('mkread_c', [K.p, Num.of(2), Ptr(fl, 0), o, n, nr]); K.invariant(prove, any_, E0); last = bool(SBool.of(prev(n0))); eq('number of runs', r, Cn(n0) + (1 if last else 0))
        if last: eq('the last run ends at the end', fl.get(0, Cn(n0)), n0)
        done(prove, n0)
    @S.fn('maskio.mkread.runs', ['_miriad/mir/maskio.c:mkread_c'], Wl('history'))
    def _(s): readruns()
    @S.fn('maskio.runs lemmas', ['_miriad/mir/maskio.c:mkread_c'], Wl('history'))
    def _(s):
        is_ = lambda k: func('flag', [k], True, 0, 1, axioms=lambda a: [a.z >= 0, a.z <= 1]) == 1; prev = lambda x: b_and(x > 0, is_(x - 1)); ch = lambda y: b_not(iff(is_(y), prev(y)))
        def unfold(x): assume(implies(x == 0, Cn(x) == 0)); c = ch(x); assume(b_or(b_and(c, Cn(x + 1) == Cn(x) + 1), b_and(b_not(c), Cn(x + 1) == Cn(x))))
        x = integer('x', 0, 9, ge=0); which = E().choose('bounds')
        if which:
            unfold(Num.of(0)); unfold(x); prove('base: 0 <= C(0) <= 0', Cn(Num.of(0)) == 0); assume(b_and(Cn(x) >= 0, Cn(x) <= x)); prove('step: 0 <= C(x) <= x', b_and(Cn(x + 1) >= 0, Cn(x + 1) <= x + 1)); y = integer('y', 0, 9, ge=0)
            assume(b_and(y < x, ch(y))); unfold(y); prove('base: a change at y counts from y + 1', Cn(y) + 1 <= Cn(y + 1)); assume(Cn(y) + 1 <= Cn(x)); prove('step: and from then on', Cn(y) + 1 <= Cn(x + 1))
        elif E().choose('uniform'):
            i = integer('i', 1, 9); assume(i >= 1); s = E().choose('set'); assume(iff(is_(x + i), s)); assume(iff(is_(x + i - 1), s)); unfold(x + i); assume(Cn(x + i) == Cn(x + 1)); prove('no change where the flags are all the same', Cn(x + i + 1) == Cn(x + 1))
        else:
            even = E().choose('even'); k = integer('half', 0, 9, record=False); unfold(x); assume(Cn(x) == 2 * k + (0 if even else 1)); assume(iff(prev(x), not even)); r = Cn(x + 1); prove('the parity of the changes is the last flag', b_or(b_and(is_(x), r == 2 * k + 1), b_and(b_not(is_(x)), b_or(r == 2 * k, r == 2 * k + 2)))); 
    # ---- opening and closing
    def text(m, t):
        v = [ord(c) for c in t] + [0]; a = m.array('text ' + t, [len(v)], [(0, 'i8')], lambda c, i: llvm.table(v, i[0], 8), strided=False, readonly=True); a.vals = v; return a if isinstance(a, Ptr) else Ptr(a, 0)
    def cstr_(m, p): return ''.join(chr(c) for c in p.b.vals[:-1]) if hasattr(p.b, 'vals') else cc.cstr(m, p)
    @S.fn('maskio.mkopen', ['_miriad/mir/maskio.c:mkopen_c'], Wl('history'))
    def _(s):
        m = llvm.Machine(mod()); old, bad = E().choose('old mask'), E().choose('something wrong'); R = {}; status = text(m, 'old' if old else 'new'); name = text(m, 'flags'); tno = integer('tno'); sz = integer('words', 1, 9, ge=0); part = integer('odd bytes', 0, 3, ge=0); assume(part < 4); assume(sz < 2**31 - NB); it = integer('item')
        def alloc(m, n): eq('room for the record', n, 584); prove('one record', not R); R['K'] = Mask(m); return R['K'].p
        def acc(m, t, ip, nm, mode, st):
            eq('data set', t, tno); prove('name of the item', nm.b is name.b); prove('mode', cc.cstr(m, mode) == ('read' if old else 'write')); prove('handle', ip.b is R['K'].rec and ip.off == 0); R['item'] = 1; m.store(ip, 'i32', it); m.store(st, 'i32', Num.of(0 if not (bad and (not old or E().choose('no such item'))) else 5)); R['missing'] = bool(m.load(st, 'i32') != 0)
        def hsize(m, i): eq('item', i, it); return 4 * sz + part if not bad else Num.of(4)
        def hdr(m, i, b, off, n, st): eq('item', i, it); prove('item header read', b_and(off == 0, n == 4) and old); R['h'] = b; m.store(st, 'i32', Num.of(0))
        def whdr(m, i, b, off, n, st): eq('item', i, it); prove('item header written', b_and(off == 0, n == 4) and not old); prove('header of an integer item', getattr(b.b, 'name', '').endswith('int_item')); R['w'] = 1; m.store(st, 'i32', Num.of(0))
        def mcmp(m, a, b, n): prove('header compared', a.b is R['h'].b and getattr(b.b, 'name', '').endswith('int_item') and n == 4); return Num.of(0)
        def hio(m, i, dw, ty, b, off, n, st):
            eq('bytes', ty, H['BYTE']); (hdr if dw.const() == 0 else whdr)(m, i, b, off, n, st)
        def die(m, sev, *a):
            prove('no error is reported', bad); raise PathEnd()
        def scpy(m, d, a): prove('name kept', d.b is R['K'].rec and d.off == 552 and a.b is name.b); R['name'] = 1; return d
        m.ext.update(malloc=alloc, haccess_c=acc, hsize_c=hsize, hio_c=hio, memcmp=mcmp, bug_c=die, bugno_c=die, strcpy=scpy, sprintf=lambda m, *a: Num.of(0), free=lambda m, p: R.update(freed=1), strcmp=lambda m, a, b: Num.of(0 if cstr_(m, a) == cstr_(m, b) else 1))
        if not bad and old: assume(sz >= 2)
        r = m.call('mkopen_c', [tno, Ptr(name.b, 0), Ptr(status.b, 0)]); K = R['K']
        if R.get('missing') and old: prove('nothing is returned for a missing item', r.b is None and 'freed' in R); return
        prove('an error is noticed', not bad); prove('a handle is returned', r.b is K.rec and r.off == 0 and 'freed' not in R); prove('item opened, header taken care of, name kept', 'item' in R and 'name' in R and ('h' if old else 'w') in R); eq('item kept', K.rec.d[0][1], it); eq('data set kept', K.tno, tno); eq('writable', K.rdonly, 1 if old else 0); n = sz if old else Num.of(1)
        G = lambda p: K.flag(p, 'flag'); K.setfile(lambda w: Bits(32, lambda j: G(W * w + j) if inword(j) else K.flag(W * w + j, 'top')), n); K.invariant(prove, G, W * n)
    for fail in (False, True):
        @S.fn('maskio.mkclose' + ('.failure' if fail else ''), ['_miriad/mir/maskio.c:mkclose_c'], Wl('history'))
        def _(s, fail=fail):
            m, K = machine(); m.ext.update(mkflush_c=flush_contract(K)); K.havoc(any_, None, 'st'); E0 = K.end(); st = {}
            def hd(m, item, s): eq('item closed', item, K.rec.d[0][1]); prove('nothing left to be written', K.modified == 0); prove('closed once', 'closed' not in st); st['closed'] = 1; m.store(s, 'i32', Num.of(5 if fail else 0))
            def die(m, sev, *a): prove('no error is reported', fail); raise PathEnd()
            m.ext.update(hdaccess_c=hd, free=lambda m, p: (prove('freed last', 'closed' in st and p.b is K.rec), st.update(freed=1))[1], bug_c=die, bugno_c=die); m.call('mkclose_c', [K.p]); prove('a failure is reported', not fail)
            prove('closed and freed', st.get('closed') == 1 and 'freed' in st); w, j = where(); p = W * w + j; assume(p < E0); prove('words that exist', w < K.sz); prove('every flag is in the file', iff(as_bits(K.file(w), 32).bit(j), any_(p)))
    return S
