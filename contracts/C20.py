"""Typed values: the packing loops over the LLVM IR, the calls that move one item element, the Python functions that write and read a whole item."""
from vc.api import *
import types
from vc import llvm, num, npsym, loops, seq, pyload
from vc.num import Num
from vc.engine import PathEnd
from vc.llvm import Ptr, NULL, Undef
from . import stubs, cc, mir, uvstub, uvrec, uvread, hio
from .mir import H, KIND, SIZE

PACKS = [('pack16_c', 4, 2, 'p'), ('unpack16_c', 2, 4, 'u'), ('pack32_c', 4, 4, 'p'), ('unpack32_c', 4, 4, 'u'), ('pack64_c', 8, 8, 'p'), ('unpack64_c', 8, 8, 'u'),
         ('packr_c', 4, 4, 'p'), ('unpackr_c', 4, 4, 'u'), ('packd_c', 8, 8, 'p'), ('unpackd_c', 8, 8, 'u')]
def u8(b): return Num.of(b) % 256
def value_le(bs):
    """two's complement value of bytes, least significant first (the host's order)"""
    v = Num.of(0)
    for k, b in enumerate(bs): v = v + u8(b) * 256**k
    w = 256**len(bs); return v if bool(v < w // 2) else v - w

def build(root, **kw):
    S = Suite(root, dict(stubs.ALL, _miriad=uvstub.stub), transforms=dict(miriad=loops.transform('_rdhd', '_wrhd', '_rdhd_special', '_wrhd_special', 'UV._rdhd', 'UV._wrhd', 'UV._rdhd_special', 'UV._wrhd_special')), **kw)
    S.assumptions += ['machine integers mathematical except where narrowed', 'the two buffers of a packing routine do not overlap and hold the elements asked for']
    S.trusted += ['clang: the IR is compiled from the current text of the sources (-O0), for this little-endian host', 'IR semantics of vc/llvm.py']
    W = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k))
    d = {}
    def mod(f='_miriad/mir/pack.c'):
        if f not in d: d[f] = llvm.Module(root, f)
        return d[f]
    # ---- packing: external bytes are the host's in reverse order
    def pack(name, wi, wo, kind, src=None):
        """run it over n elements; -> (out array, content of input)"""
        m = llvm.Machine(mod()); n = integer('n', 0, 5, ge=0); assume(n < 2**27)
        bf = lambda c, x: func('%s.in' % name, [Num.of(c)] + list(x), True, -128, 127, axioms=lambda a: [a.z >= -128, a.z <= 127])
        if src: bf = src
        of = lambda c, x: func('%s.old' % name, [Num.of(c)] + list(x), True, -128, 127, axioms=lambda a: [a.z >= -128, a.z <= 127])
        i8 = lambda k: [(c, 'i8') for c in range(k)]
        I = m.array('in', [n], i8(wi), f=bf, strides=[Num.of(wi)], readonly=True); O = m.array('out', [n], i8(wo), f=of, strides=[Num.of(wo)])
        def want(c, x):
            if kind == 'p': return bf(wo - 1 - c, x)
            if c < wi: return bf(wi - 1 - c, x)
            top = bf(0, x); return Num.of(-1) if bool(top < 0) else Num.of(0)
        st = {}
        def ptrs(k):
            a = {'in': I, 's': I if kind == 'p' else O, 'out': O}; v = {}
            v['s'] = Ptr(a['s'], k * (wi if kind == 'p' else wo))
            v['in'] = Ptr(I, Num.of(0) if kind == 'p' else k * wi); v['out'] = Ptr(O, k * wo if kind == 'p' else Num.of(0)); return v
        moved = ('s', 'out') if kind == 'p' else ('s', 'in')
        def inv(env, ask):
            i = env['i']; ask('range', b_and(i >= 0, i <= n))
            if ask.__name__ == 'use': return
            for k, p in ptrs(i).items(): q = env[k]; ask('pointer %s' % k, q.b is p.b and q.off == p.off)
            first = 'i' not in st; x = index('at', n); c = st['c']
            if first: ask('starts at the first', i == 0); ask('nothing written yet', O.ver == 0); return
            ask('one step', i == st['i'] + 1); v = O.get(c, x)
            ask('byte %d' % c, v == (want(c, (x,)) if bool(x < i) else of(c, (x,))))
        def havoc(env):
            st['i'] = integer('i', 0, 3, record=False); i = st['i']
            O.set_all(lambda c, x: want(c, x) if bool(x[0] < i) else of(c, x)); return dict({k: ptrs(i)[k] for k in moved}, i=i)
        m.contract('%s:0' % name, inv, havoc)
        # one byte position per path
        c = 0
        while c < wo - 1 and not E().choose('byte %d' % c): c += 1
        st['c'] = c
        r = m.call(name, [Ptr(I, 0), Ptr(O, 0), n]); x = index('x', n)
        return O, bf, x, c, want
    for name, wi, wo, kind in PACKS:
        @S.fn('pack.%s' % name, ['_miriad/mir/pack.c:%s' % name], W('low'))
        def _(s, name=name, wi=wi, wo=wo, kind=kind):
            O, bf, x, c, want = pack(name, wi, wo, kind); v = O.get(c, x)
            eq('byte %d of every element' % c, v, want(c, (x,)))
    @S.fn('pack.round trip', ['_miriad/mir/pack.c:pack16_c', '_miriad/mir/pack.c:unpack16_c'], W('low'))
    def _(s):
        """consequences of the contracts above: big-endian, and unpacking undoes packing; 16 bits with the sign extended"""
        b = [func('host', [Num.of(k)], True, -128, 127, axioms=lambda a: [a.z >= -128, a.z <= 127]) for k in range(4)]; v = value_le(b)
        ext = [b[1], b[0]]; big = u8(ext[0]) * 256 + u8(ext[1])
        if bool(b_and(v >= -2**15, v < 2**15)):
            eq('two big-endian bytes', big if bool(big < 2**15) else big - 2**16, v)
            back = [ext[1], ext[0]] + [Num.of(-1) if bool(ext[0] < 0) else Num.of(0)] * 2; eq('16-bit value comes back', value_le(back), v)
        for w in (4, 8):
            for k in range(w):
                # the contracts reverse the w bytes in either direction
                prove('reversing twice', w - 1 - (w - 1 - k) == k)
    # ---- one element at a time
    VAL = dict(i=('i32', 2**31), j=('i32', 2**15), l=('i64', 2**63))
    def wrap(): return mod('_miriad/miriad_wrap.cpp')
    def status(w, m, p):
        v = integer('iostat'); m.store(p, 'i32', v); return v == 0
    def element(t, tag=''):
        """an arbitrary value of type t and how it sits in memory: [(offset, type, value)]"""
        if t in VAL: v = integer('v' + tag, ge=-VAL[t][1]); assume(v < VAL[t][1]); return v, [(0, VAL[t][0], v)]
        if t == 'c': v = (real('re' + tag), real('im' + tag)); return v, [(0, 'float', v[0]), (4, 'float', v[1])]
        v = real('x' + tag); return v, [(0, dict(r='float', d='double')[t], v)]
    PY = dict(a='str', i='int', j='int', l='int', r='float', d='float', c='complex')
    def sel(l):
        l = list(l)
        while len(l) > 1:
            if E().choose('of %s' % (l[0],)): return l[0]
            l.pop(0)
        return l[0]
    @S.fn('_miriad.hwrite', ['_miriad/miriad_wrap.cpp:WRAP_hwrite'], W('low'))
    def _(s):
        m = llvm.Machine(wrap()); w = mir.W(m); t = sel('aijlrdc'); h, off = integer('handle', ge=0), integer('offset', ge=0, lo=0, hi=64); assume(h < 2**31); assume(off < 2**31 - 8)
        right = not E().choose('another kind of object'); throw = right and E().choose('the library fails'); seen = []
        if t == 'a': n = size('len', 0); assume(n < 2**31); f = lambda k: func('utf8', [k], True, 0, 127, axioms=lambda a: [a.z >= -128, a.z < 128]); val, parts = (f, n), None
        else: n = None; val, parts = element(t)
        o = w.obj(PY[t] if right else 'other', val); ok = []
        def hio(m, ih, dw, ty, buf, o2, ln, st):
            eq('item', ih, h); eq('writes', dw, 1); eq('as type', ty, H[KIND[t]]); eq('at the offset given', o2, off); eq('bytes of one element', ln, SIZE[t] if t != 'a' else n); seen.append(1)
            if t == 'a': prove('the text', buf.b is getattr(o.b, 'buf', None) and buf.off == 0)
            else:
                for q, ty2, v in parts: eq('value in memory', m.load(buf.add(q), ty2), v)
            if throw: raise llvm.Throw()
            ok.append(status(w, m, st))
        m.ext['hio_c'] = hio; w.objs = [h, off, o, w.text(t)]; r = m.call('WRAP_hwrite', [NULL, NULL]); eq('reference count', o.b.d[0][1], 7); prove('arguments', w.fmt == 'iiOs')
        if not right: prove('another kind of object is refused and nothing written', r.b is None and w.err is not None and not seen); return
        prove('written once', len(seen) == 1)
        if throw: prove('the error is reported', r.b is None and w.err is not None); return
        if bool(ok[0]): prove('returns the number of bytes', r.b.kind == 'int' and w.err is None); eq('number of bytes', r.b.val, SIZE[t] if t != 'a' else n); eq('new object', r.b.d[0][1], 1)
        else: prove('failure is an I/O error', r.b is None and w.err is not None and w.exc.b.name == 'PyExc_IOError')
    @S.fn('_miriad.hread', ['_miriad/miriad_wrap.cpp:WRAP_hread'], W('low'))
    def _(s):
        m = llvm.Machine(wrap()); w = mir.W(m); t = sel('aijlrdc'); h, off = integer('handle', ge=0), integer('offset', ge=0, lo=0, hi=64); assume(h < 2**31); assume(off < 2**31); throw = E().choose('the library fails'); seen = []; ok = []
        if t == 'a': val = integer('byte', ge=-128); assume(val < 128); parts = [(0, 'i8', val)]
        else: val, parts = element(t)
        def hio(m, ih, dw, ty, buf, o2, ln, st):
            eq('item', ih, h); eq('reads', dw, 0); eq('as type', ty, H[KIND[t]]); eq('at the offset given', o2, off); eq('bytes of one element', ln, SIZE[t]); seen.append(1)
            if throw: raise llvm.Throw()
            ok.append(status(w, m, st))
            if bool(ok[0]):
                for q, ty2, v in parts:
                    if q == 0: cc.room(m, buf, ty2) if not isinstance(buf.b, llvm.Arr) else None
                    m.store(buf.add(q), ty2, v)
        m.ext['hio_c'] = hio; w.objs = [h, off, w.text(t)]; r = m.call('WRAP_hread', [NULL, NULL]); prove('read once', len(seen) == 1); prove('arguments', w.fmt == 'iis')
        if throw: prove('the error is reported', r.b is None and w.err is not None); return
        if not bool(ok[0]): prove('failure is an I/O error', r.b is None and w.err is not None and w.exc.b.name == 'PyExc_IOError'); return
        f, a = w.built; prove('a pair', w.err is None and len(f) == 2); (kd, x), (kn, nb) = [w.built_item(f[z], a[z]) for z in range(2)]; prove('number of bytes', kn == 'int'); eq('number of bytes', nb, SIZE[t]); prove('kind of the value', kd == dict(a='bytes', c='complex', r='float', d='float').get(t, 'int'))
        if t == 'a': eq('the byte', x[0], val); eq('one byte', x[1], 1)
        elif t == 'c': eq('real part', x[0], val[0]); eq('imaginary part', x[1], val[1])
        else: eq('value', x, val)
    TAG = dict(a=(0, 0, 0, 1), i=(0, 0, 0, 2), j=(0, 0, 0, 3), r=(0, 0, 0, 4), d=(0, 0, 0, 5), c=(0, 0, 0, 7), l=(0, 0, 0, 8), b=(0, 0, 0, 0))
    def tagged(m, w):
        for n, t in (('char_item', 'a'), ('binary_item', 'b'), ('int_item', 'i'), ('int2_item', 'j'), ('int8_item', 'l'), ('real_item', 'r'), ('dble_item', 'd'), ('cmplx_item', 'c')):
            le = TAG[t]; b = m.rec(n, {0: ('i32', value_le(list(le)))}, 4); b.tag = t; m.globals[n] = Ptr(b, 0)
    @S.fn('_miriad.hwrite_init', ['_miriad/miriad_wrap.cpp:WRAP_hwrite_init'], W('low'))
    def _(s):
        m = llvm.Machine(wrap()); w = mir.W(m); tagged(m, w); t = sel('aijlrdcb'); h = integer('handle', ge=0); assume(h < 2**31); ok = []
        def hio(m, ih, dw, ty, buf, o2, ln, st): eq('item', ih, h); eq('writes', dw, 1); eq('bytes', ty, H['BYTE']); eq('at the start', o2, 0); eq('the tag', ln, 4); prove('of this type', getattr(buf.b, 'tag', None) == t and buf.off == 0); ok.append(status(w, m, st))
        m.ext['hio_c'] = hio; w.objs = [h, w.text(t)]; r = m.call('WRAP_hwrite_init', [NULL, NULL]); prove('written once', len(ok) == 1)
        if bool(ok[0]): prove('returns a number', r.b.kind == 'int'); eq('first element after the tag, aligned', r.b.val, max(4, SIZE.get(t, 1)))
        else: prove('failure is an I/O error', r.b is None and w.exc.b.name == 'PyExc_IOError')
    @S.fn('_miriad.hread_init', ['_miriad/miriad_wrap.cpp:WRAP_hread_init'], W('low'))
    def _(s):
        m = llvm.Machine(wrap()); w = mir.W(m); tagged(m, w); h = integer('handle', ge=0); assume(h < 2**31); ok = []; tag = integer('tag', ge=-2**31); assume(tag < 2**31)
        def hio(m, ih, dw, ty, buf, o2, ln, st):
            eq('item', ih, h); eq('reads', dw, 0); eq('bytes', ty, H['BYTE']); eq('at the start', o2, 0); eq('the tag', ln, 4); ok.append(status(w, m, st))
            prove('start of a buffer', isinstance(buf.b, llvm.Mem) and buf.off == 0); buf.b.fill(m, 'i32', 1, lambda k: tag)
        m.ext['hio_c'] = hio; w.objs = [h]; r = m.call('WRAP_hread_init', [NULL, NULL]); prove('read once', len(ok) == 1)
        if not bool(ok[0]): prove('failure is an I/O error', r.b is None and w.exc.b.name == 'PyExc_IOError'); return
        t = next((t for t in TAG if bool(tag == value_le(list(TAG[t])))), None)
        if t is None: prove('unknown tag refused', r.b is None and w.err is not None); return
        f, a = w.built; prove('type and offset', f[0] == 's' and cc.cstr(m, a[0]) == t); eq('first element after the tag, aligned', w.built_item(f[1], a[1])[1], max(4, SIZE.get(t, 1)))
    # ---- variables
    HT = dict(a='BYTE', i='INT', j='INT2', r='REAL', d='DBLE', c='CMPLX'); MEMT = dict(a='i8', i='i32', j='i32', r='float', d='double', c='float'); WIDE = dict(i='INT', j='INT', r='FLOAT', d='DOUBLE', c='CDOUBLE')
    def uv(m): return Ptr(m.rec('UV object', {0: ('i64', Num.of(7)), 16: ('i32', integer('tno'))}), 0)
    def memval(t, nm='var'):
        """in-memory numbers of a variable"""
        lo = dict(i=2**31, j=2**15, a=128).get(t)
        return (lambda k: func(nm, [k], True, -99, 99, axioms=lambda a: [a.z >= -lo, a.z < lo])) if lo else (lambda k: func(nm, [k]))
    @S.fn('_miriad.UV._rdvr', ['_miriad/miriad_wrap.cpp:UVObject_rdvr'], W('variables'))
    def _(s):
        m = llvm.Machine(wrap()); w = mir.W(m); w.api(); t = sel('aijrdc'); self = uv(m); tno = self.b.d[16][1]; name = w.text('somevar'); n = integer('length', 0, 6, ge=0); val = memval(t); seen = []
        assume(n * dict(a=1, d=8, c=8).get(t, 4) <= 32767); q = 2 if t == 'c' else 1; throw = E().choose('the library fails')
        def prob(m, tn, nm, typ, ln, upd): eq('data set', tn, tno); prove('variable', nm.b is name.b and nm.off == 0); m.store(typ, 'i8', Num.of(ord(t))); m.store(ln, 'i32', n); m.store(upd, 'i32', integer('updated', 0, 1))
        def get(m, tn, ht, nm, buf, ln):
            eq('data set', tn, tno); prove('variable', nm.b is name.b and nm.off == 0); eq('as its type', ht, H[HT[t]]); seen.append(1)
            if throw: raise llvm.Throw()
            if t == 'a': eq('room for the text and its end', ln, n + 1); f = lambda k: Num.of(0) if bool(k == n) else val(k); c = n + 1
            else: eq('all the elements', ln, n); f = val; c = n * q
            if isinstance(buf.b, llvm.Mem): prove('from the start', buf.off == 0); buf.b.fill(m, MEMT[t], c, f)
            else:
                prove('into an array of its memory type and size', isinstance(buf.b, llvm.Arr) and buf.b.comps == [(0, MEMT[t])] and bool(buf.off == 0)); prove('room in the array', buf.b.shape[0] >= c); buf.b.set_all(lambda cc_, i: f(i[0]))
        m.ext['uvprobvr_c'] = prob; m.ext['uvgetvr_c'] = get; st = {}
        def inv(env, ask):
            i = env['i']; ask('range', b_and(i >= 0, i <= 2 * n))
            if ask.__name__ == 'use': return
            x = index('at', 2 * n); out = env['rv'].b.arr; first = 'i' not in st
            if first: ask('starts at the first', i == 0)
            else: ask('one step', i == st['i'] + 1)
            if bool(x < i): ask('value', out.get(0, x) == val(x))
        def havoc(env):
            st['i'] = integer('i', 0, 3, record=False); i = st['i']; env['rv'].b.arr.set_all(lambda c, x: val(x[0]) if bool(x[0] < i) else Undef('element')); return dict(i=i)
        m.contract('UVObject_rdvr:0', inv, havoc, side=True)
        w.objs = [name, w.text(t)]; r = m.call('UVObject_rdvr', [self, NULL]); prove('read once', len(seen) == 1); prove('arguments', w.fmt == 'ss')
        if throw: prove('the error is reported', r.b is None and w.err is not None and w.exc.b.name == 'PyExc_RuntimeError'); return
        prove('no error', w.err is None and r.b is not None); eq('one reference', r.b.d[0][1], 1)
        if t == 'a':
            p, ln = r.b.val; ended = bool(b_and(n > 0, val(n - 1) == 0)); prove('text', r.b.kind == 'str'); eq('length without the end mark', ln, n - 1 if ended else n); k = index('k', n); eq('character', m.load(p.add(k), 'i8'), val(k)); return
        if n == 1:
            if t == 'c': prove('a complex number', r.b.kind == 'complex'); eq('re', r.b.val[0], val(Num.of(0))); eq('im', r.b.val[1], val(Num.of(1)))
            else: prove('a number of its kind', r.b.kind == ('int' if t in 'ij' else 'float')); eq('value', r.b.val, val(Num.of(0)))
            return
        prove('an array of its type', r.b.kind == 'array' and r.b.typenum == llvm.NPT[WIDE[t]]); eq('elements', r.b.n, n); x = index('x', n * q); eq('element', r.b.arr.get(0, x), val(x))
    @S.fn('_miriad.UV._rdvr.big', ['_miriad/miriad_wrap.cpp:UVObject_rdvr'], W('variables'))
    def _(s):
        m = llvm.Machine(wrap()); w = mir.W(m); w.api(); t = sel('aijrdc'); self = uv(m); n = integer('length', ge=0); assume(n < 2**27); assume(n * dict(a=1, d=8, c=8).get(t, 4) > 32768 - (t == 'a'))
        def prob(m, tn, nm, typ, ln, upd): m.store(typ, 'i8', Num.of(ord(t))); m.store(ln, 'i32', n); m.store(upd, 'i32', Num.of(0))
        m.ext['uvprobvr_c'] = prob; w.objs = [w.text('somevar'), w.text(t)]; r = m.call('UVObject_rdvr', [self, NULL]); prove('a variable that does not fit is refused', r.b is None and w.err is not None)
    @S.fn('_miriad.UV._wrvr', ['_miriad/miriad_wrap.cpp:UVObject_wrvr', '_miriad/miriad_wrap.cpp:put_array'], W('variables'))
    def _(s):
        m = llvm.Machine(wrap()); w = mir.W(m); w.api(); t = sel('aijrdc'); self = uv(m); tno = self.b.d[16][1]; name = w.text('somevar'); form = sel(['scalar', 'array', 'other'] + (['index'] if t in 'ij' else [])); throw = form != 'other' and E().choose('the library fails'); seen = []; q = 2 if t == 'c' else 1
        if form == 'array' and t != 'a':
            types_ = dict(i=['INT', 'LONG'], j=['INT', 'LONG'], r=['FLOAT'], d=['DOUBLE'], c=['CDOUBLE'])[t]; good = not E().choose('array of another type'); tn = sel(types_) if good else sel([x for x in ('INT', 'LONG', 'FLOAT', 'DOUBLE', 'CFLOAT', 'CDOUBLE') if x not in types_]); n = size('n', 0); assume(n < 2**26)
            def el(c, i): 
                lo = dict(i=2**31, j=2**15).get(t)
                return func('el%d' % c, list(i), tn in ('INT', 'LONG'), -99, 99, axioms=(lambda a: [a.z >= -lo, a.z < lo]) if lo else None)
            o = cc.ndarray(m, 'value', [n], tn, strided=True, f=el); o.b.kind = 'ndarray'
        elif form == 'array': good = False; o = cc.ndarray(m, 'value', [size('n', 0)], 'INT', strided=True)
        elif form == 'other': good = False; o = w.obj('other')
        else:
            good = True
            if t == 'a': L = size('len', 0); assume(L < 2**30); f = lambda k: func('utf8', [k], True, 0, 127, axioms=lambda a: [a.z >= -128, a.z < 128]); val = (f, L)
            else: val, parts = element(t)
            o = w.obj('index' if form == 'index' else PY[t], val)
        def put(m, tn_, ht, nm, buf, ln):
            eq('data set', tn_, tno); prove('variable', nm.b is name.b and nm.off == 0); eq('as its type', ht, H[HT[t]]); seen.append(1)
            if t == 'a': eq('with its end mark', ln, L + 1); prove('the text', buf.b is o.b.buf and buf.off == 0)
            elif form == 'array':
                eq('all the elements', ln, n); k = index('k', n)
                if q == 1: eq('element', m.load(buf.add(k * m.mod.size(MEMT[t])), MEMT[t]), el(0, (k,)))
                else: eq('real part', m.load(buf.add(k * 8), 'float'), el(0, (k,))); eq('imaginary part', m.load(buf.add(k * 8 + 4), 'float'), el(1, (k,)))
            else:
                eq('one element', ln, 1)
                for off, ty, v in parts: eq('value', m.load(buf.add(off), MEMT[t]), v)
            if throw: raise llvm.Throw()
        m.ext['uvputvr_c'] = put; w.objs = [name, w.text(t), o]; r = m.call('UVObject_wrvr', [self, NULL]); prove('arguments', w.fmt == 'ssO'); eq('reference count', o.b.d[0][1], 7)
        for x in w.made:
            if getattr(x, 'source', None) is not None: eq('working copy given back', x.d[0][1], 0)
        if not good: prove('refused, nothing written', r.b is None and w.err is not None and not seen); return
        prove('written once', len(seen) == 1)
        if throw: prove('the error is reported', r.b is None and w.err is not None and w.exc.b.name == 'PyExc_RuntimeError'); return
        prove('returns None', r.b is m.globals['_Py_NoneStruct'].b and w.err is None)
    @S.fn('_miriad.UV._wrvr.rank', ['_miriad/miriad_wrap.cpp:UVObject_wrvr'], W('variables'))
    def _(s):
        m = llvm.Machine(wrap()); w = mir.W(m); w.api(); t = sel('ijrdc'); sh = sel([[], [2, 3]]); o = cc.ndarray(m, 'value', sh, WIDE[t], strided=True); seen = []
        m.ext['uvputvr_c'] = lambda m, *a: seen.append(1); w.objs = [w.text('somevar'), w.text(t), o]; r = m.call('UVObject_wrvr', [uv(m), NULL]); prove('other ranks refused', r.b is None and w.err is not None and not seen)
    # ---- whole items
    def newuv(s): mi = s.load('miriad'); M = s.miriad; u = mi.UV('name', 'new'); M.calls[:] = []; return mi, M, u
    TYPES = dict(i=['ngains', 'nfeeds', 'ntau', 'nsols', 'nspect0', 'nchan0'], d=['interval', 'freq0', 'stopt', 'duration'], c=['leakage', 'bandpass'])
    KIND2 = dict(i='i', d='f', c='c')
    def elem(t, k):
        if t == 'c': return SComplex(func('el.re', [k]), func('el.im', [k]))
        return func('el', [k], t == 'i')
    def same(a, b):
        if a is None or b is None: return False
        if isinstance(a, SComplex) or isinstance(b, SComplex): a, b = SComplex.of(a), SComplex.of(b); return b_and(Num.of(a.re) == b.re, Num.of(a.im) == b.im)
        return Num.of(a) == b
    def write_loop(key, it, n, val, base, size, names, setn=None):
        """elements are written in order, each once"""
        st = {}
        def inv(k, env, ask):
            if ask.__name__ == 'use': return
            x = it(); ask('next offset', Num.of(env['offset']) == Num.of(base) + k * size); ask('elements so far', x.n == setn(k) if setn else x.n == k); j = index('j', n)
            if bool(j < (setn(k) if setn else k)): ask('element', same(x.f(j), val(j)))
        def havoc(k, env):
            x = it(); x.n = setn(k) if setn else Num.of(k); x.f = lambda j: val(Num.of(j)); return dict(offset=Num.of(base) + k * size)
        loops.contract(key, inv, havoc, count=lambda i, env: names(i), item=lambda k, i, env: i.at(k) if isinstance(i, npsym.ndarray) else i.f(k) if isinstance(i, seq.SymList) else i[int(k.const())] if isinstance(k, Num) and k.isconst() else one(i))
    def one(i): prove('a single value', len(i) == 1); return i[0]
    for t in 'idc':
        @S.fn('UV._wrhd and _rdhd.%s' % t, ['miriad.UV._wrhd', 'miriad.UV._rdhd', 'miriad.UV.__setitem__', 'miriad.UV.__getitem__'], W('items'))
        def _(s, t=t):
            mi, M, u = newuv(s); name = sel(TYPES[t]); form = sel(['scalar', 'list', 'array']); n = Num.of(1) if form == 'scalar' else size('n', 1); val = lambda k: elem(t, Num.of(k))
            v = val(0) if form == 'scalar' else seq.SymList(n, val) if form == 'list' else npsym.ndarray((n,), lambda i: val(i[0]), KIND2[t])
            cnt = lambda i: n if form != 'scalar' else Num.of(len(i))
            write_loop('UV._wrhd:0', lambda: M.items[name], n, val, max(4, SIZE[t]), SIZE[t], cnt)
            u[name] = v; it = M.items[name]; prove('item closed', M.closed()); prove('no variable written', M.calls == []); prove('typed', it.tag == t); eq('number of elements', it.n, n); j = index('j', n); prove('element', same(it.f(j), val(j)))
            it.f = lambda k: val(Num.of(k))        # as just shown
            def inv(k, env, ask):
                if ask.__name__ == 'use': assume(k <= n); return
                rv = env['rv']; ask('at most the elements there are', k <= n); ask('next offset', Num.of(env['offset']) == max(4, SIZE[t]) + k * SIZE[t]); ask('read so far', Num.of(pyload.sym_len(rv)) == k); j = index('j2', n)
                if bool(j < k): ask('element', same(rv[j], val(j)))
            def havoc(k, env): return dict(rv=seq.SymList(k, lambda j: val(Num.of(j))), offset=max(4, SIZE[t]) + k * SIZE[t])
            loops.contract('UV._rdhd:0', inv, havoc); r = u[name]; prove('item closed', M.closed()); prove('item unchanged', it.n is n or bool(it.n == n))
            if bool(n == 1):
                prove('a scalar', not isinstance(r, (npsym.ndarray, seq.SymList))); prove('value', same(r, val(0)))
                if t == 'i': prove('an integer', Num.of(r).isint)
            else: shape_is('all elements', r, (n,)); prove('value', same(npsym.asarray(r).at(j), val(j))); prove('kind', npsym.asarray(r).kind == KIND2[t])
    @S.fn('UV._wrhd and _rdhd.text', ['miriad.UV._wrhd', 'miriad.UV._rdhd'], W('items'))
    def _(s):
        mi, M, u = newuv(s); v = sel(['', 'x', 'xy', 'caf\u00e9', '\u65e5\u672c x', 'a\nb\0', ' ']); name = sel(['history', 'obstype', 'vartable'])
        u[name] = v; prove('item closed', M.closed()); r = u[name]; prove('text', isinstance(r, str) and r == v); prove('item closed', M.closed()); prove('bytes are its UTF-8', M.items[name].__dict__.get('bytes', b'') == v.encode())
    @S.fn('UV._wrhd_special and _rdhd_special', ['miriad.UV._wrhd_special', 'miriad.UV._rdhd_special', 'miriad.UV._wrhd', 'miriad.UV._rdhd'], W('freqs'))
    def _(s):
        mi, M, u = newuv(s); m = integer('groups', 0, 3, ge=0); n = 3 * m + 1; isint = lambda k: bool(b_or(k == 0, (k - 1) % 3 == 0))
        def val(k):
            k = Num.of(k); return func('fi', [k], True) if isint(k) else func('fd', [k])
        write_loop('UV._wrhd_special:0', lambda: M.items['freqs'], n, val, 8, 8, lambda i: 3 * m, setn=lambda k: Num.of(k) + 1)
        u['freqs'] = seq.SymList(n, val); it = M.items['freqs']; prove('item closed', M.closed()); eq('number of elements', it.n, n); j = index('j', n); prove('element', same(it.f(j), val(j))); it.f = val
        def inv(k, env, ask):
            if ask.__name__ == 'use': assume(k <= m); return
            rv = env['rv']; ask('at most the groups there are', k <= m); ask('next offset', Num.of(env['offset']) == 8 + 24 * k); ask('read so far', Num.of(pyload.sym_len(rv)) == 3 * k + 1); j = index('j2', n)
            if bool(j < 3 * k + 1): ask('element', same(rv[0] if isinstance(rv, list) else rv[j], val(j)))
        loops.contract('UV._rdhd_special:0', inv, lambda k, env: dict(rv=seq.SymList(3 * k + 1, val), offset=8 + 24 * k)); r = u['freqs']; prove('item closed', M.closed()); eq('all elements', pyload.sym_len(r), n); prove('value', same(r[j], val(j)))
    @S.fn('UV.__getitem__ and __setitem__', ['miriad.UV.__getitem__', 'miriad.UV.__setitem__', 'miriad.UV.add_var', 'miriad.UV.vars'], W('variables'))
    def _(s):
        mi, M, u = newuv(s); nm, t = sel([('sdf', 'd'), ('nants', 'i'), ('source', 'a'), ('systemp', 'r'), ('wt', 'c'), ('npol', 'j'), ('history', 'a'), ('freq0', 'd')]); u.add_var(nm, t); v = object(); prove('listed', nm in u.vars())
        u[nm] = v; prove('the variable is written with its type, and nothing else', M.calls == [('_wrvr', nm, t, v)] and not M.items); M.calls[:] = []
        r = u[nm]; prove('the variable is read with its type', M.calls == [('_rdvr', nm, t)] and r == ('variable', nm) and not M.handles)
    @S.fn('UV missing', ['miriad.UV.__getitem__', 'miriad.UV.__setitem__', 'miriad.UV._rdhd', 'miriad.UV._rdhd_special'], W('items'))
    def _(s):
        mi, M, u = newuv(s); nm = sel(sorted(k for k in mi.itemtable)); prove('missing item', raises(IOError, lambda: u[nm])); prove('undocumented name', raises(KeyError, lambda: u['nosuchthing'])); prove('undocumented name', raises(KeyError, lambda: u.__setitem__('nosuchthing', 1))); prove('nothing created', not M.items)
    @S.fn('UV.items', ['miriad.UV.items'], W('items'))
    def _(s):
        mi, M, u = newuv(s); nm = sel(sorted(mi.itemtable)); rest = E().choose('others present'); here = E().choose('present')
        for k in mi.itemtable:
            if (here if k == nm else rest): M.items[k] = uvstub.Item(k)
        l = u.items(); prove('listed when present', (l.count(nm) == 1) if here else nm not in l); prove('only documented items', all(k in M.items for k in l) and len(l) == len(M.items)); prove('items closed', M.closed())
    uvrec.build(S, mod, W, sel, 'C20'); uvread.build(S, mod, W, sel, 'C20'); hio.build(S, mod, W)
    return S
