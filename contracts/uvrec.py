"""The library's stream of variables and records (uvio.c over its LLVM IR): chunks written, chunks read, records put together and taken apart."""
from vc.api import *
import z3
from vc import llvm, num
from vc.num import Num
from vc.engine import PathEnd
from vc.llvm import Ptr, NULL, Undef, iff
from . import cc
from .uvvar import H, EXT, BITS, table_of, flagbits, bit, same_but, uvs, bug, sizes, pick

INSZ = {**EXT, 3: 4}                 # bytes of an element in memory
def ty(name, *among): return integer(name, 1, 8) if not among else None
def kind(name, among):
    """one of the types, by case"""
    for t in among[:-1]:
        if E().choose('%s is %d' % (name, t)): return Num.of(t)
    return Num.of(among[-1])
def up(x, b): return llvm.cdiv(x + (b - 1), Num.of(b)) * b
class Stream:
    """calls of hio_c: (writing, type, block, offset in the block, offset in the item, bytes)"""
    def __init__(self, m, item, fail=False): self.m, self.item, self.calls = m, item, []; m.ext['hio_c'] = self.io; m.ext['sprintf'] = llvm.printf
    def io(self, m, it, w, t, buf, off, n, io):
        eq('of this item', it, self.item); c = (int(Num.of(w).const()), t, buf, off, n); self.calls.append(c); self.on(c); m.store(io, 'i32', Num.of(0))
    def on(self, c): pass
def header(m, c, index, code):
    """the bytes of a chunk header, as they are when it is written"""
    w, t, buf, off, n = c; prove('a header of four bytes', bool(w == 1) and bool(t == H['BYTE']) and bool(n == 4)); v = [m.load(buf.add(k), 'i8') for k in range(4)]
    eq('number of the variable', v[0], llvm.wrap(index, 8)); eq('kind of chunk', v[2], code)
    for k in (1, 3): eq('filler', v[k], 0)
def build(S, mod, Wl, sel, prop):
    uvio = lambda: mod('_miriad/mir/uvio.c')
    if prop == 'C20': variables(S, uvio, Wl, sel)
    if prop == 'C22': records(S, uvio, Wl, sel)
def variables(S, uvio, Wl, sel):
    def stored(m, k, t, l, idx, cn, fl, value, nocheck):
        keep = m.array('value kept', [value[0]], [(0, 'i8')], lambda c, i: value[1](i[0]), strided=False)
        v = m.struct('the variable', 'VARIABLE', dict(flags=fl, length=l, type=t, index=idx, callno=cn, buf=NULL if nocheck == 'empty' else Ptr(keep, 0)))
        return v, keep
    for nocheck in (False, True):
        @S.fn('uvio.uvputvr_c' + (', always written' if nocheck else ''), ['_miriad/mir/uvio.c:uvputvr_c'], Wl('variables'))
        def _(s, nocheck=nocheck):
            """a new size is written when the size changed, the value whenever it is not the value written last; the value is kept for the next comparison"""
            m = llvm.Machine(uvio()); sizes(m); tno = integer('tno', 0, 3); t = kind('type', sorted(EXT)); es, iz = EXT[int(t.const())], INSZ[int(t.const())]; n = integer('elements', 0, 4); k = integer('elements before', 0, 4, ge=0); assume(b_and(n < 2**24, k < 2**24)); idx = integer('number', 0, 9); assume(b_and(idx >= 0, idx < 256)); cn = integer('times written', 0, 9, ge=0); assume(cn < 2**30); off = integer('offset', 0, 64, ge=0); e8 = integer('eighths', 0, 8, ge=0); assume(b_and(off == 8 * e8, off < 2**60))
            vf = flagbits('flags'); old = lambda i: func('value kept', [i], True, -3, 3, axioms=lambda x: [x.z >= -128, x.z <= 127]); new = lambda i: func('value', [i], True, -3, 3, axioms=lambda x: [x.z >= -128, x.z <= 127])
            b = bit(vf, BITS['NOCHECK']); assume(b if nocheck else b_not(b))
            keep = m.array('value kept', [k * iz], [(0, 'i8')], lambda c, i: old(i[0]), strided=False); data = m.array('value', [n * iz], [(0, 'i8')], lambda c, i: new(i[0]), strided=False, readonly=True); item = integer('item', 0, 9)
            v = m.struct('the variable', 'VARIABLE', dict(flags=vf, length=k * es, type=t, index=idx, callno=cn, buf=Ptr(keep, 0) if not nocheck else Undef('value of a variable that is always written'))); uv = m.struct('data set', 'UV', dict(item=item, offset=off)); uvs(m, a=(tno, uv)); nm = m.rec('name', {}); wrong = E().choose('of another type')
            if wrong: m.setfield(v, 'type', Num.of(next(x for x in sorted(EXT) if not bool(t == x))))
            def mk(m, a, c, d): eq('of this data set', a, tno); prove('by its name', c.b is nm and bool(c.off == 0)); eq('as its type', d, t); return Ptr(v, 0)
            ended = []
            def stop(m, sev, *a):
                if bool(sev == ord('f')): prove('an error only if the type changed', wrong); prove('nothing written', not st.calls); raise PathEnd()
                ended.append(1); return None
            cur = dict(buf=keep, n=k * iz)
            def realloc(m, p, size):
                prove('the value is moved', p.b is cur['buf'] and bool(p.off == 0)); o, on = cur['buf'], cur['n']; a = m.array('value kept, moved', [size], [(0, 'i8')], lambda c, i: o.get(0, i[0]) if bool(b_and(i[0] < on)) else Undef('room'), strided=False); cur.update(buf=a, n=size); return Ptr(a, 0)
            kept = []
            def memcpy(m, d, q, z, vol):
                prove('the value is kept', d.b is cur['buf'] and bool(d.off == 0) and q.b is data and bool(q.off == 0)); prove('room for it', b_and(z >= 0, z <= cur['n'])); eq('all of it', z, n * iz); kept.append(1); a = cur['buf']; o = a.snapshot(); a.set_all(lambda c, i: new(i[0]) if bool(i[0] < z) else o(c, *i))
            m.ext.update({'uv_mkvar': mk, 'bug_c': stop, 'bugv_c': stop, 'realloc': realloc, 'llvm.memcpy.p0.p0.i64': memcpy}); st = Stream(m, item); seen = []
            def on(c):
                w, tt, buf, o, z = c; prove('written', w == 1)
                q = len(seen); seen.append((o, z, tt))
                if q == 0: isz = bool(m.load(buf.add(2), 'i8') == 0); cur['size'] = isz; header(m, c, idx, 0 if isz else 1)
                elif q == 1 and cur['size']: prove('the size', bool(tt == H['INT']) and bool(z == 4)); eq('in bytes', m.load(buf, 'i32'), n * es)
                elif q == 2 and cur['size']: header(m, c, idx, 1)
                else: prove('the value', buf.b is data and bool(buf.off == 0)); eq('as its type', tt, t); eq('all of it', z, n * es)
            st.on = on; x = {}; i0 = index('a byte', n * iz) if bool(n > 0) else Num.of(0)
            def inv(env, ask):
                i = env['i']; ask('range', b_and(i >= 0, i <= n * iz))
                ask('at this byte of the value kept', b_and(env['in1'].b is cur['buf'], env['in1'].off == i)); ask('at this byte of the value', b_and(env['in2'].b is data, env['in2'].off == i)); ask('nothing written meanwhile', not seen); ask('the same so far', implies(i0 < i, old(i0) == new(i0)))
            def havoc(env): i = integer('i', 0, 3, record=False); return dict(i=i, in1=Ptr(cur['buf'], i), in2=Ptr(data, i))
            m.contract('uvputvr_c:0', inv, havoc); m.call('uvputvr_c', [tno, t, Ptr(nm, 0), Ptr(data, 0), n])
            if bool(n <= 0): prove('nothing written', not seen); eq('offset stays', m.field(uv, 'offset'), off); return
            prove('of the same type', not wrong); sizechanged = bool(n != k)
            prove('the size is written if it changed, the value then too', (len(seen) == 4 and cur['size']) if sizechanged else (not seen or (len(seen) == 2 and not cur['size'])))
            if nocheck: prove('always written', bool(seen))
            at = off
            if sizechanged: eq('at the end', seen[0][0], at); eq('size after its header', seen[1][0], at + 4); at = at + 8
            if seen:
                h, d = seen[-2:]; eq('header at the end', h[0], at); hd = 8 if es == 8 else 4; eq('value after its header', d[0], at + hd); at = up(at + hd + n * es, 8); prove('ends on a multiple of 8', True)
            else: prove('not written only if nothing changed', implies(b_and(i0 >= 0, i0 < n * iz), old(i0) == new(i0)))
            eq('the end', m.field(uv, 'offset'), at); eq('size recorded', m.field(v, 'length'), n * es); now = m.field(v, 'flags'); same_but('other flags stay', now, vf, BITS['NOCHECK'])
            eq('type stays', m.field(v, 'type'), t)
            if nocheck: prove('always written from then on', bit(now, BITS['NOCHECK'])); return
            if bool(bit(now, BITS['NOCHECK'])): return                              # from then on every value is written
            p = m.field(v, 'buf'); prove('a value is kept', p.b is cur['buf'] and bool(p.off == 0)); prove('the value kept is the value of the variable', p.b.get(0, i0) == new(i0))
    @S.fn('uvio.uvgetvr_c', ['_miriad/mir/uvio.c:uvgetvr_c'], Wl('variables'))
    def _(s):
        """the current value of the variable, all of it, ended by a zero if it is text; an error, not a value, in every other case"""
        m = llvm.Machine(uvio()); sizes(m); tno = integer('tno', 0, 3); t = kind('type', sorted(EXT)); es, iz = EXT[int(t.const())], INSZ[int(t.const())]; n = integer('room', 0, 4); k = integer('elements', 0, 4, ge=0); assume(b_and(n >= 0, n < 2**24, k < 2**24)); there = E().choose('there'); typ = E().choose('of this type'); has = E().choose('has a value'); text = bool(t == H['BYTE']); val = lambda i: func('value', [i], True, -3, 3)
        buf = m.array('value', [k * iz], [(0, 'i8')], lambda c, i: val(i[0]), strided=False, readonly=True); out = m.array('result', [n * iz], [(0, 'i8')], lambda c, i: Undef('result'), strided=False); nm = m.rec('name', {})
        v = m.struct('the variable', 'VARIABLE', dict(length=k * es, type=t if typ else Num.of(next(x for x in sorted(EXT) if not bool(t == x))), buf=Ptr(buf, 0) if has else NULL))
        ok = there and typ and has and bool(n >= k + 1 if text else n == k)
        def loc(m, a, c): eq('of this data set', a, tno); prove('by its name', c.b is nm and bool(c.off == 0)); return Ptr(v, 0) if there else NULL
        def stop(m, sev, *a): prove('an error is raised', bool(sev == ord('f'))); prove('only where the value cannot be given', not ok); raise PathEnd()
        def memcpy(m, d, q, z, vol):
            prove('from the value to the result', d.b is out and bool(d.off == 0) and q.b is buf and bool(q.off == 0)); prove('within both', b_and(z >= 0, z <= k * iz, z <= n * iz)); eq('all of it', z, k * iz); o = out.snapshot(); out.set_all(lambda c, i: val(i[0]) if bool(i[0] < z) else o(c, *i))
        m.ext.update({'sprintf': llvm.printf, 'uv_locvar': loc, 'bug_c': stop, 'bugv_c': stop, 'llvm.memcpy.p0.p0.i64': memcpy}); m.call('uvgetvr_c', [tno, t, Ptr(nm, 0), Ptr(out, 0), n]); prove('the value is given', ok)
        if bool(k >= 1): i = index('a byte', k * iz); eq('its bytes', out.get(0, i), val(i))
        if text: eq('ended by a zero', out.get(0, k), 0)
    @S.fn('uvio.uvprobvr_c', ['_miriad/mir/uvio.c:uvprobvr_c'], Wl('variables'))
    def _(s):
        m = llvm.Machine(uvio()); sizes(m); tno = integer('tno', 0, 3); t = kind('type', sorted(EXT)); es = EXT[int(t.const())]; k = integer('elements', 0, 4, ge=0); assume(k < 2**24); there = E().choose('there'); cn, mark = integer('changed at', 0, 9), integer('mark', 0, 9); nm = m.rec('name', {}); letters = {H['BYTE']: 'a', H['INT']: 'i', H['INT2']: 'j', H['REAL']: 'r', H['DBLE']: 'd', H['CMPLX']: 'c', H['INT8']: 'l'}
        v = m.struct('the variable', 'VARIABLE', dict(length=k * es, type=t, callno=cn)); uv = m.struct('data set', 'UV', dict(mark=mark)); uvs(m, a=(tno, uv)); m.globals['type_flag'] = Ptr(m.array('letters of types', [10], [(0, 'i8')], lambda c, i: Num.of(ord(letters[int(i[0].const())])), strided=False, readonly=True), 0)
        T, L, U = (m.rec(x, {0: (y, Undef(x))}, z) for x, y, z in (('letter', 'i8', 1), ('length', 'i32', 4), ('updated', 'i32', 4))); m.ext['uv_locvar'] = lambda m, a, c: (eq('of this data set', a, tno), prove('by its name', c.b is nm and bool(c.off == 0)), Ptr(v, 0) if there else NULL)[2]
        m.call('uvprobvr_c', [tno, Ptr(nm, 0)] + [Ptr(x, 0) for x in (T, L, U)])
        if not there: eq('no type', T.d[0][1], ord(' ')); eq('no elements', L.d[0][1], 0); eq('not updated', U.d[0][1], 0); return
        eq('its type', T.d[0][1], ord(letters[int(t.const())])); eq('its elements', L.d[0][1], k); prove('updated since the mark', iff(U.d[0][1] != 0, cn >= mark))
def text(m, p):
    """a constant text, or the name of a record"""
    if getattr(p.b, 'isname', None): prove('from its first letter', p.off == p.b.isname[1]); return p.b.isname[0]
    return cc.cstr(m, p)
RUNS, INIT, DOW, AUTO, CROSS = 12, 13, 16, 10, 11
def records(S, uvio, Wl, sel):
    def writer(m, s, typ, first):
        """a data set being written, before a record"""
        tno = integer('tno', 0, 3); n = size('n', 1); assume(n < 2**24); k = integer('channels before', 0, 4, ge=0); assume(k < 2**24); uf = flagbits('flags of the data set'); off = integer('flags written', 0, 9, ge=0); assume(off < 2**50); made = []
        I = bit(uf, INIT); assume(b_not(I) if first else I); assume(b_not(bit(uf, RUNS)))
        def var(name, typ, length):
            v = m.struct('variable ' + name, 'VARIABLE', dict(type=typ, length=length, flags=flagbits('flags of ' + name), buf=NULL)); v.isname = (name, v.L['name'][0]); return v
        return tno, n, k, uf, off, made, var
    CH = dict(REAL=lambda n: 8 * n, CMPLX=lambda n: 8 * n, INT2=lambda n: 4 * n)
    for typ in ('REAL', 'CMPLX', 'INT2'):
        for first in (False, True):
            @S.fn('uvio.uvwrite_c.%s%s' % (typ, '.first' if first else ''), ['_miriad/mir/uvio.c:uvwrite_c'], Wl('records'))
            def _(s, typ=typ, first=first):
                """one record: its channel count if that changed, its flags, its data, coordinates, time and baseline, then the mark that ends it"""
                m = llvm.Machine(uvio()); sizes(m); tno, n, k, uf, off, made, var = writer(m, s, typ, first); here = E().choose('corr is known') if first else True
                if first and not here:
                    if typ == 'CMPLX': raise PathEnd()
                    assume(n > 4 if typ == 'INT2' else n <= 4); assume(k == 0)
                corr = var('corr', Num.of(H[typ]), CH[typ](k)); V = dict(corr=corr); handle = Ptr(m.rec('flags file', {}), 0); opened = first and E().choose('flags not open')
                allknown = not first or E().choose('coordinates known'); known = {x: allknown for x in ('coord', 'time', 'bl')}; NM = dict(coord='coord', time='time', bl='baseline')
                for x in known: V[NM[x]] = var(NM[x], Num.of(H['REAL'] if x == 'bl' else H['DBLE']), 0)
                line = Num.of(0 if opened else 1)
                uv = m.struct('data set', 'UV', {'flags': uf, 'tno': tno, 'corr': Ptr(corr, 0) if here else NULL, 'corr_flags.handle': NULL if opened else handle, 'corr_flags.offset': off, 'data_line.linetype': line, **{x: Ptr(V[NM[x]], 0) if known[x] else NULL for x in known}}); uvs(m, a=(tno, uv)); put = []; fl = []; ended = []; bas = []
                d = lambda i: func('data', [i]); D = m.array('data', [2 * n], [(0, 'float')], lambda c, i: d(i[0]), strided=False, readonly=True); FL = m.array('flags', [n], [(0, 'i32')], lambda c, i: func('flags', [i[0]], True, 0, 1), strided=False, readonly=True)
                dow = bool(bit(uf, DOW)); bl = integer('baseline', 257, 9000); assume(b_and(bl > 0, bl < 2**24)); crd = [real(x) for x in ('u', 'v', 'w')][:3 if dow else 2]; t = real('time', 1, 9); pv = crd + [t, Num.of(bl)]
                PR = m.array('preamble', [len(pv)], [(0, 'double')], lambda c, i: pv[int(i[0].const())], strided=False, readonly=True)
                def mk(m, a, c, ty):
                    nm = text(m, c); eq('of this data set', a, tno); prove('a variable of the record', nm in V)
                    if nm == 'corr': prove('only when it is not there', not here); prove('its type', ty == H[typ])
                    else: eq('type of %s' % nm, ty, H['REAL'] if nm == 'baseline' else H['DBLE'])
                    return Ptr(V[nm], 0)
                def mkopen(m, a, c, how): prove('the flags are opened when they are not', opened); eq('of this data set', a, tno); prove('the flags of the correlations', text(m, c) == 'flags'); prove('made if there are none, added to otherwise', iff(off == 0, text(m, how) == 'new') if text(m, how) in ('new', 'old') else False); return handle
                def mkwrite(m, h, mode, f, o, c, z): prove('one to each record', not fl and not ended); fl.append(1); prove('to the flags file', h.b is handle.b); eq('as flags', mode, 1); prove('the flags given', f.b is FL and bool(f.off == 0)); eq('after those of the record before', o, off); eq('all of them', c, n); eq('all of them', z, n)
                X = {}
                def putvr(m, a, ty, c, data, q):
                    nm = text(m, c); eq('to this data set', a, tno); prove('before the end of the record', not ended); prove('once: %s' % nm, nm not in [x[0] for x in put]); put.append((nm,))
                    if nm == 'nchan': eq('type of nchan', ty, H['INT']); eq('one number', q, 1); eq('the number of channels', m.load(data, 'i32'), n)
                    elif nm == 'coord': eq('type of coord', ty, H['DBLE']); eq('u, v (and w)', q, len(crd)); [eq('coordinate %d' % z, m.load(data.add(8 * z), 'double'), crd[z]) for z in range(len(crd))]
                    elif nm == 'time': eq('type of time', ty, H['DBLE']); eq('one number', q, 1); eq('the time', m.load(data, 'double'), t)
                    elif nm == 'baseline': eq('type of baseline', ty, H['REAL']); eq('one number', q, 1); eq('the baseline', m.load(data, 'float'), bl)
                    elif nm == 'tscale': eq('type of tscale', ty, H['REAL']); eq('one number', q, 1); X['scale'] = m.load(data, 'float'); prove('only for 16-bit data', typ == 'INT2')
                    elif nm == 'corr':
                        eq('type of corr', ty, H[typ])
                        if typ == 'INT2':
                            eq('two numbers to a channel', q, 2 * n); prove('the scaled values', data.b is X['q'] and bool(data.off == 0)); j = X['j']; v = X['q'].get(0, j); sc = X['scale']; M = X['M']; eq('the scale', sc * 32767, M); prove('scale positive', M > 0)
                            z = X['real'](j); prove('the largest bounds it', b_and(d(j) <= M, -d(j) <= M)); prove('number stored', v == z)
                        else: eq('all of the data', q, n if typ == 'CMPLX' else 2 * n); prove('the data given', data.b is D and bool(data.off == 0))
                    else: prove('no other variable: %s' % nm, False)
                def nxt(m, a): eq('of this data set', a, tno); ended.append(1)
                def basant(m, b, p, q): eq('of the baseline', b, bl); a1, a2 = integer('antenna 1', 1, 9), integer('antenna 2', 1, 9); m.store(p, 'i32', a1); m.store(q, 'i32', a2); bas.append((a1, a2))
                def realloc(m, p, z): prove('the old room', p.b is m.field(corr, 'buf').b and (p.b is None or bool(p.off == 0))); eq('room for all', z, 8 * n); X['q'] = m.array('scaled values', [2 * n], [(0, 'i32')], lambda c, i: Undef('scaled value'), strided=False); return Ptr(X['q'], 0)
                def stop(m, sev, *a): prove('no error is raised', bool(sev != ord('f'))); return None
                m.ext.update({'uv_mkvar': mk, 'mkopen_c': mkopen, 'mkwrite_c': mkwrite, 'uvputvr_c': putvr, 'uvnext_c': nxt, 'uvbasant_c': basant, 'realloc': realloc, 'malloc': lambda m, z: realloc(m, NULL, z), 'bug_c': stop, 'sprintf': llvm.printf})
                if typ == 'INT2':
                    if not first and E().choose('room already'): m.setfield(corr, 'buf', Ptr(m.array('values before', [2 * k], [(0, 'i32')], lambda c, i: Undef('value before'), strided=False), 0))
                    else: assume(k == 0)
                    if bool(k == n): X['q'] = m.array('scaled values', [2 * n], [(0, 'i32')], lambda c, i: Undef('scaled value'), strided=False); m.setfield(corr, 'buf', Ptr(X['q'], 0))
                    X['j'] = j = index('a number', 2 * n); X['real'] = lambda i: num.trunc(32767 / X['M'] * d(i))
                    def inv(env, ask):
                        i, mx = env['i'], env['maxval']; ask('range', b_and(i >= 0, i <= 2 * n)); ask('at this number', b_and(env['p'].b is D, env['p'].off == 4 * i)); ask('not negative', mx >= 0); ask('bounds those before', implies(j < i, b_and(d(j) <= mx, -d(j) <= mx)))
                    def havoc(env): i = integer('i', 0, 3, record=False); return dict(i=i, maxval=real('largest so far', 0, 3, record=False), p=Ptr(D, 4 * i))
                    def inv2(env, ask):
                        i = env['i']; X['M'] = env['maxval']; ask('range', b_and(i >= 0, i <= 2 * n)); ask('at this number', b_and(env['p'].b is D, env['p'].off == 4 * i)); ask('at its place', b_and(env['q'].b is X['q'], env['q'].off == 4 * i)); eq2 = lambda nm, a, b: ask(nm, a == b); eq2('scale', env['scale'] * env['maxval'], 32767)
                        if ask.__name__ == 'use': X['i'] = i; return
                        if bool(j < i): v = X['q'].get(0, j); ask('stored', v == X['real'](j) if not isinstance(v, Undef) else False)
                    def havoc2(env):
                        i = integer('i', 0, 3, record=False); X['q'].set_all(lambda c, x: X['real'](x[0]) if bool(x[0] < i) else Undef('scaled value')); return dict(i=i, p=Ptr(D, 4 * i), q=Ptr(X['q'], 4 * i))
                    m.contract('uvwrite_c:0', inv, havoc); m.contract('uvwrite_c:1', inv2, havoc2)
                m.call('uvwrite_c', [tno, Ptr(PR, 0), Ptr(D, 0), Ptr(FL, 0), n]); w = [x[0] for x in put]
                prove('everything written: ' + ' '.join(w), set(w) - {'nchan'} == {'corr', 'coord', 'time', 'baseline'} | ({'tscale'} if typ == 'INT2' else set())); prove('the flags too', len(fl) == 1); prove('ended once', len(ended) == 1)
                prove('channel count when it changed', 'nchan' in w or bool(n == k)); eq('flags written', m.field(uv, 'corr_flags.offset'), off + n); prove('antennas looked at', len(bas) == 1); now = m.field(uv, 'flags'); a1, a2 = bas[0]
                prove('kind of baseline noted', bit(now, AUTO if bool(a1 == a2) else CROSS)); prove('set up', bit(now, INIT)); same_but('other flags stay', now, uf, AUTO, CROSS, INIT)
                for x in known: p = m.field(uv, x); prove('%s known' % x, p.b is V[NM[x]])
                prove('corr known', m.field(uv, 'corr').b is corr); prove('flags open', m.field(uv, 'corr_flags.handle').b is handle.b)
    @S.fn('uvio.uvwrite_c.scaling', ['_miriad/mir/uvio.c:uvwrite_c (lemma)'], Wl('records'))
    def _(s):
        """a number stored as trunc(32767/M x) and scaled by M/32767 is within one scale of x, and fits 16 bits, for |x| <= M"""
        M, x = real('M', 1, 3), real('x', -1, 1); assume(b_and(M > 0, x <= M, -x <= M)); y = 32767 / M * x; q = num.trunc(y); prove('expansion', y * M == 32767 * x); prove('within 16 bits', b_and(y <= 32767, y >= -32767)); prove('within 16 bits', b_and(q <= 32767, q >= -32767)); prove('within one', b_and(q - y < 1, y - q < 1)); e = q - y; prove('within one scale', b_and(e * M < M, -e * M < M)); prove('in the units of the data', (q * (M / 32767) - x) * 32767 == e * M)
    @S.fn('uvio.uvnext_c', ['_miriad/mir/uvio.c:uvnext_c'], Wl('records'))
    def _(s):
        m = llvm.Machine(uvio()); tno = integer('tno', 0, 3); uf = flagbits('flags'); off = integer('offset', 0, 64, ge=0); assume(off < 2**60); item = integer('item', 0, 9); cn = integer('call', 0, 9, ge=0); assume(cn < 2**30); uv = m.struct('data set', 'UV', dict(flags=uf, offset=off, item=item, callno=cn, mark=integer('mark', 0, 9))); uvs(m, a=(tno, uv)); st = Stream(m, item); seen = []; scans = []
        st.on = lambda c: (seen.append(c), [eq('end of record', m.load(c[2].add(k), 'i8'), 2 if k == 2 else 0) for k in (2,)], eq('at the end', c[3], off), eq('four bytes', c[4], 4), eq('as bytes', c[1], H['BYTE']))
        def scan(m, u, v): prove('this data set, to the end of the record', u.b is uv and v.b is None); now = m.field(uv, 'flags'); same_but('other flags stay', now, uf, BITS['UPDATED'], BITS['COPY']); prove('nothing has changed yet', b_not(b_or(bit(now, BITS['UPDATED']), bit(now, BITS['COPY'])))); eq('marked', m.field(uv, 'mark'), cn + 1); scans.append(1); return Num.of(0)
        m.ext['uv_scan'] = scan; wr = b_or(bit(uf, BITS['NEW']), bit(uf, BITS['APPEND'])); m.call('uvnext_c', [tno])
        if bool(wr): prove('the mark is written', len(seen) == 1 and seen[0][0] == 1 and not scans); eq('the end', m.field(uv, 'offset'), off + 8)
        else: prove('read to the end of the record', len(scans) == 1 and not seen)
