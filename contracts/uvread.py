"""Reading records from the library's stream (uvio.c over its LLVM IR): scanning chunk by chunk, the data, the flags and the coordinates of a record."""
from vc.api import *
from vc import llvm, num
from vc.num import Num
from vc.engine import PathEnd
from vc.llvm import Ptr, NULL, Undef, iff
from .uvvar import H, EXT, BITS, table_of, flagbits, bit, same_but, uvs, sizes, pick
from .uvrec import INSZ, Stream, kind, up, RUNS, INIT, DOW, AUTO, CROSS

SEEN = [BITS['UPDATED'], 2, 3, 14, BITS['COPY']]          # what a data set notes of the variables that change
def pickg(i, d):
    """d at the type i, by case of its value"""
    by = {}
    for k in sorted(d): by.setdefault(d[k], []).append(k)
    for v in by:
        if bool(b_or(*[i == k for k in by[v]])): return Num.of(v)
    prove('a type of variables', False); raise PathEnd()
def sizesg(m):
    for nm, d in (('external', EXT), ('internal', INSZ)): m.globals[nm + '_size'] = Ptr(m.array(nm + ' sizes', [10], [(0, 'i32')], lambda c, i, d=d: pickg(i[0], d), strided=False, readonly=True), 0)
def same(a, b):
    if isinstance(a, Undef) or isinstance(b, Undef): return a is b
    if isinstance(a, llvm.Bits) or isinstance(b, llvm.Bits): return b_and(*[iff(bit(a, j), bit(b, j)) for j in range(32)])
    if isinstance(a, Ptr): return isinstance(b, Ptr) and a.b is b.b and bool(a.off == b.off)
    return Num.of(a) == b
def build(S, mod, Wl, sel, prop):
    uvio = lambda: mod('_miriad/mir/uvio.c')
    if prop == 'C22': scanning(S, uvio, Wl, sel); flagging(S, uvio, Wl, False); lines(S, uvio, Wl)
    if prop == 'C20': names(S, uvio, Wl)
    if prop == 'C23': flagging(S, uvio, Wl, True)
def scanning(S, uvio, Wl, sel):
    for wanted in (False, True):
        @S.fn('uvio.uv_scan' + ('.for a variable' if wanted else ''), ['_miriad/mir/uvio.c:uv_scan'], Wl('records'))
        def _(s, wanted=wanted):
            """chunk by chunk from where the last record ended: a size makes room, a value is read in full into the variable it belongs to and marks it changed; the scan ends after the mark that ends a record (once the variable asked for has been seen), or without a record at the end of the data"""
            m = llvm.Machine(uvio()); sizesg(m); VL = m.mod.layout('VARIABLE'); L = m.mod.layout('UV')['variable'][0]; ES = VL[''][1]
            N = integer('variables', 0, 3, ge=0); assume(N <= 256); typ = lambda k: func('type', [k], True, 1, 8, axioms=lambda x: [num.z3.Or(*[x.z == t for t in EXT])])
            room = m.rec('values before', {})
            def noover(k): f = flagbits('flags', k); assume(b_not(bit(f, BITS['OVERRIDE']))); return f
            cn0 = integer('scans', 0, 9, ge=0); assume(cn0 < 2**30); cn = cn0 + 1
            def val(c, k, then=''):
                if c == 'type': return typ(k)
                if c == 'flags': return noover(k)
                if c == 'length': return func('length' + then, [k], True, 0, 4)
                if c == 'flength': return func('bytes' + then, [k], True, 0, 4, axioms=lambda x: [x.z >= 0, x.z < 2**24])
                if c == 'callno': return func('changed at' + then, [k], True, 0, 9)
                if c == 'index': return k
                if c == 'buf': return NULL if then and X['new'] else Ptr(room, k * 1000 + (1 if then else 0))
                return Undef(c)
            off0 = integer('offset', 0, 64, ge=0); mx = integer('end of the data', 0, 99, ge=0); item = integer('item', 0, 9); uf = flagbits('flags of the data set')
            assume(b_and(off0 < 2**60, mx < 2**60))
            uv, A = table_of(m, N, val, N, uvfields=dict(flags=uf, nvar=N, callno=cn0, offset=off0, max_offset=mx, item=item, mark=integer('mark', 0, 9))); comp = {n: k for k, n in enumerate(A.names)}
            at = lambda k: Ptr(uv, L + ES * k)
            want = integer('wanted', 0, 2, ge=0); assume(want < N) if wanted else None
            ev = []; X = {}
            def on(c):
                w, t, buf, o, n = c; prove('only read', w == 0); q = len(ev); off = X['off']
                if q == 0:
                    prove('not past the end', off < mx); prove('a header of four bytes', bool(t == H['BYTE']) and bool(n == 4)); eq('where the last chunk ended', o, off)
                    if E().choose('no more'): ev.append('end'); return
                    code = next((k for k in (0, 1, 2) if E().choose('kind %d' % k)), 3); k = integer('number', 0, 3, ge=0, record=False); assume(k < N)
                    if E().choose('past 127'): assume(b_and(k >= 128, k < 256)); b = k - 256
                    else: assume(k < 128); b = k
                    if code < 2: pickg(typ(k), EXT)
                    X.update(code=code, k=k, before=A.snapshot(), uf=m.field(uv, 'flags'), off=off)
                    for j, x in enumerate((b, 0, code if code < 3 else 7, 0)): m.store(buf.add(j), 'i8', Num.of(x))
                    ev.append('header')
                elif X['code'] == 0:
                    prove('the size', bool(t == H['INT']) and bool(n == 4)); eq('after its header', o, off + 4); prove('into the variable', buf.b is uv and bool(buf.off == L + ES * X['k'] + VL['flength'][0])); z = integer('new size', 0, 64, record=False); assume(b_and(z > -2**31, z < 2**24)); X['z'] = z; A.put(comp['flength'], (X['k'],), z); ev.append('size')
                else:
                    prove('a value', X['code'] == 1); k = X['k']; es = pickg(typ(k), EXT); eq('as its type', t, typ(k)); eq('after its header, aligned', o, off + (8 if es == 8 else 4)); eq('all of it', n, X['before'](comp['flength'], k)); p = X['before'](comp['buf'], k); prove('into the room of the variable', same(buf, p)); ev.append('value')
            st = Stream(m, item); st.on = on; io = m.ext['hio_c']
            def hio(m, it, w, t, buf, off, n, st_): io(m, it, w, t, buf, off, n, st_); m.store(st_, 'i32', Num.of(-1 if ev and ev[-1] == 'end' else 0))
            m.ext['hio_c'] = hio; made = []
            def realloc(m, p, n):
                k = X['k']; prove('the room of the variable', same(p, X['before'](comp['buf'], k))); es = pickg(typ(k), EXT); eq('room for all', n * es, X['z'] * pickg(typ(k), INSZ)); made.append(m.rec('new room', {})); return Ptr(made[-1], 0)
            def stop(m, sev, *a):
                if not bool(sev == ord('f')): return None
                bad = X.get('code') == 3 or ('z' in X and bool(b_or(X['z'] <= 0, b_not(divides_(X['z'], pickg(typ(X['k']), EXT)))))); prove('an error only if the data cannot be understood', bad); raise PathEnd()
            m.ext.update({'realloc': realloc, 'malloc': lambda m, n: realloc(m, NULL, n), 'bug_c': stop, 'bugv_c': stop, 'sprintf': llvm.printf}); other = integer('another variable', 0, 3, ge=0); assume(other < N)
            def inv(env, ask):
                o, f, t = env['offset'], env['found'], env['terminate']
                if ask.__name__ == 'use': return
                if 'off' not in X: ask('from where the last record ended', o == off0); ask('nothing found yet', iff(f != 0, not wanted)); ask('goes on', t == 0); eq('one more scan', m.field(uv, 'callno'), cn); prove('nothing read yet', not ev); return
                code, k, g = X['code'], X['k'], X['before']; ask('chunk read', len(ev) == {0: 2, 1: 2, 2: 1}.get(code)); es = pickg(typ(k), EXT)
                size = X['z'] if code == 0 else Num.of(0)
                want_off = X['off'] + 8 if code != 1 else up(X['off'] + (8 if es == 8 else 4) + g(comp['flength'], k), 8); ask('past the chunk', o == want_off)
                ask('found once its value has come', iff(f != 0, b_or(X['found'] != 0, bool(k == want) if wanted and code == 1 else False))); ask('ends after the mark, once found', iff(t != 0, b_and(X['found'] != 0, code == 2)))
                j = other; mine = code in (0, 1) and bool(j == k)
                for c, nm in enumerate(A.names):
                    if mine and nm in ('callno',) + (('length', 'flength', 'buf') if code == 0 else ()): continue
                    a, b = A.get(c, j), g(c, j)
                    if isinstance(a, Undef) and isinstance(b, Undef): continue
                    ask('%s of the other variables stay' % nm if not mine else '%s stays' % nm, same(a, b))
                if mine:
                    ask('marked as changed', A.get(comp['callno'], k) == cn)
                    if code == 0:
                        ask('its length', A.get(comp['length'], k) == X['z']); ask('room made', len(made) == 1 and same(A.get(comp['buf'], k), Ptr(made[0], 0)))
                now = m.field(uv, 'flags'); vf = flagbits('flags', k)
                for b in range(32): ask('noted by the data set', iff(bit(now, b), b_or(bit(X['uf'], b), bit(vf, b) if b in SEEN and code != 2 else False)))
                eq('the end stays until the record is complete', m.field(uv, 'offset'), off0); eq('the same scan', m.field(uv, 'callno'), cn)
            def havoc(env):
                o = integer('at', 0, 64, ge=0, record=False); assume(o < 2**60); e8 = integer('eighths', 0, 8, ge=0, record=False); assume(o == 8 * e8)
                f = Num.of(1 if not wanted or E().choose('found') else 0); t = Num.of(1 if E().choose('ended') else 0); X.update(off=o, found=f, ended=t); X['new'] = E().choose('no values yet'); X.pop('z', 0); X.pop('code', 0); ev[:] = []; made[:] = []; hb = env.fr.var('s')
                if isinstance(hb, llvm.Arr): hb.set_all(lambda c, i: Undef('header'))
                elif hb is not None: hb.ver += 1; hb.d = {}
                m.setfield(uv, 'flags', flagbits('flags of the data set, then')); A.set_all(lambda c, i: val(A.names[c], i[0], ' then')); return dict(offset=o, found=f, terminate=t)
            m.contract('uv_scan:0', inv, havoc); r = m.call('uv_scan', [Ptr(uv, 0), at(want) if wanted else NULL])
            if bool(r == 0): prove('ended by the mark', X['ended'] == 1); eq('the end of the record', m.field(uv, 'offset'), X['off'])
            else: eq('no more records', r, -1); prove('at the end of the data', bool(X['off'] >= mx) or ev == ['end']); eq('the end stays', m.field(uv, 'offset'), off0)
def divides_(a, b): return a % b == 0
def corr(m, t, n, flags=None, D=None, **k):
    """the correlations of a record, n channels of type t"""
    return m.struct('corr', 'VARIABLE', dict(type=t, length=EXT[t] * n * (1 if t == H['CMPLX'] else 2), flags=flags or flagbits('flags of corr'), buf=Ptr(D, 0) if D is not None else Undef('values'), **k))
def numbers(m, t, n, name='data'):
    d = lambda i: func(name, [i], t == H['INT2'], *([-2**15, 2**15 - 1] if t == H['INT2'] else []))
    return d, m.array(name, [2 * n], [(0, 'i32' if t == H['INT2'] else 'float')], lambda c, i: d(i[0]), strided=False, readonly=True)
def flagging(S, uvio, Wl, amp):
    for t in ('REAL', 'CMPLX', 'INT2'):
        if True:
            @S.fn('uvio.uvread_flags.%s%s' % (t, '.by amplitude' if amp else ''), ['_miriad/mir/uvio.c:uvread_flags'], Wl('select' if amp else 'records'))
            def _(s, t=t):
                """the flags of this record, those that end where the flags read so far end; all good if the data set has none; where channels are chosen by amplitude, those not chosen are flagged too"""
                m = llvm.Machine(uvio()); sizes(m); T = H[t]; n = size('n', 1); assume(n < 2**24); d, D = numbers(m, T, n); v = corr(m, T, n, D=D); exists = E().choose('flags exist'); off = integer('flags so far', 0, 99, ge=0); assume(b_and(off >= n, off < 2**50)); cap = integer('room', 0, 4, ge=0); handle = m.rec('flags file', {})
                f = lambda i: func('flag', [i], True, 0, 1, axioms=lambda x: [x.z >= 0, x.z <= 1]) if exists else Num.of(1)
                keep = m.array('flags before', [cap], [(0, 'i32')], lambda c, i: Undef('flags before'), strided=False); cur = dict(b=keep, n=cap)
                lo, hi, pl, ts = real('lowest', 0, 1), real('highest', 1, 2), real('plscale', 1, 2), real('tscale', 1, 2); assume(b_and(lo >= 0, hi >= lo, pl > 0)); disc = integer('discard', 0, 1); assume(b_and(disc >= 0, disc <= 1))
                A = m.struct('amplitudes', 'AMP', dict(select=Num.of(1) if amp else integer('selected', 0, 1), loval=lo, hival=hi, discard=disc)); tb = m.array('tscale', [1], [(0, 'float')], lambda c, i: ts, strided=False, readonly=True); tsc = m.struct('tscale', 'VARIABLE', dict(buf=Ptr(tb, 0)))
                ap = integer('applied', 0, 1); assume(ap != 0) if amp else assume(b_or(ap == 0, m.field(A, 'select') == 0))
                uv = m.struct('data set', 'UV', {'amp': Ptr(A, 0), 'apply_amp': ap, 'plscale': pl, 'tscale': Ptr(tsc, 0), 'corr_flags.exists': Num.of(1 if exists else 0), 'corr_flags.handle': Ptr(handle, 0) if exists else NULL, 'corr_flags.nflags': cap, 'corr_flags.flags': NULL if bool(cap == 0) else Ptr(keep, 0), 'corr_flags.init': Num.of(0), 'corr_flags.offset': off})
                def realloc(m, p, z): prove('only if there is too little room', cap < n); prove('the flags', p.b is (None if bool(cap == 0) else keep) and bool(p.off == 0)); prove('room for all', z >= 4 * n); a = m.array('flags, moved', [n], [(0, 'i32')], lambda c, i: Undef('room'), strided=False); cur.update(b=a, n=n); return Ptr(a, 0)
                got = []
                def mkread(m, h, mode, p, o, c, z): prove('from the flags of the data set', exists and h.b is handle); eq('as flags', mode, 1); prove('into the room', p.b is cur['b'] and bool(p.off == 0)); eq('those of this record', o, off - n); eq('all of them', c, n); prove('room', cur['n'] >= n); got.append(1); cur['b'].set_all(lambda c, i: f(i[0]) if bool(i[0] < n) else Undef('room')); return n
                m.ext.update({'realloc': realloc, 'malloc': lambda m, z: realloc(m, NULL, z), 'mkread_c': mkread}); i0 = index('a channel', n)
                p2 = lambda i: (d(2 * i) * d(2 * i) + d(2 * i + 1) * d(2 * i + 1)) * (ts * ts if T == H['INT2'] else 1) * pl * pl
                # amplitude p with lo <= p <= hi, by their squares (both are positive)
                chosen = lambda i: iff(b_and(lo * lo <= p2(i), p2(i) <= hi * hi), disc == 0)
                def good(env, ask):
                    i = env['i']; ask('range', b_and(i >= 0, i <= n)); ask('at its flag', b_and(env['flags'].b is cur['b'], env['flags'].off == 4 * i))
                    if ask.__name__ != 'use': x = cur['b'].get(0, i0) if bool(i0 < i) else None; ask('good', True if x is None else (x == 1 if not isinstance(x, Undef) else False))
                def goodh(env): i = integer('i', 0, 3, record=False); cur['b'].set_all(lambda c, x: Num.of(1) if bool(x[0] < i) else Undef('room')); return dict(i=i, flags=Ptr(cur['b'], 4 * i))
                m.contract('uvread_flags:0', good, goodh)
                fc = lambda i: func('flag chosen', [i], True, 0, 1, axioms=lambda y: [y.z >= 0, y.z <= 1])
                def byamp(nm):
                    def inv(env, ask):
                        i = env['i']; ask('range', b_and(i >= 0, i <= n)); ask('at its flag', b_and(env['flags'].b is cur['b'], env['flags'].off == 4 * i)); ask('at its numbers', b_and(env[nm].b is D, env[nm].off == 8 * i))
                        if ask.__name__ == 'use': return
                        x = cur['b'].get(0, i0); ask('flag of a channel', iff(x == 1, b_and(f(i0) == 1, implies(i0 < i, chosen(i0))))); ask('a flag', b_or(x == 0, x == 1))
                    def havoc(env):
                        i = integer('i', 0, 3, record=False); cur['b'].set_all(lambda c, x: (f(x[0]) if not bool(x[0] < i) else fc(x[0])) if bool(x[0] < n) else Undef('room')); y = fc(i0); assume(implies(i0 < i, iff(y == 1, b_and(f(i0) == 1, chosen(i0))))); return {'i': i, 'flags': Ptr(cur['b'], 4 * i), nm: Ptr(D, 8 * i)}
                    return inv, havoc
                m.contract('uvread_flags:1', *byamp('df')); m.contract('uvread_flags:2', *byamp('di')); L = m.mod.layout('UV')
                fo = L['corr_flags.exists'][0] - m.mod.layout('FLAGS')['exists'][0]; m.call('uvread_flags', [Ptr(uv, 0), Ptr(v, 0), Ptr(uv, fo), n]); b = m.field(uv, 'corr_flags.flags'); prove('the flags kept', b.b is cur['b'] and bool(b.off == 0)); prove('read once', len(got) == (1 if exists else 0))
                prove('noted', m.field(uv, 'corr_flags.init') != 0); eq('flags so far', m.field(uv, 'corr_flags.offset'), off); prove('their room', b_and(m.field(uv, 'corr_flags.nflags') <= cur['n'], m.field(uv, 'corr_flags.nflags') >= n)); x = b.b.get(0, i0)
                if amp: prove('good if it was and it is chosen', iff(x == 1, b_and(f(i0) == 1, chosen(i0)))); prove('a flag', b_or(x == 0, x == 1))
                else: eq('as it was', x, f(i0))
def lines(S, uvio, Wl):
    for t in ('REAL', 'CMPLX', 'INT2'):
        @S.fn('uvio.uvread_line.%s' % t, ['_miriad/mir/uvio.c:uvread_line'], Wl('records'))
        def _(s, t=t):
            """all channels of the record in their order, scaled if they were stored scaled, with their flags; an error if the caller has no room"""
            m = llvm.Machine(uvio()); sizes(m); T = H[t]; n = size('n', 1); assume(n < 2**24); d, D = numbers(m, T, n); v = corr(m, T, n, D=D); nn = integer('room', 0, 4, ge=0); assume(nn < 2**24); pl, ts = real('plscale', 1, 2), real('tscale', 1, 2)
            tb = m.array('tscale', [1], [(0, 'float')], lambda c, i: ts, strided=False, readonly=True); tsc = m.struct('tscale', 'VARIABLE', dict(buf=Ptr(tb, 0))); f = lambda i: func('flag', [i], True, 0, 1); F = m.array('flags read', [n], [(0, 'i32')], lambda c, i: f(i[0]), strided=False, readonly=True); W = m.struct('windows', 'WINDOW', dict(select=Num.of(0)))
            plain = E().choose('not scaled'); assume(pl == 1 if plain else b_not(pl == 1)) if T != H['INT2'] else None; ready = E().choose('flags read')
            uv = m.struct('data set', 'UV', {'gflag': integer('gflag', 0, 1), 'corr': Ptr(v, 0), 'corr_flags.init': Num.of(1 if ready else 0), 'corr_flags.flags': Ptr(F, 0) if ready else Undef('flags not read'), 'win': Ptr(W, 0), 'apply_win': integer('windows applied', 0, 1), 'plscale': pl, 'tscale': Ptr(tsc, 0), 'data_line.linetype': Num.of(1), 'data_line.start': Num.of(0), 'data_line.width': Num.of(1), 'data_line.step': Num.of(1), 'data_line.n': Num.of(0)}); L = m.mod.layout('UV'); FO = L['corr_flags.exists'][0] - m.mod.layout('FLAGS')['exists'][0]; LO = lambda x: L[x + '.linetype'][0] - m.mod.layout('LINE_INFO')['linetype'][0]
            got = []
            def flags(m, u, vv, fi, c): prove('of this record', not ready and not got and u.b is uv and vv.b is v and fi.b is uv and bool(fi.off == FO)); got.append(1); m.setfield(uv, 'corr_flags.flags', Ptr(F, 0)); m.setfield(uv, 'corr_flags.init', 1)
            out = m.array('result', [2 * nn], [(0, 'float')], lambda c, i: Undef('result'), strided=False); fo = m.array('result flags', [nn], [(0, 'i32')], lambda c, i: Undef('result flags'), strided=False)
            def stop(m, sev, *a): prove('an error only if there is no room', n > nn); raise PathEnd()
            def memcpy(m, dst, src, z, vol):
                q = 4 if dst.b is fo else 8; prove('from the record to the result', (dst.b is fo and src.b is F) or (dst.b is out and src.b is D)); eq('to the first', dst.off, 0); eq('from the first', src.off, 0); eq('all of it', z, q * n); prove('within the room', z <= q * nn); g, o = (f, fo) if q == 4 else (d, out); old = o.snapshot(); o.set_all(lambda c, i: g(i[0]) if bool(i[0] * 4 < z) else old(c, *i))
            m.ext.update({'uvread_flags': flags, 'bug_c': stop, 'llvm.memcpy.p0.p0.i64': memcpy, 'printf': llvm.printf}); val = lambda i: d(i) * (pl * ts if T == H['INT2'] else pl); j = index('a number', 2 * n)
            def loop(nm):
                def inv(env, ask):
                    i = env['i']; ask('range', b_and(i >= 0, i <= 2 * n)); ask('at its number', b_and(env[nm].b is D, env[nm].off == 4 * i)); ask('at its place', b_and(env['d'].b is out, env['d'].off == 4 * i))
                    if ask.__name__ != 'use': x = out.get(0, j) if bool(j < i) else None; ask('value', True if x is None else (x == val(j) if not isinstance(x, Undef) else False))
                def havoc(env): i = integer('i', 0, 3, record=False); out.set_all(lambda c, x: val(x[0]) if bool(x[0] < i) else Undef('result')); return {'i': i, nm: Ptr(D, 4 * i), 'd': Ptr(out, 4 * i)}
                return inv, havoc
            m.contract('uvread_line:2', *loop('di')); m.contract('uvread_line:3', *loop('df'))
            r = m.call('uvread_line', [Ptr(uv, 0), Ptr(uv, LO('data_line')), Ptr(out, 0), nn, Ptr(fo, 0), Ptr(uv, LO('actual_line'))]); eq('all channels', r, n); prove('there was room', n <= nn); prove('flags read', ready or bool(got)); eq('value of a channel', out.get(0, j), val(j)); i = index('a channel', n); eq('flag of a channel', fo.get(0, i), f(i))
            for k, x in dict(linetype=1, start=0, width=1, step=1, n=n).items(): eq('line used: %s' % k, m.field(uv, 'actual_line.' + k), x)
    @S.fn('uvio.uvread_preamble', ['_miriad/mir/uvio.c:uvread_preamble'], Wl('records'))
    def _(s):
        """u, v, (w,) time and baseline of the record, in this order"""
        m = llvm.Machine(uvio()); sizes(m); dow = E().choose('w wanted'); three = E().choose('w stored'); k = 3 if three else 2; c = [real(x) for x in ('u', 'v', 'w')]; t = real('time', 1, 9); bl = integer('baseline', 257, 9000); assume(b_and(bl > 0, bl < 2**24)); uf = flagbits('flags'); D = bit(uf, DOW); assume(D if dow else b_not(D)); assume(b_not(bit(uf, 6))); assume(b_not(bit(uf, 15)))
        var = lambda nm, ty, vals: m.struct(nm, 'VARIABLE', dict(type=H[ty], length=EXT[H[ty]] * len(vals), buf=Ptr(m.array('value of ' + nm, [len(vals)], [(0, 'float' if ty == 'REAL' else 'double')], lambda cc, i: llvm.pick(vals, i[0]), strided=False, readonly=True), 0)))
        V = [var('coord', 'DBLE', c[:k]), var('time', 'DBLE', [t]), var('baseline', 'REAL', [Num.of(bl)])]; P = m.array('variables of the preamble', [5], [(0, 'ptr')], lambda cc, i: Ptr(V[int(i[0].const())], 0) if int(i[0].const()) < 3 else Undef('no more'), strided=False, readonly=True); pl = {x: real(x, 1, 2) for x in ('pluu', 'pluv', 'plvu', 'plvv')}
        uv = m.struct('data set', 'UV', dict(dict(flags=uf, presize=Num.of(3), coord=Ptr(V[0], 0), time=Ptr(V[1], 0), bl=Ptr(V[2], 0)), **pl), dict(prevar=P)); want = [pl['pluu'] * c[0] + pl['pluv'] * c[1], pl['plvu'] * c[0] + pl['plvv'] * c[1]] + ([c[2] if three else Num.of(0)] if dow else []) + [t, Num.of(bl)]
        out = m.array('preamble', [len(want)], [(0, 'double')], lambda cc, i: Undef('preamble'), strided=False); m.call('uvread_preamble', [Ptr(uv, 0), Ptr(out, 0)])
        for q, x in enumerate(want): eq('number %d of the preamble' % q, out.get(0, q), x)
    for first in (False, True):
        @S.fn('uvio.uvread_c' + ('.first' if first else ''), ['_miriad/mir/uvio.c:uvread_c'], Wl('records'))
        def _(s, first=first):
            """the next record with data that the selection keeps, none passed over; the flags keep step with the channels of all records, chosen or not; no record at the end of the data"""
            m = llvm.Machine(uvio()); sizes(m); tno = integer('tno', 0, 3); n = integer('room', 0, 4, ge=0); cn0 = integer('scans', 0, 9, ge=0); assume(cn0 < 2**30); t = kind('type of corr', [H['REAL'], H['INT2'], H['CMPLX']]); uf = flagbits('flags of the data set'); assume(b_not(bit(uf, INIT)) if first else bit(uf, INIT)); assume(b_not(bit(uf, 2))); assume(b_not(bit(uf, 14)))
            # scan k: does it end in a record with data, how many channels has it, does the selection pass it over, is it the end
            B = lambda nm: (lambda k: func(nm, [k], True, 0, 1, axioms=lambda x: [x.z >= 0, x.z <= 1]) == 1); here, rejected, end = B('data'), B('passed over'), B('end'); ch = lambda k: func('channels', [k], True, 0, 4, axioms=lambda x: [x.z >= 0, x.z < 2**24]); Off = lambda k: func('flags up to', [k], True, 0, 9)
            has_sel = E().choose('a selection'); mv = integer('last one wanted', 0, 9); assume(mv >= 0)
            es = {H['REAL']: 8, H['INT2']: 4, H['CMPLX']: 8}[int(t.const())]; c0 = integer('data last seen', 0, 9); assume(c0 <= cn0); l0 = integer('channels before', 0, 4, ge=0); assume(l0 < 2**24)
            v = m.struct('corr', 'VARIABLE', dict(type=t, callno=c0, length=es * l0)); off0 = Off(cn0); selection = m.rec('selection', {})
            uv = m.struct('data set', 'UV', {'flags': uf, 'callno': cn0, 'mark': integer('mark', 0, 9), 'maxvis': mv, 'corr': NULL if first else Ptr(v, 0), 'wcorr': NULL, 'data_line.linetype': Num.of(1), 'ref_line.linetype': Num.of(0), 'corr_flags.init': integer('flags read', 0, 1), 'wcorr_flags.init': integer('wide flags read', 0, 1), 'corr_flags.offset': off0, 'wcorr_flags.offset': Num.of(0), 'select': Ptr(selection, 0) if has_sel else NULL}); uvs(m, a=(tno, uv)); X = dict(ended=False, lined=0, pre=0, inited=not first, defined=not first); nr = m.rec('number read', {0: ('i32', Undef('number read'))}, 4)
            L = m.mod.layout('UV'); LO = lambda x: L[x + '.linetype'][0] - m.mod.layout('LINE_INFO')['linetype'][0]; out, fo, PR = [m.rec(x, {}) for x in ('data', 'flags', 'preamble')]; y = integer('another scan', 0, 9); res = integer('channels given', 0, 4); assume(res >= 0)
            def defline(m, a): eq('of this data set', a, tno); prove('once', not X['defined']); X['defined'] = True; m.setfield(uv, 'corr', Ptr(v, 0))
            def setinit(on): m.setfield(uv, 'flags', llvm.Bits(32, (lambda f: lambda j: on if bool(Num.of(j) == INIT) else f.bit(j))(llvm.as_bits(m.field(uv, 'flags'), 32))))
            def init(m, a): eq('of this data set', a, tno); prove('when the variables are there', not X['inited'] and bool(m.field(uv, 'callno') == cn0 + 1)); X['inited'] = True; setinit(True)
            def scan(m, u, w):
                prove('this data set, to the end of the record', u.b is uv and w.b is None); prove('not after the end', not X['ended']); k = m.field(uv, 'callno') + 1; m.setfield(uv, 'callno', k);
                if bool(end(k)): X['ended'] = True; X['lastoff'] = Off(k - 1); assume(b_not(b_and(here(k), b_not(rejected(k))))); return Num.of(-1)
                if bool(here(k)): m.setfield(v, 'callno', k); m.setfield(v, 'length', es * ch(k)); assume(Off(k) == Off(k - 1) + ch(k))
                else: assume(Off(k) == Off(k - 1))
                return Num.of(0)
            def select(m, u): k = m.field(uv, 'callno'); prove('of this data set', u.b is uv and has_sel); prove('only records with data', here(k)); return Num.of(1) if bool(rejected(k)) else Num.of(0)
            def line(m, u, l, d, nn, f, al): k = m.field(uv, 'callno'); prove('of this data set', u.b is uv); prove('the chosen line, and the line used', l.b is uv and al.b is uv and bool(l.off == LO('data_line')) and bool(al.off == LO('actual_line'))); prove('into the room given', d.b is out and f.b is fo); eq('its size', nn, n); prove('a record that was chosen', b_and(here(k), b_not(rejected(k)) if has_sel else True)); prove('flags not yet read', m.field(uv, 'corr_flags.init') == 0); X['lined'] += 1; return res
            def preamble(m, u, p): prove('of this data set', u.b is uv and p.b is PR and X['lined'] == 1); X['pre'] += 1
            m.ext.update({'uvread_defline': defline, 'uvread_init': init, 'uv_scan': scan, 'uvread_select': select, 'uvread_line': line, 'uvread_preamble': preamble, 'bug_c': lambda m, *a: (prove('no error is raised', False), 1 / 0)}); ok = lambda k: b_and(here(k), b_not(rejected(k)) if has_sel else True)
            def state(k, ask):
                ask('flags keep step', m.field(uv, 'corr_flags.offset') == Off(k)); ask('data last seen', m.field(v, 'callno') <= k); ask('data seen at this scan', iff(m.field(v, 'callno') == k, here(k)) if not bool(k == cn0) else True); ask('marked', m.field(uv, 'mark') == cn0 + 1); ask('flags not yet read', m.field(uv, 'corr_flags.init') == 0); ask('nothing read', m.load(Ptr(nr, 0), 'i32') == 0)
                ask('set up', b_or(k == cn0, X['inited'])); ask('set up is noted', iff(bit(m.field(uv, 'flags'), INIT), X['inited']))
            def fresh():
                k = integer('scans so far', 0, 9, record=False); assume(b_and(k >= cn0, k < 2**30 + 9)); m.setfield(uv, 'callno', k); m.setfield(uv, 'corr_flags.offset', Off(k)); m.setfield(v, 'callno', integer('data seen', 0, 9, record=False)); m.setfield(v, 'length', es * ch(k) if bool(here(k)) and not bool(k == cn0) else es * l0); X['inited'] = True if not first else not bool(k == cn0); setinit(X['inited']); return k
            def outer(env, ask):
                k = m.field(uv, 'callno')
                if ask.__name__ == 'use': assume(implies(b_and(y > cn0, y < k), b_not(ok(y)))); assume(implies(b_and(k > cn0, env['more'] != 0), b_not(ok(k)))); assume(implies(env['more'] == 0, b_and(k > cn0, ok(k)))); state(k, ask); return
                ask('none passed over', implies(b_and(y > cn0, y < k), b_not(ok(y)))); ask('goes on until one is chosen', iff(env['more'] != 0, b_or(k == cn0, b_not(ok(k))))); state(k, ask)
            def ohavoc(env): fresh(); X['outer'] = True; return dict(more=Num.of(1 if E().choose('goes on') else 0))
            def inner(env, ask):
                k = m.field(uv, 'callno')
                if ask.__name__ == 'use': assume(implies(b_and(y > cn0, y <= k), b_not(ok(y)))); state(k, ask); return
                ask('none passed over', implies(b_and(y > cn0, y <= k), b_not(ok(y)))); state(k, ask)
                if X.pop('outer', False): ask('not when it is known that none is wanted', b_or(mv == 0, k <= mv))
            def ihavoc(env): X['outer'] = False; fresh(); return {}
            m.contract('uvread_c:0', outer, ohavoc); m.contract('uvread_c:1', inner, ihavoc)
            m.call('uvread_c', [tno, Ptr(PR, 0), Ptr(out, 0), Ptr(fo, 0), n, Ptr(nr, 0)]); k = m.field(uv, 'callno'); r = m.load(Ptr(nr, 0), 'i32')
            prove('set up', X['defined'])
            if X['lined']:
                prove('once', X['lined'] == 1); eq('channels read', r, res); prove('the first that is chosen', b_and(ok(k), implies(b_and(y > cn0, y < k), b_not(ok(y))))); eq('flags up to and with this record', m.field(uv, 'corr_flags.offset'), Off(k)); prove('coordinates too', X['pre'] == 1 or bool(res == 0))
            else:
                eq('nothing read', r, 0); prove('no more records, or none wanted', X['ended'] or bool(b_and(mv > 0, k > mv))); prove('none of them chosen', implies(b_and(y > cn0, y < k), b_not(ok(y)))); prove('no coordinates', X['pre'] == 0)
    @S.fn('uvio.uvrewind_c', ['_miriad/mir/uvio.c:uvrewind_c'], Wl('records'))
    def _(s):
        """reading starts again at the first record: nothing is marked as changed, the flags from their first"""
        m = llvm.Machine(uvio()); sizes(m); tno = integer('tno', 0, 3); N = integer('variables', 0, 3, ge=0); assume(N <= 256); st = dict(i=None); old = lambda c, k: flagbits('flags', k) if c == 'flags' else func(c, [k], True, 0, 9) if c in ('type', 'length', 'flength', 'callno') else Undef(c)
        def noover(k): assume(b_not(bit(flagbits('flags', k), BITS['OVERRIDE']))); return flagbits('flags', k)
        val = lambda c, k: noover(k) if c == 'flags' else old(c, k)
        uv, A = table_of(m, N, val, N, uvfields={'nvar': N, 'callno': integer('scans', 0, 9), 'mark': integer('mark', 0, 9), 'offset': integer('offset', 0, 99), 'vhans': NULL, 'corr_flags.offset': integer('flags so far', 0, 9), 'wcorr_flags.offset': integer('wide flags so far', 0, 9)}); uvs(m, a=(tno, uv)); L = m.mod.layout('UV')['variable'][0]; ES = m.mod.layout('VARIABLE')[''][1]; ci = A.names.index('callno'); y = integer('a variable', 0, 3, ge=0); assume(y < N)
        def inv(env, ask):
            i = env['i']; ask('range', b_and(i >= 0, i <= N)); ask('at its variable', b_and(env['v'].b is uv, env['v'].off == L + ES * i))
            if ask.__name__ != 'use':
                ask('not changed', implies(y < i, A.get(ci, y) == 0))
                for c, nm in enumerate(A.names):
                    if nm in ('type', 'length', 'flength', 'flags'): ask('%s stays' % nm, same(A.get(c, y), val(nm, y)))
        def havoc(env): i = integer('i', 0, 3, record=False); A.set_all(lambda c, x: (Num.of(0) if bool(x[0] < i) else val('callno', x[0])) if c == ci else val(A.names[c], x[0])); return dict(i=i, v=Ptr(uv, L + ES * i))
        m.contract('uvrewind_c:0', inv, havoc); m.call('uvrewind_c', [tno])
        for f in ('callno', 'mark', 'offset', 'corr_flags.offset', 'wcorr_flags.offset'): eq(f, m.field(uv, f), 0)
        eq('no variable is marked as changed', A.get(ci, y), 0)
        for c, nm in enumerate(A.names):
            if nm in ('type', 'length', 'flength', 'flags'): prove('%s stays' % nm, same(A.get(c, y), val(nm, y)))
def names(S, uvio, Wl):
    class Name:
        """a name of n letters, with the sum of its first i"""
        def __init__(s, m):
            s.m, s.n = m, integer('letters', 0, 5, ge=0); assume(b_and(s.n < 2**20)); s.c = lambda i: func('letter', [i], True, 33, 120, axioms=lambda x: [x.z >= 1, x.z < 128]); s.sum = lambda i: func('sum of letters', [i], True, 0, 900); s.arr = m.array('name', [s.n + 1], [(0, 'i8')], lambda c, i: Num.of(0) if bool(i[0] == s.n) else s.c(i[0]), strided=False, readonly=True); s.p = Ptr(s.arr, 0); assume(s.sum(Num.of(0)) == 0)
        def loop(s, var, total='hashval'):
            def at(i): assume(b_and(s.sum(i) >= 0, s.sum(i) <= 127 * i, s.sum(i + 1) == s.sum(i) + s.c(i)))
            def inv(env, ask):
                p = env[var]; ask('in the name', p.b is s.arr); i = p.off; ask('range', b_and(i >= 0, i <= s.n))
                if ask.__name__ == 'use': return
                ask('sum of the letters', env[total] == s.sum(i)); ask('in range', b_and(s.sum(i) >= 0, s.sum(i) <= 127 * i))
            def havoc(env): i = integer('i', 0, 3, record=False); assume(b_and(i >= 0, i <= s.n)); at(i); return {var: Ptr(s.arr, i), total: s.sum(i)}
            return inv, havoc
    @S.fn('uvio.uv_locvar', ['_miriad/mir/uvio.c:uv_locvar'], Wl('variables'))
    def _(s):
        """the first variable of this name in its chain, the chain of the sum of its letters; none if there is none there"""
        m = llvm.Machine(uvio()); tno = integer('tno', 0, 3); N = Name(m); K = integer('variables of the chain', 0, 3, ge=0); same_ = lambda j: func('of this name', [j], True, 0, 1, axioms=lambda x: [x.z >= 0, x.z <= 1]) == 1; NO = m.mod.layout('VARIABLE')['name'][0]
        fl = lambda nm, **k: m.struct(nm, 'VARIABLE', k); cur, nxt, head = fl('a variable'), fl('the next variable'), fl('the first variable'); X = dict(j=Num.of(0)); want = {}
        HS = m.mod.layout('UV')['vhash'][1] // 8; h = N.sum(N.n) % HS; V = m.array('chains', [HS], [(0, 'ptr')], lambda c, i: (Ptr(head, 0) if bool(K > 0) else NULL) if bool(i[0] == h) else Undef('another chain'), strided=False, readonly=True); uv = m.struct('data set', 'UV', {}, dict(vhash=V)); uvs(m, a=(tno, uv)); y = integer('another', 0, 3, ge=0)
        def strcmp(m, a, b): p, q = (a, b) if b.b is N.arr else (b, a); prove('this name with that of the variable', q.b is N.arr and bool(q.off == 0) and p.b is cur and bool(p.off == NO)); return Num.of(0) if bool(same_(X['j'])) else integer('difference', 1, 2, ge=1)
        m.ext['strcmp'] = strcmp
        def inv(env, ask):
            v = env['v']
            if ask.__name__ == 'use': assume(implies(b_and(y >= 0, y < X['j']), b_not(same_(y)))); return
            if 'in' not in X: ask('from the first', v.b is (head if bool(K > 0) else None)); return
            j = X['j'] + 1; ask('the next', v.b is (nxt if bool(j < K) else None) and bool(v.off == 0)); ask('none passed over', implies(b_and(y >= 0, y < j), b_not(same_(y))))
        def havoc(env): j = integer('j', 0, 3, record=False); assume(b_and(j >= 0, j <= K)); X.update(j=j); X['in'] = 1; m.setfield(cur, 'fwd', Ptr(nxt, 0) if bool(j + 1 < K) else NULL); return dict(v=Ptr(cur, 0) if bool(j < K) else NULL)
        m.contract('uv_locvar:0', *N.loop('s')); m.contract('uv_locvar:1', inv, havoc); r = m.call('uv_locvar', [tno, N.p]); j = X['j']; prove('none before it', implies(b_and(y >= 0, y < j), b_not(same_(y))))
        if r.b is None: prove('none of the chain', j == K)
        else: prove('one of this name', b_and(True if r.b is cur and bool(r.off == 0) else False, same_(j), j < K))
    @S.fn('uvio.uv_mkvar', ['_miriad/mir/uvio.c:uv_mkvar'], Wl('variables'))
    def _(s):
        """the variable of this name if there is one; else a new one, numbered after all others, of this name and type, put first in the chain of its name; an error if there are too many or the name is too long"""
        m = llvm.Machine(uvio()); tno = integer('tno', 0, 3); N = Name(m); VL = m.mod.layout('VARIABLE'); MAXN = VL['name'][1] - 1; nv = integer('variables', 0, 5, ge=0); there = E().choose('there'); ty = kind('type', sorted(EXT)); HS = m.mod.layout('UV')['vhash'][1] // 8; MV = m.mod.layout('UV')['variable'][1] // VL[''][1]; prove('a number fits a byte', MV <= 256); assume(nv <= MV); h = N.sum(N.n) % HS; other = integer('another chain', 0, 9, ge=0); assume(other < HS); old = m.rec('first of the chain', {}); oth = m.rec('first of another chain', {}); has = E().choose('chain not empty'); y = integer('another variable', 0, 3, ge=0); assume(y < MV)
        V = m.array('chains', [HS], [(0, 'ptr')], lambda c, i: (Ptr(old, 0) if has else NULL) if bool(i[0] == h) else Ptr(oth, 8 * i[0]), strided=False); val = lambda c, k: func(c, [k], True, 0, 9) if c in ('type', 'length', 'flength', 'callno', 'index') else flagbits('flags', k) if c == 'flags' else Ptr(old, k) if c in ('buf', 'fwd') else Undef(c)
        uv, A = table_of(m, MV, val, Num.of(MV), uvfields=dict(nvar=nv), regions=dict(vhash=V)); uvs(m, a=(tno, uv)); L = m.mod.layout('UV')['variable'][0]; found = m.rec('the variable', {}); wrote = []
        def loc(m, a, c): eq('of this data set', a, tno); prove('by its name', c.b is N.arr and bool(c.off == 0)); return Ptr(found, 0) if there else NULL
        def strlen(m, p): prove('the length of the name', p.b is N.arr and bool(p.off == 0)); return N.n
        def strcpy(m, d, p): prove('the name', p.b is N.arr and bool(p.off == 0)); prove('to the new variable', d.b is uv and bool(d.off == L + VL[''][1] * nv + VL['name'][0])); prove('room for it', N.n <= MAXN); wrote.append(1); return d
        def stop(m, sev, *a): prove('an error only if it cannot be made', bool(sev == ord('f')) and not there and bool(b_or(N.n > MAXN, nv >= MV))); prove('nothing is changed', bool(m.field(uv, 'nvar') == nv) and not wrote); raise PathEnd()
        m.ext.update({'uv_locvar': loc, 'strlen': strlen, 'strcpy': strcpy, 'bug_c': stop, 'sprintf': llvm.printf}); m.contract('uv_mkvar:0', *N.loop('name')); vi = V.ver; r = m.call('uv_mkvar', [tno, N.p, ty])
        if there: prove('the variable that is there', r.b is found and bool(r.off == 0)); eq('no other made', m.field(uv, 'nvar'), nv); prove('nothing is changed', not wrote and V.ver == vi); return
        prove('can be made', b_and(nv < MV, N.n <= MAXN)); eq('one more', m.field(uv, 'nvar'), nv + 1); prove('after all others', r.b is uv and bool(r.off == L + VL[''][1] * nv)); prove('named', len(wrote) == 1); eq('its type', A.get(A.names.index('type'), nv), ty)
        first = V.get(0, h); prove('first of its chain', first.b is uv and bool(first.off == r.off)); nx = A.get(A.names.index('fwd'), nv); prove('followed by the chain', nx.b is (old if has else None) and bool(nx.off == 0))
        if not bool(other == h): prove('other chains stay', same(V.get(0, other), Ptr(oth, 8 * other)))
        if not bool(y == nv):
            for c, nm in enumerate(A.names):
                if nm in ('type', 'length', 'flength', 'callno', 'flags', 'fwd', 'buf', 'index'): prove('%s of other variables stays' % nm, same(A.get(c, y), val(nm, y)))
    @S.fn('uvio.uv_init', ['_miriad/mir/uvio.c:uv_init'], Wl('variables'))
    def _(s):
        """the sizes of the types of variables, which the other contracts rely on"""
        m = llvm.Machine(uvio()); T = {nm: m.array(nm, [10], [(0, ty)], lambda c, i, nm=nm: Undef(nm), strided=False) for nm, ty in (('external_size', 'i32'), ('internal_size', 'i32'), ('type_flag', 'i8'))}
        for nm in T: m.globals[nm] = Ptr(T[nm], 0)
        m.ext['llvm.memset.p0.i64'] = lambda *a: None
        WN = m.mod.layout('WINDOW')['wins'][1] // 4; w = m.array('windows', [WN], [(0, 'i32')], lambda c, i: Undef('window'), strided=False); tw = m.struct('true window', 'WINDOW', {}, dict(wins=w)); m.globals['truewin'] = Ptr(tw, 0); vh = m.array('handles', [128], [(0, 'ptr')], lambda c, i: Undef('handle'), strided=False); m.globals['varhands'] = Ptr(vh, 0); m.globals['noamp'] = Ptr(m.struct('no amplitudes', 'AMP', {}), 0)
        def fill(arr, n, what):
            def inv(env, ask): ask('range', b_and(env['i'] >= 0, env['i'] <= n))
            def havoc(env): i = integer('i', 0, 9, record=False); arr.set_all(lambda c, x: what() if bool(x[0] < i) else Undef('rest')); return dict(i=i)
            return inv, havoc
        m.contract('uv_init:0', *fill(w, WN, lambda: Num.of(1))); m.contract('uv_init:1', *fill(vh, 128, lambda: NULL))
        m.call('uv_init', [])
        for k in EXT:
            eq('size on disk', T['external_size'].get(0, k), EXT[k]); eq('size in memory', T['internal_size'].get(0, k), INSZ[k])
            eq('letter', T['type_flag'].get(0, k), ord({H['BYTE']: 'a', H['INT']: 'i', H['INT2']: 'j', H['REAL']: 'r', H['DBLE']: 'd', H['CMPLX']: 'c'}[k]))
        eq('no selection by windows', m.field(tw, 'select'), 0); eq('no selection by amplitude', m.field(m.globals['noamp'].b, 'select'), 0)
