"""Bytes of an item behind its buffer (hio.c over its LLVM IR): whatever the state of buffer and file, a read gives the bytes of the item and a write changes those it is given and no others."""
import os
from vc.api import *
from vc import llvm, num
from vc.num import Num
from vc.engine import PathEnd
from vc.llvm import Ptr, NULL, Undef, iff
from .uvvar import H, bug
from .uvrec import kind

ES = {1: 1, 2: 4, 3: 2, 4: 4, 5: 8, 7: 8, 8: 8}             # bytes of an element in the item
EXPAND = {1: 1, 2: 1, 3: 2, 4: 1, 5: 1, 7: 1, 8: 1}         # bytes in memory for a byte in the item
ALIGN = {1: 1, 2: 4, 3: 2, 4: 4, 5: 8, 7: 4, 8: 8}
PACK = {2: ('32', 4), 3: ('16', 2), 8: ('64', 8), 4: ('r', 4), 5: ('d', 8), 7: ('r', 4)}
VALID, ACTIVE, MODIFIED = 0, 1, 2
CACHE, BUF = 64, 16384
PARTS = {'begin': (True, True, None, None), 'begin-new': (True, False, None, None)}     # up to the loop or in it, with a file or without; then, changed or not, still without a file or not
PARTS.update({'loop%s%s%s' % ('' if f else '-new', '-changed' if c else '', '' if o is None else '-opened' if o else '-memory'): (False, f, c, o) for f in (True, False) for c in (True, False) for o in ((None,) if f else (True, False))})
class Item:
    """an item of which any one byte, x, is followed: on disk, in the buffer, as it should be"""
    def __init__(s, m, writing, entering=True, file=None):
        """entering: in any state; otherwise only as far as the state after the loop's havoc depends on it"""
        s.m = m; L, B = m.mod.layout('ITEM'), m.mod.layout('IOB'); io = L['io'][0]; s.at = {n: L[n][0] for n in L if n}
        for n in B:
            if n: s.at['0.' + n], s.at['1.' + n] = io + B[n][0], io + B[''][1] + B[n][0]
        s.x = integer('a byte', 0, 99, ge=0); s.want = lambda x: func('content', [x], True, -128, 127); s.disk = lambda x: func('on disk', [x], True, -128, 127)
        s.size0 = integer('size', 0, 99, ge=0); assume(s.size0 < 2**60); s.file = E().choose('has a file') if file is None else file
        s.o, s.l = (2 * integer('half the start of the buffer', 0, 20, ge=0), integer('bytes in the buffer', 0, 99, ge=0)) if s.file else (Num.of(0), s.size0)
        s.bs = Num.of(BUF) if s.file else Num.of(CACHE) if E().choose('small buffer') else Num.of(0); s.fend = integer('length of the file', 0, 99, ge=0) if s.file else Num.of(0); assume(s.fend < 2**60)
        s.mod = not entering or E().choose('changed'); st = Num.of(MODIFIED) if s.mod else integer('state', VALID, ACTIVE); assume(b_and(st >= 0, st <= ACTIVE)) if not s.mod else None
        if entering or not s.file: assume(b_and(s.l <= s.bs, b_or(s.o + s.l <= s.size0, s.l == 0), not s.mod or s.l > 0))
        s.bs0 = s.bs.const(); s.buf = s.room('buffer'); s.buf.byte = lambda k: func('buffered', [k], True, -128, 127)
        assume(b_and(s.o <= s.fend, b_or(s.fend >= s.size0, b_and(s.mod, s.o + s.l == s.size0)))) if s.file and entering else None
        if entering: s.inv(lambda nm, c: assume(c), s.want, s.size0)
        typ = lambda n: {1: 'i8', 4: 'i32', 8: 'i64'}[(L.get(n) or B[n.split('.')[1]])[1]]
        vals = {'fd': Num.of(3 if s.file else 0), 'flags': Num.of(2 if writing else 1), 'last': Num.of(0), 'handle': Num.of(0), 'size': s.size0, 'bsize': s.bs, 'offset': integer('position', 0, 9), '0.offset': s.o, '0.length': s.l, '0.state': st, '0.buf': Ptr(s.buf, 0) if bool(s.bs > 0) else NULL, '1.offset': Num.of(0), '1.length': Num.of(0), '1.state': Num.of(0), '1.buf': NULL, 'fwd': NULL, 'name': Ptr(m.rec('name', {}), 0)}
        s.tree = m.struct('tree', 'TREE', dict(flags=llvm.Bits(32, lambda j: func('flags of the tree', [j], True, 0, 1, axioms=lambda a: [a.z >= 0, a.z <= 1]) == 1), rdwr=0, wriostat=0, name=Ptr(m.rec('path', {}), 0), handle=1)); vals['tree'] = Ptr(s.tree, 0)
        s.rec = m.rec('item', {s.at[n]: ('ptr' if isinstance(v, Ptr) else typ(n), v) for n, v in vals.items()}, L[''][1]); s.h = integer('handle of the item', 0, 9, ge=0); assume(s.h < 1024)
        m.globals['item_addr'] = Ptr(m.array('items', [1024], [(0, 'ptr')], lambda c, i: Ptr(s.rec, 0) if bool(i[0] == s.h) else Undef('another item'), strided=False, readonly=True), 0)
        s.failed = False; m.ext.update({'dread_c': s.dread, 'dwrite_c': s.dwrite, 'dopen_c': s.dopen, 'malloc': s.malloc, 'free': lambda m, p: s.drop(p), 'llvm.memcpy.p0.p0.i64': s.memcpy, 'strcpy': s.path, 'strcat': s.path, '__strcpy_chk': s.path, '__strcat_chk': s.path, 'bug_c': bug, 'bugv_c': bug})
    def room(s, nm): b = s.m.rec(nm, {}); b.byte = lambda k: Undef('byte of the %s' % nm); b.gone = False; return b
    def get(s, n): return s.rec.d[s.at[n]][1]
    def set(s, n, v): s.rec.d[s.at[n]] = (s.rec.d[s.at[n]][0], v if isinstance(v, Ptr) else Num.of(v)); s.rec.ver += 1
    def inv(s, ask, want, size, opened=False):
        """the byte is in the buffer as it should be, or else on disk; what is on disk too if the buffer has not been changed"""
        x = s.x
        if not bool(x < size): return
        if bool(b_and(s.o <= x, x < s.o + s.l)):
            ask('the buffer holds the byte', s.buf.byte(x - s.o) == want(x))
            if not s.mod and s.file and not opened: ask('as does the file', b_and(x < s.fend, s.disk(x) == want(x)))
        else: ask('there is a file', s.file); ask('the file holds the byte', b_and(x < s.fend, s.disk(x) == want(x)))
    def fail(s, st):
        if E().choose('fails'): s.failed = True; s.m.store(st, 'i32', Num.of(5)); return True
    def path(s, m, d, *a): return d
    def malloc(s, m, n): b = s.room('new buffer'); b.bytes = n; return Ptr(b, 0)
    def drop(s, p): prove('the old buffer', p.b is s.buf and bool(p.off == 0)); p.b.gone = True
    def memcpy(s, m, d, q, n, vol):
        if bool(n == 0): return
        prove('length', n > 0); old, src, d0, q0 = d.b.byte, q.b.byte, d.off, q.off; prove('within the buffer', b_and(d0 >= 0, q0 >= 0, d0 + n <= BUF, q0 + n <= BUF)); prove('not overlapping', d.b is not q.b)
        d.b.byte = lambda k: src(q0 + k - d0) if bool(b_and(k >= d0, k < d0 + n)) else old(k)
    def dread(s, m, fd, p, off, n, st):
        prove('from the file', s.file and bool(fd == 3)); n = Num.of(n)
        if s.fail(st): return
        b = s.local(p); prove('what the file holds', b_and(off >= 0, n >= 0, off + n <= s.fend)); prove('within the buffer', b_and(p.off >= 0, p.off + n <= BUF)); old, disk, d0 = b.byte, s.disk, p.off; b.byte = lambda k: disk(off + k - d0) if bool(b_and(k >= d0, k < d0 + n)) else old(k)
    def local(s, p):
        if not hasattr(p.b, 'byte'): p.b.byte = lambda k: Undef('byte of a local buffer'); p.b.gone = False
        return p.b
    def dwrite(s, m, fd, p, off, n, st):
        prove('to the file', s.file and bool(fd == 3)); prove('from the buffer', p.b is s.buf and bool(p.off == 0)); n = Num.of(n)
        if s.fail(st): return
        prove('leaves no hole', b_and(off >= 0, n >= 0, off <= s.fend)); old, src = s.disk, p.b.byte; s.disk = lambda x: src(x - off) if bool(b_and(x >= off, x < off + n)) else old(x); s.fend = greater(s.fend, off + n)
    def dopen(s, m, fd, path, status, size, st):
        from . import cc
        prove('a new file', not s.file and cc.cstr(m, status) == 'write'); prove('of this item', fd.b is s.rec and bool(fd.off == s.at['fd']) and size.b is s.rec and bool(size.off == s.at['size']))
        if s.fail(st): return
        m.store(fd, 'i32', Num.of(3)); m.store(size, 'i64', Num.of(0)); m.store(st, 'i32', Num.of(0)); s.file = True; s.fend = Num.of(0)
def b_or_max(a, b): return a if bool(a >= b) else b
def greater(a, b, nm='the greater'):
    """the greater of two numbers, without a case distinction"""
    v = integer(nm, 0, 99, ge=0, record=False); assume(b_and(v >= a, v >= b, b_or(v == a, v == b))); return v
def tables(m):
    for nm, d in (('expansion', EXPAND), ('align_size', ALIGN)): m.globals[nm] = Ptr(m.array(nm, [10], [(0, 'i32')], lambda c, i, d=d: Num.of(d[int(i[0].const())]), strided=False, readonly=True), 0)
def build(S, mod, Wl):
    hio = lambda: mod('_miriad/mir/hio.c')
    thorough = os.environ.get('VERIF_TIER') == 'thorough'       # otherwise, of the types, those of one, two and eight bytes everywhere, and the others within a buffer
    NAMES = {v: k.lower() for k, v in H.items()}
    for w, t, p in [(0, t, None) for t in sorted(ES)] + [(1, t, p) for t in sorted(ES) for p in PARTS if t in (1, 3, 5) or thorough or 'memory' in p]:
        @S.fn('hio.hio_c.%s.%s%s' % ('write' if w else 'read', NAMES[t], '.' + p if p else ''), ['_miriad/mir/hio.c:hio_c', '_miriad/mir/hio.c:hcheckbuf_c', '_miriad/mir/hio.c:hwrite_fill_c'], Wl('items'))
        def _(s, w=w, t=t, p=p):
            m = llvm.Machine(hio()); tables(m); ent, had, chg, opn = PARTS[p] if p else (E().choose('up to the loop'), None, None, None); K = Item(m, w, ent, had); T = Num.of(t); es, ex = ES[t], EXPAND[t]
            n0 = es * integer('elements', 0, 9, ge=0); off0 = es * integer('first element', 0, 9, ge=0); assume(b_and(off0 < 2**60, n0 < 2**40)); user = m.rec('the data', {}); user.gone = False; X = dict(done=Num.of(0)); given = lambda j: func('given', [j], True, -128, 127)
            if w: assume(off0 <= K.size0)                    # no holes
            h = integer('the buffer starts at element', 0, 9, ge=0); q = integer('elements of the buffer', 0, 9, ge=0); assume(K.o == es * h) if ent else None
            if not w and ent: assume(b_or(K.l == es * q, K.o + K.l == K.size0))
            now = lambda x: given(x - off0) if w and bool(b_and(off0 <= x, x < off0 + X['done'])) else K.want(x)
            issize = lambda z, d: b_and(z >= K.size0, b_or(z >= off0 + d, d == 0), b_or(z == K.size0, b_and(d > 0, z == off0 + d))) if w else z == K.size0
            io = m.rec('status', {0: ('i32', Undef('status'))})
            def sync():
                """the state as it is in the record"""
                K.o, K.l, K.mod = K.get('0.offset'), K.get('0.length'), bool(K.get('0.state') == MODIFIED); p = K.get('0.buf')
                if p.b is not None: prove('a buffer that is there', bool(p.off == 0) and not p.b.gone); K.buf = p.b
            def transfer(u, p, nb):
                prove('the data go on where they were', u.b is user and bool(u.off == ex * X['done'])); sync(); prove('in the buffer', p.b is K.buf); nb = Num.of(nb); at = off0 + X['done']
                prove('within the buffer', b_and(p.off >= 0, nb >= 0, p.off + nb <= K.get('bsize'))); eq('where the item has them', p.off + K.o, at); d0, done = p.off, X['done']
                if w: old = p.b.byte; p.b.byte = lambda k: given(done + k - d0) if bool(b_and(k >= d0, k < d0 + nb)) else old(k)
                elif bool(b_and(at <= K.x, K.x < at + nb)): prove('the byte of the item', p.b.byte(K.x - K.o) == K.want(K.x))
                X['done'] = done + nb
            mc = m.ext['llvm.memcpy.p0.p0.i64']
            def memcpy(m, d, q, n, vol):
                if user in (d.b, q.b): prove('bytes as they are', t == H['BYTE']); transfer(d if d.b is user else q, q if d.b is user else d, n); prove('in this direction', (q.b is user) == bool(w))
                else: mc(m, d, q, n, vol)
            m.ext['llvm.memcpy.p0.p0.i64'] = memcpy
            for nm, ee in PACK.values():
                def pk(m, a, b, n, nm=nm, ee=ee): prove('packed as its type', w == 1 and t in PACK and PACK[t] == (nm, ee)); transfer(a, b, n * ee)
                def un(m, a, b, n, nm=nm, ee=ee): prove('unpacked as its type', w == 0 and t in PACK and PACK[t] == (nm, ee)); transfer(b, a, n * ee)
                m.ext['pack%s_c' % nm] = pk; m.ext['unpack%s_c' % nm] = un
            def inv(env, ask):
                d = X['done']; u = env['buf']; use = ask.__name__ == 'use'
                if use: return
                if not ent and 'in' not in X: return            # shown on the paths up to the loop
                ask('the data', u.b is user); ask('so many bytes done', b_and(d >= 0, d <= n0)); ask('as many left', env['length'] == n0 - d); ask('where', env['offset'] == off0 + d); ask('next of the data', u.off == ex * d); eq('status', m.load(Ptr(io, 0), 'i32'), 0)
                sync(); bs = K.get('bsize'); ask('the buffer fits', b_and(K.l >= 0, K.l <= bs, K.o >= 0)); ask('changed only if it holds bytes', not K.mod or K.l > 0); ask('aligned', K.o % max(2, es) == 0 if es > 1 else K.o % 2 == 0) ; ask('a buffer', K.get('0.buf').b is not None or bool(d == n0)); ask('one buffer only', K.get('1.buf').b is None); ask('room', b_or(bs == BUF, b_and(bs == CACHE, off0 + n0 <= CACHE), d == n0))
                sz = K.get('size'); opened = b_and(sz == 0, d == 0, K.o == 0, K.l == K.size0) if w else False; ask('size', b_or(issize(sz, d), opened)); ask('within the item', b_or(K.o + K.l <= sz, opened, K.l == 0)); ask('no hole before the buffer', b_or(b_and(K.o <= K.fend, K.fend >= 0), not K.file)); ask('the file has what the buffer has not', b_or(not K.file, K.fend >= sz, b_and(K.mod, K.o + K.l == sz))); 
                if not K.file: ask('all in the buffer', b_and(K.o == 0, K.l == sz))
                if not w: ask('whole elements', b_or(K.l % es == 0, K.o + K.l == sz)); ask('nothing else', K.size0 == sz)
                just = w and not X['had'] and bool(opened); K.inv(ask, now, K.size0 if just else sz, just)
            def newsize(d):
                if not w: return K.size0
                z = integer('size then', 0, 99, ge=0); assume(issize(z, d)); return z
            def havoc(env):
                if ent or (K.bs0 == 0 and bool(K.get('bsize') > 0)): raise PathEnd()     # a small buffer made anew is like one that was there
                if opn is not None and K.file != opn: raise PathEnd()           # of another part
                sync(); d = es * integer('elements done', 0, 9, ge=0); assume(d <= n0); X['done'] = d; bs = K.get('bsize'); f = K.file
                K.o = 2 * integer('half the start', 0, 20, ge=0) if f else Num.of(0); sz = newsize(d); just = w and f and not X.get('had') and bool(d == 0); K.l = integer('held', 0, 99, ge=0) if f else sz
                sz = Num.of(0) if just and E().choose('just opened') else sz
                if just and bool(sz == 0): assume(b_and(K.o == 0, K.l == K.size0))
                else: assume(b_or(K.o + K.l <= sz, K.l == 0))
                assume(K.l <= bs); assume(K.o == es * integer('starts at element', 0, 9, ge=0))
                if not w: assume(b_or(K.l == es * integer('elements held', 0, 9, ge=0), K.o + K.l == sz))
                K.fend = integer('length of the file then', 0, 99, ge=0) if f else K.fend; assume(b_and(K.o <= K.fend, K.fend < 2**61)) if f else None
                K.mod = E().choose('modified') if chg is None else chg; st = Num.of(MODIFIED) if K.mod else integer('state then', VALID, ACTIVE); assume(b_and(st >= 0, st <= ACTIVE) if not K.mod else K.l > 0); assume(b_or(K.fend >= sz, b_and(K.mod, K.o + K.l == sz))) if f else None
                b = K.buf; tagb, tagd = ('buffered then', 'on disk then'); b.byte = lambda k: func(tagb, [k], True, -128, 127); K.disk = (lambda x: func(tagd, [x], True, -128, 127)) if f else K.disk
                for n, v in (('0.offset', K.o), ('0.length', K.l), ('0.state', st), ('size', sz), ('offset', integer('position then', 0, 9))): K.set(n, v)
                K.inv(lambda nm, c: assume(c), now, K.size0 if just and bool(sz == 0) else sz, just and bool(sz == 0)); X['in'] = True
                return dict(length=n0 - d, offset=off0 + d, buf=Ptr(user, ex * d))
            X['had'] = K.file; m.contract('hio_c:0', inv, havoc); short = not w and bool(off0 + n0 > K.size0)
            m.call('hio_c', [K.h, Num.of(w), T, Ptr(user, 0), off0, n0, Ptr(io, 0)]); r = m.load(Ptr(io, 0), 'i32')
            if short: eq('the end of the item', r, -1); prove('nothing is read', bool(X['done'] == 0)); return
            if K.failed: prove('a failure is reported', b_not(r == 0)); return
            eq('success', r, 0); eq('all of it', X['done'], n0); sync(); sz = K.get('size'); prove('the size of the item', b_or(issize(sz, n0), n0 == 0)); K.inv(lambda nm, c: prove('afterwards ' + nm, c), now, K.size0 if bool(n0 == 0) else sz, bool(n0 == 0))
