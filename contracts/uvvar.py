"""The library's variables (uvio.c over its LLVM IR): the table, following changes, copying, reading and writing values."""
from vc.api import *
import z3
from vc import llvm, num
from vc.num import Num
from vc.engine import PathEnd
from vc.llvm import Ptr, NULL, Undef, iff
from . import cc

H = dict(BYTE=1, INT=2, INT2=3, REAL=4, DBLE=5, TXT=6, CMPLX=7, INT8=8)
EXT = {1: 1, 2: 4, 3: 2, 4: 4, 5: 8, 7: 8}                        # bytes of an element on disk, by type of variable (there are no variables of 64-bit integers)
BITS = dict(COPY=0, UPDATED=1, NEW=4, APPEND=5, OVERRIDE=7, NOCHECK=9)
def table_of(m, N, values, nvar, nm='variables', uvfields={}, regions={}):
    """a data set with its table of variables; values(c, k): field c of variable k"""
    L = m.mod.layout('VARIABLE'); comps = sorted((o, ty, n) for n, (o, sz, ty) in L.items() if n and ty is not None)
    A = m.array(nm, [nvar], [(o, ty) for o, ty, n in comps], lambda c, i: values(comps[c][2], i[0]), strided=False, es=L[''][1]); A.names = [n for _, _, n in comps]
    uv = m.struct('data set ' + nm, 'UV', uvfields, dict(dict(variable=A), **regions)); return uv, A
def flagbits(nm, *k):
    """a word of flags: bit j is a free truth value"""
    return llvm.Bits(32, lambda j: func(nm, list(k) + [j], True, 0, 1, axioms=lambda x: [x.z >= 0, x.z <= 1]) == 1)
def bit(w, j): return llvm.as_bits(w, 32).bit(Num.of(j))
def same_but(nm, a, b, *but):
    """the words differ at most in the bits given"""
    for j in range(32):
        if j not in but: prove(nm, iff(bit(a, j), bit(b, j)))
def uvs(m, **sets):
    """the table of data sets: sets = {number: record}"""
    def f(c, i):
        for n, b in sets.values():
            if bool(i[0] == n): return Ptr(b, 0)
        return Undef('another data set')
    m.globals['uvs'] = Ptr(m.array('data sets', [26], [(0, 'ptr')], f, strided=False), 0)
    for n, _ in sets.values(): assume(b_and(n >= 0, n < 26))
def bug(m, *a): prove('no error is raised', False); raise PathEnd()
def sizes(m):
    m.globals['external_size'] = Ptr(m.array('external sizes', [10], [(0, 'i32')], lambda c, i: pick(i[0], EXT), strided=False, readonly=True), 0)
    m.globals['internal_size'] = Ptr(m.array('internal sizes', [10], [(0, 'i32')], lambda c, i: pick(i[0], {**EXT, 3: 4}), strided=False, readonly=True), 0)
def pick(i, d):
    for k in sorted(d)[:-1]:
        if bool(i == k): return Num.of(d[k])
    k = sorted(d)[-1]
    if not bool(i == k): prove('a type of variables', False); raise PathEnd()
    return Num.of(d[k])
def tracking(S, mod, Wl, sel, rac):
    uvio = lambda: mod('_miriad/mir/uvio.c')
    @S.fn('uvio.uvcopyvr_c', ['_miriad/mir/uvio.c:uvcopyvr_c'], Wl(rac))
    def _(s):
        """every variable that is followed and that changed since the last record is written to the other data set, once, with its type and its whole value"""
        m = llvm.Machine(uvio()); sizes(m); tin, tout = integer('from', 0, 3), integer('to', 0, 3); N = integer('variables', 0, 3, ge=0); assume(N <= 256); mark = integer('mark', 0, 5); uf = flagbits('flags of the data set'); vf = lambda k: flagbits('flags', k); typ = lambda k: func('type', [k], True, 1, 8, axioms=lambda x: [z3.Or(*[x.z == t for t in EXT])]); cn = lambda k: func('changed at', [k], True, 0, 9); cnt = lambda k: func('elements', [k], True, 0, 4, axioms=lambda x: [x.z >= 0, x.z < 2**24]); buf = m.rec('values', {})
        val = lambda c, k: cnt(k) * pick(typ(k), EXT) if c == 'length' else Ptr(buf, k * 1000) if c == 'buf' else vf(k) if c == 'flags' else typ(k) if c == 'type' else cn(k) if c == 'callno' else Undef(c)
        uv, A = table_of(m, N, val, N, uvfields=dict(flags=uf, nvar=N, mark=mark)); uvs(m, a=(tin, uv)); seen = []; L = m.mod.layout('UV')['variable'][0]; VL = m.mod.layout('VARIABLE')
        wanted = lambda k: b_and(bit(vf(k), BITS['COPY']), cn(k) >= mark)
        def put(m, t, ty, nm, b, n): seen.append((t, ty, nm, b, n))
        m.ext['uvputvr_c'] = put; st = {}
        def inv(env, ask):
            i = env['i']; v = env['v']; ask('range', b_and(i >= 0, i <= N)); ask('at its variable', b_and(True if v.b is uv else False, v.off == L + VL[''][1] * i))
            if ask.__name__ == 'use': st['i'] = i; return
            if 'i' not in st: prove('nothing written before', not seen); return
            k = i - 1
            if not bool(wanted(k)): prove('not followed or not changed: not written', not seen); return
            prove('written once', len(seen) == 1); t, ty, nm, b, n = seen[0]; eq('to the other data set', t, tout); eq('as its type', ty, typ(k)); prove('under its name', nm.b is uv and bool(nm.off == L + VL[''][1] * k + VL['name'][0])); prove('its value', b.b is buf and bool(b.off == k * 1000)); eq('all of it', n, cnt(k))
        def havoc(env): i = integer('i', 0, 3, record=False); seen[:] = []; return dict(i=i, v=Ptr(uv, L + VL[''][1] * i))
        m.contract('uvcopyvr_c:0', inv, havoc); active = bit(uf, BITS['COPY']); m.call('uvcopyvr_c', [tin, tout]); prove('nothing written after', not seen)
        prove('gone through unless nothing is followed', 'i' in st or bool(b_not(active)))
    @S.fn('uvio.uvtrack_c', ['_miriad/mir/uvio.c:uvtrack_c'], Wl(rac))
    def _(s):
        m = llvm.Machine(uvio()); tno = integer('tno', 0, 3); sw = sel(['c', 'u', 'cu', ' c', '']); uf, vf = flagbits('flags of the data set'), flagbits('flags'); here = E().choose('a variable of the data set')
        uv = m.struct('data set', 'UV', dict(flags=uf)); v = m.struct('the variable', 'VARIABLE', dict(flags=vf)); uvs(m, a=(tno, uv)); nm = m.rec('name', {}); text = lambda x: (lambda a: (setattr(a, 'vals', [ord(c) for c in x] + [0]), Ptr(a, 0))[1])(m.array('switches', [len(x) + 1], [(0, 'i8')], lambda c, i: llvm.table([ord(q) for q in x] + [0], i[0], 8), strided=False, readonly=True))
        def loc(m, t, n): eq('of this data set', t, tno); prove('by its name', n.b is nm and bool(n.off == 0)); return Ptr(v, 0) if here else NULL
        m.ext.update(uv_locvar=loc, bug_c=bug, bugv_c=bug); m.call('uvtrack_c', [tno, Ptr(nm, 0), text(sw)]); want = [BITS[n] for c, n in (('c', 'COPY'), ('u', 'UPDATED')) if c in sw and here]
        for b, old, what in ((v, vf, 'variable'), (uv, uf, 'data set')):
            now = m.field(b, 'flags'); same_but('other flags of the %s stay' % what, now, old, *want)
            for j in want: prove('the %s is followed' % what, bit(now, j))
