"""The library's selection (uvio.c over its LLVM IR): making a clause, ordering its tests, deciding a record."""
from vc.api import *
from vc import llvm, num
from vc.num import Num, SBool
from vc.engine import PathEnd
from vc.llvm import Ptr, NULL, Undef, iff
from . import cc

MAXANT = 2048; NP = MAXANT * (MAXANT + 1) // 2; INIT = 0x2000
TYPES = dict(time=2, polarization=10)
OP = [(0, 'i32'), (4, 'i32'), (8, 'double'), (16, 'double'), (24, 'ptr')]
def tri(n):
    """n(n-1)/2 for n >= 1, as the C code computes it"""
    assume(n * (n - 1) >= 0); x = llvm.cdiv(n * (n - 1), Num.of(2)); assume(2 * x == n * (n - 1)); return x          # n(n-1) is even and not negative
class Pairs:
    """the table of antenna pairs, seen at one arbitrary pair (a, b), a >= b, numbered from 1"""
    def __init__(self, m, name, a, b, v, init=True):
        self.m, self.a, self.b = m, a, b; assume(b_and(b >= 1, a >= b, a <= MAXANT)); self.x = tri(a) + b - 1; self.v = v; assume(b_and(self.x >= 0, self.x < NP))   # lemma: the numbers of pairs
        self.arr = m.array(name, [NP], [(0, 'i32')], lambda c, i: self.at(i[0], v), strided=False)
    def at(self, i, v):
        if not bool(Num.of(i) == self.x): return Undef('entry of another pair')
        return v
    def get(self): return self.arr.get(0, self.x)
    def set(self, v): self.v = v; self.arr.set_all(lambda c, i: self.at(i[0], v))
    def lemma(self, p, q):
        """pairs (p, q) and (a, b), larger first, have the same number only if they are the same (obligation 'numbers of pairs')"""
        assume(implies(tri(p) + q - 1 == self.x, b_and(p == self.a, q == self.b))); assume(b_and(tri(p) + q - 1 >= 0, tri(p) + q - 1 < NP))
def strcmp(m, a, b):
    x, y = cc.cstr(m, a), cc.cstr(m, b); return Num.of((x > y) - (x < y))
def build(S, mod, Wl, sel):
    uvio = lambda: mod('_miriad/mir/uvio.c')
    @S.fn('uvio.numbers of pairs', ['_miriad/mir/uvio.c (lemma)'], Wl('select'))
    def _(s):
        """the numbers p(p-1)/2 + q - 1 of pairs p >= q >= 1 are different, from 0 up to the size of the table"""
        a, b, e, q = integer('a', 1, 9), integer('b', 1, 9), integer('e', 0, 5, ge=0), integer('q', 1, 9); assume(b_and(b >= 1, b <= a, a <= MAXANT)); p = a + e
        assume(b_and(q >= 1, q <= p)); t = lambda n: n * (n - 1)
        # twice the numbers; p = a + e: t(p) = t(a) + 2 a e + e (e - 1)
        prove('expansion', t(p) == t(a) + 2 * a * e + e * (e - 1))
        if bool(e >= 1):
            f = e - 1; prove('expansion', 2 * a * e + e * (e - 1) == 2 * a + 2 * a * f + f * (f + 1)); prove('not negative', 2 * a * f + f * (f + 1) >= 0); w = integer('w', 0, 9); assume(b_and(w == 2 * a * f + f * (f + 1), w >= 0)); prove('a later row begins after the end of an earlier one', 2 * (q - 1) + 2 * a + w > 2 * (b - 1))
        else: prove('in a row, by the second', implies(2 * (q - 1) == 2 * (b - 1), q == b))
        g = integer('g', 0, 9); assume(b_and(a == MAXANT - g, g >= 0, g < MAXANT)); T = t(a) + 2 * (b - 1); prove('last row', T <= t(a) + 2 * a - 2); prove('expansion', t(a) + 2 * a - 2 == MAXANT * (MAXANT + 1) - 2 - g * (2 * MAXANT + 1 - g)); prove('not negative', g * (2 * MAXANT + 1 - g) >= 0); prove('from 0', b_and(t(a) >= 0, T >= t(a)))
    @S.fn('uvio.uvbasant_c', ['_miriad/mir/uvio.c:uvbasant_c'], Wl('select'))
    def _(s):
        m = llvm.Machine(uvio()); a, b = integer('a', 1, 300), integer('b', 1, 300); assume(b_and(a >= 1, b >= 1, a <= b, b < 2048)); bl = 256 * a + b if bool(b < 256) else 65536 + 2048 * a + b
        p, q = (m.rec('antenna %d' % k, {0: ('i32', Undef('antenna'))}, 4) for k in (1, 2)); m.call('uvbasant_c', [bl, Ptr(p, 0), Ptr(q, 0)]); eq('first', p.d[0][1], a); eq('second', q.d[0][1], b)
    @S.fn('uvio.uv_addopers', ['_miriad/mir/uvio.c:uv_addopers'], Wl('select'))
    def _(s):
        m = llvm.Machine(uvio()); n = integer('tests', 0, 4, ge=0); assume(n < 2**24); typ, disc = integer('type', 1, 21), integer('discard', 0, 1); p1, p2 = real('p1'), real('p2'); full = E().choose('no room'); room = n if full else n + integer('room', 1, 9, ge=1, record=False); assume(room < 2**24)
        ty = lambda k: func('type', [k], True, 1, 21); old = lambda c, k: [ty(k), func('discard', [k], True, 0, 1), func('lo', [k]), func('hi', [k]), Ptr(strs, Num.of(k) * 8)][c]; strs = m.rec('texts', {}); OPS = lambda nm, size, f: m.array(nm, [size], OP, f, strided=False)
        mono = lambda x, y: assume(implies(b_and(x >= 0, x <= y, y < n), ty(x) <= ty(y)))        # sorted by type
        ops = OPS('tests', room, lambda c, i: old(c, i[0])); st = dict(ops=ops)
        node = m.struct('clause', 'select', dict(opers=NULL if full and bool(n == 0) else Ptr(ops, 0), noper=n, maxoper=room))
        def realloc(m, p, size):
            prove('the tests are moved', full and (p.b is ops or p.b is None)); cap = m.field(node, 'maxoper'); eq('room for all', size, 32 * cap); prove('more room', cap > n); st['ops'] = OPS('tests, moved', cap, lambda c, i: old(c, i[0]) if bool(i[0] < n) else Undef('room')); return Ptr(st['ops'], 0)
        m.ext['realloc'] = realloc; m.ext['malloc'] = lambda m, k: realloc(m, NULL, k)
        x = integer('x', 0, 5, ge=0); assume(x <= n)                # an arbitrary place of the new list
        after = lambda i: (lambda c, j: (old(c, j[0]) if bool(j[0] <= i) else old(c, j[0] - 1) if bool(j[0] >= i + 2) else Undef('place to fill')) if bool(j[0] <= n) else Undef('room'))
        def inv(env, ask):
            i = env['i']; ask('range', b_and(i >= -1, i < n)); eq('counted', env['n'], n)
            if ask.__name__ == 'use': assume(implies(b_and(x > i, x < n), ty(x) > typ)); assume(implies(b_and(x - 1 > i, x - 1 < n), ty(x - 1) > typ)); return
            ask('passed over only later kinds', implies(b_and(x > i, x < n), ty(x) > typ)); A = st['ops']
            if bool(b_and(x != i + 1, x <= n)):
                for c in range(5): ask('shifted', same(A.get(c, x), after(i)(c, (x,))))
        def havoc(env): i = integer('i', -1, 4, record=False); st['i'] = i; st['ops'].set_all(after(i)); assume(i >= -1); return dict(i=i, oper=Undef('oper'))
        def same(a, b):
            if isinstance(a, Undef) or isinstance(b, Undef): return isinstance(a, Undef) and isinstance(b, Undef)
            return a.b is b.b and bool(a.off == b.off) if isinstance(a, Ptr) else Num.of(a) == b
        m.contract('uv_addopers:0', inv, havoc, side=True)
        mono(x, n - 1); mono(x - 1, n - 1); m.call('uv_addopers', [Ptr(node, 0), typ, disc, p1, p2, NULL]); eq('one more', m.field(node, 'noper'), n + 1); A = st['ops']; prove('the list', m.field(node, 'opers').b is A and bool(m.field(node, 'opers').off == 0)); prove('room', m.field(node, 'maxoper') >= n + 1)
        # the newcomer after every test of its kind or an earlier one, before all others
        new = [typ, disc, p1, p2]; here = [A.get(c, x) for c in range(5)]; mono(x, st['i']); isnew = same(here[4], NULL);
        if isnew if isinstance(isnew, bool) else bool(isnew):
            for c in range(4): eq('the newcomer', here[c], new[c])
            mono(x - 1, st['i']); prove('after the tests before it', implies(x >= 1, ty(x - 1) <= typ)); prove('before the others', implies(x < n, ty(x) > typ)); return
        prove('one of the tests before', isinstance(here[4], Ptr) and here[4].b is strs); k = here[4].off / 8; kk = x if bool(k == x) else x - 1; prove('in its place or one later', k == kk); prove('one of the list', b_and(kk >= 0, kk < n))
        for c in range(4): eq('unchanged', here[c], old(c, kk))
        prove('stays where it is of the same kind or an earlier one, moves otherwise', (ty(kk) <= typ) if bool(kk == x) else (ty(kk) > typ))
    class Clause:
        """one clause of the list, seen at one pair of antennas"""
        def __init__(self, m, name, a, b, v, **k):
            self.pairs = Pairs(m, 'pairs of %s' % name, a, b, v); self.rec = m.struct(name, 'select', k, dict(ants=self.pairs.arr)); self.p = Ptr(self.rec, 0)
    def select(s, obj):
        m = llvm.Machine(uvio()); tno = Num.of(3); N = integer('clauses', 0, 3, ge=0); a, b = integer('a', 1, 9), integer('b', 1, 9); p1, p2 = real('p1'), real('p2'); inc = integer('include', 0, 1); assume(b_and(inc >= 0, inc <= 1)); disc = 1 - inc
        if obj == 'time': assume(p1 < p2)
        pq = None
        if obj.startswith('antennae') or obj in ('one antenna', 'all antennas'):
            p1, p2 = integer('antenna 1', 0, 9), integer('antenna 2', 0, 9); assume(b_and(p1 >= 0, p2 >= 0, p1 <= MAXANT, p2 <= MAXANT))
            if obj.startswith('antennae'): assume(b_and(p1 > 0, p2 > 0, p1 >= p2 if obj[9] == '1' else p1 < p2)); assume(N > 0 if obj.endswith('again') else N == 0); pq = (p1, p2) if obj[9] == '1' else (p2, p1)
            elif obj == 'one antenna': assume(b_or(b_and(p1 > 0, p2 == 0), b_and(p1 == 0, p2 > 0)))
            else: assume(b_and(p1 == 0, p2 == 0))
            obj = 'antennae'
        V = lambda k: func('discarded', [k], True, 0, 1); has = lambda k: func('by antennas', [k], True, 0, 1, axioms=lambda x: [x.z >= 0, x.z <= 1]); nodes = {}
        def clause(k):
            key = Num.of(k).key()
            if key not in nodes: nodes[key] = next((c for c in list(nodes.values()) if bool(c.k == k)), None)
            if nodes[key] is None:
                c = nodes[key] = Clause(m, 'clause %s' % (Num.of(k),), a, b, V(k), selants=has(k), noper=func('tests', [k], True, 0, 3), **{'and': func('and', [k], True, 0, 1), 'amp.select': Num.of(0), 'win.select': Num.of(0)}); c.k = Num.of(k)
                if pq: c.pairs.lemma(*pq)
                m.setfield(c.rec, 'fwd', NULL if bool(c.k == N - 1) else Lazy(lambda: clause(c.k + 1).p))
            return nodes[key]
        class Lazy(Ptr):
            def __init__(self, f): self.fn, self.p = f, None
            @property
            def b(self): self.p = self.p or self.fn(); return self.p.b
            @property
            def off(self): return Num.of(0)
        first = NULL if bool(N == 0) else clause(Num.of(0)).p; flags = sel([-1, 0, INIT]) if obj in ('or', 'time') else -1
        uv = m.struct('data set', 'UV', dict(select=first, flags=Num.of(flags), need_pol=Num.of(0))); m.globals['uvs'] = Ptr(m.array('data sets', [26], [(0, 'ptr')], lambda c, i: Ptr(uv, 0) if bool(i[0] == tno) else Undef('another data set'), strided=False), 0)
        new = []; tests = []; freed = []
        def malloc(m, size):
            eq('room for a clause', size, m.mod.layout('select')[''][1]); c = Clause(m, 'new clause %d' % len(new), a, b, Undef('pairs of a new clause')); new.append(c); pq and c.pairs.lemma(*pq); return c.p
        def addop(m, c, t, d, lo, hi, tx): tests.append((c, t, d, lo, hi, tx))
        m.ext.update(strcmp=strcmp, malloc=malloc, uv_addopers=addop, uv_free_select=lambda m, p: freed.append(p), bug_c=lambda m, sev, msg: bug(m, sev), bugv_c=lambda m, sev, *x: bug(m, sev))
        def bug(m, sev): prove('no error is raised', False); raise PathEnd()
        w = m.array('text', [len(obj) + 1], [(0, 'i8')], lambda c, i: llvm.table([ord(q) for q in obj] + [0], i[0], 8), strided=False, readonly=True); w.vals = [ord(q) for q in obj] + [0]
        # to the last clause
        def winv(env, ask):
            q = env['sel']; ok = isinstance(q, Ptr) and any(q.b is c.rec for c in nodes.values()); ask('one of the clauses', ok)
        m.contract('uvselect_c:0', winv, lambda env: dict(sel=clause(kk()).p))
        def kk(): k = integer('at clause', 0, 2, record=False); assume(b_and(k >= 0, k < N)); return k
        # the loops that fill the table of pairs, seen at the pair (a, b): what the entry is after i steps
        def fill(k, done, v=disc, lo=0, hint=None):
            st = {}
            def tab(env): return next(c.pairs for c in list(nodes.values()) + new if c.rec is env['sel'].b)
            def val(env, i): return v(env) if bool(done(env, i)) else st['old']
            def inv(env, ask):
                i = env['i']; t = tab(env)
                l = lo(env) if callable(lo) else lo; ask('range', i >= l)
                if ask.__name__ == 'use': return
                if 'old' not in st: st['old'] = t.get(); eq('from the first', i, l); return
                if hint: hint(env, t, i - 1)
                ask('entry of the pair', same(t.get(), val(env, i)))
            def havoc(env): i = integer('i', 0, 9, record=False); assume(b_and(i >= (lo(env) if callable(lo) else lo), i <= NP)); st['i'] = i; t = tab(env); t.set(val(env, i)); hint and hint(env, t, i); return dict(i=i)
            m.contract('uvselect_c:%d' % k, inv, havoc)
        def same(x, y): return x is y if isinstance(x, Undef) or isinstance(y, Undef) else x == y
        all_ = lambda env, i: tabx(i)
        X = {}
        def tabx(i): return next(iter(list(nodes.values()) + new)).pairs.x < i
        inv_ = lambda env: 1 - disc
        fill(3, all_, inv_); fill(5, all_, inv_); fill(6, all_, lambda env: disc)
        fill(4, lambda env, i: b_and(a == b, a <= i), lambda env: disc, hint=lambda env, t, i: t.lemma(i + 1, i + 1) if bool(i < MAXANT) else None)
        fill(7, lambda env, i: b_and(a == env['i1'], b < i), lambda env: disc, 1, hint=lambda env, t, i: t.lemma(env['i1'], i) if bool(i <= env['i1']) else None)
        fill(8, lambda env, i: b_and(b == env['i1'], a > b, a < i), lambda env: disc, lambda env: env['i1'] + 1, hint=lambda env, t, i: t.lemma(i, env['i1']) if bool(b_and(i > env['i1'], i <= MAXANT)) else None)
        m.call('uvselect_c', [tno, Ptr(w, 0), p1, p2, inc]); eq('to be set up again', m.field(uv, 'flags'), flags & ~INIT)
        if obj != 'polarization': eq('polarisation not needed more than before', m.field(uv, 'need_pol'), 0)
        head = m.field(uv, 'select')
        if obj == 'clear': prove('nothing selected any more', head.b is None and len(freed) == 1 and freed[0].b is first.b and not new); return
        prove('nothing freed', not freed)
        if obj in ('or', 'and') and bool(N == 0): prove('nothing to join yet', head.b is None and not new and not tests); return
        last = None if bool(N == 0) else clause(N - 1)
        def fresh(c, first_):
            for n in ('amp.select', 'win.select', 'noper', 'maxoper'): eq('a new clause: ' + n, m.field(c.rec, n), 0)
            prove('a new clause has no tests, and is the last', m.field(c.rec, 'opers').b is None and m.field(c.rec, 'fwd').b is None)
        if obj in ('or', 'and'):
            prove('a new clause after the last', len(new) == 1 and head.b is first.b and m.field(last.rec, 'fwd').b is new[0].rec and not tests); c = new[0]; fresh(c, False); eq('nothing by antennas', m.field(c.rec, 'selants'), 0); eq('how it is joined', m.field(c.rec, 'and'), 1 if obj == 'and' else 0); return
        if last is None: prove('a first clause', len(new) == 1 and head.b is new[0].rec); c = new[0]; fresh(c, True); eq('joined to everything', m.field(c.rec, 'and'), 1); had = Num.of(0); was = None
        else: prove('no new clause', not new and head.b is first.b); c = last; prove('still the last', m.field(c.rec, 'fwd').b is None); had = has(N - 1); was = V(N - 1); eq('joined as before', m.field(c.rec, 'and'), func('and', [N - 1], True, 0, 1)); eq('tests as before', m.field(c.rec, 'noper'), func('tests', [N - 1], True, 0, 3))
        if obj in TYPES:
            prove('one test of the last clause', len(tests) == 1 and tests[0][0].b is c.rec and tests[0][5].b is None); _, t, d, lo, hi, _ = tests[0]; eq('its kind', t, TYPES[obj]); eq('discards', d, disc); eq('from', lo, p1); eq('to', hi, p2 if obj == 'time' else p1); eq('antennas as before', m.field(c.rec, 'selants'), had)
            if obj == 'polarization': prove('polarisation is needed', m.field(uv, 'need_pol') != 0)
            return
        # antennas
        prove('no tests', not tests); prove('by antennas', m.field(c.rec, 'selants') != 0); start = (1 - disc) if not bool(had != 0) else was
        if obj == 'auto': match = a == b
        else: hi, lo = (p1, p2) if bool(p1 >= p2) else (p2, p1); match = b_or(hi == 0, b_and(lo == 0, b_or(a == hi, b == hi)), b_and(a == hi, b == lo))
        v = c.pairs.get(); prove('the entry of a pair', isinstance(v, Num) and (v == (disc if bool(match) else start)))
    for ob in ('or', 'and', 'clear', 'time', 'polarization', 'auto', 'antennae 1', 'antennae 2', 'antennae 1, again', 'antennae 2, again', 'one antenna', 'all antennas'):
        @S.fn('uvio.uvselect_c ' + ob, ['_miriad/mir/uvio.c:uvselect_c'], Wl('select'))
        def _(s, ob=ob): select(s, ob)
    def read_select(s, and_, has_time, has_pol):
        m = llvm.Machine(uvio()); N = integer('clauses', 1, 3, ge=1); i1, i2 = integer('i1', 1, 9), integer('i2', 1, 9); a, b = (i1, i2) if bool(i1 >= i2) else (i2, i1); assume(b_and(b >= 1, a <= MAXANT)); bl = integer('baseline'); time, pol = real('time', 2450000, 2450009), integer('pol', -8, 4); assume(b_and(time > 1000, time < 2**31)); needpol = True
        ent = lambda k: func('discarded pair', [k], True, 0, 1, axioms=lambda x: [x.z >= 0, x.z <= 1]); has = lambda k: func('by antennas', [k], True, 0, 1, axioms=lambda x: [x.z >= 0, x.z <= 1]); AND = lambda k: func('and', [k], True, 0, 1, axioms=lambda x: [x.z >= 0, x.z <= 1])
        NT = {q: (lambda k, q=q: func('%s tests' % q, [k], True, 0, 3, axioms=lambda x: [x.z >= 0])) for q in TYPES}; D = lambda k, n: func('test discards', [k, n], True, 0, 1, axioms=lambda x: [x.z >= 0, x.z <= 1]); LO = lambda k, n: func('test from', [k, n]); HI = lambda k, n: func('test to', [k, n])
        SEL = lambda k: func('selected', [k], True, 0, 1, axioms=lambda x: [x.z >= 0, x.z <= 1]) == 1                    # by the clauses before k
        fold = lambda q, k, n: func('%s discards' % q, [k, n], True, 0, 1, axioms=lambda x: [x.z >= 0, x.z <= 1])     # after the first n tests of kind q of clause k
        ntime = NT['time']; npol = NT['polarization']; base = dict(time=lambda k: Num.of(0), polarization=ntime); total = lambda k: ntime(k) + npol(k)
        hit = dict(time=lambda k, n: b_and(LO(k, n) <= time, time <= HI(k, n)), polarization=lambda k, n: LO(k, n) == pol)
        nodes = {}; st = {}
        def clause(k):
            key = Num.of(k).key()
            if key not in nodes: nodes[key] = next((c for c in list(nodes.values()) if bool(c.k == k)), None)
            if nodes[key] is None:
                k = Num.of(k); assume(b_and(ntime(k) < 2**24, npol(k) < 2**24, AND(k) == and_, ntime(k) > 0 if has_time else ntime(k) == 0, npol(k) > 0 if has_pol else npol(k) == 0))     # the case: of every kind of clause
                def op(c, i): n = i[0]; t = bool(n < ntime(k)); return [Num.of(2 if t else 10), D(k, n), LO(k, n), HI(k, n), NULL][c]
                c = nodes[key] = Clause(m, 'clause %s' % (k,), a, b, ent(k), selants=has(k), noper=total(k), maxoper=total(k) + 1, **{'and': AND(k), 'amp.select': Num.of(0), 'win.select': Num.of(0)}); c.k = k
                c.ops = m.array('tests of clause %s' % (k,), [total(k)], OP, op, strided=False); m.setfield(c.rec, 'opers', Ptr(c.ops, 0) if bool(total(k) > 0) else NULL)
                m.setfield(c.rec, 'fwd', At(k + 1))
            return nodes[key]
        class At(Ptr):
            """where clause k is: nowhere (NULL) for k the number of clauses; looked at only by the loop contract"""
            def __init__(self, k): self.k = k
        var = lambda nm, ty, v: m.struct('variable ' + nm, 'VARIABLE', dict(buf=Ptr(m.rec('value of ' + nm, {0: (ty, v)}, 8), 0)))
        win = m.struct('window', 'WINDOW', dict(first=Num.of(0), select=Num.of(0))); amp = m.struct('amp', 'AMP', dict(select=Num.of(0)))
        uv = m.struct('data set', 'UV', dict(select=At(Num.of(0)), bl=Ptr(var('baseline', 'float', bl), 0), time=Ptr(var('time', 'double', time), 0), pol=Ptr(var('pol', 'i32', pol), 0), need_pol=integer('need pol', 1, 1), win=Ptr(win, 0), amp=Ptr(amp, 0), callno=integer('callno'))); assume(m.field(uv, 'need_pol') != 0)
        def basant(m, n, p, q): eq('the baseline of the record', n, bl); m.store(p, 'i32', i1); m.store(q, 'i32', i2)
        def bug(m, *x): prove('no error is raised', False); raise PathEnd()
        m.ext.update(uvbasant_c=basant, bug_c=bug, bugv_c=bug, sprintf=bug); assume(bl >= 0)
        def match(k):
            """what the clause says of the record"""
            r = [b_or(has(k) == 0, ent(k) == 0)]
            for q in TYPES: r.append(b_or(NT[q](k) == 0, fold(q, k, NT[q](k)) == 0))
            return b_and(*r)
        def oinv(env, ask):
            q = env['sel']; k = st.get('k')
            if ask.__name__ == 'use': return
            if k is None: st['k'] = True; ask('everything before the first clause', env['selprev'] != 0); ask('from the first', isinstance(q, At) and q.k == 0); return
            ask('the next clause', isinstance(q, At) and q.k == k + 1); mt = match(k); want = b_and(SEL(k), mt) if bool(AND(k) == 1) else b_or(SEL(k), mt); ask('selected after this clause', iff(env['selprev'] != 0, want))
        def ohavoc(env):
            nodes.clear(); k = integer('clause', 0, 3, ge=0, record=False); assume(k <= N); st['k'] = k; r = dict(selprev=func('selected', [k], True, 0, 1, axioms=lambda x: [x.z >= 0, x.z <= 1])); 
            assume(implies(k == 0, SEL(k)))
            r['sel'] = NULL if bool(k == N) else clause(k).p
            if not bool(k == N): st['kind'] = None
            return r
        m.contract('uvread_select:0', oinv, ohavoc, side=True)
        def inner(key):
            def kind(env, n): return 'time' if bool(n < ntime(st['k'])) else 'polarization'
            def inv(env, ask):
                k = st['k']; n = env['n']; c = clause(k)
                if ask.__name__ == 'use': return
                if (key, 'in') not in st:
                    prove('within the tests', b_and(n >= 0, n < total(k))); q = kind(env, n); st[(key, 'in')] = q; prove('from the first of its kind', n == base[q](k)); assume(fold(q, k, Num.of(0)) == 1 - D(k, n)); ask('undecided: the opposite of the first test', iff(env['discard'] != 0, D(k, n) == 0)); ask('at its test', env['op'].b is c.ops and env['op'].off == 32 * n); return
                q = st[(key, 'in')]; j = n - base[q](k); x = n - 1; assume(LO(k, x) >= 1 if q == 'time' else True); f0 = fold(q, k, j - 1); assume(fold(q, k, j) == (D(k, x) if bool(hit[q](k, x)) else f0)); ask('within its kind', b_and(j >= 0, j <= NT[q](k))); ask('decided by the tests so far', iff(env['discard'] != 0, fold(q, k, j) != 0)); ask('at its test', b_and(env['op'].b is c.ops, env['op'].off == 32 * n))
            def havoc(env):
                k = st['k']; q = st.get((key, 'in'))
                j = integer('test', 0, 3, ge=0, record=False); assume(j <= NT[q](k)); n = base[q](k) + j; 
                return dict(n=n, op=Ptr(clause(k).ops, 32 * n), discard=fold(q, k, j))
            m.contract('uvread_select:%d' % key, inv, havoc)
        for key in range(1, 24): inner(key)
        r = m.call('uvread_select', [Ptr(uv, 0)]); prove('whether the record is passed over', iff(r != 0, b_not(SEL(N))))
    for and_ in (0, 1):
        for ht in (0, 1):
            for hp in (0, 1):
                @S.fn('uvio.uvread_select %s%s%s' % (('or', 'and')[and_], ('', ' time')[ht], ('', ' polarization')[hp]), ['_miriad/mir/uvio.c:uvread_select'], Wl('select'))
                def _(s, and_=and_, ht=ht, hp=hp): read_select(s, and_, ht, hp)
    return uvio
