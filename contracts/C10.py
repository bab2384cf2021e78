"""Option strings: antennas, channels, parameters, sources. Any antenna numbers, counts, channel numbers and values; any number
of comma-separated items (one arbitrary item after arbitrary earlier ones); groups of at most three entries."""
import itertools, types, re
from vc.api import *
from vc import npsym, num, loops, pyload, seq
from . import stubs

class Text(seq.Sym):
    """the rest of an option string: the item to be parsed, then possibly others"""
    _symtype = str
    def __init__(self, item, more): self.item, self.more = item, more
    def __symlen__(self): return Num.of(len(self.item)) if not self.more else len(self.item) + 1 + integer('rest', ge=1)
    def __getitem__(self, k):
        if not (isinstance(k, slice) and k.stop is None and k.step is None): raise Unsupported('text')
        if isinstance(k.start, Num): raise Unsupported('position')
        return (self.item + ',\x01' if self.more else self.item)[k.start:]
    def split(self, sep):
        if sep != ',': raise Unsupported('separator')
        self.n = integer('items', ge=1); return seq.SymList(self.n, lambda k: self.item)
def miriad(session):
    m = types.ModuleType('miriad_contract'); m.ij2bl = lambda i, j: func('ij2bl', [i, j], True)
    m.__getattr__ = lambda n: _uns('miriad.' + n); return m
def _uns(n):
    if n.startswith('__'): raise AttributeError(n)
    raise Unsupported(n)
class Body:
    def __init__(self, ra, dec, name=''): self.ra, self.dec, self.src_name = ra, dec, name
def fit(session):
    m = types.ModuleType('fit_contract'); m.RadioFixedBody = Body; m.__getattr__ = lambda n: _uns('fit.' + n); return m
PREV = ('earlier entries',)
def build(root, **kw):
    S = Suite(root, dict(stubs.ALL, miriad=miriad, fit=fit, src=fit, phs=fit), transforms=dict(scripting=loops.transform('parse_ants', 'parse_chans', 'parse_prms', 'parse_srcs')), **kw)
    S.trusted += ['aipy.miriad.ij2bl by its contract (decided by C01)', 're, str.split, int, float of CPython', 'the source bodies by their constructor (C25)']
    S.assumptions += ['an antenna, channel or value numeral is represented by a placeholder numeral whose conversion is an arbitrary number: the code only matches it against digit patterns and converts it', 'bounded: at most three entries in a parenthesised group; numbers of items, antennas and channels are unbounded']
    W = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k))
    FORMS = [('', ''), ('-', ''), ('', 'x'), ('', 'y'), ('-', 'x'), ('-', 'y')]
    def ent(nm, form): v = integer(nm, ge=0); return form[0] + pyload.numeral(v) + form[1], (v, form[0] == '', form[1])
    def group(es, paren): return '(' + ','.join(e[0] for e in es) + ')' if paren else es[0][0]
    def want(A, B):
        o = []
        for (_, (i, pi, fi)), (_, (j, pj, fj)) in itertools.product(A, B):
            pols = [-1] if not fi and not fj else [p + fj for p in 'xy'] if not fi else [fi + p for p in 'xy'] if not fj else [fi + fj]
            o += [(i, j, int(pi and pj), p) for p in pols]
        return o
    def entry(nm, e, w):
        i, j, inc, pol = w; prove(nm + ' is an entry', isinstance(e, tuple) and len(e) == 3); eq(nm + ' baseline', e[0], func('ij2bl', [i, j], True)); prove(nm + ' included or excluded', Num.of(e[1]) == inc); prove(nm + ' polarisation', e[2] == pol)
    def counted(it, nants):
        prove('paired with every antenna', isinstance(it, pyload.SymRange) and bool(Num.of(it.lo) == 0) and bool(Num.of(it.hi) == nants) and it.step == 1); return Num.of(nants)
    def ants(name, items, singles=False):
        """items: functions giving (text, check of the entries appended)"""
        @S.fn(name, ['scripting.parse_ants'], W('ants'))
        def _(s):
            sc = s.load('scripting'); k, hi = 0, len(items)
            while hi - k > 1:
                m = (k + hi) // 2
                if E().choose('item'): hi = m
                else: k = m
            text, chk = items[k](); more = bool(E().choose('more')); T = Text(text, more); nants = integer('nants', ge=0); st = {}
            def havoc(it, env): return dict(rv=[PREV], cnt=0 if E().loopstate['parse_ants:0']['generic'] else T.__symlen__())
            def inv(it, env, ask):
                if ask.__name__ != 'ask': return
                rv, cnt = env['rv'], env['cnt']
                if rv == [] and cnt == 0 and 'entered' not in st: st['entered'] = True; return ask('starts empty at the beginning', True)
                ask('next item', Num.of(cnt) == Num.of(len(text) + (1 if more else 0))); chk(rv, ask, nants)
            loops.contract('parse_ants:0', inv, havoc)
            if singles:
                def havoc2(it, env):
                    st.setdefault('i', str(env['i'])); st['fill'] = it; return dict(rv=env['rv'][:1] + [('first', it)], i=st['i'])
                def inv2(it, env, ask):
                    if ask.__name__ != 'ask':
                        return
                    rv = env['rv']; ask('same antenna', 'i' not in st or str(env['i']) == st['i'])
                    if 'fill' not in st: ask('nothing yet', rv == [PREV]); return
                    ask('so far', len(rv) == 2 + singles_n[0] and rv[0] is PREV and rv[1][0] == 'first'); 
                    for q, w in enumerate(single_want(it - 1)): entry('antenna', rv[2 + q], w)
                singles_n = [0]
                def single_want(j):
                    (i, pi, fi) = chk.ent; pols = [fi + p for p in 'xy'] if fi else [-1]; return [(i, j, int(pi), p) for p in pols]
                singles_n[0] = 2 if chk.ent[2] else 1
                loops.contract('parse_ants:2', inv2, havoc2, count=lambda it, env: counted(it, nants), item=lambda it, r, env: it)
            prove('all entries returned', sc.parse_ants(T, nants) == [PREV])
    def pairs(fa, fb, pa, pb):
        def item():
            A = [ent('a%d' % k, f) for k, f in enumerate(fa)]; B = [ent('b%d' % k, f) for k, f in enumerate(fb)]
            def chk(rv, ask, nants):
                w = want(A, B); ask('one entry for every pair', len(rv) == 1 + len(w) and rv[0] is PREV)
                for k, x in enumerate(w): entry('entry %d' % k, rv[1 + k], x)
            return group(A, pa) + '_' + group(B, pb), chk
        return item
    def word(t, res):
        def item():
            def chk(rv, ask, nants): ask('entries', rv == res)
            return t, chk
        return item
    def single(form, paren):
        def item():
            e = ent('a0', form)
            def chk(rv, ask, nants): ask('all antennas', len(rv) == 2 and rv[0] is PREV and rv[1][0] == 'first' and bool(rv[1][1] == nants))
            chk.ent = e[1]; return group([e], paren), chk
        return item
    ants('scripting.parse_ants.words', [word('all', []), word('auto', [PREV, ('auto', 1, -1)]), word('cross', [PREV, ('auto', 0, -1)])])
    G1 = [(f,) for f in FORMS]; G2 = list(itertools.product(FORMS, FORMS)); G3 = [((FORMS[a], FORMS[b], FORMS[c])) for a, b, c in [(0, 1, 2), (3, 0, 5), (4, 2, 1), (0, 0, 0), (5, 3, 2)]]
    ants('scripting.parse_ants.pairs', [pairs(a, b, pa, pb) for a in G1 for b in G1 for pa, pb in ((0, 0), (1, 0), (0, 1))][:120])
    ants('scripting.parse_ants.groups2', [pairs(a, b, 1, 0) for a in G2 for b in G1[:4]])
    ants('scripting.parse_ants.groups2b', [pairs(b, a, 0, 1) for a in G2 for b in G1[:4]])
    ants('scripting.parse_ants.groups2x2', [pairs(G2[k], G2[(7 * k + q) % 36], 1, 1) for k in range(36) for q in (0, 11, 23)])
    ants('scripting.parse_ants.groups3', [pairs(a, b, 1, 1) for a in G3 for b in G3 + G1[:2]])
    for form in FORMS: ants('scripting.parse_ants.single' + ''.join(form), [single(form, 0)], True)
    @S.fn('scripting.parse_ants.refused', ['scripting.parse_ants'], W('ants'))
    def _(s):
        sc = s.load('scripting')
        for t in ('(0_1)_2', 'foo', '0,bar', '_1'): prove('refused ' + t, raises(ValueError, lambda: sc.parse_ants(t, 4)))
    # ---- channels
    for shape in (1, 2, 3):
        @S.fn('scripting.parse_chans.%d' % shape, ['scripting.parse_chans'], W('chans'))
        def _(s, shape=shape):
            sc = s.load('scripting'); v = [integer('c%d' % k, ge=0) for k in range(shape)]
            if shape == 3: assume(v[2] >= 1)
            T = Text('_'.join(pyload.numeral(x) for x in v), True); nchan = integer('nchan', ge=0); T.startswith = lambda p: False; P = [array('p0', (size('n0', 0),), 'i'), array('p1', (size('n1', 0),), 'i')]; st = {}
            def havoc(it, env): st['on'] = True; return dict(chanopt=list(P))
            def inv(it, env, ask):
                if ask.__name__ != 'ask': return
                c = env['chanopt']
                if 'on' not in st: return ask('starts empty', c == [])
                ask('one more piece', len(c) == 3 and c[0] is P[0] and c[1] is P[1]); a = c[2]; step = v[2] if shape == 3 else Num.of(1)
                if shape == 1: ask('single channel', a.size == 1); eq('channel', a.at(*([0] * a.ndim)), v[0]); return
                if v[1] < v[0]: ask('empty', Num.of(a._shape[0]) == 0); return
                n = Num.of(a._shape[0]); ask('first to last inclusive', b_and(n >= 1, v[0] + (n - 1) * step <= v[1], v[0] + n * step > v[1])); k = index('k', n); eq('channel', a.at(k), v[0] + k * step)
            loops.contract('parse_chans:0', inv, havoc, count=lambda it, env: T.n, item=lambda k, it, env: T.item)
            if E().choose('joined'):
                o = sc.parse_chans(T, nchan); n0, n1 = P[0]._shape[0], P[1]._shape[0]; shape_is('all of them', o, (n0 + n1,)); k = index('k', n0 + n1); eq('in order', o.at(k), P[0].at(k) if k < n0 else P[1].at(k - n0))
            else:
                o = sc.parse_chans(T, nchan, concat=False); prove('pieces', len(o) == 2 and o[0] is P[0] and o[1] is P[1])
    @S.fn('scripting.parse_chans.all', ['scripting.parse_chans'], W('chans'))
    def _(s):
        sc = s.load('scripting'); nchan = integer('nchan', ge=0); o = sc.parse_chans('all', nchan); shape_is('every channel', o, (nchan,)); assume(nchan > 0); k = index('k', nchan); eq('channel', o.at(k), k)
        prove('too many parts', raises(AssertionError, lambda: sc.parse_chans('0_1_2_3', 10)))
    # ---- parameters
    def prms(name, no, np_, ni, ns):
        """ni, ns: None absent, 0 empty, 1 scalar, n group"""
        @S.fn(name, ['scripting.parse_prms'], W('prms'))
        def _(s):
            sc = s.load('scripting'); O = ['ob%d' % k for k in range(no)]; P = ['pr.%d' % k for k in range(np_)]; V = [real('v%d' % k) for k in range(ni or 0)]; G = [real('s%d' % k) for k in range(ns or 0)]
            for x in V + G: assume(x > 0)
            g = lambda l: '(' + '/'.join(l) + ')' if len(l) > 1 else l[0] if l else ''
            t = g(O) + '=' + g(P) + ('/' + g([pyload.numeral(x) for x in V]) if ni is not None else '') + ('/' + g([pyload.numeral(x) for x in G]) if ns is not None else '')
            T = Text(t, True); st = {}; old = {'zz': {'q': (1, 2)}}; second = bool(E().choose('named before'))
            def havoc(it, env):
                d = {'zz': {'q': PREV}}
                if second: d['ob0'] = {'pr.0': PREV, 'kept': PREV}
                return dict(prms=d)
            def inv(it, env, ask):
                if ask.__name__ != 'ask': return
                d = env['prms']
                if 'on' not in st: st['on'] = 1; return ask('starts empty', d == {})
                ask('objects', set(d) == {'zz'} | set(O)); ask('others kept', d['zz'] == {'q': PREV})
                for a, o in enumerate(O):
                    ask('parameters of ' + o, set(d[o]) == set(P) | ({'kept'} if second and a == 0 else set()))
                    for b, p in enumerate(P):
                        vs = []
                        for x, L in ((0, V), (1, G)):
                            e = d[o][p][x]; w = None if not L else L[0] if len(L) == 1 else L[a if no > 1 else b]
                            if w is None: ask('no value', e is None)
                            else: ask('a value', isinstance(e, Num)); eq('value', e, w)
                        ask('value and error', len(d[o][p]) == 2)
            loops.contract('parse_prms:0', inv, havoc, count=lambda it, env: T.n, item=lambda k, it, env: T.item)
            o = sc.parse_prms(T); prove('all returned', set(o) >= {'zz'} and o['zz'] == {'q': PREV})
    for no, np_ in itertools.product((1, 2, 3), (1, 2, 3)):
        grp = no if np_ == 1 else np_ if no == 1 else 1
        for ni in sorted({-1, 0, 1, grp}):
            for ns in sorted({-1, 0, 1, grp}):
                if ni == -1 and ns != -1: continue
                prms('scripting.parse_prms.%d.%d.%d.%d' % (no, np_, ni, ns), no, np_, None if ni < 0 else ni, None if ns < 0 else ns)
    # ---- sources
    @S.fn('scripting.parse_srcs', ['scripting.parse_srcs'], W('srcs'))
    def _(s):
        sc = s.load('scripting'); cats = 'helm,misc,x'; C = ['helm', 'misc', 'x']; prove('all', sc.parse_srcs('all', cats) == (None, None, C))
        f, v = real('f', .1, 5), real('v', .1, 5); assume(f > 0); assume(v > 0); o = sc.parse_srcs(pyload.numeral(f) + '/' + pyload.numeral(v), cats); prove('cutoff', o[0] is None and o[2] == C and len(o[1]) == 2); eq('flux', o[1][0], f); eq('frequency', o[1][1], v)
        items = ['cyg', '12_40', 'bug_man', '12:00_-40:30', '12:00:00.5_+40:00:10.25', 'a_b_c', '12_40_7', '3c_12', '12_', 'vir', '1:x_2', '12']; pos = ['12_40', '12:00_-40:30', '12:00:00.5_+40:00:10.25']
        for a in items:
            for b in items:
                o = sc.parse_srcs(a + ',' + b, 'helm'); prove('lists', len(o[0]) == 2 and o[1] is None and o[2] == ['helm'])
                for x, y in zip(o[0], (a, b)):
                    if y in pos: prove('position', isinstance(x, Body) and x.src_name == y and '%s_%s' % (x.ra, x.dec) == y)
                    else: prove('name', x == y)
    def bad(s):
        sc = s.load('scripting'); i, j = integer('i', ge=0), integer('j', ge=0); o = sc.parse_ants(pyload.numeral(i) + '_-' + pyload.numeral(j), 4); prove('included', o[0][1] == 1)
    S.must_fail('exclusions ignored', bad)
    return S
