from lib import *
import itertools
from aipy import scripting, miriad
def gen(rng, k): return dict(seed=rng.randrange(10**6))
def bl(i, j): i, j = i + 1, j + 1; return int(256 * i + j) if max(i, j) <= 255 else int(2**16 + 2048 * i + j)
def ent(r, nm): s, f = r.choice(['', '', '-']), r.choice(['', '', 'x', 'y']); a = int(r.choice([r.randint(5), r.randint(250)])); return '%s%d%s' % (s, a, f), (a, s == '', str(f))
def group(r):
    n = int(r.choice([1, 1, 2, 3, 4])); es = [ent(r, 0) for _ in range(n)]; p = n > 1 or r.randint(4) == 0
    return ('(' + ','.join(e[0] for e in es) + ')' if p else es[0][0]), [e[1] for e in es]
def cross(A, B):
    o = []
    for (i, pi, fi), (j, pj, fj) in itertools.product(A, B):
        for p in ([-1] if not fi and not fj else ['x' + fj, 'y' + fj] if not fi else [fi + 'x', fi + 'y'] if not fj else [fi + fj]): o.append((bl(min(i, j), max(i, j)) if 0 else miriad.ij2bl(i, j), int(pi and pj), p))
    return o
@check(gen=gen, n=500, corners=[dict(seed=1)])
def ants(seed=1):
    r = rs(seed); nants = int(r.randint(0, 12)); want, t = [], []
    for _ in range(int(r.randint(1, 5))):
        k = r.randint(8)
        if k == 0: t.append('all'); want = []
        elif k == 1: t.append('auto'); want.append(('auto', 1, -1))
        elif k == 2: t.append('cross'); want.append(('auto', 0, -1))
        elif k == 3: s, e = ent(r, 0); t.append(s); want += cross([e], [(j, True, '') for j in range(nants)])
        else: (s, A), (u, B) = group(r), group(r); t.append(s + '_' + u); want += cross(A, B)
    t = ','.join(t); got = scripting.parse_ants(t, nants); is_([tuple(int(x) if not isinstance(x, str) else x for x in e) for e in got], want, t)
@check(gen=gen, n=20, corners=[dict(seed=1)])
def refused(seed=1):
    r = rs(seed)
    for t in ('(0_1)_2', 'foo', '0_1,bar', '_3', '%d_%d,zz' % tuple(r.randint(9, size=2))): raises(ValueError, lambda: scripting.parse_ants(t, 5), t)
    raises(AssertionError, lambda: scripting.parse_chans('0_1_2_3', 9), 'four parts')
@check(gen=gen, n=300, corners=[dict(seed=1)])
def chans(seed=1):
    r = rs(seed); n = int(r.randint(1, 300))
    if r.randint(8) == 0: same(scripting.parse_chans('all', n), np.arange(n), 'all'); return
    t, want = [], []
    for _ in range(int(r.randint(1, 6))):
        a, b, c = int(r.randint(0, 200)), int(r.randint(0, 60)), int(r.randint(1, 9)); k = r.randint(3)
        if k == 0: t.append('%d' % a); want.append([a])
        elif k == 1: t.append('%d_%d' % (a, a + b)); want.append(list(range(a, a + b + 1)))
        else: t.append('%d_%d_%d' % (a, a + b, c)); want.append(list(range(a, a + b + 1, c)))
    t = ','.join(t); o = scripting.parse_chans(t, n, concat=False); is_(len(o), len(want), 'pieces')
    for x, y in zip(o, want): same(np.ravel(x), y, t)
    try: o = scripting.parse_chans(t, n)
    except ValueError as e:
        if any(len(y) == 1 and '_' not in x for x, y in zip(t.split(','), want)) : fail('%s: %s' % (t, e))
        raise
    same(o, sum(want, []), t)
NAMES = ['aa', 'cyg', '12', '3c273', '0', 'x-1', 'crab', 'a.b', 'pol:x']
def num_(r): v = r.choice([r.uniform(-5, 5), r.uniform(-1, 1) * 1e-6, 3., 0., 1e8]); return repr(float(v)), float(v)
@check(gen=gen, n=400, corners=[dict(seed=1)])
def prms(seed=1):
    r = rs(seed); t, want = [], {}
    for _ in range(int(r.randint(1, 5))):
        no, npr = [(1, 1), (1, 1), (1, int(r.randint(2, 5))), (int(r.randint(2, 5)), 1), (int(r.randint(2, 4)), int(r.randint(2, 4)))][r.randint(5)]
        O = [NAMES[k] for k in r.permutation(len(NAMES))[:no]]; P = ['p%d' % k for k in r.permutation(6)[:npr]]; m = max(no, npr) if min(no, npr) == 1 else 1; g = lambda l: '(' + '/'.join(l) + ')' if len(l) > 1 or (l and r.randint(5) == 0) else ''.join(l)
        nv = [None, 0, 1, m][r.randint(4)]; ns = None if nv is None else [None, 0, 1, m][r.randint(4)]; V = [num_(r) for _ in range(nv or 0)]; G = [num_(r) for _ in range(ns or 0)]
        t.append(g(O) + '=' + g(P) + ('' if nv is None else '/' + g([v[0] for v in V])) + ('' if ns is None else '/' + g([v[0] for v in G])))
        pick = lambda L, a, b: None if not L else L[0][1] if len(L) == 1 else L[a if no > 1 else b][1]
        for a, o in enumerate(O):
            for b, p in enumerate(P): want.setdefault(o, {})[p] = (pick(V, a, b), pick(G, a, b))
    is_(scripting.parse_prms(','.join(t)), want, ','.join(t))
@check(gen=gen, n=200, corners=[dict(seed=1)])
def srcs(seed=1):
    r = rs(seed); cats = ['helm', 'misc', 'zz'][:int(r.randint(1, 4))]; c = ','.join(cats); k = r.randint(6)
    if k == 0: is_(scripting.parse_srcs('all', c), (None, None, cats), 'all'); return
    if k == 1: a, b = num_(r), num_(r); is_(scripting.parse_srcs(a[0] + '/' + b[0], c), (None, [a[1], b[1]], cats), 'cutoff'); return
    items = []
    for _ in range(int(r.randint(1, 5))):
        if r.randint(2): items.append((str(r.choice(['cyg', 'bug_man', 'a_b_c', '12_40_1', 'x_12', '12_', '3c_273', 'vir', '7'])), False))
        else:
            h, m, s, d = r.randint(24), r.randint(60), r.uniform(0, 59), r.randint(-80, 80); items.append((['%d_%d' % (h, d), '%d:%02d_%d:%02d' % (h, m, d, m), '%d:%02d:%04.1f_%d:%02d:%04.1f' % (h, m, s, d, m, s), '%.2f_%.2f' % (h, d)][r.randint(4)], True))
    o = scripting.parse_srcs(','.join(x[0] for x in items), c); is_(o[1:], (None, cats), 'cutoff and catalogs'); is_(len(o[0]), len(items), 'sources')
    for x, (nm, pos) in zip(o[0], items):
        if not pos: is_(x, nm, 'name'); continue
        is_(x.src_name, nm, 'position name'); ra, dec = nm.split('_'); f = lambda s: (lambda q: (-1 if s.startswith('-') else 1) * sum(abs(float(v)) / 60.**k for k, v in enumerate(q)))(s.split(':')); close(float(x._ra), f(ra) * np.pi / 12, 1e-6, 'right ascension'); close(float(x._dec), f(dec) * np.pi / 180, 1e-6, 'declination')
