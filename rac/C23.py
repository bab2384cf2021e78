"""Selections against an independent filter, and read_files dictionaries (built code, scratch files)."""
from uvs import *
from aipy import scripting
def clause(kinds, x, pol):
    """kinds: list of (kind, args, include) in order; a kind whose first entry excludes starts from everything"""
    ok = True
    for kind in ('ants', 'time', 'pol'):
        es = [(a, inc) for k, a, inc in kinds if {'antennae': 'ants', 'auto': 'ants', 'time': 'time', 'polarization': 'pol'}[k] == kind]
        if not es: continue
        hit = not es[0][1]
        for a, inc in es:
            if kind == 'ants': m = x[2][0] == x[2][1] if a is None else all(q == -1 for q in a) or (sorted(a) == sorted(x[2]) if -1 not in a else [q for q in a if q != -1][0] in x[2])
            elif kind == 'time': m = a[0] <= x[1] <= a[1]
            else: m = pol == a
            if m: hit = inc
        ok = ok and hit
    return ok
def selected(cl, recs, pols):
    out = []
    for k, x in enumerate(recs):
        s = True
        for n, (op, kinds) in enumerate(cl):
            c = clause(kinds, x, pols[k]); s = c if n == 0 else (s and c) if op == 'and' else (s or c)
        if s: out.append(k)
    return out
def decim(idx, recs, N, ph):
    out = []; n = -1; last = None
    for k in idx:
        if last is None or recs[k][1] != last: n += 1; last = recs[k][1]
        if n % N == ph % N: out.append(k)
    return out
def world(r, order=True):
    pairs = [(int(i), int(j)) for i in range(4) for j in range(4) if i <= j or r.rand() < .3] if r.rand() < .7 else PAIRS
    nt = int(r.randint(1, 7)); t = float(r.choice([2455000.5, 2455123.25])); times = []; tt = []
    for _ in range(nt): times += [t] * int(r.randint(1, 6)); tt.append(t); t += float(r.choice([1e-3, .5, 2.]))
    ks, recs = records(r, len(times), late=False, pairs=pairs, times=times, vars=['pol', 'lst', 'ra']); return ks, recs, pairs, tt, [c['pol'] for c in track(recs)]
@check(gen=seeds, n=250, corners=[dict(seed=k) for k in range(20)])
def select(seed):
    """any combination of clauses, then reading everything, twice"""
    r = rs(seed); ks, recs, pairs, tt, pols = world(r); fn = write(r, ks, recs); u = miriad.UV(fn); cl = []
    for n in range(int(r.choice([0, 1, 1, 2, 3]))):
        op = ['and', 'or'][r.randint(2)]; kinds = []
        for _ in range(int(r.randint(1, 4))):
            k = ['antennae', 'auto', 'time', 'polarization'][r.randint(4)]; inc = bool(r.rand() < .7)
            if k == 'antennae': p = pairs[r.randint(len(pairs))]; a = [(p[0], p[1]), (p[1], p[0]), (p[0], -1), (-1, p[1]), (-1, -1), (7, 9)][r.randint(6)]
            elif k == 'auto': a = None
            elif k == 'time': lo = float(r.choice(tt)); hi = float(r.choice(tt)) ; a = (min(lo, hi) - float(r.choice([0, 1e-4, 1])), max(lo, hi) + float(r.choice([1e-4, .7]))) if lo == hi else (min(lo, hi), max(lo, hi))
            else: a = int(r.choice(pols + [-5, 1]))
            kinds.append((k, a, inc))
        cl.append((op, kinds))
    steps = [(n, op, kd) for n, (op, kd) in enumerate(cl)]
    for n, op, kd in steps:
        if n or r.rand() < .2: u.select(op, 0, 0)
        for k, a, inc in kd:
            if k == 'auto': u.select('auto', 0, 0, include=inc)
            elif k == 'polarization': u.select(k, a, 0, include=inc)
            else: u.select(k, a[0], a[1], include=inc)
    idx = selected(cl, recs, pols) if cl else list(range(len(recs))); N = int(r.choice([1, 1, 2, 3, 5])); ph = int(r.randint(0, N + 1))
    if N > 1: u.select('decimate', N, ph); idx = decim(idx, recs, N, ph)
    cur = track(recs)
    for rep in range(2):
        if rep: u.rewind()
        got = list(); n = 0
        for x in u.all():
            if n >= len(idx): fail('record %r was not selected' % (x[0],))
            compare(u, x, recs[idx[n]], cur[idx[n]], ks, 'r', 'selected record %d (%d of the file)' % (n, idx[n]), first=False); n += 1
        is_(n, len(idx), 'number of selected records')
    if r.rand() < .3:
        u.select('clear', 0, 0)
        if N > 1: u.select('decimate', 1, 0)
        u.rewind(); is_(len(list(u.all())), len(recs), 'records after clear')
POL = {v: k for k, v in miriad.str2pol.items()}
@check(gen=seeds, n=120, corners=[dict(seed=k) for k in range(12)])
def files(seed):
    """read_files: every selected record once, under its pair and polarisation, in time order; one time per integration"""
    r = rs(seed); nf = int(r.randint(1, 4)); nch = int(r.choice([1, 4, 32])); t = 2455000.25; fns = []; all_ = []; pairs = [(i, j) for i in range(4) for j in range(i, 4)]; PS = [-5, -6, -7, -8] if r.rand() < .7 else [1, 2, -1]
    for _ in range(nf):
        times = []
        for _ in range(r.randint(1, 5)): times += [t] * int(r.randint(1, 9)); t += float(r.choice([.01, 1., 1e-5, 2**-27]))
        ks, recs = records(r, len(times), late=False, same_nchan=True, pairs=pairs, times=times, vars=['pol', 'lst', 'sdf', 'sfreq', 'nants', 'inttime'])
        recs = [(x[0], x[1], x[2], np.resize(x[3], nch), np.resize(x[4], nch), x[5]) for x in recs]; recs[0][5].update(sdf=.001, sfreq=.1, nants=4, inttime=10.); P = None; L = {}
        for x in recs:
            for k in ('sdf', 'sfreq', 'nants', 'inttime'):
                if x is not recs[0]: x[5].pop(k, None)
            x[5]['pol'] = int(r.choice(PS)); x[5]['lst'] = L.setdefault(x[1], float(r.randn()))
        fns.append(write(r, ks, recs)); all_.append(recs)
    q = [POL[p] for p in set(PS)]; ps = ','.join(r.permutation(q)[:r.randint(1, len(q) + 1)]) if r.rand() < .8 else -1
    ant, f = [('all', lambda i, j: True), ('auto', lambda i, j: i == j), ('cross', lambda i, j: i != j), ('1', lambda i, j: 1 in (i, j)), ('0_1,2_3', lambda i, j: (i, j) in ((0, 1), (2, 3))), ('2_0', lambda i, j: (i, j) == (0, 2)), ('0,2', lambda i, j: 0 in (i, j) or 2 in (i, j)), ('(0,1)_(2,3)', lambda i, j: (i, j) in ((0, 2), (0, 3), (1, 2), (1, 3)))][r.randint(8)]
    if r.rand() < .1: ant, f = -1, (lambda i, j: True)
    N = int(r.choice([1, 1, 2, 3])); ph = int(r.randint(0, N)); asarr = bool(r.rand() < .8); exp = {}; times = []; lsts = []
    for recs in all_:
        idx = [k for k, x in enumerate(recs) if f(*x[2]) and (ps == -1 or POL[x[5]['pol']] in ps.split(','))]
        if N > 1: idx = decim(idx, recs, N, ph)
        for k in idx:
            x = recs[k]
            if not times or times[-1] != x[1]: times.append(x[1]); lsts.append(x[5]['lst'])
            e = exp.setdefault((x[2][0], x[2][1], POL[x[5]['pol']]), ([], [])); e[0].append(x[3]); e[1].append(x[4])
    info, d, fl = miriad.read_files(fns if nf > 1 or r.rand() < .5 else fns[0], ant, ps, decimate=N, decphs=ph, recast_as_array=asarr)
    is_(set(d), set(exp), 'keys'); is_(set(fl), set(exp), 'keys of the flags'); same(info['times'], times, 'times'); same(info['lsts'], lsts, 'lsts')
    for k in exp:
        is_(len(d[k]), len(exp[k][0]), 'records of %r' % (k,)); same(np.asarray(d[k]), np.array(exp[k][0]), 'data of %r' % (k,)); same(np.asarray(fl[k]), np.array(exp[k][1]), 'flags of %r' % (k,))
        if asarr: is_((type(d[k]), d[k].shape), (np.ndarray, (len(exp[k][0]), nch)), 'array of %r' % (k,))
    close(info['freqs'], .1 + .001 * np.arange(nch), 1e-12, 'freqs'); is_((info['sdf'], info['inttime']), (.001, 10.), 'sdf, inttime')
@check(gen=seeds, n=40)
def baselines(seed):
    """bl2ij and ij2bl are inverse, and what UV stores is the same code"""
    r = rs(seed)
    for _ in range(50):
        i, j = [int(x) for x in (r.randint(0, 255, 2) if r.rand() < .5 else r.randint(0, 2047, 2))]; i, j = min(i, j), max(i, j); is_(miriad.bl2ij(miriad.ij2bl(i, j)), (i, j), 'bl2ij(ij2bl)'); is_(miriad.ij2bl(j, i), miriad.ij2bl(i, j), 'ij2bl sorts')
