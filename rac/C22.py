"""Records written to a new data set are read back as written (built code, scratch files)."""
from uvs import *
@check(gen=seeds, n=220, corners=[dict(seed=k) for k in range(20)])
def roundtrip(seed):
    r = rs(seed); mode = 'rrj'[r.randint(3)]; ks, recs = records(r); fn = write(r, ks, recs, mode); cur = track(recs); u = miriad.UV(fn)
    for rep in range(int(r.randint(1, 4))):
        raw = r.rand() < .4; stop = len(recs) if rep == 0 or r.rand() < .5 else int(r.randint(0, len(recs) + 1))
        for k in range(stop): compare(u, u.read(raw=raw), recs[k], cur[k], ks, mode, 'record %d' % k, raw, rep == 0)
        if stop == len(recs):
            for _ in range(2): raises(IOError, lambda: u.read(raw=raw), 'reading past the last record')
        u.rewind()
    n = 0
    for k, x in enumerate(u.all()): compare(u, x, recs[k], cur[k], ks, mode, 'all(): record %d' % k, first=False); n += 1
    is_(n, len(recs), 'number of records')
@check(gen=seeds, n=40)
def two(seed):
    """two data sets written and read in turns, and one that failed"""
    r = rs(seed); S = [records(r, late=False) for _ in 'ab']; f = []
    for ks, recs in S: f.append(write(r, ks, recs))
    us = [miriad.UV(x) for x in f]; n = [0, 0]; raises(RuntimeError, lambda: miriad.UV(tempname('none')), 'opening a missing data set')
    while any(n[k] < len(S[k][1]) for k in (0, 1)):
        k = int(r.randint(2))
        if n[k] >= len(S[k][1]): raises(IOError, lambda: us[k].read(), 'reading past the last record'); continue
        compare(us[k], us[k].read(), S[k][1][n[k]], track(S[k][1])[n[k]], S[k][0], 'r', 'set %d record %d' % (k, n[k])); n[k] += 1
        if r.rand() < .1: raises(RuntimeError, lambda: us[k]._rdvr('nosuch', 'd'), 'a variable that does not exist')
@check(gen=seeds, n=20)
def append(seed):
    """records appended later follow those already there"""
    r = rs(seed); ks, a = records(r, late=False); fn = write(r, ks, a); _, b = records(r, vars=ks); uv = miriad.UV(fn, status='append')
    for k in ks: uv.add_var(k, VARS[k])
    for x in b:
        for k in x[5]: uv[k] = x[5][k]
        uv.write((x[0], x[1], x[2]), np.ma.array(x[3], mask=x[4]))
    del uv; u = miriad.UV(fn); recs = a + b; cur = track(recs)
    for k, x in enumerate(recs): compare(u, u.read(), x, cur[k], ks, 'r', 'record %d of %d+%d' % (k, len(a), len(b)))
    raises(IOError, lambda: u.read(), 'reading past the last record')
