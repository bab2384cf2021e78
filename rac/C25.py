from arrs import *
from aipy import phs, amp, fit, src as asrc
import ephem
def S(rng, k): return dict(seed=rng.randrange(10**6))
def mksrc(r, m, name, special=False):
    k = dict(mfreq=float(r.uniform(.1, .2)), ionref=tuple(r.normal(size=2) * 1e-3), srcshape=tuple(r.uniform(0, .01, 3)))
    if m is not phs: k.update(jys=float(r.uniform(1, 100)), index=float(r.uniform(-2, 1)))
    if special: return m.RadioSpecial(name, **k)
    return m.RadioFixedBody(float(r.uniform(0, 6.28)), float(r.uniform(-1.5, 1.5)), name=name, **k)
def names_for(r, n):
    pool = ['s%d' % k for k in range(12)] + ['Sun', 'Moon', 'Mars', 'Jupiter', '', 'ra', 'x y']
    return [str(x) for x in r.choice(pool, n, replace=False)]
def build(r, m, n):
    B = [mksrc(r, m, s, s in ('Sun', 'Moon', 'Mars', 'Jupiter')) for s in names_for(r, n)]; how = r.randint(5)
    if how == 0: c = m.SrcCatalog(B)
    elif how == 1: c = m.SrcCatalog(*B)
    elif how == 2:
        c = m.SrcCatalog()
        for b in B: c.add_srcs(b)
    elif how == 3: c = m.SrcCatalog(tuple(B[:1])); c.add_srcs(*B[1:2]); c.add_srcs(B[2:])
    else: c = m.SrcCatalog([]); c.add_srcs(iter(B))
    return B, c
@check(S, 200)
def filing(seed):
    r = R(seed); m = (phs, amp, fit)[r.randint(3)]; B, c = build(r, m, r.randint(0, 7)); N = [b.src_name for b in B]
    if r.randint(2) and B:      # a newer source of the same name replaces the older one
        k = r.randint(len(B))
        if not N[k] in ('Sun', 'Moon', 'Mars', 'Jupiter'): B[k] = mksrc(r, m, N[k]); c.add_srcs(B[k])
    is_(sorted(c.keys()), sorted(N), 'names'); is_(len(c), len(N), 'count')
    for b in B:
        if c[b.src_name] is not b: fail('%r is not the source filed' % b.src_name)
        if c.get_srcs(b.src_name) != [b]: fail('one by name')
    same_list(c.get_srcs(), [c[k] for k in c.keys()], 'all')
    q = [N[i] for i in r.randint(0, len(N), r.randint(0, 6))] if N else []
    same_list(c.get_srcs(q), [c[n] for n in q], 'list'); 
    if len(q): same_list(c.get_srcs(*q), [c[n] for n in q], 'arguments'); same_list(c.get_srcs(tuple(q)), [c[n] for n in q], 'tuple')
    raises(KeyError, lambda: c.get_srcs(['nosuch']), 'unknown name'); raises(KeyError, lambda: c.get_srcs('nosuch'), 'unknown name')
def same_list(a, b, what):
    if not isinstance(a, list) or len(a) != len(b) or any(x is not y for x, y in zip(a, b)): fail('%s: got %r, expected %r' % (what, a, b))
@check(S, 120)
def listing(seed):
    r = R(seed); m = (amp, fit)[r.randint(2)]; B, c = build(r, m, r.randint(1, 7)); f = rfreqs(r, r.randint(1, 4)); loc = rloc(r)
    aa = m.AntennaArray(loc, [m.Antenna(0., 0., 0., m.Beam(f))])
    for rep in range(2):
        jd = rjd(r); aa.set_jultime(jd); c.compute(aa)
        for b in B:
            close(b.map, eqtop(lst_of(loc, jd) - float(b.ra), float(b.dec)), 1e-9, 'projection of ' + b.src_name)
            close(b.get_jys(), b._jys * (f / b.mfreq)**b.index, 1e-9, 'flux of ' + b.src_name)
        N = list(c.keys()); q = [N[i] for i in r.randint(0, len(N), r.randint(1, 6))]
        for names in (None, q, tuple(q)):
            L = [c[n] for n in (N if names is None else names)]
            kw = {} if names is None else dict(srcs=names)
            for sys_ in ('eq', 'top'):
                ang = np.array([[float(b.ra), float(b.dec)] if sys_ == 'eq' else [float(b.az), float(b.alt)] for b in L]).T
                vec = np.array([np.cos(ang[1]) * np.cos(ang[0]), np.cos(ang[1]) * np.sin(ang[0]), np.sin(ang[1])])
                if sys_ == 'top': vec = vec[[1, 0, 2]]
                close(c.get_crds(sys_, ncrd=2, **kw), ang, 1e-9, sys_ + ' angles'); close(c.get_crds(sys_, **kw), vec, 1e-9, sys_ + ' vectors')
            for a in ('mfreq', 'index', '_jys', 'src_name'): is_(list(c.get(a, **kw)), [getattr(b, a) for b in L], a)
            for a in ('ionref', 'srcshape'): close(c.get(a, **kw), np.array([getattr(b, a) for b in L]).T, 1e-12, a)
            close(c.get_jys(**kw), np.array([b._jys * (f / b.mfreq)**b.index for b in L]), 1e-9, 'fluxes')
        g = r.uniform(.1, .2, 3); c.update_jys(g); close(c.get_jys(), np.array([b._jys * (g / b.mfreq)**b.index for b in c.get_srcs()]), 1e-9, 'fluxes at other frequencies')
    raises(AssertionError, lambda: c.get_crds('ga'), 'unknown system'); raises(AssertionError, lambda: c.get_crds('eq', ncrd=4), 'unknown dimension')
@check(S, 4)
def stock(seed):
    r = R(seed); from aipy import _src
    data = _src.misc.src_data; names = [str(x) for x in r.choice(sorted(data), 5, replace=False)]; own = mksrc(r, fit, 'mine')
    c = asrc.get_catalog(names + ['nosuch', own]); is_(sorted(c.keys()), sorted(names + ['mine']), 'requested sources')
    if c['mine'] is not own: fail('own source')
    for n in names:
        ra, dec, jys, mf, ix, shp = data[n]; s = c[n]
        is_((s.src_name, s._jys, s.mfreq, s.index), (n, jys, mf, ix), 'values of ' + n)
        if ra is not None: close([float(s._ra), float(s._dec)], [float(ephem.hours(ra)), float(ephem.degrees(dec))], 1e-9, 'position of ' + n)
    full = asrc.get_catalog(catalogs=['misc']); is_(sorted(full.keys()), sorted(data), 'whole catalogue')
    cut, fq = float(r.uniform(100, 6000)), float(r.uniform(.1, .2)); b = asrc.get_catalog(cutoff=(cut, fq), catalogs=['misc'])
    is_(sorted(b.keys()), sorted(n for n in data if data[n][2] * (fq / data[n][3])**data[n][4] > cut), 'above the cutoff')
