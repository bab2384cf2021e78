from arrs import *
from aipy import fit, pol as apol, healpix
import copy
def shuffled(r, d):
    k = list(d); r.shuffle(k); return {x: d[x] for x in k}
def S(rng, k): return dict(seed=rng.randrange(10**6))
def flat(v):
    if hasattr(v, '__len__'): return [x for y in v for x in flat(y)]
    return [v]
def same_prms(a, b, what):
    is_(sorted(a), sorted(b), what + ' names')
    for n in b:
        x, y = flat(a[n]), flat(b[n])
        if x != y: fail('%s %s: got %r, expected %r' % (what, n, a[n], b[n]))
def names_of(get, names, r):
    full = get()
    is_(sorted(full), sorted(names), 'documented names')
    sel = [n for n in names if r.randint(2)]
    sel.insert(r.randint(len(sel) + 1), 'nosuch'); same_prms(get(sel), {n: full[n] for n in sel if n != 'nosuch'}, 'named request'); same_prms(get(['*']), full, 'everything')
    same_prms(get(['nosuch', '*']), full, 'everything')
def trial(get, set_, values, r, expect):
    """expect(old, changed) -> what reading should give afterwards"""
    for rep in range(6):
        old = copy.deepcopy(get()); vals = values()
        ch = {n: v for n, v in vals.items() if r.randint(2)}
        if 'phsoff' in ch: ch.pop('dly', 0); ch.pop('off', 0)
        for p in 'xy':
            if 'phsoff_' + p in ch: ch.pop('dly_' + p, 0); ch.pop('off_' + p, 0)
        arg = shuffled(r, dict(copy.deepcopy(ch), nosuch=3.)); a0 = copy.deepcopy(arg)
        set_(arg); same_prms(arg, a0, 'the dictionary handed in')
        want = expect(old, ch); same_prms(get(), want, 'after setting %s' % sorted(ch))
        set_(get()); same_prms(get(), want, 'after setting back'); set_({}); same_prms(get(), want, 'after setting nothing')
        set_({'nosuch': 1.}); same_prms(get(), want, 'after setting an unknown name')
def plain(old, ch): return dict(old, **ch)
def poff(old, ch, sfx=''):
    d = dict(old, **ch); p, dl, of = 'phsoff' + sfx, 'dly' + sfx, 'off' + sfx
    if p in ch: d[dl], d[of] = ch[p][-2], ch[p][-1]
    else:
        q = list(old[p])
        if dl in ch: q[-2] = ch[dl]
        if of in ch: q[-1] = ch[of]
        d[p] = q
    return d
SRC = ['jys', 'index', 'a1', 'a2', 'th', 'dra', 'ddec']
U = lambda r: float(r.uniform(-1, 1))
@check(S, 100)
def source(seed):
    r = R(seed); aa = fit.AntennaArray((.1, .2), [fit.Antenna(0., 0., 0., fit.Beam(np.array([.1, .15])))]); aa.set_jultime(rjd(r))
    fixed = bool(r.randint(2)); nm = SRC + (['ra', 'dec', 'mfreq'] if fixed else [])
    def mk():
        v = {n: U(r) for n in nm}; v['mfreq'] = float(r.uniform(.1, .2)); k = dict(jys=v['jys'], index=v['index'], mfreq=v['mfreq'], ionref=(v['dra'], v['ddec']), srcshape=(v['a1'], v['a2'], v['th']))
        return (fit.RadioFixedBody(v['ra'], v['dec'], name='s', **k) if fixed else fit.RadioSpecial('Sun', **k)), v
    (b, v), (c, w) = mk(), mk()
    names_of(b.get_params, nm, r)
    for n in nm: close(b.get_params()[n], v[n], 1e-12, 'as built ' + n)
    w0 = c.get_params()
    trial(b.get_params, b.set_params, lambda: {n: U(r) for n in nm if n != 'mfreq'}, r, plain)
    same_prms(c.get_params(), w0, 'another source')
    p = b.get_params(); b.compute(aa); close(b.get_jys(), p['jys'] * (np.array([.1, .15]) / v['mfreq'])**p['index'], 1e-9, 'flux')
    d = [fit.RadioFixedBody(0., 0.), fit.RadioFixedBody(0., 0.)]; d[0].set_params(dict(a1=1., dra=2., jys=3.)); same_prms(d[1].get_params(), fit.RadioFixedBody(0., 0.).get_params(), 'defaults are shared')
@check(S, 60)
def catalogue_source(seed):
    from aipy._src import helm
    r = R(seed); nm = SRC + ['ra', 'dec']; many = bool(r.randint(2))
    val = lambda: dict({n: U(r) for n in nm}, **({'index': [U(r), U(r), U(r)]} if many else {}))
    def mk():
        v = val(); return helm.HelmboldtFixedBody(v['ra'], v['dec'], name='s', jys=v['jys'], index=v['index'], mfreq=.074, ionref=(v['dra'], v['ddec']), srcshape=(v['a1'], v['a2'], v['th'])), v
    (b, v), (c, w) = mk(), mk(); names_of(b.get_params, nm, r)
    for n in nm: close(np.array(b.get_params()[n]), np.array(v[n]), 1e-12, 'as built ' + n)
    w0 = c.get_params(); trial(b.get_params, b.set_params, val, r, plain); same_prms(c.get_params(), w0, 'another source')
def mkbeam(r, kind, f):
    if kind == 0: return fit.Beam(f), {}
    if kind == 1: x, y = float(r.uniform(.1, 1)), float(r.uniform(.1, 1)); return fit.Beam2DGaussian(f, x, y), dict(bm_xwidth=x, bm_ywidth=y)
    P = r.uniform(.3, 1, (r.randint(1, 4), r.randint(1, 3))); return fit.BeamPolynomial(f, P.copy()), dict(bm_poly=P.flatten())
def newbeam(r, v):
    return {n: (r.uniform(.3, 1, np.size(x)) if n == 'bm_poly' else float(r.uniform(.1, 1))) for n, x in v.items()}
@check(S, 120)
def beam(seed):
    r = R(seed); f = rfreqs(r, 3); kind = r.randint(3); b, v = mkbeam(r, kind, f); c, w = mkbeam(r, kind, f)
    names_of(b.get_params, list(v), r); same_prms(b.get_params(), v, 'as built')
    def vals():
        d = newbeam(r, v)
        if 'bm_poly' in d and r.randint(2): d['bm_poly'] = [float(x) for x in d['bm_poly']]
        return d
    trial(b.get_params, b.set_params, vals, r, plain); same_prms(c.get_params(), w, 'another beam')
    if kind: 
        top = unitvecs(r, 4); top[2] = abs(top[2]); p = b.get_params()
        e = beam2d(top, p['bm_xwidth'], p['bm_ywidth'], 3) if kind == 1 else beampoly(top, np.reshape(p['bm_poly'], b.poly.shape), f)
        close(b.response(top), e, 1e-9, 'response')
    if kind == 2:
        P = r.uniform(.3, 1, (2, 2)); P0 = P.copy(); g = fit.BeamPolynomial(f, P); g.set_params(dict(bm_poly=[.5, .1, .2, .3])); same(P, P0, 'the array the beam was built from')
        g, h = fit.BeamPolynomial(f), fit.BeamPolynomial(f); g.set_params(dict(bm_poly=[.9])); same(h.get_params()['bm_poly'], [.5], 'default polynomial shared')
@check(S, 8)
def alm(seed):
    r = R(seed); f = rfreqs(r, 2); lm, deg = 2, int(r.randint(0, 3)); n = healpix.Alm(lm, lm).get_data().size
    co = {c: (r.normal(size=n) + 1j * r.normal(size=n)) for c in range(deg + 1)}
    b = fit.BeamAlm(f, lm, lm, deg, 4, coeffs={c: v.copy() for c, v in co.items()})
    fl = lambda v: np.array([v.real, v.imag]).T.flatten()
    same_prms(b.get_params(), {'alm%d' % c: fl(v) for c, v in co.items()}, 'as built')
    trial(b.get_params, b.set_params, lambda: {'alm%d' % c: r.normal(size=2 * n) for c in co}, r, plain)
    p = b.get_params(); same_prms(b.get_params(['alm0', 'alm77']), {'alm0': p['alm0']}, 'named request')
    g = fit.BeamAlm(f, lm, lm, deg, 4, coeffs={int(k[3:]): np.array(v)[::2] + 1j * np.array(v)[1::2] for k, v in p.items()})
    top = unitvecs(r, 3); close(b.response(top), g.response(top), 1e-9, 'response')
def antvals(r):
    return dict(x=U(r), y=U(r), z=U(r), amp=U(r), dly=U(r), off=U(r), phsoff=[U(r) for _ in range(r.randint(2, 5))], bp_r=[U(r) for _ in range(r.randint(1, 4))], bp_i=[U(r) for _ in range(r.randint(1, 4))])
def mkant(r, b, M=fit):
    v = antvals(r); v['dly'], v['off'] = v['phsoff'][-2:]
    w = [list, np.array, tuple][r.randint(2)]
    return fit.Antenna(v['x'], v['y'], v['z'], b, phsoff=list(v['phsoff']), bp_r=w(v['bp_r']), bp_i=w(v['bp_i']), amp=v['amp']), v
def derived(a, f, what):
    p = a.get_params(); close(a.phsoff, poly(p['phsoff'], f), 1e-9, what + ' phase offset')
    g = p['amp'] * (poly(p['bp_r'], f) + 1j * poly(p['bp_i'], f)); close(a.passband(), g, 1e-9, what + ' passband'); close(a.passband(conj=True), np.conj(g), 1e-9, what + ' passband')
    same(a.pos, [p['x'], p['y'], p['z']], what + ' position')
@check(S, 150)
def antenna(seed):
    r = R(seed); f = rfreqs(r, 3); kind = r.randint(3); b, bv = mkbeam(r, kind, f); a, v = mkant(r, b); names = list(v) + list(bv)
    names_of(a.get_params, names, r); same_prms(a.get_params(), dict(v, **bv), 'as built')
    c, w = mkant(r, mkbeam(r, kind, f)[0]); c0 = copy.deepcopy(c.get_params())
    d, x = mkant(r, b); d0 = copy.deepcopy(d.get_params())
    trial(a.get_params, a.set_params, lambda: dict(antvals(r), **newbeam(r, bv)), r, poff); derived(a, f, 'antenna')
    same_prms(c.get_params(), c0, 'another antenna'); derived(c, f, 'another antenna')
    now = d.get_params()
    for n in v: is_(flat(now[n]), flat(d0[n]), 'antenna sharing the beam ' + n)
    for n in bv: is_(flat(now[n]), flat(a.get_params()[n]), 'shared beam ' + n)
    lst = [1., 2.]; e = fit.Antenna(0., 0., 0., b, phsoff=list(lst)); e.set_params(dict(phsoff=lst)); e.set_params(dict(off=9., dly=8.)); is_(lst, [1., 2.], 'the list handed in')
    p = e.get_params(); e.set_params(dict(off=5.)); is_(p['phsoff'], [8., 9.], 'what was read earlier')
    g, h = fit.Antenna(0., 0., 0., b), fit.Antenna(0., 0., 0., b); g.set_params(dict(off=1., dly=2., amp=3., bp_r=[4.])); is_((h.get_params()['off'], h.get_params()['dly'], h.get_params()['amp'], flat(h.get_params()['bp_r'])), (0., 0., 1, [1]), 'defaults shared')
@check(S, 120)
def polantenna(seed):
    r = R(seed); f = rfreqs(r, 3); b, bv = mkbeam(r, r.randint(2), f)
    def mk():
        V = {p: antvals(r) for p in 'xy'}; X = [U(r) for _ in range(3)]
        for p in 'xy': V[p]['dly'], V[p]['off'] = V[p]['phsoff'][-2:]
        a = apol.Antenna(X[0], X[1], X[2], b, **{k: {p: (list(V[p][k]) if isinstance(V[p][k], list) else V[p][k]) for p in 'xy'} for k in ('phsoff', 'bp_r', 'bp_i', 'amp')})
        v = dict(x=X[0], y=X[1], z=X[2]); v.update({n + '_' + p: V[p][n] for p in 'xy' for n in V[p] if n not in 'xyz'}); return a, v
    a, v = mk(); c, w = mk(); c0 = copy.deepcopy(c.get_params())
    names_of(a.get_params, list(v) + list(bv), r); same_prms(a.get_params(), dict(v, **bv), 'as built')
    def vals():
        d = {n: U(r) for n in 'xyz'}
        for p in 'xy': d.update({n + '_' + p: x for n, x in antvals(r).items() if n not in 'xyz'})
        return d
    def expect(old, ch):
        d = dict(old, **ch)
        for p in 'xy': d.update({k: x for k, x in poff(old, ch, '_' + p).items() if k.endswith('_' + p)})
        return d
    trial(a.get_params, a.set_params, vals, r, expect)
    same_prms({n: c.get_params()[n] for n in v}, {n: c0[n] for n in v}, 'another antenna')
    P = a.get_params()
    for p in 'xy':
        close(a.phsoff[p], poly(P['phsoff_' + p], f), 1e-9, 'phase offset'); close(a.passband(pol=p), P['amp_' + p] * (poly(P['bp_r_' + p], f) + 1j * poly(P['bp_i_' + p], f)), 1e-9, 'passband')
@check(S, 60)
def catalogue(seed):
    r = R(seed); n = r.randint(1, 5); cat = fit.SrcCatalog([fit.RadioFixedBody(U(r), U(r), name='s%d' % k, jys=U(r)) for k in range(n)])
    for rep in range(4):
        old = cat.get_params(); is_(sorted(old), ['s%d' % k for k in range(n)], 'sources')
        D = {'s%d' % k: {q: U(r) for q in SRC + ['ra', 'dec'] if r.randint(2)} for k in range(n) if r.randint(2)}; cat.set_params(shuffled(r, dict(D, nosuch=dict(jys=1.))))
        new = cat.get_params()
        is_(sorted(new), sorted(old), 'sources after setting')
        for s in old: same_prms(new[s], dict(old[s], **D.get(s, {})), 'source ' + s)
        cat.set_params(new)
        for s in new: same_prms(cat.get_params()[s], new[s], 'set back ' + s)
    q = cat.get_params(shuffled(r, {'s0': ['x', 'ra', 'jys', 'x'], 'nosuch': ['ra']})); is_(sorted(q), ['s0'], 'named sources'); same_prms(q['s0'], {k: new['s0'][k] for k in ('ra', 'jys')}, 'named')
    q = cat.get_params({'*': 'dec'}); is_({s: list(q[s]) for s in q}, {'s%d' % k: ['dec'] for k in range(n)}, 'one name for all')
@check(S, 80)
def array(seed):
    r = R(seed); f = rfreqs(r, 3); n = r.randint(1, 5); A = [mkant(r, fit.Beam(f)) for _ in range(n)]; aa = fit.AntennaArray((.1, .2), [a for a, _ in A])
    for rep in range(4):
        old = copy.deepcopy(aa.get_params()); is_(sorted(old), sorted(str(k) for k in range(n)), 'antennas')
        D = {}
        for k in range(n):
            if r.randint(2):
                d = {q: v for q, v in antvals(r).items() if r.randint(2)}
                if 'phsoff' in d: d.pop('dly', 0); d.pop('off', 0)
                D[str(k)] = d
        aa.set_params(shuffled(r, dict(copy.deepcopy(D), **{'99': dict(x=1.)}))); new = aa.get_params(); is_(sorted(new), sorted(old), 'antennas after setting')
        for s in old: same_prms(new[s], poff(old[s], D.get(s, {})), 'antenna ' + s); derived(aa[int(s)], f, 'antenna ' + s)
        aa.set_params(aa.get_params())
        for s in old: same_prms(aa.get_params()[s], new[s], 'set back ' + s)
        for i in range(n): close(aa.get_phs_offset(0, i), poly(new[str(i)]['phsoff'], f) - poly(new['0']['phsoff'], f), 1e-9, 'array phase offset')
    q = aa.get_params({'0': ['nosuch', 'x'], }); is_({k: list(v) for k, v in q.items()}, {'0': ['x']}, 'named antenna')
    q = aa.get_params({'*': ['off', 'z']}); is_({k: sorted(v) for k, v in q.items()}, {str(k): ['off', 'z'] for k in range(n)}, 'some of all')
