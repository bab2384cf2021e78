from arrs import *
from aipy import amp, fit, pol as apol, miriad
TABLE = {'I': 1, 'Q': 2, 'U': 3, 'V': 4, 'rr': -1, 'll': -2, 'rl': -3, 'lr': -4, 'xx': -5, 'yy': -6, 'xy': -7, 'yx': -8}
LIN = ('xx', 'yy', 'xy', 'yx')
def S(rng, k): return dict(seed=rng.randrange(10**6))
def refused(exc, f, what):
    try: f()
    except exc: return
    fail(what + ' was not refused')
@check(lambda rng, k: {}, 1)
def table():
    is_(dict(miriad.str2pol), TABLE, 'names'); is_(dict(miriad.pol2str), {v: k for k, v in TABLE.items()}, 'codes')
@check(S, 3)
def uvpol(seed):
    import os
    r = R(seed); names = list(TABLE); r.shuffle(names); fn = tempname('p.uv')
    uv = apol.UV(fn, status='new'); uv.add_var('pol', 'i'); uv['history'] = 'x'
    uv.add_var('nchan', 'i'); uv['nchan'] = 4
    for k, p in enumerate(names):
        uv.write_pol(str(p)); uv.write((np.zeros(3), 2455000. + k * 1e-4, (0, 1)), np.ma.array(np.ones(4, complex), mask=np.zeros(4, int)))
    del uv
    uv = apol.UV(fn); got = []
    for pre, d in uv.all(): got.append((uv.read_pol(), uv['pol']))
    is_(got, [(p, TABLE[p]) for p in names], 'polarisations in the file')
@check(lambda rng, k: dict(seed=rng.randrange(10**6), n=[0, 0, 1, 5][k % 4]), 200)
def parang(seed, n):
    r = R(seed); lat = r.uniform(-1.5, 1.5); H, d = (r.uniform(-np.pi, np.pi), r.uniform(-1.5, 1.5)) if n == 0 else (r.uniform(-np.pi, np.pi, n), r.uniform(-1.5, 1.5, n))
    q = np.atleast_1d(apol.ParAng(H, d, lat))
    if np.shape(apol.ParAng(H, d, lat)) != np.shape(H): fail('shape')
    for h, e, a in zip(np.atleast_1d(H), np.atleast_1d(d), q):
        M = eqtop(h, e) # rows: east, north, source; columns equatorial frame of the meridian
        Z = np.array([np.cos(lat), 0, np.sin(lat)]); e_, n_ = M[0].dot(Z), M[1].dot(Z)
        if np.hypot(e_, n_) < 1e-6: continue
        close([np.cos(a), np.sin(a)], [n_ / np.hypot(e_, n_), e_ / np.hypot(e_, n_)], 1e-7, 'position angle of the zenith at %r' % ((h, e, lat),))
def mkarr(r, nf, n=3, mod='pol'):
    f = rfreqs(r, nf); P = []; A = []
    for k in range(n):
        bm = (fit if mod == 'pol' else amp).Beam2DGaussian(f, r.uniform(.3, 1), r.uniform(.3, 1)); pt = (r.uniform(-1, 1), r.uniform(1, 1.6), r.uniform(-1, 1))
        p = {t: dict(phs=list(r.normal(size=r.randint(2, 4))), bp_r=list(r.normal(size=r.randint(1, 4))), bp_i=list(r.normal(size=r.randint(1, 4))), amp=r.normal()) for t in 'xy'}
        x = rpos(r, 1)[0]
        if mod == 'amp': A.append(amp.Antenna(x[0], x[1], x[2], bm, pointing=pt)); P.append(dict(bm=bm, pt=pt)); continue
        A.append(apol.Antenna(x[0], x[1], x[2], bm, phsoff={t: list(p[t]['phs']) for t in 'xy'}, bp_r={t: list(p[t]['bp_r']) for t in 'xy'}, bp_i={t: list(p[t]['bp_i']) for t in 'xy'}, amp={t: p[t]['amp'] for t in 'xy'}, pointing=pt))
        p['bm'], p['pt'] = bm, pt; P.append(p)
    return f, P, getattr(apol if mod == 'pol' else amp, 'AntennaArray')(rloc(r), A)
def gain(p, f): return p['amp'] * (poly(p['bp_r'], f) + 1j * poly(p['bp_i'], f))
def verify(aa, P, f, what):
    n = len(P)
    for pol in LIN:
        aa.set_active_pol(pol); is_(aa.get_active_pol(), pol, 'active')
        for i in range(n):
            for j in range(n):
                A, B = P[i][pol[0]], P[j][pol[1]]
                close(aa.get_phs_offset(i, j), poly(B['phs'], f) - poly(A['phs'], f), 1e-9, what + ' phase offset %s %d %d' % (pol, i, j))
                close(aa.passband(i, j), gain(B, f) * np.conj(gain(A, f)), 1e-9, what + ' passband %s %d %d' % (pol, i, j))
    for pol in 'IQUV':
        aa.set_active_pol(pol)
        for i in range(n):
            for j in range(n):
                D = lambda a, b: poly(P[j][b]['phs'], f) - poly(P[i][a]['phs'], f)
                close(aa.get_phs_offset(i, j), dict(I=lambda: D('x', 'x') + D('y', 'y'), Q=lambda: D('y', 'y') - D('x', 'x'), U=lambda: D('x', 'y') + D('y', 'x'), V=lambda: D('x', 'y') - D('y', 'x'))[pol](), 1e-9, what + ' phase offset %s %d %d' % (pol, i, j))
    aa.set_active_pol('yx')
@check(S, 80)
def feeds(seed):
    r = R(seed); f, P, aa = mkarr(r, r.randint(1, 4))
    for call in (aa.get_active_pol, lambda: aa.get_phs_offset(0, 1), lambda: aa.passband(0, 1)): refused(RuntimeError, call, 'before a polarisation is chosen')
    verify(aa, P, f, 'built')
    for bad in ('rr', 'x', '', 'xz', 'YY', 'xyx', 'IQ'): refused(AssertionError, lambda: aa.set_active_pol(bad), bad)
    is_(aa.get_active_pol(), 'yx', 'after refusals')
    for rep in range(4):
        k, t = r.randint(len(P)), 'xy'[r.randint(2)]; d = {}
        p = P[k][t]
        if r.randint(2): p['amp'] = r.normal(); d['amp_' + t] = p['amp']
        if r.randint(2): p['bp_r'] = list(r.normal(size=2)); d['bp_r_' + t] = list(p['bp_r'])
        if r.randint(2): p['bp_i'] = list(r.normal(size=3)); d['bp_i_' + t] = list(p['bp_i'])
        c = r.randint(3)
        if c == 0: p['phs'] = list(r.normal(size=3)); d['phsoff_' + t] = list(p['phs'])
        elif c == 1: p['phs'][-2] = r.normal(); d['dly_' + t] = p['phs'][-2]
        else: p['phs'][-1] = r.normal(); d['off_' + t] = p['phs'][-1]
        if r.randint(2): aa.set_params({str(k): d})
        else: aa[k].set_params(d)
        verify(aa, P, f, 'changed')
    b = amp.AntennaArray((.1, .2), [amp.Antenna(0, 0, 0, amp.Beam(f))]); refused(RuntimeError, b.get_active_pol, 'unset')
    for bad in ('I', 'Q', 'U', 'V', 'rr', 'll', 'x', '', 'xz'): refused(AssertionError, lambda: b.set_active_pol(bad), bad)
    for p in LIN: b.set_active_pol(p); is_(b.get_active_pol(), p, 'active')
@check(S, 60)
def beams(seed):
    r = R(seed)
    for mod in ('amp', 'pol'):
        nf = r.randint(1, 4); f, P, aa = mkarr(r, nf, 3, mod); aa.set_jultime(rjd(r)); eqs = unitvecs(r, 6); aa.sim_cache(eqs.copy(), np.ones((6, nf)))
        top = np.asarray(aa.eq2top_m).dot(eqs); top = top[:, top[2] > 0]
        if not top.shape[1]: continue
        order = [(pol, i, j) for pol in LIN for i in range(3) for j in range(3)]; r.shuffle(order)
        def resp(a, p):
            M = pointing_matrix(*P[a]['pt'])
            if p == 'y': M = rotz(-np.pi / 2).dot(M)
            return beam2d(M.dot(top), P[a]['bm'].xwidth, P[a]['bm'].ywidth, nf).T
        for pol, i, j in order:
            i, j = int(i), int(j); aa.set_active_pol(str(pol)); close(aa.bm_response(i, j), resp(j, pol[1]) * np.conj(resp(i, pol[0])), 1e-9, 'beam %s %d %d' % (pol, i, j))
    refused(AssertionError, lambda: apol.Antenna(0, 0, 0, amp.Beam(f), phsoff={'x': [0., 0]}, bp_r={'x': [1.]}, bp_i={'x': [0.]}, amp={'x': 1.}).bm_response(np.array([[0.], [0], [1]]), pol='z'), 'feed z')
