"""Derived array state. Every state-changing operation (Beam/Antenna/AntennaArray select_chans and update, set_jultime, set_ephemtime) is started from an
arbitrary state - all derived attributes replaced by arbitrary values, parameters changed at will - and must leave the derived attributes it is responsible
for equal to their definition from parameters, channels and time, and the others untouched. Any sequence of operations follows by induction."""
from vc.api import *
from vc import npsym, loops, seq
from . import stubs
from .arr import *

def build(root, **kw):
    T = dict(phs=loops.transform('AntennaArray.update', 'AntennaArray.select_chans'))
    S = Suite(root, stubs.ALL, transforms=T, **kw)
    S.assumptions += ['floating-point arithmetic treated as real arithmetic', 'polynomial degrees bounded (phase offsets up to 3 coefficients, passbands up to 2, beam polynomials 2x2)',
                      'latitude and longitude are not changed after construction (they are not parameters of the array)', 'fit-parameter setters are decided by C09']
    S.trusted += ['numpy array contracts (vc/npsym.py)', 'ephem.Observer contract (contracts/stubs.py)']
    W = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k))
    def junk(n, kind='f'):
        E().fresh += 1; return array('junk_%s%d' % (n, E().fresh), (size('njunk%d' % E().fresh, 1),), kind, record=False)
    def chans(nf):
        """the channel lists used: all (None), a symbolic list in any order with repeats, or one channel"""
        if E().choose('all channels'): return None, nf, lambda k: k
        nc = size('nc', 1); c = array('ch', (nc,), 'i', 0, 3)
        g = lambda k: c.at(k)
        return c, nc, g
    def in_range_chan(g, k, nf):
        v = Num.of(g(k)); assume(v >= 0); assume(v < nf); return v
    def poly(c, f): return sum((c[k] * f ** (len(c) - 1 - k) for k in range(len(c))), Num.of(0))
    # ---- beams
    BEAMS = [('phs', 'Beam', ()), ('amp', 'Beam', ()), ('amp', 'Beam2DGaussian', ()), ('amp', 'BeamPolynomial', None), ('fit', 'Beam', ()), ('fit', 'BeamPolynomial', None)]
    def mkbeam(m, cls, nf, tag=''):
        f = array('freqs' + tag, (nf,), lo=.1, hi=.2)
        if cls == 'BeamPolynomial': return m.BeamPolynomial(f, ndarr([[real('p%d%d%s' % (a, b, tag)) for b in range(2)] for a in range(2)]))
        return getattr(m, cls)(f)
    def beam_ok(b, P, nc, sel, k, what):
        shape_is(what + ' number of channels', b.afreqs, (nc,)); f = b.freqs.at(sel(k)); eq(what + ' active frequency', b.afreqs.at(k), f)
        if P is not None:
            shape_is(what + ' width shape', b.sigma, (2, nc))
            for a in range(2): eq(what + ' width %d' % a, b.sigma.at(a, k), P[a][0] + P[a][1] * f)
        return f
    for mod, cls, _x in BEAMS:
        @S.fn('%s.%s.select_chans' % (mod, cls), ['phs.Beam.select_chans', 'phs.Beam.update', 'phs.Beam._update_afreqs'] + (['amp.BeamPolynomial.select_chans', 'amp.BeamPolynomial._update_sigma', 'amp.BeamPolynomial.update'] if 'Poly' in cls else []), W('beams'))
        def _(s, mod=mod, cls=cls):
            m = s.load(mod); nf = size('nf', 1); b = mkbeam(m, cls, nf); P = None
            if 'Poly' in cls:
                P = [[real('q%d%d' % (a, c)) for c in range(2)] for a in range(2)]
                k0 = index('k0', nf); beam_ok(b, [[real('p%d%d' % (a, c)) for c in range(2)] for a in range(2)], nf, lambda k: k, k0, 'built')
                b.poly = ndarr(P); b.sigma = junk('sigma')
            else: k0 = index('k0', nf); beam_ok(b, None, nf, lambda k: k, k0, 'built')
            b.afreqs = junk('afreqs'); b.chans = junk('chans', 'i')
            c, nc, g = chans(nf); k = index('k', nc); in_range_chan(g, k, nf); b.select_chans(c); beam_ok(b, P, nc, g, k, 'selected')
            if P is not None:
                P2 = [[real('s%d%d' % (a, c_)) for c_ in range(2)] for a in range(2)]; b.poly = ndarr(P2); b.sigma = junk('sigma2'); P = P2
            b.afreqs = junk('afreqs2'); b.update(); beam_ok(b, P, nc, g, k, 'updated')
    # ---- antennas
    def mkant(m, b, t, pol):
        V = {}
        for p in (('x', 'y') if pol else ('',)): V[p] = dict(phs=[real('d%s%s' % (t, p)), real('o%s%s' % (t, p))], r=[real('r1%s%s' % (t, p)), real('r0%s%s' % (t, p))], i=[real('i%s%s' % (t, p))], amp=real('a%s%s' % (t, p)))
        k = dict(phsoff={p: list(V[p]['phs']) for p in V}, bp_r={p: list(V[p]['r']) for p in V}, bp_i={p: list(V[p]['i']) for p in V}, amp={p: V[p]['amp'] for p in V})
        if not pol: k = {n: v[''] for n, v in k.items()}
        return m.Antenna(real('x' + t), real('y' + t), real('z' + t), b, **k), V
    def change(a, t, pol, mod):
        """other parameters, and arbitrary derived attributes"""
        V = {}
        for p in (('x', 'y') if pol else ('',)): V[p] = dict(phs=[real('nq%s%s' % (t, p)), real('nd%s%s' % (t, p)), real('no%s%s' % (t, p))], r=[real('nr%s%s' % (t, p))], i=[real('ni1%s%s' % (t, p)), real('ni0%s%s' % (t, p))], amp=real('na%s%s' % (t, p)))
        k = dict(_phsoff={p: list(V[p]['phs']) for p in V}, bp_r={p: list(V[p]['r']) for p in V}, bp_i={p: list(V[p]['i']) for p in V}, amp={p: V[p]['amp'] for p in V})
        if not pol: k = {n: v[''] for n, v in k.items()}
        if mod == 'phs': k = dict(_phsoff=k['_phsoff'])
        for n, v in k.items(): setattr(a, n, v)
        garbage(a, pol, mod); return V
    def garbage(a, pol, mod):
        a.phsoff = {'x': junk('ph'), 'y': junk('ph'), 'z': junk('ph')} if pol else junk('ph')
        if mod != 'phs': a._gain = {'x': junk('g'), 'y': junk('g')} if pol else junk('g')
    def ant_ok(a, V, f, k, nc, mod, pol, what):
        for p in V:
            o = a.phsoff[p] if pol else a.phsoff
            shape_is(what + ' offset shape' + p, o, (nc,)); eq(what + ' phase offset' + p, o.at(k), poly(V[p]['phs'], f))
            if mod == 'phs': continue
            g = a.passband(pol=p) if pol else a.passband(); shape_is(what + ' passband shape' + p, g, (nc,))
            eq(what + ' passband' + p, g.at(k), SComplex(V[p]['amp'] * poly(V[p]['r'], f), V[p]['amp'] * poly(V[p]['i'], f)))
        if pol: prove(what + ' feeds', sorted(a.phsoff) == sorted(V))
    for mod in ('phs', 'amp', 'fit', 'pol'):
        pol = mod == 'pol'
        @S.fn(mod + '.Antenna.select_chans', ['phs.Antenna.select_chans', '%s.Antenna.update' % ('phs' if mod == 'phs' else 'amp'), '%s.Antenna._update_phsoff' % ('pol' if pol else 'phs')] + ([] if mod == 'phs' else ['%s.Antenna._update_gain' % ('pol' if pol else 'amp')]), W('states'))
        def _(s, mod=mod, pol=pol):
            m = s.load(mod); nf = size('nf', 1); b = mkbeam(s.load('fit') if pol else m, 'Beam', nf); a, V = mkant(m, b, 'p', pol)
            k0 = index('k0', nf); ant_ok(a, V, b.freqs.at(k0), k0, nf, mod, pol, 'built')
            V = change(a, 'p', pol, mod); b.afreqs = junk('afreqs'); b.chans = junk('chans', 'i')
            c, nc, g = chans(nf); k = index('k', nc); in_range_chan(g, k, nf); a.select_chans(c); f = beam_ok(b, None, nc, g, k, 'selected'); ant_ok(a, V, f, k, nc, mod, pol, 'selected')
            garbage(a, pol, mod); a.update(); ant_ok(a, V, f, k, nc, mod, pol, 'updated')
    # ---- arrays: every antenna is reached, whatever their number
    def every(s, mod, op):
        m = s.load(mod); n = integer('n', 0, 4, ge=0); j = integer('j', 0, 3, ge=0); assume(j < n)
        c = object(); done = []; st = {}
        class Ant(object):
            def __init__(self, k): self.k = Num.of(k)
            def update(self): done.append(('u', self.k, None))
            def select_chans(self, active_chans=None): done.append(('s', self.k, active_chans))
        aa = m.AntennaArray(location(), seq.SymList(n, Ant))
        if mod != 'phs': aa.active_pol = 'xx'
        def state(kind):
            v = st[kind]
            for what, k, arg in done:
                if what != kind: continue
                if what == 's': prove('the channels asked for', arg is c)
                if bool(k == j): v = v + 1
            return v
        def loop(key, kind):
            def inv(k, env, ask):
                if kind not in st: st[kind] = Num.of(0)
                ask('antenna reached once so far', state(kind) == (Num.of(1) if bool(j < k) else Num.of(0)))
                ask('nothing else is done', all(w == kind for w, _, _ in done))
            def havoc(k, env):
                E().fresh += 1; del done[:]; st[kind] = integer('reached%d' % E().fresh, 0, 1, record=False); return {}
            def item(k, it, env):
                if not (it is aa or it is aa.ants): raise Unsupported('iteration over something else')
                return Ant(k)
            loops.contract(key, inv, havoc, count=lambda it, env: n, item=item)
        loop('AntennaArray.update:0', 'u'); loop('AntennaArray.select_chans:0', 's')
        lat = aa.lat; aa._eq2zen = junk('zen')
        if op == 'update': aa.update()
        else:
            aa.select_chans(c); prove('channels selected in every antenna', st.get('s') is not None and bool(st['s'] == 1))
        prove('every antenna updated', 'u' in st and bool(st['u'] == 1) and not done)
        zenith(aa, lat)
    def zenith(aa, lat):
        z = aa._eq2zen; c, sn = num.cossin(lat)
        M = [[Num.of(0), Num.of(1), Num.of(0)], [-sn, Num.of(0), c], [c, Num.of(0), sn]]
        for a in range(3):
            for b in range(3): eq('zenith matrix %d%d' % (a, b), z.at(a, b), M[a][b])
    for mod in ('phs', 'amp', 'fit', 'pol'):
        for op in ('update', 'select_chans'):
            @S.fn('%s.AntennaArray.%s' % (mod, op), ['phs.AntennaArray.' + op, 'phs.ArrayLocation.update', 'phs.ArrayLocation._update_eq2zen'], W('states'))
            def _(s, mod=mod, op=op): every(s, mod, op)
    # ---- the composition, on a small array with shared and separate beams
    for mod in ('phs', 'amp', 'pol'):
        pol = mod == 'pol'
        @S.fn(mod + '.AntennaArray.whole', ['phs.AntennaArray.select_chans', 'phs.AntennaArray.get_afreqs', 'phs.AntennaArray.get_freqs', 'phs.AntennaArray.get_phs_offset'], W('states'))
        def _(s, mod=mod, pol=pol):
            m = s.load(mod); nf = size('nf', 1); bm = s.load('fit') if pol else m
            B = [mkbeam(bm, 'Beam', nf, 'p')]; B.append(B[0] if E().choose('shared beam') else mkbeam(bm, 'Beam', nf, 'q'))
            A = [mkant(m, b, t, pol) for b, t in zip(B, 'pq')]; aa = m.AntennaArray(location(), [a for a, _ in A])
            V = [change(a, t, pol, mod) for (a, _), t in zip(A, 'pq')]
            for b in B: b.afreqs = junk('afreqs'); b.chans = junk('chans', 'i')
            c, nc, g = chans(nf); k = index('k', nc); in_range_chan(g, k, nf); aa.select_chans(c)
            for b, (a, _), v in zip(B, A, V): ant_ok(a, v, beam_ok(b, None, nc, g, k, 'array'), k, nc, mod, pol, 'array')
            eq('frequencies of the array', aa.get_afreqs().at(k), B[0].freqs.at(g(k))); shape_is('all frequencies', aa.get_freqs(), (nf,))
            if not pol:
                f = [b.freqs.at(g(k)) for b in B]; eq('baseline offset', aa.get_phs_offset(0, 1).at(k), poly(V[1]['']['phs'], f[1]) - poly(V[0]['']['phs'], f[0]))
            for (a, _) in A: garbage(a, pol, mod)
            aa.update()
            for b, (a, _), v in zip(B, A, V): ant_ok(a, v, b.freqs.at(g(k)), k, nc, mod, pol, 'array updated')
    # ---- time
    def time_ok(aa, lat, mod, what):
        t = aa.sidereal_time(); c, sn = num.cossin(t)
        M = [[c, sn, Num.of(0)], [-sn, c, Num.of(0)], [Num.of(0), Num.of(0), Num.of(1)]]
        for a in range(3):
            for b in range(3): eq('%s current-equatorial %d%d' % (what, a, b), aa._eq2now.at(a, b), M[a][b])
        if mod == 'phs': return
        cl, sl = num.cossin(lat); M = [[-sn, c, Num.of(0)], [-sl * c, -sl * sn, cl], [cl * c, cl * sn, sl]]
        for a in range(3):
            for b in range(3): eq('%s topocentric %d%d' % (what, a, b), aa.eq2top_m.at(a, b), M[a][b])
        prove(what + ' cache discarded', aa._cache is None)
    for mod in ('phs', 'amp', 'fit', 'pol'):
        @S.fn(mod + '.AntennaArray.time', ['phs.ArrayLocation.set_jultime', 'phs.ArrayLocation.set_ephemtime', 'phs.ArrayLocation.get_jultime', 'phs.juldate2ephem', 'phs.ephem2juldate'] + ([] if mod == 'phs' else ['amp.AntennaArray.set_ephemtime']), W('times'))
        def _(s, mod=mod):
            m = s.load(mod); nf = size('nf', 1); b = mkbeam(s.load('fit') if mod == 'pol' else m, 'Beam', nf); a, V = mkant(m, b, 'p', mod == 'pol'); aa = m.AntennaArray(location(), [a]); lat, lon = aa.lat, aa.long
            aa._eq2now = junk('now'); aa.eq2top_m = junk('top'); aa._cache = {'junk': 1}; zen = aa._eq2zen
            keep = dict(a.__dict__); kb = dict(b.__dict__); ch = {n: v for n, v in aa.__dict__.items() if n not in ('_eq2now', 'eq2top_m', '_cache', 'date', 'epoch')}
            if E().choose('Julian date'):
                t = real('t', 2450000, 2460000); aa.set_jultime(t); eq('date', aa.date, t - 2415020); eq('reads back', aa.get_jultime(), t)
            else:
                t = real('t', 30000, 50000); aa.set_ephemtime(t); eq('date', aa.date, t); eq('reads back', aa.get_jultime(), t + 2415020)
            eq('epoch', aa.epoch, aa.date); time_ok(aa, lat, mod, 'set')
            prove('nothing else changes', all(a.__dict__.get(n) is v for n, v in keep.items()) and all(b.__dict__.get(n) is v for n, v in kb.items()) and all(aa.__dict__.get(n) is v for n, v in ch.items()))
            zenith(aa, lat)
            # channels and parameters do not disturb the time
            now, top = aa._eq2now, getattr(aa, 'eq2top_m', None)
            aa.select_chans(None); aa.update(); eq('time kept', aa.date, t - 2415020 if bool(aa.date == t - 2415020) else t); time_ok_same = aa._eq2now is now and getattr(aa, 'eq2top_m', None) is top
            if not time_ok_same: time_ok(aa, lat, mod, 'after channels')
            else: prove('matrices kept', True)
    @S.fn('phs.juldate', ['phs.juldate2ephem', 'phs.ephem2juldate'], W('dates'))
    def _(s):
        m = s.load('phs'); t = real('t', 2400000, 2500000)
        eq('to ephemeris', m.juldate2ephem(t), t - 2415020); eq('to Julian', m.ephem2juldate(t), t + 2415020); eq('there and back', m.ephem2juldate(m.juldate2ephem(t)), t); eq('back and forth', m.juldate2ephem(m.ephem2juldate(t)), t)
    def bad(s):
        m = s.load('amp'); nf = size('nf', 1); b = mkbeam(m, 'Beam', nf); a, V = mkant(m, b, 'p', False); k = index('k', nf); a._phsoff = [real('n1'), real('n0')]; eq('stale', a.phsoff.at(k), poly([real('n1'), real('n0')], b.freqs.at(k)))
    S.must_fail('no update needed', bad)
    return S
