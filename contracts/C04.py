"""Baselines and uvw: phs.AntennaArray.get_baseline, gen_uvw; phs.Antenna arithmetic; ArrayLocation matrices."""
from vc.api import *
from . import stubs
from .arr import *

def build(root, **kw):
    S = Suite(root, stubs.ALL, **kw)
    S.assumptions += ['floating-point arithmetic treated as real arithmetic', 'ephem.Observer.sidereal_time is a function of date and longitude in [0, 2 pi) (trusted)']
    S.trusted += ['numpy array contracts (vc/npsym.py)', 'ephem.Observer contract (contracts/stubs.py)']
    W = lambda nm: (nm, lambda w: dict(seed=1, nf=3, ns=2))
    class Tmpl: pass
    def setup(s, nf=None):
        m = s.load('phs')
        nf = nf or size('nf')
        b = mk_beam(m, nf)
        ants, pos = zip(*[mk_ant(m, b, t) for t in ('p', 'q')])
        lat, lon = location()
        aa = m.AntennaArray((lat, lon), list(ants))
        t = real('t', 2450000, 2460000); aa.set_jultime(t)
        return m, aa, pos, lat, lon, nf, b
    def diff(pos): return [pos[1][k] - pos[0][k] for k in range(3)]
    def H(ha, dec):
        ch, sh = num.cossin(ha); cd, sd = num.cossin(dec)
        return [[sh, ch, Num.of(0)], [-sd * ch, sd * sh, cd], [cd * ch, -cd * sh, sd]]
    def mv(M, v): return [sum((M[r][c] * v[c] for c in range(1, 3)), M[r][0] * v[0]) for r in range(3)]
    def expect(aa, pos, lat, src):
        d = diff(pos)
        if src == 'r': return d
        if src == 'z': return mv(H(Num.of(0), lat), d)
        st = aa.sidereal_time(); c, sn = num.cossin(st)
        return [c * d[0] + sn * d[1], -sn * d[0] + c * d[1], d[2]]       # rotation by -lst about the pole
    for src in 'rze':
        @S.fn('phs.get_baseline.%s' % src, ['phs.AntennaArray.get_baseline', 'phs.Antenna.__sub__', 'phs.ArrayLocation._update_eq2zen', 'phs.ArrayLocation.set_ephemtime'], W('baseline'))
        def _(s):
            m, aa, pos, lat, lon, nf, b = setup(s)
            bl = aa.get_baseline(0, 1, src=src)
            for k, e in enumerate(expect(aa, pos, lat, src)): eq('component%d' % k, bl[k], e)
            lb = aa.get_baseline(1, 0, src=src)
            for k in range(3): eq('negated%d' % k, lb[k], -bl[k])
            l2 = lambda v: v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
            eq('length', l2(bl), l2(diff(pos)))
        @S.fn('phs.gen_uvw.%s' % src, ['phs.AntennaArray.gen_uvw', 'phs.AntennaArray.get_baseline', 'phs.AntennaArray.get_afreqs'], W('uvw'))
        def _(s):
            m, aa, pos, lat, lon, nf, b = setup(s)
            e = expect(aa, pos, lat, src)
            r = aa.gen_uvw(0, 1, src=src); shape_is('shape', r, (3, 1, nf))
            k = index('k', nf); f = b.freqs.at(k)
            for c in range(3): eq('comp%d' % c, r[c, 0, k], e[c] * f)
            w = aa.gen_uvw(0, 1, src=src, w_only=True); shape_is('wshape', w, (1, nf))
            eq('w only', w[0, k], r[2, 0, k])
            n = aa.gen_uvw(1, 0, src=src)
            for c in range(3): eq('negated%d' % c, n[c, 0, k], -r[c, 0, k])
    # one direction as a vector, and a table of directions
    @S.fn('phs.get_baseline.vector', ['phs.AntennaArray.get_baseline'], W('vector'))
    def _(s):
        m, aa, pos, lat, lon, nf, b = setup(s)
        x, y, z = unit('s')
        assume(x * x + y * y > 0)
        bl = aa.get_baseline(0, 1, src=ndarr([x, y, z]))
        shape_is('shape', bl, (3,))
        st = aa.sidereal_time(); cs, ss = num.cossin(st); d = diff(pos)
        # the third row is the unit vector to the source in the frame rotated by the sidereal time
        r = num.sqrt(x * x + y * y)
        # hour angle ha = lst - ra: cos ha = (x cos lst + y sin lst)/r, sin ha = (x sin lst - y cos lst)/r ; cos dec = r, sin dec = z
        ch, sh = Num._div(x * cs + y * ss, r), Num._div(x * ss - y * cs, r)
        M = [[sh, ch, Num.of(0)], [-z * ch, z * sh, r], [r * ch, -r * sh, z]]
        for c, e in enumerate(mv(M, d)): eq('component%d' % c, bl[c], e)
        lb = aa.get_baseline(1, 0, src=ndarr([x, y, z]))
        for c in range(3): eq('negated%d' % c, lb[c], -bl[c])
    @S.fn('phs.gen_uvw.vectors', ['phs.AntennaArray.gen_uvw', 'phs.AntennaArray.get_baseline'], W('vectors'))
    def _(s):
        m, aa, pos, lat, lon, nf, b = setup(s)
        ns = size('ns'); src = array('s', (3, ns)); j = index('j', ns); k = index('k', nf)
        r = aa.gen_uvw(0, 1, src=src); shape_is('shape', r, (3, ns, nf))
        one = aa.get_baseline(0, 1, src=ndarr([src.at(c, j) for c in range(3)]))
        for c in range(3): eq('comp%d' % c, r[c, j, k], one[c] * b.freqs.at(k))
        w = aa.gen_uvw(0, 1, src=src, w_only=True); shape_is('wshape', w, (ns, nf))
        eq('w only', w[j, k], r[2, j, k])
    @S.fn('phs.get_baseline.source', ['phs.AntennaArray.get_baseline', 'phs.RadioBody.compute'], W('source'))
    def _(s):
        m, aa, pos, lat, lon, nf, b = setup(s)
        src = m.RadioFixedBody(real('ra', 0, 6), real('dec', -1.5, 1.5), name='src')
        src.compute(aa)
        try: bl = aa.get_baseline(0, 1, src=src); up = True
        except m.PointingError: up = False
        prove('refused exactly below the horizon', (src.alt >= 0) if up else (src.alt < 0))
        if not up: return
        M = H(aa.sidereal_time() - src.ra, src.dec)
        for c, e in enumerate(mv(M, diff(pos))): eq('component%d' % c, bl[c], e)
    @S.fn('phs.gen_uvw.source', ['phs.AntennaArray.gen_uvw'], W('source'))
    def _(s):
        m, aa, pos, lat, lon, nf, b = setup(s)
        src = m.RadioFixedBody(real('ra', 0, 6), real('dec', -1.5, 1.5), name='src')
        src.compute(aa); assume(src.alt >= 0); k = index('k', nf)
        M = H(aa.sidereal_time() - src.ra, src.dec)
        r = aa.gen_uvw(0, 1, src=src); shape_is('shape', r, (3, 1, nf))
        for c, e in enumerate(mv(M, diff(pos))): eq('comp%d' % c, r[c, 0, k], e * b.freqs.at(k))
        eq('w only', aa.gen_uvw(0, 1, src=src, w_only=True)[0, k], r[2, 0, k])
    @S.fn('phs.gen_uvw.active', ['phs.AntennaArray.gen_uvw', 'phs.Beam.select_chans', 'phs.AntennaArray.select_chans'], W('uvw'))
    def _(s):
        m, aa, pos, lat, lon, nf, b = setup(s)
        nc = size('nc'); ch = array('ch', nc, 'i')
        k = index('k', nc); c0 = ch.at(k); assume(c0 >= 0); assume(c0 < nf)
        aa.select_chans(ch)
        r = aa.gen_uvw(0, 1, src='z'); shape_is('shape', r, (3, 1, nc))
        for c, e in enumerate(expect(aa, pos, lat, 'z')): eq('comp%d' % c, r[c, 0, k], e * b.freqs.at(c0))
    def bad(s):
        m, aa, pos, lat, lon, nf, b = setup(s)
        eq('x', aa.get_baseline(0, 1, src='z')[0], aa.get_baseline(0, 1, src='e')[0])
    S.must_fail('zenith frame is the equatorial frame', bad)
    return S
