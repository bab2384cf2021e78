"""HEALPix maps: assignment, reading, ordering schemes, copying, spherical-harmonic coefficients. Maps of any resolution, any number of pixels or directions."""
from vc.api import *
from vc import npsym
from . import stubs, hp

def build(root, **kw):
    S = Suite(root, dict(stubs.ALL, healpy=hp.healpy, utils=hp.utils), **kw)
    S.assumptions += ['floating-point arithmetic treated as real arithmetic', 'pixel numbers handed in are in range', 'FITS input and output are not covered']
    S.trusted += ['healpy contracts (contracts/hp.py): pixel numbers in range, nest2ring and ring2nest inverse bijections, the nested number of a direction is ring2nest of its ring number, Alm.getlm inverse of getidx',
                  'aipy.utils.add2array by its contract (C12)', 'numpy array contracts (vc/npsym.py)', 'lemma: a finite sum with one non-zero term is that term']
    W = lambda nm, **k: (nm, lambda w: dict(dict(seed=1), **k))
    SCH = ['RING', 'NEST']
    def scheme(): return SCH[1 if E().choose('nested') else 0]
    def mkmap(s, kind='f', sch=None, tag='', nside=None, interp=None):
        h = s.load('healpix'); n = nside if nside is not None else hp.nside_sym('nside' + tag); sch = sch or scheme()
        k = dict(nside=n, scheme=sch)
        if kind != 'f': k['dtype'] = dict(c=npsym.complex128, i=npsym.int64)[kind]
        if interp: k['interp'] = True
        m = h.HealpixMap(**k); N = hp.npix_of(n)
        shape_is('one value per pixel', m.map, (N,)); q = index('q0', N); eq('starts at zero', m.map.at(q), SComplex(0, 0) if kind == 'c' else 0)
        d = array('map' + tag, (N,), kind, -3, 3); m.map = d; return h, m, n, N, sch, d
    MODES = ['pixels', 'ang', 'vec']
    def address(mode, n, sch):
        """(key, number, pixel number of entry k in the given scheme)"""
        c = size('n', 1)
        if mode == 'pixels':
            N = hp.npix_of(n); px = array('px', (c,), 'i', 0, 11); E().universals.append(((c,), lambda k: b_and(px.at(k[0]) >= 0, px.at(k[0]) < N)))
            return px, c, lambda k, s=None: px.at(k)
        xs = [array('c%d' % i, (c,)) for i in range(2 if mode == 'ang' else 3)]
        def pix(k, s=None):
            r = hp.pxf('ang2pix' if mode == 'ang' else 'vec2pix', n, [x.at(k) for x in xs]); return hp.r2n(n, r) if (s or sch) == 'NEST' else r
        return tuple(xs), c, pix
    def stored(nm, v, c, pix, val, i, k0, cplx):
        """v is the sum of the values assigned to pixel i"""
        info = npsym.sum_info(v); prove(nm + ' sums over every assigned value', Num.of(info.n) == Num.of(c)); j = index('j', c); instantiate(j)
        t = info.f(j); z = SComplex(0, 0) if cplx else Num.of(0)
        eq(nm + ' exactly the values of this pixel', t, val(j) if bool(pix(j) == i) else z)
    for mode in MODES:
        for kind in 'fci' if mode == 'pixels' else 'f':
            @S.fn('healpix.HealpixMap.__setitem__.%s.%s' % (mode, kind), ['healpix.HealpixMap.__setitem__', 'healpix.HealpixBase.crd2px', 'healpix.mk_arr'], W('assign'))
            def _(s, mode=mode, kind=kind):
                h, m, n, N, sch, d = mkmap(s, kind); key, c, pix = address(mode, n, sch); val = array('val', (c,), kind); i = index('i', N); k0 = index('k0', c)
                ver = [x.cell.ver for x in (key if isinstance(key, tuple) else (key,))] + [val.cell.ver]
                instantiate(k0); hp.interest(k0)
                m[key] = val
                prove('inputs unchanged', ver == [x.cell.ver for x in (key if isinstance(key, tuple) else (key,))] + [val.cell.ver])
                shape_is('one value per pixel', m.map, (N,)); prove('scheme and resolution', m.scheme() == sch and bool(Num.of(m.nside()) == n)); prove('kind of data', m.map.kind == kind)
                if E().choose('a pixel that is addressed'):
                    i = pix(k0); v = m.map.at(i)
                    if c == 1: eq('value', v, val.at(0))
                    else: stored('value', v, c, pix, lambda j: val.at(j), i, k0, kind == 'c')
                else:
                    E().universals.append(((c,), lambda k: pix(k[0]) != i)); instantiate(k0); instantiate(Num.of(0))
                    eq('other pixels', m.map.at(i), d.at(i))
        for interp in (False, True):
            @S.fn('healpix.HealpixMap.__getitem__.%s%s' % (mode, '.interpolated' if interp else ''), ['healpix.HealpixMap.__getitem__', 'healpix.HealpixBase.crd2px', 'healpix.HealpixMap.set_interpol'], W('read'))
            def _(s, mode=mode, interp=interp):
                kind = 'f'; by_ctor = bool(E().choose('by constructor')); h, m, n, N, sch, d = mkmap(s, kind, interp=interp and by_ctor); key, c, pix = address(mode, n, sch); k = index('k', c); instantiate(k)
                if not by_ctor: m.set_interpol(interp)
                v = m[key]; shape_is('one value per entry', v, (c,)); prove('map unchanged', m.map is d and d.cell.ver == 0)
                if not interp or mode == 'pixels': eq('value', v.at(k), d.at(pix(k))); return
                if mode == 'ang': q = [key[0].at(k), key[1].at(k)]
                else:
                    a = [x.at(k) for x in key]; q = [func('vec2ang.th', [Num.of(x) for x in a]), func('vec2ang.ph', [Num.of(x) for x in a])]
                tot = Num.of(0)
                for b in range(4):
                    p = hp.pxf('interp.px', n, [Num.of(b)] + q); p = hp.r2n(n, p) if sch == 'NEST' else p
                    tot = tot + d.at(p) * func('interp.w', [Num.of(n), Num.of(b)] + [Num.of(x) for x in q], False, 0, 1)
                eq('weighted mean of the four neighbours', v.at(k), tot)
    # ---- ordering schemes
    def direction(n):
        """the pixel holding an arbitrary direction, in either scheme"""
        r = hp.pxf('vec2pix', n, [real('dx'), real('dy'), real('dz')]); return {'RING': r, 'NEST': hp.r2n(n, r)}
    @S.fn('healpix.HealpixMap.change_scheme', ['healpix.HealpixMap.change_scheme', 'healpix.HealpixBase.nest_ring_conv', 'healpix.HealpixMap.__setitem__', 'healpix.HealpixBase.set_nside_scheme'], W('schemes'))
    def _(s):
        h, m, n, N, sch, d = mkmap(s); new = scheme(); p = direction(n)
        m.change_scheme(new); prove('scheme', m.scheme() == new); eq('resolution', m.nside(), n); shape_is('one value per pixel', m.map, (N,))
        v = m.map.at(p[new])
        if new == sch: eq('value of a direction', v, d.at(p[sch])); return
        # the sum over the permutation has one term, at the direction's old pixel
        instantiate(p[sch])
        try: t = hp.single('value', v, p[sch])
        except Unsupported:
            # either read from the old map (nothing written there) or some other form
            eq('value of a direction', v, d.at(p[sch])); return
        eq('value of a direction', t, d.at(p[sch]))
    @S.fn('healpix.HealpixBase.nest_ring_conv', ['healpix.HealpixBase.nest_ring_conv'], W('schemes'))
    def _(s):
        h, m, n, N, sch, d = mkmap(s); p = direction(n); to = scheme(); r = m.nest_ring_conv(p[sch], to)
        eq('the pixel of the same direction', r, p[to]); prove('the map is as it was', m.scheme() == sch and m.map is d and d.cell.ver == 0)
    @S.fn('healpix.HealpixMap.from_hpm', ['healpix.HealpixMap.from_hpm', 'healpix.HealpixBase.nest_ring_conv'], W('copies'))
    def _(s):
        h, a, n, N, sa, da = mkmap(s, tag=''); _, b, _, _, sb, db = mkmap(s, tag='b', nside=n)
        b.from_hpm(a); p = direction(n); prove('scheme', b.scheme() == sb); eq('resolution', b.nside(), n); shape_is('one value per pixel', b.map, (N,))
        eq('value of a direction', b.map.at(p[sb]), da.at(p[sa])); prove('source unchanged', a.map is da and da.cell.ver == 0 and a.scheme() == sa)
        v0 = b.map.at(p[sb]); a.map[...] = 0; eq('a copy of its own', b.map.at(p[sb]), v0)
    @S.fn('healpix.HealpixMap.set_map', ['healpix.HealpixMap.set_map', 'healpix.HealpixBase.set_nside_scheme', 'healpix.HealpixBase.npix2nside', 'healpix.HealpixMap.get_map'], W('sizes'))
    def _(s):
        h, m, n, N, sch, d = mkmap(s)
        if E().choose('right size'):
            n2 = hp.nside_sym('nside2'); x = array('x', (hp.npix_of(n2),)); to = scheme()
            if E().choose('default scheme'): m.set_map(x); to = 'RING'
            else: m.set_map(x, scheme=to)
            i = index('i', hp.npix_of(n2)); eq('resolution', m.nside(), n2); prove('scheme', m.scheme() == to); eq('data', m.map.at(i), x.at(i)); eq('data read', m.get_map().at(i), x.at(i)); shape_is('size', m.map, (hp.npix_of(n2),))
        else:
            k = [1, 11, 13, 100, 47][sum(bool(E().choose('size %d' % i)) for i in range(4))]
            x = array('x', (k,)); prove('wrong size is refused', raises((ValueError, AssertionError), lambda: m.set_map(x)))
            prove('two-dimensional data is refused', raises((ValueError, AssertionError), lambda: m.set_map(array('y', (12, 1)))))
            eq('resolution kept', m.nside(), n); prove('scheme kept', m.scheme() == sch and m.map is d)
    @S.fn('healpix.HealpixBase.crd2px', ['healpix.HealpixBase.crd2px', 'healpix.HealpixBase.px2crd', 'healpix.HealpixBase.npix', 'healpix.HealpixBase.nside', 'healpix.HealpixBase.scheme', 'healpix.HealpixBase.order'], W('geometry'))
    def _(s):
        h = s.load('healpix'); n = hp.nside_sym(); sch = scheme(); b = h.HealpixBase(n, sch); eq('pixels', b.npix(), hp.npix_of(n)); eq('order', b.order(), integer('nside_order'))
        c = size('n', 1); px = array('px', (c,), 'i', 0, 11); k = index('k', c); N = hp.npix_of(n); assume(px.at(k) >= 0); assume(px.at(k) < N)
        ring = hp.n2r(n, px.at(k)) if sch == 'NEST' else px.at(k)
        for nm, v in zip('xyz', b.px2crd(px)): eq('direction ' + nm, v.at(k), func('pix.' + nm, [Num.of(n), Num.of(ring)]))
        for nm, v in zip(('th', 'ph'), b.px2crd(px, ncrd=2)): eq('angle ' + nm, v.at(k), func('pix.' + nm, [Num.of(n), Num.of(ring)]))
        prove('other coordinate counts refused', raises(AssertionError, lambda: b.px2crd(px, ncrd=4)))
    # ---- spherical harmonics
    @S.fn('healpix.Alm', ['healpix.Alm.__init__', 'healpix.Alm.__getitem__', 'healpix.Alm.__setitem__', 'healpix.Alm.get_data', 'healpix.Alm.set_data', 'healpix.Alm.set_to_zero', 'healpix.Alm.lm_indices', 'healpix.Alm.size', 'healpix.Alm.lmax', 'healpix.Alm.mmax'], W('harmonics'))
    def _(s):
        h = s.load('healpix'); L, M = integer('lmax', ge=0), integer('mmax', ge=0); assume(M <= L); a = h.Alm(L, M); sz = func('alm.size', [L, M], True)
        eq('lmax', a.lmax(), L); eq('mmax', a.mmax(), M); eq('size', a.size(), sz); shape_is('coefficients', a.get_data(), (sz,))
        i = index('i', sz); eq('zero', a.get_data().at(i), SComplex(0, 0))
        def lm(t):
            l, m = integer('l' + t, ge=0), integer('m' + t, ge=0); assume(m <= l); assume(l <= L); assume(m <= M); x = hp.almidx(L, l, m); assume(x >= 0); assume(x < sz); return l, m, x
        l1, m1, x1 = lm('1'); l2, m2, x2 = lm('2'); d = array('alm', (sz,), 'c')
        a.set_data(d); eq('coefficient', a[l1, m1], d.at(x1)); eq('list', a.get_data().at(i), d.at(i))
        v = cplx('v'); a[l1, m1] = v; eq('set', a[l1, m1], v); eq('set in the list', a.get_data().at(x1), v)
        if b_and(l1 == l2, m1 == m2): pass
        else: eq('others kept', a[l2, m2], d.at(x2))
        eq('what was handed in', d.at(i), array('alm', (sz,), 'c').at(i))
        lmi = a.lm_indices(); shape_is('index list', lmi, (sz, 2)); eq('l of an entry', lmi.at(x1, 0), l1); eq('m of an entry', lmi.at(x1, 1), m1)
        prove('wrong size is refused', raises((AssertionError, ValueError), lambda: a.set_data(array('w', (sz + 1,), 'c')))); eq('and changes nothing', a[l1, m1], v)
        prove('more m than l refused', raises(AssertionError, lambda: h.Alm(2, 3)))
        a.set_to_zero(); eq('cleared', a[l1, m1], SComplex(0, 0))
    def bad(s):
        h, m, n, N, sch, d = mkmap(s); m.change_scheme('NEST'); p = direction(n); eq('no permutation', m.map.at(p['RING']), d.at(p['RING']))
    S.must_fail('schemes number alike', bad)
    return S
