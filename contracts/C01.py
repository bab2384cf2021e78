"""Baseline numbers: miriad.ij2bl/bl2ij, pol.ijp2blp/blp2ijp, phs.AntennaArray.ij2bl/bl2ij/bl_indices."""
from vc.api import *
from . import stubs

def build(root, **kw):
    S = Suite(root, stubs.ALL, **kw)
    W = ('codec', lambda w: dict(i=w['i'], j=w['j'], p=w.get('p', -5)))
    def pair(bound=2047):
        return integer('i', 0, 2046, ge=0, lt=bound), integer('j', 0, 2046, ge=0, lt=bound)
    def expected(i, j):
        lo, hi = (i, j) if i <= j else (j, i)
        return lo, hi, (256 * (lo + 1) + hi + 1 if hi < 255 else 65536 + 2048 * (lo + 1) + hi + 1)
    @S.fn('miriad.ij2bl', ['miriad.ij2bl'], W)
    def _(s):
        m = s.load('miriad'); i, j = pair()
        lo, hi, e = expected(i, j)
        eq('value', m.ij2bl(i, j), e); eq('symmetric', m.ij2bl(j, i), m.ij2bl(i, j))
    @S.fn('miriad.bl2ij', ['miriad.bl2ij'], W)
    def _(s):
        m = s.load('miriad'); i, j = pair()
        lo, hi, e = expected(i, j)
        r = m.bl2ij(e)
        prove('pair', len(r) == 2); eq('first', r[0], lo); eq('second', r[1], hi)
    @S.fn('miriad.bl2ij.ij2bl', ['miriad.ij2bl', 'miriad.bl2ij'], W)
    def _(s):
        m = s.load('miriad'); i, j = pair()
        lo, hi, e = expected(i, j)
        r = m.bl2ij(m.ij2bl(i, j))
        eq('first', r[0], lo); eq('second', r[1], hi)
    @S.fn('pol.blp2ijp.ijp2blp', ['pol.ijp2blp', 'pol.blp2ijp'], W)
    def _(s):
        m = s.load('pol'); i, j = pair(); p = integer('p', -8, 4, ge=-8, lt=5)
        lo, hi, e = expected(i, j)
        b = m.ijp2blp(i, j, p)
        r = m.blp2ijp(b)
        prove('triple', len(r) == 3); eq('first', r[0], lo); eq('second', r[1], hi); eq('pol', r[2], p)
        eq('symmetric', m.ijp2blp(j, i, p), b)
    @S.fn('phs.AntennaArray.codec', ['phs.AntennaArray.ij2bl', 'phs.AntennaArray.bl2ij'], W)
    def _(s):
        m = s.load('phs'); i, j = pair()
        lo, hi, e = expected(i, j)
        aa = object.__new__(m.AntennaArray)
        eq('ij2bl', aa.ij2bl(i, j), e)
        r = aa.bl2ij(e); eq('first', r[0], lo); eq('second', r[1], hi)
    for auto in (True, False):
        for cross in (True, False):
            @S.fn('phs.AntennaArray.bl_indices[auto=%s,cross=%s]' % (auto, cross), ['phs.AntennaArray.bl_indices'],
                  ('indices', lambda w: dict(n=w['n'])))
            def _(s):
                m = s.load('phs'); n = integer('n', 1, 6, ge=1, lt=2048)
                class Ants:
                    def __symlen__(self): return n
                class AA(m.AntennaArray):
                    def __init__(self): self.ants = Ants()
                    def __symlen__(self): return n
                aa = AA()
                r, ix = comprehension(m.AntennaArray.bl_indices, lambda: aa.bl_indices(auto=auto, cross=cross))
                if not auto and not cross: prove('empty', len(r) == 0 and not ix); return
                if len(r) == 0:
                    # no generic element exists on this path: only when the array has a single antenna / last row
                    if cross and not auto: prove('row bound', b_and(len(ix) == 1, ix[0][0] + 1 >= n) if ix else False)
                    else: prove('nonempty', False)
                    return
                prove('one generic element', len(r) == 1)
                if not cross:
                    prove('one index', len(ix) == 1)
                    prove('range', b_and(ix[0][1] == 0, ix[0][2] == n))
                    i = j = ix[0][0]
                else:
                    prove('two indices', len(ix) == 2)
                    i, j = ix[0][0], ix[1][0]
                    prove('outer range', b_and(ix[0][1] == 0, ix[0][2] == n))
                    prove('inner range', b_and(ix[1][1] == (i if auto else i + 1), ix[1][2] == n))
                eq('element', r[0], expected(i, j)[2])
    def bad(s):
        m = s.load('miriad'); i, j = integer('i', 0, 2046, ge=0, lt=2048), integer('j', 0, 2047, ge=0, lt=2048)
        r = m.bl2ij(m.ij2bl(i, j)); eq('x', r[1], j if i <= j else i)
    S.must_fail('antenna 2047 does not round-trip', bad)
    S.assumptions += ['antenna numbers are unbounded integers in the proof (Python ints); the C macros of the file format are checked under C22']
    return S
