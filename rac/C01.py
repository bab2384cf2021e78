from lib import *
from aipy import miriad, phs, pol, fit, amp, scripting
import aipy

def spec(i, j):
    i, j = min(i, j), max(i, j)
    return 256 * (i + 1) + j + 1 if j < 255 else 65536 + 2048 * (i + 1) + j + 1
def one(i, j, p=-5):
    b = miriad.ij2bl(i, j)
    if b != spec(i, j): fail('ij2bl(%d,%d) = %r, expected %d' % (i, j, b, spec(i, j)))
    if miriad.ij2bl(j, i) != b: fail('ij2bl(%d,%d) differs with the order' % (i, j))
    if tuple(miriad.bl2ij(b)) != (min(i, j), max(i, j)): fail('bl2ij(ij2bl(%d,%d)) = %r' % (i, j, miriad.bl2ij(b)))
    if tuple(miriad.bl2ij(float(b))) != (min(i, j), max(i, j)): fail('bl2ij of the float %r' % float(b))
    bp = pol.ijp2blp(i, j, p)
    if tuple(pol.blp2ijp(bp)) != (min(i, j), max(i, j), p): fail('blp2ijp(ijp2blp(%d,%d,%d)) = %r' % (i, j, p, pol.blp2ijp(bp)))
    if pol.ijp2blp(j, i, p) != bp: fail('ijp2blp order')
EDGE = [0, 1, 7, 127, 253, 254, 255, 256, 257, 510, 511, 512, 1023, 1024, 2045, 2046]
@check(lambda rng, k: dict(i=rng.randrange(2047), j=rng.randrange(2047), p=rng.randrange(-8, 5)), 200, corners=[dict(i=a, j=b, p=p) for a in EDGE for b in EDGE for p in (-8, 4, -5)])
def codec(i, j, p):
    if not (0 <= i < 2047 and 0 <= j < 2047 and -8 <= p <= 4): raise Skip
    one(i, j, p)
    aa = phs.AntennaArray(('0', '0'), [])
    is_(aa.ij2bl(i, j), spec(i, j)); is_(tuple(aa.bl2ij(spec(i, j))), (min(i, j), max(i, j)))
@check(lambda rng, k: dict(row=rng.randrange(2047)), 100, corners=[dict(row=r) for r in EDGE])
def row(row):
    for j in range(2047): one(row, j, (row + j) % 13 - 8)
class Ant:
    def __init__(self): pass
def mkaa(n):
    bm = phs.Beam(np.array([.1, .15]))
    return [cls(('0:0', '0:0'), [A(float(k), 0., 0., B(np.array([.1, .15]))) for k in range(n)]) for cls, A, B in ((phs.AntennaArray, phs.Antenna, phs.Beam), (amp.AntennaArray, amp.Antenna, amp.Beam), (fit.AntennaArray, fit.Antenna, fit.Beam))]
@check(lambda rng, k: dict(n=rng.randrange(0, 40)), 20, corners=[dict(n=n) for n in (0, 1, 2, 3, 5, 8, 300)])
def indices(n):
    if n > 2047 or n < 0: raise Skip
    for aa in mkaa(n) if n < 100 else mkaa(n)[:1]:
        for auto in (True, False):
            for cross in (True, False):
                want = [spec(i, j) for i in range(n) for j in range(i, n) if (i == j and auto) or (i != j and cross)]
                got = list(aa.bl_indices(auto=auto, cross=cross))
                if got != want: fail('bl_indices(auto=%s, cross=%s) of %d antennas: %d entries, expected %d (%r)' % (auto, cross, n, len(got), len(want), got[:6]))
        if list(aa.bl_indices()) != [spec(i, j) for i in range(n) for j in range(i, n)]: fail('default')
