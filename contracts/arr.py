"""shared builders: symbolic antennas, arrays and sources"""
from vc.api import *

def mk_beam(m, nf, tag='b', cls='Beam', **kw):
    f = array('freqs_' + tag, (nf,), lo=.1, hi=.2)
    E().universal_pos = getattr(E(), 'universal_pos', [])
    return getattr(m, cls)(f, **kw)
def mk_ant(m, beam, tag, **kw):
    # the component order of the constructor is x, y, z
    p = [real('%s_%s' % (c, tag), -100, 100) for c in 'xyz']
    return m.Antenna(p[0], p[1], p[2], beam, **kw), p
def location():
    return (real('lat', -1.5, 1.5), real('lon', -3, 3))
def freqs_positive(beam, idx):
    """frequencies are positive (precondition), instantiated at the indices used"""
    for k in idx: E().assume(beam.freqs.at(k) > 0)
