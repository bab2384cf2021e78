"""Trusted contracts for the libraries aipy calls (each assumption is listed in the evidence)."""
import types
from vc import num, npsym
from vc.num import Num, Unsupported

class _Any:
    """a module or object without a contract: only its name may be mentioned"""
    def __init__(self, n): self.__dict__['_n'] = n
    def __getattr__(self, a):
        if a.startswith('__') or a.startswith('_sym'): raise AttributeError(a)
        return _Any(self._n + '.' + a)
    def _no(self, *a, **k): raise Unsupported('%s has no contract' % self._n)
    __call__ = __iter__ = __bool__ = __len__ = __getitem__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __float__ = __int__ = __lt__ = __gt__ = __truediv__ = __neg__ = _no

def ephem_min(session):
    """names only: enough to load modules whose verified functions do not call ephem"""
    m = types.ModuleType('ephem_contract')
    class Body: pass
    for n in ('Equatorial', 'Ecliptic', 'Galactic', 'FixedBody', 'Observer', 'RadioFixedBody'): setattr(m, n, type(n, (Body,), {}))
    m.J2000 = Num.of(36525)
    m.B1950 = 'B1950'
    m.date = lambda d: d
    return m

def miriad_ext(session):
    """the compiled _miriad module: names only"""
    m = types.ModuleType('_miriad_contract')
    class UV:
        def __init__(self, *a): raise Unsupported('_miriad.UV')
    m.UV = UV; m.MAXCHAN = 65536; m.hopen = None
    def ga(n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('_miriad.' + n)
    m.__getattr__ = ga
    return m

def ephem_array(session):
    """ephem with an Observer: sidereal time is an uninterpreted function of (date, longitude) in [0, 2pi)"""
    m = ephem_min(session)
    class Observer(object):
        def __init__(self): self.date = Num.of(0); self.epoch = Num.of(36525); self.lat = Num.of(0); self.long = Num.of(0); self.elev = Num.of(0); self.pressure = Num.of(1010)
        def sidereal_time(self):
            from vc import api
            st = api.func('sidereal', [Num.of(self.date), Num.of(self.long)], False, 0, 6.28, axioms=lambda a: [a.z >= 0, a.z < 2 * num.PI_ATOM.z])
            return st
    class FixedBody(object):
        def __init__(self): self._ra = Num.of(0); self._dec = Num.of(0); self._epoch = Num.of(36525)
        def compute(self, observer):
            """the body's topocentric and apparent coordinates are determined by (ra, dec, epoch, time, place)"""
            from vc import api
            args = [Num.of(self._ra), Num.of(self._dec), Num.of(self._epoch), Num.of(observer.date), Num.of(observer.lat), Num.of(observer.long)]
            for n, lo, hi in (('ra', 0, 6.28), ('dec', -1.57, 1.57), ('az', 0, 6.28), ('alt', -1.57, 1.57)):
                setattr(self, n, api.func('ephem.' + n, args, False, lo, hi))
    m.Observer, m.FixedBody = Observer, FixedBody
    m.date = lambda d: d
    m.now = lambda: num.Num.of(0); m.julian_date = lambda: num.Num.of(2415020)
    return m

def scipy_stub(session):
    m = types.ModuleType('scipy_contract')
    m.special = types.SimpleNamespace(j1=npsym.j1, i0=npsym.i0)
    m.interpolate = _Any('scipy.interpolate'); m.optimize = _Any('scipy.optimize'); m.ndimage = _Any('scipy.ndimage')
    m.signal = _Any('scipy.signal'); m.fftpack = _Any('fftpack'); m.integrate = _Any('scipy.integrate'); m.linalg = _Any('scipy.linalg')
    return m
def healpy_any(session):
    return _Any('healpy')
def generic_any(name):
    return lambda session: _Any(name)
ALL = dict(ephem=ephem_array, _miriad=miriad_ext, scipy=scipy_stub, healpy=healpy_any, utils=generic_any('aipy.utils'), _dsp=generic_any('aipy._dsp'),
           _deconv=generic_any('aipy._deconv'), astropy=generic_any('astropy'), pyfits=generic_any('pyfits'))
