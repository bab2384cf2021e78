"""shared builders and independent reference formulas for the array properties (bounded part)"""
from lib import *
import numpy as np
import ephem
from scipy.special import j1 as _j1
TP = 2 * np.pi
def R(seed): return rs(seed)
def eqtop(ha, dec):
    sH, cH, sd, cd = np.sin(ha), np.cos(ha), np.sin(dec), np.cos(dec)
    return np.array([[sH, cH, 0], [-sd * cH, sd * sH, cd], [cd * cH, -cd * sH, sd]])
def rotz(a): return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
def roty(a): return np.array([[np.cos(a), 0, np.sin(a)], [0, 1, 0], [-np.sin(a), 0, np.cos(a)]])
def lst_of(loc, jd):
    o = ephem.Observer(); o.pressure = 0; o.lat, o.long = loc[0], loc[1]
    if len(loc) > 2: o.elev = loc[2]
    d = ephem.date(jd - 2415020.); o.date = d; o.epoch = d
    return float(o.sidereal_time())
def rloc(r, elev=False):
    a = (float(r.uniform(-1.4, 1.4)), float(r.uniform(-3, 3)))
    return a + ((float(r.uniform(0, 2000)),) if elev else ())
def rjd(r): return float(2454000 + r.uniform(0, 2000))
def rpos(r, n): return [tuple(float(x) for x in r.uniform(-300, 300, 3)) for _ in range(n)]
def rfreqs(r, nf): return np.sort(r.uniform(.1, .2, nf)) if nf > 1 else r.uniform(.1, .2, 1)
def unitvecs(r, n):
    v = r.normal(size=(3, n)); return v / np.sqrt((v**2).sum(0))
def j1(x): return _j1(x)
def poly(c, f):
    """polynomial with the highest power first, by explicit powers"""
    c = list(c); n = len(c)
    return sum(np.asarray(c[k]) * np.asarray(f, float)**(n - 1 - k) for k in range(n)) + 0 * np.asarray(f, float)
def airy(u, v, shp):
    a1, a2, th = shp
    ru = a1 * (u * np.cos(th) - v * np.sin(th)); rv = a2 * (u * np.sin(th) + v * np.cos(th))
    x = 2 * np.pi * np.sqrt(ru**2 + rv**2)
    with np.errstate(all='ignore'): return np.where(x == 0, 1., np.where(np.abs(x) < 1e-7, 1., 2 * j1(x) / np.where(x == 0, 1, x)))
def pointing_matrix(az, alt, twist):
    """rows of the antenna frame: pointing direction is its z axis"""
    return rotz(-twist).dot(roty(alt - np.pi / 2)).dot(rotz(-(np.pi / 2 - az)))
def beam2d(xyz, xw, yw, nf):
    x, y, z = [np.atleast_1d(c) for c in xyz]
    return np.tile(np.exp(-((np.arcsin(x) / xw)**2 + (np.arcsin(y) / yw)**2) / 4.), (nf, 1))
def beampoly(xyz, P, f):
    x, y, z = [np.atleast_1d(np.asarray(c, float)) for c in xyz]
    az = np.arctan2(x, y); zang = np.arctan2(np.sqrt(x**2 + y**2), z)
    P = np.asarray(P, float); f = np.asarray(f, float)
    out = np.zeros((f.size, x.size))
    for k in range(f.size):
        s = 0
        for n in range(P.shape[0]):
            c = sum(P[n, m] * f[k]**m for m in range(P.shape[1]))
            s = s + (c * .5 if n == 0 else c * np.cos(2 * n * az))
        out[k] = np.exp(-(zang / s)**2 / 2)
    return out
def rpoly2(r):
    a, b = r.randint(1, 4), r.randint(1, 4)
    P = np.zeros((a, b)); P[0] = r.uniform(.5, 1.5, b); P[0, 0] += 1
    for n in range(1, a): P[n] = r.uniform(-.05, .05, b)
    return P
