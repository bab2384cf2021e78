from lib import *
from aipy import fit
import copy
def rdict(r, depth, seqs=True):
    out = {}
    n = r.randint(0, 5)
    for k in r.choice(list('abcdeXYZ') + ['k%d' % i for i in range(12)] + ['10', '9', ''], n, replace=False):
        c = r.randint(0, 6 if depth else 4); v = lambda: float(r.normal()) if r.randint(2) else int(r.randint(-5, 5))
        if c == 0: out[str(k)] = v()
        elif c == 1: out[str(k)] = [v() for _ in range(r.randint(1, 5))]
        elif c == 2: out[str(k)] = tuple(v() for _ in range(r.randint(1, 4)))
        elif c == 3: out[str(k)] = r.normal(size=r.randint(1, 5))
        else: out[str(k)] = rdict(r, depth - 1)
    return out
def walk(d, path=()):
    """(path, position or None, value) of every number, keys in sorted order"""
    for k in sorted(d):
        v = d[k]
        if isinstance(v, dict): yield from walk(v, path + (k,))
        elif hasattr(v, '__len__'):
            for i, x in enumerate(v): yield path + (k,), i, x
        else: yield path + (k,), None, v
def same_dict(a, b, what):
    if sorted(a) != sorted(b): fail('%s: keys %r != %r' % (what, sorted(a), sorted(b)))
    for k in a:
        if isinstance(b[k], dict):
            if not isinstance(a[k], dict): fail('%s: %s is no dictionary' % (what, k))
            same_dict(a[k], b[k], what)
        elif hasattr(b[k], '__len__') and len(b[k]) > 1: is_(list(a[k]), list(b[k]), what + ' ' + k)
        else:
            x = b[k][0] if hasattr(b[k], '__len__') else b[k]
            if hasattr(a[k], '__len__'): fail('%s: %s came back as %r' % (what, k, a[k]))
            is_(a[k], x, what + ' ' + k)
def frozen(d): return repr([(p, i, x) for p, i, x in walk(d)]) + repr(sorted(map(str, d)))
@check(lambda rng, k: dict(seed=rng.randrange(10**6)), 400)
def flat(seed):
    r = rs(seed); d = rdict(r, 3); f0 = frozen(d)
    L, K = fit.flatten_prms(d); is_(frozen(d), f0, 'input dictionary')
    W = list(walk(d))
    is_(len(L), len(W), 'length'); is_([float(x) for x in L], [float(x) for _, _, x in W], 'flat list in sorted key order')
    L0 = list(L); same_dict(fit.reconstruct_prms(L, K), d, 'unflattened'); is_(list(L), L0, 'input list')
    same_dict(fit.reconstruct_prms(L, K), d, 'unflattened again')
    # any other list of the same length goes back to its own places
    for form in (list, np.array):
        new = [float(1000 + i) for i in range(len(L))]; D = fit.reconstruct_prms(form(new), K)
        got = list(walk(D)); is_([x for _, _, x in got], new, 'changed numbers'); is_([p for p, _, _ in got], [p for p, _, _ in W], 'places')
    if L:
        i = r.randint(len(L)); new = list(L0); new[i] = 12345.; D = fit.reconstruct_prms(new, K)
        for (p, _, a), (_, _, b), q in zip(walk(D), W, range(len(L))): is_(float(a), 12345. if q == i else float(b), 'one changed number')
    L2, K2 = fit.flatten_prms(d); is_([float(x) for x in L2], [float(x) for x in L0], 'flattened again')
    # a reconstructed dictionary does not share the list's elements
    D = fit.reconstruct_prms(L0, K); is_(L0, list(L), 'list after reconstruction')
@check(lambda rng, k: dict(seed=rng.randrange(10**6)), 60)
def models(seed):
    """the parameters of real sources and antennas survive the trip and can be set back"""
    r = rs(seed); n = r.randint(1, 4); f = np.array([.1, .15, .2])
    cat = fit.SrcCatalog([fit.RadioFixedBody(float(r.uniform(0, 6)), float(r.uniform(-1, 1)), name='s%d' % k, jys=float(r.uniform(1, 9))) for k in range(n)])
    d = cat.get_params(); L, K = fit.flatten_prms(d); same_dict(fit.reconstruct_prms(L, K), d, 'catalogue')
    new = [x + 1 + k for k, x in enumerate(L)]; cat.set_params(fit.reconstruct_prms(new, K)); L2, _ = fit.flatten_prms(cat.get_params())
    mf = [K['s%d' % q]['mfreq'][0] for q in range(n)]
    for k in range(len(L)):
        if k not in mf: is_(float(L2[k]), float(new[k]), 'parameter set back')
    a = fit.AntennaArray((0., 0.), [fit.Antenna(1., 2., 3., fit.Beam2DGaussian(f, .3, .4), phsoff=[1., 2.], bp_r=[1., 2.], bp_i=[0., 1., 2.]) for _ in range(n)])
    d = a.get_params(); L, K = fit.flatten_prms(d); same_dict(fit.reconstruct_prms(L, K), d, 'array')
