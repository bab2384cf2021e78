"""Convenience layer for writing contracts: symbolic inputs, goals, and the per-property obligation sets."""
import math, hashlib, struct
import z3
from . import num, npsym, engine as _engine
from .num import Num, SBool, SComplex, Unsupported, b_and, b_or, b_not, implies, atom, PI
from .engine import Engine, PathEnd
from .pyload import Loader

def E(): return num.ENGINE

def fresh(name, kind, record):
    """the state a loop or call may leave is another value each time; an input of the same name is the same input"""
    if record and not E().__dict__.get('havocking'): return name
    u = E().__dict__.setdefault('used', {}); k = u.get((name, kind), 0); u[name, kind] = k + 1
    return name if not k else '%s~%d' % (name, k)
def real(name, lo=-3.0, hi=3.0, record=True):
    name = fresh(name, 'r', record)
    a = atom(('in', name, 'r'), name)
    if a.meta is None or 'range' not in a.meta: a.meta = dict(a.meta or {}, range=(lo, hi))
    v = Num.var(a)
    if record: E().inputs[name] = v
    return v
def integer(name, lo=None, hi=None, ge=None, lt=None, record=True):
    name = fresh(name, 'i', record)
    a = atom(('in', name, 'i'), name, True)
    a.meta = dict(range=(lo if lo is not None else -3, hi if hi is not None else 9))
    v = Num.var(a)
    if ge is not None: E().assume(v >= ge)
    if lt is not None: E().assume(v < lt)
    if record: E().inputs[name] = v
    return v
def size(name, mn=2):
    """an array dimension, any integer >= mn"""
    return integer(name, lo=mn, hi=mn + 4, ge=mn)
def index(name, n):
    """an arbitrary index below n"""
    if isinstance(n, int) and n == 1: return Num.of(0)
    v = integer(name, lo=0, hi=3, ge=0)
    E().assume(v < n)
    return v
def cplx(name):
    return SComplex(real(name + '_re'), real(name + '_im'))

def _hashval(name, idx, lo, hi):
    h = hashlib.md5(repr((name, tuple(int(round(i)) for i in idx))).encode()).digest()
    return lo + (hi - lo) * (struct.unpack('<Q', h[:8])[0] / 2.0**64)
_FUNCS = {}
def func(name, idx, isint=False, lo=-3.0, hi=3.0, axioms=None):
    """application of an uninterpreted function of integer/real arguments (congruent by construction)"""
    idx = [Num.of(i) for i in idx]
    a = atom(('fn', name, isint) + tuple(i.key() for i in idx), '%s[%s]' % (name, ','.join(map(repr, idx))), isint, 'el', tuple(idx))
    if a.meta is None:
        a.meta = dict(range=(lo, hi))
        ints = [i.isint for i in idx]
        fk = (name, isint, tuple(ints))
        if fk not in _FUNCS:
            _FUNCS[fk] = z3.Function(name, *([z3.IntSort() if k else z3.RealSort() for k in ints] + [z3.IntSort() if isint else z3.RealSort()]))
        if idx:
            a.z = _FUNCS[fk](*[i.z if k else i.zr for i, k in zip(idx, ints)])
            num.ZAPP[a.z.get_id()] = a
        if axioms is not None: a.axioms = axioms
        if isint: a.numf = lambda ev, nm=name: math.floor(_hashval(nm, [ev(i) for i in idx], lo, hi + 1))
        else: a.numf = lambda ev, nm=name: _hashval(nm, [ev(i) for i in idx], lo, hi)
    return Num.var(a)
def array(name, shape, kind='f', lo=-3.0, hi=3.0, axioms=None, record=True):
    """an arbitrary array: every element an unconstrained symbolic value"""
    def f(idx):
        if kind == 'c': return SComplex(func(name + '.re', idx, lo=lo, hi=hi), func(name + '.im', idx, lo=lo, hi=hi))
        if kind == 'b': return func(name, idx, True, 0, 1, axioms=lambda a: [a.z >= 0, a.z <= 1]) == 1
        return func(name, idx, kind == 'i', lo, hi, axioms=axioms)
    if not isinstance(shape, (tuple, list)): shape = (shape,)
    r = npsym.ndarray(shape, f, kind)
    if record: E().inputs[name] = ('array', [s if isinstance(s, int) else s for s in r._shape], kind)
    return r
def unit(name, parts=None):
    """an arbitrary vector of unit length (z^2 = 1 - x^2 - y^2)"""
    x, y = real(name + '_x', -0.7, 0.7), real(name + '_y', -0.7, 0.7)
    az = atom(('in', name + '_z', 'r'), name + '_z')
    if az.sq is None:
        X, Y = x, y
        az.sq = (1 - X * X - Y * Y).n
        zx, zy = num.ATOMS[next(iter(X.atoms()))], num.ATOMS[next(iter(Y.atoms()))]
        az.axioms = lambda a: [zx.z * zx.z + zy.z * zy.z + a.z * a.z == 1]
        az.meta = dict(range=(-1, 1), derive=lambda env: math.copysign(math.sqrt(1 - env.get(zx.id, 0.3)**2 - env.get(zy.id, 0.4)**2), env.get(az.id, 1.)))
    z = Num.var(az)
    E().inputs[name + '_z'] = z
    return x, y, z

def assume(c): E().assume(c)
def prove(name, c): return E().prove(name, c)
def eq(name, a, b):
    """a == b for scalars (real or complex)"""
    if isinstance(a, npsym.ndarray) and a.ndim == 0: a = a.at()
    if isinstance(b, npsym.ndarray) and b.ndim == 0: b = b.at()
    if isinstance(a, (SComplex, complex)) or isinstance(b, (SComplex, complex)):
        a, b = SComplex.of(a), SComplex.of(b)
        return prove(name + '.re', Num.of(a.re) == b.re) and prove(name + '.im', Num.of(a.im) == b.im)
    return prove(name, Num.of(a) == Num.of(b))
def eqarr(name, a, b):
    """element by element, for arrays of concrete shape"""
    a = npsym.asarray(a); b = npsym.asarray(b)
    if tuple(a._shape) != tuple(b._shape):
        return prove(name + '.shape', all(npsym.dim_eq(x, y) for x, y in zip(a._shape, b._shape)) and len(a._shape) == len(b._shape)) 
    for i in a.indices(): eq('%s%s' % (name, list(i)), a.at(*i), b.at(*i))
def shape_is(name, a, shape):
    a = npsym.asarray(a)
    prove(name, len(a._shape) == len(shape) and all(npsym.dim_eq(x, npsym.dim(y)) for x, y in zip(a._shape, shape)))
def same_angle(name, t, u):
    """t and u are the same angle: difference a multiple of 2 pi is excluded by |t-u| < 2 pi; equal cos and sin"""
    ct, st = num.cossin(t); cu, su = num.cossin(u)
    return eq(name + '.cos', ct, cu) and eq(name + '.sin', st, su)
def in_range(name, t, lo, hi, lo_open=False, hi_open=False):
    prove(name + '.lo', (t > lo) if lo_open else (t >= lo)); prove(name + '.hi', (t < hi) if hi_open else (t <= hi))
def angle_eq(name, t, u, lo, hi, hi_open=True):
    """t == u: both in the same half-open interval of length 2 pi (or a closed one of at most pi), equal cos and sin.
    Lemma used (trusted): an angle is determined by its cosine and sine within such an interval."""
    in_range(name + '.t', t, lo, hi, not hi_open, hi_open); in_range(name + '.u', u, lo, hi, not hi_open, hi_open)
    return same_angle(name, t, u)
def instantiate(*idx):
    """use what np.all / np.any told about every element at these indices"""
    for shape, el in list(E().universals):
        if len(shape) != len(idx): continue
        c = [b_and(Num.of(i) >= 0, Num.of(i) < Num.of(d)) for i, d in zip(idx, shape)]
        E().assume(SBool.of(implies(b_and(*c), el(tuple(idx)))))
def raises(exc, f):
    try: f()
    except exc: return True
    return False
def ndarr(x): return npsym.array(x)

def comprehension(fn, call):
    """Run call() where the function's only loops are comprehensions over ranges; returns (result, index records).
    The result is the list holding the generic element; records list the index variables with their bounds in nesting order."""
    import ast, inspect, textwrap
    src = _func_ast(fn)
    for n in ast.walk(src):
        if isinstance(n, (ast.For, ast.While, ast.NamedExpr, ast.Yield, ast.Try, ast.Lambda)): raise Unsupported('loop statement')
        if isinstance(n, ast.comprehension) and n.ifs: raise Unsupported('filtered comprehension')
    e = E(); e.comp = []
    try: return call(), e.comp
    finally: e.comp = None
_ASTS = {}
def _func_ast(fn):
    import ast
    code = fn.__code__
    f = code.co_filename
    if f not in _ASTS: _ASTS[f] = ast.parse(open(f).read())
    for n in ast.walk(_ASTS[f]):
        if isinstance(n, ast.FunctionDef) and n.name == code.co_name and n.lineno <= code.co_firstlineno <= n.end_lineno: return n
    raise Unsupported('source of %s' % code.co_name)

def modular(obj, name, contract):
    """replace a method by its contract (verified separately); using(...) requires that it was called"""
    import types
    if not hasattr(obj, name): raise Unsupported('no method %s' % name)
    calls = []
    def f(*a, **k):
        calls.append((a, k)); return contract(*a, **k)
    object.__setattr__(obj, name, f)
    f.calls = calls
    return f
def using(*fs):
    for f in fs:
        if not f.calls: raise Unsupported('callee under contract was not called')

def os_env_only():
    import os
    return bool(os.environ.get('VC_ONLY'))
class Suite:
    """the obligations of one property"""
    def __init__(self, root, stubs=None, transforms=None, **kw):
        self.E = Engine(**kw)
        self.root = root
        self.L = Loader(root, stubs, transforms)
        self.replays = {}; self.trusted = []; self.assumptions = []; self.extra = []; self.self_tests = {}; self.kids = []
    def fn(self, name, functions, replay=None):
        """decorator: one function-under-contract exploration; the body receives a fresh module session.
        replay = (check name in rac/, witness -> inputs)"""
        if replay: self.replays[name] = replay
        def deco(f):
            import os, time, sys
            only = os.environ.get('VC_ONLY')
            if only and not any(x in name for x in only.split(',')): return f
            if self.spawn(lambda: work(f, name, functions)): self.E.functions.setdefault(name, functions); return f
            return work(f, name, functions)
        def work(f, name, functions):
            import os, time, sys
            t0 = time.time()
            def run(): f(self.L.session())
            self.E.functions.setdefault(name, functions)
            if self.E.deadline and time.time() > self.E.deadline:
                self.E.obls.append(_engine.Obligation(name + ':time', 'unknown', 'engine', 0.0, 'not reached within the time limit')); return f
            n0 = len(self.E.obls)
            self.E.drift = False
            try: self.E.explore(name, run)
            except Exception as e:
                self.E.obls.append(_engine.Obligation(name + ':engine', 'unknown', 'engine', 0.0, '%s: %s' % (type(e).__name__, e)))
            if self.E.drift:
                for o in self.E.obls[n0:]: o.drift = True
            if len(self.E.obls) == n0:
                self.E.obls.append(_engine.Obligation(name + ':vacuous', 'unknown', 'engine', 0.0, 'no obligation reached'))
            if os.environ.get('VC_TIME'): print('%8.2fs %4d obligations, %d paths  %s' % (time.time() - t0, len(self.E.obls) - n0, self.E.covers.get(name, 0), name), file=sys.stderr, flush=True)
            return f
        return deco
    # ---- functions are explored in parallel: a child process per function, results gathered in order
    def spawn(self, job):
        import os, pickle, tempfile, time
        J = int(os.environ.get('VC_JOBS', '6'))
        if os.environ.get('VC_PATHS'): return False
        while sum(1 for k in self.kids if k[2] is None) >= J: self.reap(True)
        fd, path = tempfile.mkstemp(prefix='vc_'); os.close(fd)
        pid = os.fork()
        if pid:
            self.kids.append([pid, path, None]); return True
        rc = 1
        try:
            e = self.E; e.obls = []; e.covers = {}; e.solver_s = 0.0; e.assumptions = set(); self.self_tests = {}
            job()
            with open(path, 'wb') as f: pickle.dump((e.obls, e.covers, e.solver_s, e.assumptions, self.self_tests), f)
            rc = 0
        except BaseException as x:
            import traceback; traceback.print_exc()
        finally: os._exit(rc)
    def reap(self, block):
        import os
        while True:
            try: pid, st = os.waitpid(-1, 0 if block else os.WNOHANG)
            except ChildProcessError: 
                for k in self.kids:
                    if k[2] is None: k[2] = -1
                return
            if pid == 0: return
            for k in self.kids:
                if k[0] == pid: k[2] = st; return
    def gather(self):
        import os, pickle
        while any(k[2] is None for k in self.kids): self.reap(True)
        for pid, path, st in self.kids:
            try:
                if st != 0: raise ValueError('status %s' % st)
                with open(path, 'rb') as f: o, c, t, a, s = pickle.load(f)
            except Exception as x:
                self.E.obls.append(_engine.Obligation('worker:ended', 'unknown', 'engine', 0.0, 'a prover process failed: %s' % x)); continue
            finally:
                if os.path.exists(path): os.unlink(path)
            self.E.obls += o; self.E.solver_s += t; self.E.assumptions |= a; self.self_tests.update(s)
            for k, v in c.items(): self.E.covers[k] = self.E.covers.get(k, 0) + v
        self.kids = []
    def must_fail(self, name, f):
        """a deliberately false obligation: the prover has to reject it"""
        if os_env_only(): return
        if not self.spawn(lambda: self._must_fail(name, f)): self._must_fail(name, f)
    def _must_fail(self, name, f):
        import time
        if self.E.deadline and time.time() > self.E.deadline: return
        n0 = len(self.E.obls); fs = dict(self.E.functions); cv = dict(self.E.covers)
        self.E.explore('mustfail.' + name, lambda: f(self.L.session()))
        new = self.E.obls[n0:]; del self.E.obls[n0:]
        self.E.functions = fs; self.E.covers = cv
        ok = any(o.status != 'proved' and o.backend != 'engine' for o in new)
        self.self_tests[name] = ok
        if not ok: self.E.obls.append(_engine.Obligation('selftest:' + name, 'unknown', 'engine', 0.0, 'the prover accepted a false obligation'))
    def result(self):
        self.gather()
        out = []
        for o in self.E.obls:
            d = o.asdict()
            d['soft'] = o.backend == 'engine' or o.drift
            g = o.name.split(':')[0]
            if g in self.replays and o.witness is not None:
                try: d['replay'] = dict(check=self.replays[g][0], inputs=self.replays[g][1](o.witness))
                except Exception as e: d['replay_error'] = str(e)
            out.append(d)
        out += self.extra
        return dict(obligations=out, functions=self.E.functions, assumptions=sorted(self.E.assumptions) + self.assumptions, solver_s=self.E.solver_s,
                    covers=self.E.covers, trusted=self.trusted, self_tests=self.self_tests)
