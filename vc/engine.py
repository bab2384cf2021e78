"""Path exploration, obligations and discharge for the Python verification-condition generator."""
import time, random, math, traceback, os, subprocess, tempfile
from fractions import Fraction
import z3
from . import num
from .num import Num, SBool, SComplex, Unsupported, ATOMS, ZMAP, ZAPP, PI_ATOM

z3.set_param('smt.random_seed', 1)

class PathEnd(BaseException):
    """This path is infeasible or was cut."""

class Obligation:
    drift = False
    def __init__(self, name, status, backend, t, detail='', witness=None):
        self.name, self.status, self.backend, self.t, self.detail, self.witness = name, status, backend, t, detail, witness
    def asdict(self): return dict(name=self.name, status=self.status, backend=self.backend, t=round(self.t, 3), detail=self.detail, witness=self.witness)

_AC = {}
def z3_atoms(*terms):
    out = set()
    for t in terms:
        c = _AC.get(t.get_id())
        if c is None:
            c = (_atoms_of(t), t); _AC[t.get_id()] = c         # the term is kept: its id stays its own
        out |= c[0]
    return out
def _atoms_of(term):
    seen, out, st = set(), set(), [term]
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            a = ZMAP.get(t.decl().name())
            if a is not None: out.add(a)
        elif i in ZAPP: out.add(ZAPP[i])
        st.extend(t.children())
    return out

class Engine:
    def __init__(self, budget_s=120.0, solver_ms=4000, max_paths=4000, seed=1, cvc5=True):
        self.obls = []            # Obligation
        self.budget_s, self.solver_ms, self.max_paths = budget_s, solver_ms, max_paths
        self.rng = random.Random(seed)
        self.solver_s = 0.0
        self.assumptions = set()
        self.functions = {}
        self.errors = []
        self.cvc5 = cvc5
        self.ax_cache = {}; self.lin_cache = {}
        self.covers = {}
        self.default_witness = None
        self.axsum = {}
        d = os.environ.get('VC_DEADLINE'); self.deadline = time.time() + float(d) if d else None

    # ---------------------------------------------------------------- paths
    def explore(self, name, fn):
        """Run fn() on every feasible path. fn sees a fresh path state."""
        num.ENGINE = self
        self.cur = name
        stack = [([], [])]
        npaths = 0; first = len(self.obls)
        t0 = time.time()
        while stack:
            nbad = sum(1 for o in self.obls[first:] if o.status != 'proved' and o.backend != 'engine')
            prefix, self.inherit = stack.pop(); self.events = []
            npaths += 1
            if nbad >= 25: return       # refuted or open on many paths already
            if npaths > self.max_paths or time.time() - t0 > self.budget_s or (self.deadline and time.time() > self.deadline):
                self.obls.append(Obligation(name + ':paths', 'unknown', 'engine', time.time() - t0, 'path/time budget exhausted after %d paths' % npaths))
                return
            self.dec, self.pos, self.prefix = [], 0, prefix
            self.pc, self.alts, self.inputs = [], [], {}
            self.fresh = 0; self.used = {}; self.havocking = False
            self.side_done = set()
            self.vcache = {}
            self.universals = []; self.interest = []; self.hitwitness = {}; self.witnesses = []; self.loopspecs = {}; self.loopstate = {}; self.numerals = {}
            try:
                fn()
                self.covers[name] = self.covers.get(name, 0) + 1
            except PathEnd: pass
            except Unsupported as e:
                if os.environ.get('VC_TRACE'): traceback.print_exc()
                tb = traceback.extract_tb(e.__traceback__)
                loc = [f for f in tb if not f.filename.startswith(os.path.dirname(__file__))]
                self.obls.append(Obligation(name + ':supported', 'unknown', 'engine', 0.0, 'Unsupported: %s at %s' % (e, loc[-1] if loc else tb[-1])))
            except RecursionError as e:
                self.obls.append(Obligation(name + ':supported', 'unknown', 'engine', 0.0, 'RecursionError'))
            except Exception as e:
                if os.environ.get('VC_TRACE'): traceback.print_exc()
                tb = traceback.extract_tb(e.__traceback__)
                self.obls.append(Obligation(name + ':noexcept', 'unknown', 'engine', 0.0, '%s: %s at %s' % (type(e).__name__, e, tb[-1])))
            if os.environ.get('VC_PATHS'):
                with open(os.environ['VC_PATHS'], 'a') as f: f.write('PATH %s %.1f %d %s\n' % (name, time.time() - t0, len(self.obls) - first, ' | '.join(str(z).replace('\n', ' ')[:70] for z in self.pc if True)))
            for a in self.alts: stack.append(a)

    def branch(self, z):
        z = z3.simplify(z)
        if z3.is_true(z): return True
        if z3.is_false(z): return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1; self.dec.append(d)
            self.pc.append(z if d else z3.Not(z))
            return d
        q = self.quick(z)
        if q is not None: t, f = q, not q
        else:
            t = self.feasible(z); f = True if not t else self.feasible(z3.Not(z))
            if not t and not self.feasible(z3.Not(z)): raise PathEnd()
        if t and f:
            self.alts.append((self.dec + [False], list(self.events)))
            d = True
        else: d = t
        self.pos += 1; self.dec.append(d); self.prefix = self.prefix + [d]
        self.pc.append(z if d else z3.Not(z))
        return d

    def choose(self, label):
        """Nondeterministic boolean (explores both)."""
        b = z3.Bool('%s!%d' % (label, self.fresh)); self.fresh += 1
        if self.pos < len(self.prefix): return self.branch(b)
        self.alts.append((self.dec + [False], list(self.events)))
        self.pos += 1; self.dec.append(True); self.prefix = self.prefix + [True]; self.pc.append(b)
        return True

    def assume(self, c):
        if c is True: return
        if c is False: raise PathEnd()
        z = c.z if isinstance(c, SBool) else c
        z = z3.simplify(z)
        if z3.is_true(z): return
        if z3.is_false(z): raise PathEnd()
        self.pc.append(z)

    # ---------------------------------------------------------------- solver
    def axioms(self, terms):
        done, out, todo = set(), [], list(z3_atoms(*terms))
        while todo:
            a = todo.pop()
            if a.id in done: continue
            done.add(a.id)
            if a.axioms is None: continue
            if a.id not in self.ax_cache: self.ax_cache[a.id] = a.axioms(a)
            for t in self.ax_cache[a.id]:
                out.append(t)
                todo.extend(x for x in z3_atoms(t) if x.id not in done)
        return out
    def _check(self, terms, ms):
        s = z3.Solver(); s.set('timeout', int(ms))
        t0 = time.time()
        s.add(*terms); s.add(*self.axioms(terms))
        r = s.check()
        self.solver_s += time.time() - t0
        return r, s
    def linear(self, t):
        c = self.lin_cache.get(t.get_id())
        if c is not None: return c[0]
        k = t.decl().kind() if z3.is_app(t) else None
        ch = t.children()
        if k == z3.Z3_OP_MUL: r = sum(0 if z3.is_rational_value(x) or z3.is_int_value(x) else 1 for x in ch) <= 1
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM): r = z3.is_rational_value(ch[1]) or z3.is_int_value(ch[1])
        elif k in (z3.Z3_OP_POWER, None): r = False
        else: r = True
        r = r and all(self.linear(x) for x in ch)
        self.lin_cache[t.get_id()] = (r, t)
        return r
    def quick(self, z):
        """True/False when the path condition decides z by itself or by its linear part; None otherwise"""
        z = z3.simplify(z); nz = z3.simplify(z3.Not(z))
        ids = set(t.get_id() for t in self.pc)
        if z.get_id() in ids: return True
        if nz.get_id() in ids: return False
        n2 = z3.Not(z)
        if n2.get_id() in ids: return False
        for t in self.pc:
            if z3.is_not(t) and t.children()[0].get_id() == z.get_id(): return False
            if z3.is_not(z) and z.children()[0].get_id() == t.get_id(): return False
        if not self.linear(z): return None
        lin = [t for t in self.pc if self.linear(t)]
        ax = [t for t in self.axioms(lin + [z]) if self.linear(t)]
        for w, v in ((n2, True), (z, False)):
            s = z3.Solver(); s.set('timeout', 300); t0 = time.time()
            s.add(*lin); s.add(*ax); s.add(w)
            r = s.check(); self.solver_s += time.time() - t0
            if r == z3.unsat: return v
        return None
    def feasible(self, z):
        key = ('f', len(self.pc), z.get_id())
        if key in self.vcache: return self.vcache[key][0]
        r, _ = self._check(self.pc + [z], 250)
        v = r != z3.unsat
        self.vcache[key] = (v, z)
        return v
    def past(self, kind, what):
        """what the run this path was forked from found at the same point: obligations and questions before the fork are not repeated"""
        k = len(self.events)
        if k >= len(self.inherit): return None
        e = self.inherit[k]
        if e[0] != kind or e[1] != what: raise Unsupported('the re-execution of a path differs (%s %s, before %s %s)' % (kind, what, e[0], e[1]))
        self.events.append(e); return e
    def valid(self, z):
        h = z.hash(); e = self.past('valid', h)
        if e: return e[2]
        v = self._valid(z); self.events.append(('valid', h, v)); return v
    def _valid(self, z):
        key = ('v', len(self.pc), z.get_id())
        if key in self.vcache: return self.vcache[key][0]
        zs = z3.simplify(z)
        if z3.is_true(zs): v = True
        elif z3.is_false(zs): v = False
        elif self.quick(z) is not None: v = self.quick(z)
        else:
            r, _ = self._check(self.pc + [z3.Not(z)], 600)
            v = r == z3.unsat
        self.vcache[key] = (v, z)
        return v

    def defined(self, x, nonneg=False, pos=False):
        """x is divided by (or under a square root / log): record the definedness side condition."""
        k = (x.key(), nonneg, pos)
        if k in self.side_done: return
        self.side_done.add(k)
        c = (x >= 0) if nonneg else ((x > 0) if pos else (x != 0))
        if c is True: return
        z = SBool.of(c).z
        if self.valid(z): return
        self.assumptions.add('definedness in %s: %s %s' % (self.cur, ('argument >= 0:' if nonneg else 'argument > 0:' if pos else 'divisor != 0:'), str(x)[:120]))
        self.pc.append(z)

    # ---------------------------------------------------------------- obligations
    def prove(self, name, cond):
        e = self.past('prove', name)
        if e: return e[2]
        n = len(self.events); v = self._prove(name, cond); self.events[n:] = [('prove', name, v)]; return v
    def _prove(self, name, cond):
        name = '%s:%s' % (self.cur, name)
        t0 = time.time()
        if cond is True or (not isinstance(cond, SBool) and not hasattr(cond, 'sexpr') and bool(cond)):
            self.obls.append(Obligation(name, 'proved', 'normal-form', time.time() - t0)); return True
        if not isinstance(cond, SBool) and not hasattr(cond, 'sexpr'):
            # definitely false on this path: is the path feasible?
            z = z3.BoolVal(False)
        else: z = cond.z if isinstance(cond, SBool) else cond
        zs = z3.simplify(z)
        if z3.is_true(zs):
            self.obls.append(Obligation(name, 'proved', 'z3-simplify', time.time() - t0)); return True
        r, s = self._check(self.pc + [z3.Not(z)], self.solver_ms)
        if r == z3.unsat:
            self.obls.append(Obligation(name, 'proved', 'z3', time.time() - t0)); return True
        w = self.refute_numeric(z, s if r == z3.sat else None)
        if w is not None:
            self.obls.append(Obligation(name, 'refuted', 'z3+numeric' if r == z3.sat else 'numeric', time.time() - t0,
                                        'goal fails: %s' % str(zs)[:400], w)); return False
        if r == z3.unknown and self.cvc5:
            if self.cvc5_unsat(s):
                self.obls.append(Obligation(name, 'proved', 'cvc5', time.time() - t0)); return True
        self.obls.append(Obligation(name, 'unknown', 'z3', time.time() - t0, '%s: %s' % (r, str(zs)[:400])))
        return False

    def cvc5_unsat(self, s):
        try:
            txt = '(set-logic ALL)\n' + s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
            t0 = time.time()
            p = subprocess.run(['cvc5', '--tlimit=%d' % self.solver_ms, f.name], capture_output=True, text=True, timeout=self.solver_ms / 1000 + 10)
            self.solver_s += time.time() - t0
            os.unlink(f.name)
            return p.stdout.strip().startswith('unsat')
        except Exception: return False

    # ---- numeric refutation: find input values satisfying the path and violating the goal
    def refute_numeric(self, z, solver=None, tries=60):
        goal = [z3.Not(z)] + list(self.pc)
        ids = [a for a in z3_atoms(*goal)]
        base = set(); done = set(); todo = list(ids)
        while todo:
            a = todo.pop()
            if a.id in done: continue
            done.add(a.id)
            if a.kind == 'var': base.add(a)
            for x in a.args:
                for i in x.atoms(): todo.append(ATOMS[i])
            if a.numf is None and a.kind not in ('var',): base.add(a)
        base.discard(PI_ATOM)
        base = sorted(base, key=lambda a: a.id)
        if any(a.meta is not None and not isinstance(a.meta, dict) for a in base): return None      # symbolic sums have no numeric value
        for x in self.inputs.values():
            if isinstance(x, Num):
                for i in x.atoms():
                    if ATOMS[i] not in base and ATOMS[i].kind == 'var' and ATOMS[i] is not PI_ATOM: base.append(ATOMS[i])
        models = []
        if solver is not None:
            try:
                m = solver.model(); env = {}
                for a in base:
                    v = m.eval(a.z, model_completion=True)
                    env[a.id] = _zval(v)
                models.append(env)
            except Exception: pass
        for k in range(tries):
            env = {}
            for a in base:
                lo, hi = a.meta.get('range', (-3, 3)) if a.meta else (-3, 3)
                if a.isint: env[a.id] = self.rng.randint(int(lo), int(hi))
                else: env[a.id] = self.rng.uniform(lo, hi) if k else self.rng.choice([lo, hi, 0.5 * (lo + hi)])
            models.append(env)
        t1 = time.time() + 4
        for env in models:
            if time.time() > t1: break
            env = dict(env); self.zmemo = {}
            try:
                # atoms with a square rule among inputs (e.g. z of a unit vector) are recomputed
                for a in base:
                    if a.meta and a.meta.get('derive'): env[a.id] = a.meta['derive'](env)
                if all(self.zeval(t, env) is True for t in goal):
                    return {n: _wval(v, env) for n, v in self.inputs.items()}
            except (Unsupported, ZeroDivisionError, ValueError, OverflowError, KeyError): continue
        return None

    def zeval(self, t, env):
        k = t.get_id(); mm = self.zmemo
        if k in mm: return mm[k]
        v = mm[k] = self._zeval(t, env); return v
    def zevalr(self, t, env):
        k = t.get_id(); mm = self.zmemo
        if k in mm: return mm[k]
        v = mm[k] = self._zevalr(t, env); return v
    zmemo = {}
    def _zeval(self, t, env):
        """numeric truth of a z3 formula with tolerance: comparisons within 1e-7 are treated as None (unclear)"""
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_TRUE: return True
        if k == z3.Z3_OP_FALSE: return False
        if k == z3.Z3_OP_NOT:
            v = self.zeval(ch[0], env); return None if v is None else not v
        if k == z3.Z3_OP_AND:
            vs = [self.zeval(c, env) for c in ch]
            return False if False in vs else (None if None in vs else True)
        if k == z3.Z3_OP_OR:
            vs = [self.zeval(c, env) for c in ch]
            return True if True in vs else (None if None in vs else False)
        if k == z3.Z3_OP_IMPLIES:
            a, b = self.zeval(ch[0], env), self.zeval(ch[1], env)
            if a is False or b is True: return True
            if a is None or b is None: return None
            return False
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if ch[0].sort() == z3.BoolSort():
                a, b = self.zeval(ch[0], env), self.zeval(ch[1], env)
                if a is None or b is None: return None
                return (a == b) if k == z3.Z3_OP_EQ else (a != b)
            a, b = self.zevalr(ch[0], env), self.zevalr(ch[1], env)
            tol = 0 if (ch[0].sort() == z3.IntSort()) else 1e-7 * (1 + abs(a) + abs(b))
            if k == z3.Z3_OP_EQ: return (abs(a - b) == 0) if tol == 0 else (None if abs(a - b) <= tol else False)
            if k == z3.Z3_OP_DISTINCT: return (a != b) if tol == 0 else (None if abs(a - b) <= tol else True)
            if abs(a - b) <= tol and tol: return None
            return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b}[k]
        if z3.is_const(t) and t.sort() == z3.BoolSort(): return True if env.get(('b', t.decl().name()), True) else False
        raise Unsupported('zeval %s' % t.decl())
    def _zevalr(self, t, env):
        if t.get_id() in ZAPP: return num.num_eval(Num.var(ZAPP[t.get_id()]), env)
        if z3.is_int_value(t): return t.as_long()
        if z3.is_rational_value(t): return float(t.as_fraction())
        if z3.is_const(t):
            a = ZMAP.get(t.decl().name())
            if a is None: raise Unsupported('zevalr const')
            return num.num_eval(Num.var(a), env)
        ch = [self.zevalr(c, env) if c.sort() != z3.BoolSort() else None for c in t.children()]
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD: return sum(ch)
        if k == z3.Z3_OP_SUB: return ch[0] - sum(ch[1:])
        if k == z3.Z3_OP_UMINUS: return -ch[0]
        if k == z3.Z3_OP_MUL:
            r = 1
            for c in ch: r *= c
            return r
        if k == z3.Z3_OP_DIV: return ch[0] / ch[1]
        if k == z3.Z3_OP_TO_REAL: return float(ch[0])
        if k == z3.Z3_OP_POWER: return ch[0] ** ch[1]
        if k == z3.Z3_OP_ITE: return ch[1] if self.zeval(t.children()[0], env) else ch[2]
        raise Unsupported('zevalr %s' % t.decl())

def _zval(v):
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return float(v.as_fraction())
    if z3.is_algebraic_value(v): return float(v.approx(20).as_fraction())
    raise Unsupported('model value')

def _wval(v, env):
    if isinstance(v, Num):
        r = num.num_eval(v, env)
        return int(round(r)) if v.isint else r
    if isinstance(v, SComplex): return [_wval(v.re, env), _wval(v.im, env)]
    if isinstance(v, (list, tuple)): return [_wval(x, env) for x in v]
    if isinstance(v, dict): return {k: _wval(x, env) for k, x in v.items()}
    return v
