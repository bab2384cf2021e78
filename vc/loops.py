"""Loop contracts for Python: the loop statements of a named function are replaced mechanically (AST transform of the
text in /repo, on every run) by the usual cut: establish the invariant, then either run the body once from an
arbitrary state satisfying it and show it again, or leave the loop in such a state. Loops without a registered
contract run as they are."""
import ast
from . import num, names
from .num import Num, SBool, Unsupported
from .engine import PathEnd

class Poison:
    """a variable assigned in the loop that the invariant does not describe"""
    def __init__(self, n): self.__dict__['n'] = n
    def _no(self, *a, **k): raise Unsupported('loop variable %s is used but not described by the invariant' % self.__dict__['n'])
    __getattr__ = __str__ = __int__ = __float__ = __index__ = __format__ = __mod__ = __rmod__ = __floordiv__ = __pow__ = __abs__ = __contains__ = __call__ = __iter__ = __bool__ = __len__ = __getitem__ = __setitem__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __neg__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__ = _no
    __hash__ = None

class Names(ast.NodeVisitor):
    def __init__(self): self.s = []
    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.s: self.s.append(n.id)
    def visit_FunctionDef(self, n):
        if n.name not in self.s: self.s.append(n.name)
    def visit_Lambda(self, n): pass
    def visit_ListComp(self, n): pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
def assigned(stmts):
    v = Names()
    for s in stmts: v.visit(s)
    # augmented assignment of an attribute or element changes the object, not the name
    return v.s
class Brk(ast.NodeTransformer):
    """break out of the original loop -> leave the single-pass loop with the flag set"""
    def __init__(self, flag): self.flag = flag; self.used = False
    def visit_Break(self, n):
        self.used = True
        return [ast.Assign([ast.Name(self.flag, ast.Store())], ast.Constant(True)), ast.Break()]
    def visit_For(self, n): 
        n.orelse = [y for x in n.orelse for y in self._l(self.visit(x))]; return n
    visit_While = visit_For
    def _l(self, x): return x if isinstance(x, list) else [x]
    def visit_FunctionDef(self, n): return n
DRIFT = set()
class Ren(ast.NodeTransformer):
    def __init__(self, m): self.m = m
    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id); return n
def nloops(n): return sum(isinstance(x, (ast.For, ast.While)) for x in ast.walk(n))
class T(ast.NodeTransformer):
    def __init__(self, wanted): self.wanted = wanted; self.stack = []; self.count = []
    def visit_ClassDef(self, n):
        self.stack.append(n.name); self.generic_visit(n); self.stack.pop(); return n
    def visit_FunctionDef(self, n):
        q = '.'.join(self.stack + [n.name])
        if q in self.wanted:
            params = set(a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x])
            mp, drift = names.mapping('py', q, [v for v in assigned(n.body) if v not in params], nloops(n), [x.id for x in ast.walk(n) if isinstance(x, ast.Name)] + sorted(params))
            if mp: Ren(mp).visit(n)
            if drift: DRIFT.add(q)
            else: DRIFT.discard(q)
        outer = getattr(self, 'locals', set()); self.locals = set(a.arg for a in n.args.args + n.args.kwonlyargs + ([n.args.vararg] if n.args.vararg else [])) | set(assigned(n.body))
        self.stack.append(n.name); self.count.append(0); self.generic_visit(n); self.count.pop(); self.stack.pop(); self.locals = outer; return n
    def loop(self, n):
        q = '.'.join(self.stack)
        if not self.count or q not in self.wanted: return self.generic_visit(n)
        k = self.count[-1]; self.count[-1] += 1
        key = '%s:%d' % (q, k); tag = '__vcl%d' % k
        import copy
        n = self.generic_visit(n)          # inner loops get their own numbers, in source order after this one
        orig = copy.deepcopy(n)
        isfor = isinstance(n, ast.For)
        mod = assigned(n.body + ([ast.Assign([n.target], ast.Constant(0))] if isfor else []))
        mod = [v for v in mod if not v.startswith('__vcl')]
        mut = [v for v in mutated(n.body) if v not in mod and v in self.locals and not v.startswith('__vcl')]
        call = lambda m, *a: ast.Call(ast.Attribute(ast.Name('__vc_loops__', ast.Load()), m, ast.Load()), [ast.Constant(key)] + list(a), [])
        loc = lambda: ast.Call(ast.Name('locals', ast.Load()), [], [])
        nm = ast.Constant(tuple(mod)); allv = mod + mut
        out = []
        def rebind(): return [ast.Assign([ast.Tuple([ast.Name(v, ast.Store()) for v in allv], ast.Store())], call('havoc', nm, ast.Constant(tuple(mut)), loc()))] if allv else [ast.Expr(call('havoc', nm, ast.Constant(tuple(mut)), loc()))]
        brk = Brk(tag + 'b'); body = []
        for s in n.body:
            r = brk.visit(copy.deepcopy(s)); body += r if isinstance(r, list) else [r]
        gen = rebind()
        gen.append(ast.Assign([ast.Name(tag + 'b', ast.Store())], ast.Constant(False)))
        if isfor: gen.append(ast.Assign([copy.deepcopy(n.target)], call('item', loc())))
        else: gen.append(ast.Expr(call('guard', n.test)))
        gen.append(ast.Expr(call('mark', loc())))
        gen.append(ast.For(ast.Name(tag + 'o', ast.Store()), ast.Tuple([ast.Constant(0)], ast.Load()), body, []))
        gen.append(ast.If(ast.UnaryOp(ast.Not(), ast.Name(tag + 'b', ast.Load())), [ast.Expr(call('preserve', loc()))], []))
        ex = rebind() + [ast.Expr(call('leave', loc(), *([] if isfor else [n.test])))] + (n.orelse or [])
        act = [ast.Expr(call('enter', n.iter if isfor else ast.Constant(None), loc())), ast.If(call('generic'), gen, ex)]
        return ast.If(call('active'), act, [orig])
    visit_For = visit_While = loop
def base_name(n):
    while isinstance(n, (ast.Subscript, ast.Attribute)): n = n.value
    return n.id if isinstance(n, ast.Name) else None
def mutated(stmts):
    out = []
    for s in stmts:
        for n in ast.walk(s):
            b = None
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)): b = base_name(n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute): b = base_name(n.func)
            if b and b not in out: out.append(b)
    return out
class Comps(ast.NodeTransformer):
    """[E for x in it] -> __vc_map__(lambda x: E, it): over a list of unknown length the result is the list whose k-th
    element is E of the k-th element (evaluated when it is read; local variables are captured at once)"""
    def __init__(self): self.locals = []
    def visit_FunctionDef(self, n):
        a = n.args
        self.locals.append(set(x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])) | set(assigned(n.body)))
        self.generic_visit(n); self.locals.pop(); return n
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) != 1 or n.generators[0].ifs or n.generators[0].is_async or not self.locals: return n
        g = n.generators[0]
        if isinstance(g.target, ast.Name): names = [g.target.id]
        elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts): names = [e.id for e in g.target.elts]
        else: return n
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(n)): return n
        allow = set().union(*self.locals)
        free = sorted(set(x.id for x in ast.walk(n.elt) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)) & self.locals[-1] - set(names))
        lam = ast.Lambda(ast.arguments([], [ast.arg(x) for x in names + free], None, [], [], None, [ast.Name(x, ast.Load()) for x in free]), n.elt)
        return ast.Call(ast.Name('__vc_map__', ast.Load()), [lam, ast.Constant(len(names) if isinstance(g.target, ast.Tuple) else 0), g.iter], [])
def vc_map(f, nt, it):
    from . import seq, pyload
    if isinstance(it, pyload.SymRange) and num.engine().__dict__.get('comp') is None and it.step == 1 and not nt:
        lo, hi = Num.of(it.lo), Num.of(it.hi); n = hi - lo if bool(lo < hi) else Num.of(0)
        return seq.SymList(n, lambda k: f(lo + k))
    if isinstance(it, seq.SymList):
        h = it.f
        def el(k):
            if nt:
                v = h(k)
                if not isinstance(v, (tuple, list)) or len(v) != nt: raise Unsupported('unpacking')
                return f(*v)
            return f(h(k))
        return seq.SymList(it.n, el)
    return [f(*x) for x in it] if nt else [f(x) for x in it]
def transform(*funcs):
    def f(tree): return ast.fix_missing_locations(T(set(funcs)).visit(tree))
    return f

class Spec:
    """count: number of iterations (None for while); item(k): the k-th element; havoc(k, env) -> {name: value};
    inv(k, env) -> None, calling prove(name, cond) or assume through the ask argument"""
    def __init__(self, inv, havoc, count=None, item=None, exhausts=None):
        self.inv, self.havoc_f, self.count, self.item_f = inv, havoc, count, item
class Runtime:
    def _e(self): return num.engine()
    def specs(self): return self._e().__dict__.setdefault('loopspecs', {})
    def active(self, key):
        if key in self.specs():
            if key.split(':')[0] in DRIFT: self._e().drift = True
            return True
        return False
    def st(self): return self._e().__dict__.setdefault('loopstate', {})
    def enter(self, key, it, env):
        sp = self.specs()[key]; st = {}
        self.st()[key] = st
        n = sp.count(it, env) if sp.count else None
        st['n'], st['it'] = n, it
        self.run(sp, key, 'establish', Num.of(0), env)
    def run(self, sp, key, stage, k, env):
        E = self._e(); st = self.st()[key]
        def ask(name, c): E.prove('loop %s %s %s' % (key, stage, name), c)
        def use(name, c): E.assume(SBool.of(c))
        sp.inv(k, env, ask if stage in ('establish', 'preserve') else use)
    def generic(self, key):
        E = self._e(); st = self.st()[key]; sp = self.specs()[key]
        g = E.choose('loop'); st['generic'] = g
        if g:
            E.fresh += 1
            k = Num.var(num.atom(('ix', E.cur, E.fresh, 'loop' + key), 'it%d' % E.fresh, True))
            num.ATOMS[next(iter(k.atoms()))].meta = dict(range=(0, 4))
            E.assume(k >= 0)
            if st['n'] is not None: E.assume(SBool.of(k < st['n']))
            st['k'] = k
        else:
            if st['n'] is not None: st['k'] = Num.of(st['n'])
            else:
                E.fresh += 1
                k = Num.var(num.atom(('ix', E.cur, E.fresh, 'loop' + key), 'it%d' % E.fresh, True)); E.assume(k >= 0); st['k'] = k
        return g
    def havoc(self, key, names, mut, env):
        sp = self.specs()[key]; st = self.st()[key]
        E_ = num.ENGINE; old = E_.__dict__.get('havocking', False); E_.havocking = True
        try: d = sp.havoc_f(st['k'], env)
        finally: E_.havocking = old
        st['havoc'] = d
        out = {}
        for n in names: out[n] = d[n] if n in d else Poison(n)
        for n in mut: out[n] = d[n] if n in d else env.get(n, Poison(n))
        names = tuple(names) + tuple(mut)
        extra = [n for n in d if n not in names and n not in env]
        if extra: raise Unsupported('loop contract names unknown variables %s' % extra)
        for n in d:
            if n not in names and d[n] is not env.get(n): raise Unsupported('loop contract changes %s, which the loop does not assign' % n)
        E2 = dict(env); E2.update(out)
        if st['generic']: self.run(sp, key, 'assume', st['k'], E2)
        return tuple(out[n] for n in names)
    def item(self, key, env):
        sp = self.specs()[key]; st = self.st()[key]
        return sp.item_f(st['k'], st['it'], env)
    def guard(self, key, c):
        if not (c if isinstance(c, bool) else bool(c)): raise PathEnd()
    def snap(self, env, d):
        from . import npsym, seq
        out = {}
        for n, v in env.items():
            if n in d: continue
            if isinstance(v, npsym.ndarray): out[n] = (v, v.cell.ver)
            elif type(v) in (list, dict, set): out[n] = (v, repr([id(x) for x in v]) if type(v) is not dict else repr([(k, id(x)) for k, x in v.items()]))
            elif isinstance(v, seq.Sym): out[n] = (v, v.ver)
        return out
    def mark(self, key, env):
        st = self.st()[key]; st['snap'] = self.snap(env, st['havoc'])
    def preserve(self, key, env):
        from . import npsym, seq
        sp = self.specs()[key]; st = self.st()[key]
        for n, (v, ver) in st['snap'].items():
            now = v.cell.ver if isinstance(v, npsym.ndarray) else v.ver if isinstance(v, seq.Sym) else (repr([id(x) for x in v]) if type(v) is not dict else repr([(k, id(x)) for k, x in v.items()]))
            if now != ver: raise Unsupported('the loop changes %s, which its contract does not describe' % n)
        self.run(sp, key, 'preserve', st['k'] + 1, env)
        raise PathEnd()
    def leave(self, key, env, test=None):
        sp = self.specs()[key]; st = self.st()[key]
        self.run(sp, key, 'assume', st['k'], env)
        if test is not None and (test if isinstance(test, bool) else bool(test)): raise PathEnd()
RT = Runtime()
def contract(key, inv, havoc, count=None, item=None):
    RT.specs()[key] = Spec(inv, havoc, count, item)
