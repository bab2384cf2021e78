"""Contracts on the C and C++ sources: /repo's files are compiled by clang (on every run, unoptimised, to LLVM IR) and
the functions under contract are executed symbolically over that IR with the same engine that runs the Python code.
Integers are mathematical unless narrowed (narrowing is exact), floating point is real arithmetic, memory is a set of
separate objects; every access is an obligation (decodable address, in bounds, right type). Loops with a registered
contract are cut at their head: invariant established, arbitrary state assumed, one iteration, invariant again."""
import os, re, subprocess, sys, tempfile, hashlib
from fractions import Fraction
import z3
from . import num, names
from .num import Num, SBool, Unsupported, b_and, b_or, b_not
from .engine import PathEnd

def E(): return num.ENGINE
# ------------------------------------------------------------------------------------------------- compiling and parsing
def _py(code):
    return subprocess.run(['/opt/venv/bin/python', '-c', code], capture_output=True, text=True).stdout.strip()
_INC = []
def includes(root):
    if not _INC: _INC.extend([_py('import sysconfig; print(sysconfig.get_paths()["include"])'), _py('import numpy; print(numpy.get_include())')])
    return ['-I' + p for p in _INC] + ['-I' + os.path.join(root, d) for d in ('_common', '_dsp', '_dsp/grid', '_miriad', '_miriad/mir')]
CLANG = next((p for p in ('/usr/bin/clang-18', '/usr/lib/llvm-18/bin/clang', '/usr/bin/clang') if os.path.exists(p)), 'clang')
def compile_ir(root, src):
    with tempfile.TemporaryDirectory() as d:
        out = os.path.join(d, 'o.ll')
        p = subprocess.run([CLANG, '-O0', '-g', '-fno-discard-value-names', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-S', '-emit-llvm', '-w',
                            '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION'] + includes(root) + [os.path.join(root, src), '-o', out], capture_output=True, text=True)
        if p.returncode: raise Unsupported('clang: %s' % p.stderr[:300])
        return open(out).read()

NAME = r'[%@](?:"[^"]*"|[-\w.$]+)'
def split_args(s):
    """split at top-level commas"""
    out, d, cur, q = [], 0, '', False
    for c in s:
        if c == '"': q = not q
        if not q:
            if c in '([{<': d += 1
            elif c in ')]}>': d -= 1
            elif c == ',' and d == 0: out.append(cur.strip()); cur = ''; continue
        cur += c
    if cur.strip(): out.append(cur.strip())
    return out
ATTR = re.compile(r'^(?:noundef|nonnull|signext|zeroext|inreg|nocapture|readonly|readnone|writeonly|noalias|returned|immarg|nofree|(?:align|dereferenceable|dereferenceable_or_null|sret|byval|elementtype)(?:\s*\([^)]*\)|\s+\d+))\s*')
def strip_attrs(s):
    while True:
        m = ATTR.match(s)
        if not m: return s
        s = s[m.end():]
def take_type(s):
    """-> (type text, rest)"""
    s = s.strip()
    m = re.match(r'(?:i\d+|ptr|float|double|x86_fp80|half|void|label|metadata|token)\b', s)
    if m: t, r = m.group(), s[m.end():]
    elif s[0] in '[{<':
        d = 0
        for k, c in enumerate(s):
            if c in '[{<(': d += 1
            elif c in ']}>)':
                d -= 1
                if d == 0: break
        t, r = s[:k + 1], s[k + 1:]
    else:
        m = re.match(NAME, s)
        if not m: raise Unsupported('type %r' % s[:40])
        t, r = m.group(), s[m.end():]
    r = r.lstrip()
    return t, r
class Fn:
    def __init__(self, name, ret, params, lines, mod):
        self.name, self.ret, self.params, self.lines, self.mod = name, ret, params, lines, mod
        self.blocks = None
    def parse(self):
        if self.blocks is not None: return self
        self.names, self.drift = {}, False
        self.blocks = {}; cur = None; self.order = []
        buf = []
        it = iter(self.lines)
        for ln in it:
            m = re.match(r'^("[^"]*"|[-\w.$]+):', ln)
            if m: cur = m.group(1).strip('"'); self.blocks[cur] = []; self.order.append(cur); continue
            s = ln.strip()
            if not s or s.startswith(';'): continue
            if cur is None: cur = 'entry'; self.blocks[cur] = []; self.order.append(cur)
            if re.match(r'switch ', s) and ']' not in s:
                for l2 in it:
                    s += ' ' + l2.strip()
                    if ']' in l2: break
            if '= landingpad' in s: self.blocks[cur].append(('landingpad', s.split(' = ')[0][1:].strip('"'))); continue
            if s.startswith(('catch ', 'cleanup', 'filter ')): continue
            if re.match(r'(%\S+ = )?invoke ', s) and ' to label' not in s: s += ' ' + next(it).strip()
            i = parse_instr(s, self.mod)
            if i is not None: self.blocks[cur].append(i)
        self.cfg()
        self.names, self.drift = names.mapping('c', self.mod.src + ':' + self.mod.short(self), [i[2] for b in self.order for i in self.blocks[b] if i[0] == 'dbg' and i[2]], len(self.loops), shape=self.shape())
        return self
    def shape(self):
        """what the loops' head tests look like (operations only, not operands)"""
        return [' '.join(i[0] for i in self.blocks[h] if i[0] != 'dbg') for h in sorted(self.loops, key=self.loopno.get)]
    def succ(self, b):
        t = self.blocks[b][-1]
        if t[0] == 'br': return [t[1]] if t[2] is None else [t[2], t[3]]
        if t[0] == 'switch': return [t[3]] + [l for _, l in t[4]]
        if t[0] == 'invoke': return [t[-1]]
        return []
    def cfg(self):
        """natural loops: header -> set of blocks"""
        self.loops = {}
        color = {}; stack = [(self.order[0], iter(self.succ(self.order[0])))]; color[self.order[0]] = 1; back = []
        while stack:
            b, it = stack[-1]
            for n in it:
                if color.get(n) == 1: back.append((b, n))
                elif n not in color: color[n] = 1; stack.append((n, iter(self.succ(n)))); break
            else: color[b] = 2; stack.pop()
        pred = {}
        for b in color:
            for n in self.succ(b): pred.setdefault(n, []).append(b)
        for b, h in back:
            body = self.loops.setdefault(h, {h}); todo = [b]
            while todo:
                x = todo.pop()
                if x in body: continue
                body.add(x); todo.extend(pred.get(x, []))
        hs = [b for b in self.order if b in self.loops]
        self.loopno = {h: k for k, h in enumerate(hs)}
        self.stored = {}
        for h, body in self.loops.items():
            st = set()
            for b in body:
                for i in self.blocks[b]:
                    if i[0] == 'store': st.add(i[3][1] if i[3][0] == 'reg' else None)
                    elif i[0] in ('call', 'invoke'):
                        for t, v in i[4]:
                            if v[0] == 'reg': st.add(v[1])
                    elif i[0] == 'gep' and i[3][0] == 'reg': st.add(i[3][1])
            self.stored[h] = st
def op(ty, s, mod):
    """operand: ('reg', name) | ('const', value) | ('global', name) | ('null',) | ('undef',) | ('expr', ...)"""
    s = strip_attrs(s.strip())
    if s.startswith('%'): return ('reg', s[1:].strip('"'))
    if s.startswith('@'): return ('global', s[1:].strip('"'))
    if s in ('null', 'zeroinitializer', 'none'): return ('const', None) if ty == 'ptr' else ('const', 0)
    if s in ('undef', 'poison'): return ('undef',)
    if s == 'true': return ('const', True)
    if s == 'false': return ('const', False)
    if ty in ('float', 'double', 'x86_fp80'): return ('const', fconst(ty, s))
    if re.match(r'^-?\d+$', s): return ('const', int(s))
    if s.startswith('getelementptr'):
        m = re.match(r'getelementptr\s+(?:inbounds\s+)?\((.*)\)$', s)
        a = split_args(m.group(1)); base, rest = a[0], a[1:]
        ops = [tyop(x, mod) for x in rest]
        return ('gepexpr', base, ops[0], ops[1:])
    raise Unsupported('operand %r' % s[:60])
def tyop(s, mod):
    t, r = take_type(strip_attrs(s.strip())); r = strip_attrs(r)
    if t == 'metadata': return (t, ('undef',))
    return (t, op(t, r, mod))
def fconst(ty, s):
    if s.startswith('0xK'):
        v = int(s[3:], 16); sign = -1 if v >> 79 else 1; e = (v >> 64) & 0x7fff; m = v & ((1 << 64) - 1)
        if e == 0x7fff: raise Unsupported('non-finite constant')
        return sign * Fraction(m) * Fraction(2) ** (e - 16383 - 63) if m else Fraction(0)
    if s.startswith('0x'):
        import struct
        f = struct.unpack('>d', struct.pack('>Q', int(s[2:], 16)))[0]
        if f != f or f in (float('inf'), float('-inf')): return ('nonfinite', f)
        return Fraction(f)
    return Fraction(s)
FLAGS = r'(?:(?:nsw|nuw|exact|disjoint|nneg|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)*'
def parse_instr(s, mod):
    s = re.sub(r',\s*!(?:dbg|tbaa|llvm\.loop|srcloc|prof|nonnull|range|noundef|heapallocsite)\s+!\d+', '', s)
    s = re.sub(r'\s+#\d+$', '', s)
    m = re.match(r'%("[^"]*"|[-\w.$]+) = (.*)$', s)
    dst = None
    if m: dst, s = m.group(1).strip('"'), m.group(2)
    w = s.split(None, 1)[0]; rest = s[len(w):].strip()
    if w in ('tail', 'musttail', 'notail'): return parse_instr(('%%%s = ' % dst if dst else '') + rest, mod)
    if w == 'alloca':
        a = split_args(rest); n = None
        for x in a[1:]:
            if not x.startswith('align'): n = tyop(x, mod)
        return ('alloca', dst, a[0], n)
    if w == 'load':
        a = split_args(re.sub(r'^volatile\s+', '', rest)); return ('load', dst, a[0], tyop(a[1], mod)[1])
    if w == 'store':
        a = split_args(re.sub(r'^volatile\s+', '', rest)); t, v = tyop(a[0], mod); return ('store', t, v, tyop(a[1], mod)[1])
    if w == 'getelementptr':
        a = split_args(re.sub(r'^(?:inbounds|nuw|nusw)\s+', '', rest)); return ('gep', dst, a[0], tyop(a[1], mod)[1], [tyop(x, mod) for x in a[2:]])
    if w in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        nsw = 'nsw' in rest.split()[:2]
        rest = re.sub('^' + FLAGS, '', rest); a = split_args(rest); t, r = take_type(a[0]); return ('bin', dst, w, t, op(t, r, mod), op(t, a[1], mod), nsw)
    if w == 'fneg':
        t, r = take_type(re.sub('^' + FLAGS, '', rest)); return ('fneg', dst, op(t, r, mod))
    if w in ('icmp', 'fcmp'):
        rest = re.sub('^' + FLAGS, '', rest); p, rest = rest.split(None, 1); a = split_args(rest); t, r = take_type(a[0]); return ('cmp', dst, w, p, t, op(t, r, mod), op(t, a[1], mod))
    if w in ('sext', 'zext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'ptrtoint', 'inttoptr'):
        rest = re.sub('^' + FLAGS, '', rest); m = re.match(r'(.*) to (.*)$', rest); t, v = tyop(m.group(1), mod); return ('cast', dst, w, t, v, m.group(2).strip())
    if w == 'br':
        m = re.match(r'label %("[^"]*"|[-\w.$]+)$', rest)
        if m: return ('br', m.group(1).strip('"'), None, None)
        a = split_args(rest); return ('br', tyop(a[0], mod)[1], a[1].split('%', 1)[1].strip('"'), a[2].split('%', 1)[1].strip('"'))
    if w == 'switch':
        m = re.match(r'(.*?), label %("[^"]*"|[-\w.$]+) \[(.*)\]', rest); t, v = tyop(m.group(1), mod)
        cases = [(int(a), l.strip('"')) for a, l in re.findall(r'i\d+ (-?\d+), label %("[^"]*"|[-\w.$]+)', m.group(3))]
        return ('switch', t, v, m.group(2).strip('"'), cases)
    if w == 'phi':
        t, r = take_type(re.sub('^' + FLAGS, '', rest)); arms = re.findall(r'\[\s*(.*?),\s*%("[^"]*"|[-\w.$]+)\s*\]', r)
        return ('phi', dst, t, [(op(t, v, mod), b.strip('"')) for v, b in arms])
    if w == 'select':
        a = split_args(re.sub('^' + FLAGS, '', rest)); return ('select', dst, tyop(a[0], mod)[1], tyop(a[1], mod), tyop(a[2], mod))
    if w == 'ret':
        if rest == 'void': return ('ret', 'void', None)
        t, v = tyop(rest, mod); return ('ret', t, v)
    if w in ('call', 'invoke'):
        if 'llvm.dbg.declare' in rest:
            m = re.search(r'metadata ptr %("[^"]*"|[-\w.$]+), metadata !(\d+)', rest)
            return ('dbg', m.group(1).strip('"'), mod.dbgvar(m.group(2))) if m else None
        if 'llvm.dbg' in rest: return None
        rest = re.sub(r'^(?:fastcc|ccc)\s+', '', re.sub('^' + FLAGS, '', rest)); rest = strip_attrs(rest); t, r = take_type(rest)
        if r.startswith('('): r = r[r.index(')') + 1:].strip()       # variadic signature
        m = re.match(r'(' + NAME + r')\((.*)', r) 
        if not m: raise Unsupported('call %r' % s[:80])
        body = m.group(2); d = 1; q = False
        for k, c in enumerate(body):
            if c == '"': q = not q
            if q: continue
            if c == '(': d += 1
            elif c == ')':
                d -= 1
                if d == 0: break
        callee = m.group(1); args = []
        for x in split_args(body[:k]):
            try: args.append(tyop(x, mod))
            except Unsupported: args.append(('?', ('undef',)))
        c = ('global', callee[1:].strip('"')) if callee[0] == '@' else ('reg', callee[1:].strip('"'))
        if w == 'invoke':
            m = re.search(r'to label %("[^"]*"|[-\w.$]+) unwind label %("[^"]*"|[-\w.$]+)', body[k:]); return ('invoke', dst, t, c, args, m.group(2).strip('"'), m.group(1).strip('"'))
        return ('call', dst, t, c, args)
    if w == 'extractvalue':
        a = split_args(rest); return ('extract', dst, tyop(a[0], mod)[1], [int(x) for x in a[1:]])
    if w == 'insertvalue':
        a = split_args(rest); return ('insert', dst, tyop(a[0], mod)[1], tyop(a[1], mod)[1], [int(x) for x in a[2:]])
    if w == 'unreachable': return ('unreachable',)
    if w == 'freeze':
        return ('copy', dst, tyop(rest, mod)[1])
    if w == 'resume': return ('resume',)
    return ('unsupported', s)

class Module:
    """the IR of one source file"""
    def __init__(self, root, src):
        self.root, self.src = root, src
        self.text = compile_ir(root, src)
        self.fns, self.globals, self.structs, self.decls = {}, {}, {}, set()
        lines = self.text.split('\n'); k = 0; self.meta = {}
        while k < len(lines):
            ln = lines[k]
            if ln.startswith('define '):
                j = k + 1
                while lines[j] != '}': j += 1
                m = re.match(r'define (.*?)@("[^"]*"|[-\w.$]+)\((.*)\)', ln)
                name = m.group(2).strip('"'); 
                inner = ln[m.end(2) + 1:]; d = 1
                for q, c in enumerate(inner):
                    if c == '(': d += 1
                    elif c == ')':
                        d -= 1
                        if d == 0: break
                params = []
                for p in split_args(inner[:q]):
                    if p == '...': continue
                    t, r = take_type(p); r = strip_attrs(r); params.append((t, r[1:].strip('"')))
                ret = m.group(1).split()[-1]
                self.fns[name] = Fn(name, ret, params, lines[k + 1:j], self); k = j
            elif ln.startswith('@'): 
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', ln); self.globals[m.group(1).strip('"')] = m.group(2)
            elif ln.startswith('%'):
                m = re.match(r'%("[^"]*"|[-\w.$]+) = type (.*)', ln); self.structs['%' + m.group(1)] = m.group(2)
            elif ln.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?(!DILocalVariable\(.*)', ln)
                if m: self.meta[m.group(1)] = m.group(2)
            k += 1
        self._dem = None
    def dbgvar(self, n):
        m = re.search(r'name: "([^"]*)"', self.meta.get(n, '')); return m.group(1) if m else None
    def demangled(self):
        if self._dem is None:
            names = [n for n in self.fns if n.startswith('_Z')]
            p = next((x for x in ('/usr/bin/c++filt', '/usr/bin/llvm-cxxfilt-18', '/usr/lib/llvm-18/bin/llvm-cxxfilt') if os.path.exists(x)), 'c++filt')
            out = subprocess.run([p], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
            self._dem = dict(zip(names, out)); self._dem.update({n: n for n in self.fns if not n.startswith('_Z')})
        return self._dem
    def find(self, name):
        """function by demangled name up to its argument list"""
        if name in self.fns: return self.fns[name]
        c = [n for n, f in self.fns.items() if self.short(f) == name]
        if len(c) != 1: raise Unsupported('function %s: %d definitions' % (name, len(c)))
        return self.fns[c[0]]
    def short(self, fn):
        d = self.demangled().get(fn.name, fn.name).split('(')[0]; k = 0; q = 0
        for j, c in enumerate(d):
            if c == '<': k += 1
            elif c == '>': k -= 1
            elif c == ' ' and k == 0: q = j + 1
        return d[q:]
    # ---- layout of records, from the debug information
    def node(self, n):
        if not hasattr(self, '_nodes'): self._nodes = dict(re.findall(r'^!(\d+) = (?:distinct )?(.*)$', self.text, re.M))
        return self._nodes[n]
    def strip(self, n):
        """type node below typedefs and qualifiers"""
        while True:
            t = self.node(n)
            if t.startswith('!DIDerivedType') and re.search(r'DW_TAG_(typedef|const_type|volatile_type)', t): n = re.search(r'baseType: !(\d+)', t).group(1)
            else: return n, t
    def layout(self, name):
        """fields of a record by its typedef or tag name: {field: (offset, size, type or None)}; fields of inner records as a.b"""
        self.node('0')
        for n, t in self._nodes.items():
            if re.match(r'!DI(DerivedType\(tag: DW_TAG_typedef|CompositeType\(tag: DW_TAG_(structure|class)_type), name: "%s"' % re.escape(name), t): break
        else: raise Unsupported('record %s' % name)
        n, t = self.strip(n); out = {}
        def rec(n, base, pre):
            for m in re.findall(r'!(\d+)', self.node(re.search(r'elements: !(\d+)', self.node(n)).group(1))):
                d = self.node(m)
                if 'DW_TAG_member' not in d: continue
                f = pre + re.search(r'name: "([^"]*)"', d).group(1); off = base + int((re.search(r'offset: (\d+)', d) or [0, 0])[1]) // 8; sz = int(re.search(r'size: (\d+)', d).group(1)) // 8; bn, bt = self.strip(re.search(r'baseType: !(\d+)', d).group(1))
                ty = None
                if 'DW_TAG_pointer_type' in bt: ty = 'ptr'
                elif bt.startswith('!DIBasicType') or 'enumeration' in bt: ty = {4: 'float', 8: 'double'}[sz] if 'DW_ATE_float' in bt else 'i%d' % (8 * sz)
                elif 'DW_TAG_structure_type' in bt and 'DIFlagFwdDecl' not in bt: rec(bn, off, f + '.'); continue
                out[f] = (off, sz, ty)
        rec(n, 0, ''); out[''] = (0, int(re.search(r'size: (\d+)', t).group(1)) // 8, None); return out
    # ---- types
    def fields(self, t):
        t = self.structs.get(t, t)
        packed = t.startswith('<{')
        inner = t.strip('<>').strip()[1:-1]
        return split_args(inner), packed
    def size(self, t):
        if re.match(r'i\d+$', t): n = int(t[1:]); return max(1, 1 << ((n + 7) // 8 - 1).bit_length())
        if t == 'ptr' or t == 'double': return 8
        if t == 'float': return 4
        if t == 'x86_fp80': return 16
        if t[0] == '[':
            m = re.match(r'\[(\d+) x (.*)\]$', t); return int(m.group(1)) * self.size(m.group(2))
        fs, packed = self.fields(t); o = 0; al = 1
        for f in fs:
            a = 1 if packed else self.align(f); al = max(al, a); o = (o + a - 1) // a * a + self.size(f)
        return (o + al - 1) // al * al
    def align(self, t):
        if t[0] == '[': return self.align(re.match(r'\[(\d+) x (.*)\]$', t).group(2))
        if t[0] in '{<' or t[0] == '%':
            fs, packed = self.fields(t); return 1 if packed else max([self.align(f) for f in fs] or [1])
        return self.size(t)
    def field_off(self, t, k):
        fs, packed = self.fields(t); o = 0
        for i, f in enumerate(fs):
            a = 1 if packed else self.align(f); o = (o + a - 1) // a * a
            if i == k: return o, f
            o += self.size(f)
        raise Unsupported('field')

# ------------------------------------------------------------------------------------------------- values and memory
class Undef:
    def __init__(self, n='value'): self.n = n
    def __bool__(self): raise Unsupported('%s is used but undefined (or not described by the loop contract)' % self.n)
class Ptr:
    __slots__ = ('b', 'off')
    def __init__(self, b, off=0): self.b, self.off = b, Num.of(off)
    def __repr__(self): return '&%s+%r' % (self.b.name if self.b else 'null', self.off)
    def add(self, o): return Ptr(self.b, self.off + o)
NULL = Ptr(None, 0)
class Bits:
    """a machine word given bit by bit: f(j) is the truth of bit j (0 <= j < width)"""
    def __init__(self, w, f): self.w, self.f = w, f
    def bit(self, j): return self.f(j)
def as_bits(v, w):
    if isinstance(v, Bits): return v
    if isinstance(v, Num) and v.isconst():
        c = int(v.const()) & ((1 << w) - 1)
        def f(j):
            j = Num.of(j)
            if j.isconst(): return bool(c >> int(j.const()) & 1)
            if c == 0: return False
            if c == (1 << w) - 1: return True
            runs, k = [], 0
            while k < w:
                if c >> k & 1:
                    e = k
                    while e < w and c >> e & 1: e += 1
                    runs.append(b_and(j >= k, j < e)); k = e
                else: k += 1
            return b_or(*runs)
        r = Bits(w, f); r.const = c; return r
    raise Unsupported('bits of a number')
class Block:
    name = '?'
    ver = 0
    def load(self, m, off, ty): raise Unsupported('load from %s' % self.name)
    def store(self, m, off, ty, v): raise Unsupported('store to %s' % self.name)
class Rec(Block):
    """fields at fixed offsets; regions: [(start, end, block)] sub-arrays"""
    def __init__(self, name, fields=None, size=None, regions=None): self.name, self.d, self.size, self.regions, self.ver, self.freed = name, dict(fields or {}), size, list(regions or []), 0, False
    def region(self, off):
        for lo, hi, b in self.regions:
            o = off - lo
            if off.isconst():
                if lo <= off.const() < hi: return b, o
            elif len(self.regions) == 1 or E().valid(b_and(off >= lo, off < hi).z): return b, o
        return None
    def load(self, m, off, ty):
        r = self.region(off)
        if r: return r[0].load(m, r[1], ty)
        if not off.isconst(): raise Unsupported('variable offset in %s' % self.name)
        o = int(off.const())
        if o not in self.d: 
            if self.size is not None and 0 <= o < self.size: return Undef('%s+%d' % (self.name, o))
            m.prove('access within %s' % self.name, False); raise PathEnd()
        t, v = self.d[o]
        if t != ty and t[0] == 'i' and ty[0] == 'i' and int(ty[1:]) < int(t[1:]) and isinstance(v, Num): return wrap(v, int(ty[1:]))
        if t != ty and not (m.mod.size(t) == m.mod.size(ty) and t[0] == ty[0]): raise Unsupported('load of %s from %s in %s' % (ty, t, self.name))
        return v
    def store(self, m, off, ty, v):
        r = self.region(off)
        if r: return r[0].store(m, r[1], ty, v)
        if not off.isconst(): raise Unsupported('variable offset in %s' % self.name)
        o = int(off.const()); self.ver += 1
        if self.size is not None and not (0 <= o and o + m.mod.size(ty) <= self.size): m.prove('access within %s' % self.name, False); raise PathEnd()
        if self.size is None and o not in self.d: raise Unsupported('store at an unknown field of %s (+%d)' % (self.name, o))
        n = m.mod.size(ty)
        if o in self.d and ty[0] == 'i' and self.d[o][0][0] == 'i' and int(ty[1:]) < int(self.d[o][0][1:]) and isinstance(v, Num) and isinstance(self.d[o][1], Num):
            t, old = self.d[o]; w = int(ty[1:]); self.d[o] = (t, wrap(old - old % (1 << w) + v % (1 << w), int(t[1:]))); return
        for q in list(self.d):
            if q != o and q < o + n and q + m.mod.size(self.d[q][0]) > o: del self.d[q]
        self.d[o] = (ty, v)
class Var(Rec):
    """a local variable of a scalar or aggregate type"""
    def __init__(self, name, ty, m): Rec.__init__(self, name, {}, m.mod.size(ty)); self.ty = ty
ICACHE = {}
class Arr(Block):
    """array object: shape, byte strides (numbers or monomials), element components [(offset, type)], content f(component, idx)"""
    def __init__(self, name, shape, strides, comps, f, itemsize=None, readonly=False):
        self.name, self.shape, self.strides, self.comps, self.f = name, [Num.of(s) for s in shape], [Num.of(s) for s in strides], comps, f
        self.ver, self.readonly, self.memo, self.item = 0, readonly, {}, itemsize
    def get(self, c, *idx):
        idx = tuple(Num.of(i) for i in idx); k = (c,) + tuple(i.key() for i in idx)
        if k not in self.memo: self.memo[k] = self.f(c, idx)
        return self.memo[k]
    def set_all(self, f): self.f = f; self.memo = {}; self.ver += 1
    def snapshot(self):
        f, memo = self.f, self.memo
        def g(c, *idx):
            idx = tuple(Num.of(i) for i in idx); k = (c,) + tuple(i.key() for i in idx)
            if k not in memo: memo[k] = f(c, idx)
            return memo[k]
        return g
    def put(self, c, idx, v):
        old = self.snapshot(); idx = tuple(Num.of(i) for i in idx)
        def f(c2, j):
            if c2 != c: return old(c2, *j)
            t = b_and(*[Num.of(a) == b for a, b in zip(j, idx)])
            return v if (t if isinstance(t, bool) else bool(t)) else old(c2, *j)
        self.f = f; self.memo = {}; self.ver += 1
    def decode(self, m, off):
        """byte offset -> (index tuple, component)"""
        n = dict(off.n)
        if not num.p_isconst(off.d): raise Unsupported('fractional offset')
        idx = []
        order = sorted(range(len(self.strides)), key=lambda k: -max([sum(e for _, e in mo) for mo in self.strides[k].n] or [0]))
        found = {}
        for k in order:
            st = self.strides[k]
            if len(st.n) != 1: raise Unsupported('stride of %s' % self.name)
            (mo, c), = st.n.items(); q = {}
            if mo == num.ONE:
                continue
            for t in list(n):
                d = dict(t)
                if all(d.get(i, 0) >= e for i, e in mo) and (n[t] / c).denominator == 1: q[num.m_div(t, mo)] = n[t] / c; del n[t]
            found[k] = Num(q, None, True)
        for k in order:
            if k in found: continue
            c = self.strides[k].n[num.ONE]; q = {}
            for t in list(n):
                if t == num.ONE: continue
                if (n[t] / c).denominator == 1: q[t] = n[t] / c; del n[t]
            c0 = n.get(num.ONE, Fraction(0)); w = c0 // c
            if w: q[num.ONE] = q.get(num.ONE, 0) + w; n[num.ONE] = c0 - w * c
            if not n.get(num.ONE, 1): n.pop(num.ONE)
            found[k] = Num(q, None, True)
        if any(t != num.ONE for t in n): 
            m.prove('address within %s is that of an element' % self.name, False); raise PathEnd()
        r = int(n.get(num.ONE, 0))
        idx = self.adjust(tuple(found[k] for k in range(len(self.strides))))
        return idx, r
    def adjust(self, idx): return idx
    def locate(self, m, off, ty):
        idx, r = self.decode(m, off)
        m.inbounds(self, idx)
        for c, (o, t) in enumerate(self.comps):
            if o == r and t == ty: return idx, c, None
            if o == r and t[0] == 'i' and ty[0] == 'i' and int(ty[1:]) < int(t[1:]): return idx, c, ty
        if len(self.comps) == 1 and False: pass
        m.prove('access to %s has the element type' % self.name, False); raise PathEnd()
    def load(self, m, off, ty):
        idx, c, nar = self.locate(m, off, ty); v = self.get(c, *idx)
        return wrap(v, int(nar[1:])) if nar else v
    def store(self, m, off, ty, v):
        idx, c, nar = self.locate(m, off, ty)
        if nar: raise Unsupported('narrow store')
        if self.readonly: m.prove('%s is left alone' % self.name, False); raise PathEnd()
        if isinstance(v, Undef): bool(v)
        self.put(c, idx, v)
    def ptr(self, *idx):
        o = Num.of(0)
        for i, s in zip(idx, self.strides): o = o + Num.of(i) * s
        return Ptr(self, o)
class Raw(Block):
    """memory from malloc: becomes an array of what is first stored in it"""
    def __init__(self, name, size): self.name, self.size, self.arr, self.freed, self.ver = name, Num.of(size), None, False, 0
    def become(self, m, ty):
        es = m.mod.size(ty); sh = m.malloc_shape(self, es)
        st = [Num.of(es)]
        for d in reversed(sh[1:]): st.insert(0, st[0] * Num.of(d))
        m.fresh += 1; nm = '%s#%d' % (self.name, m.fresh)
        from .api import func
        self.arr = Arr(self.name, sh, st, [(0, ty)], lambda c, idx: Undef('uninitialised ' + nm))
    def load(self, m, off, ty):
        self.live(m)
        if self.arr is None: self.become(m, ty)
        return self.arr.load(m, off, ty)
    def store(self, m, off, ty, v):
        self.live(m)
        if self.arr is None: self.become(m, ty)
        self.arr.store(m, off, ty, v); self.ver += 1
    def live(self, m):
        if self.freed: m.prove('%s is not used after being freed' % self.name, False); raise PathEnd()

class Mem(Block):
    """a local buffer of bytes used as memory for values of one type at a time"""
    def __init__(self, name, size): self.name, self.size, self.view, self.ver, self.d = name, size, None, 0, {}
    def fill(self, m, ty, n, f):
        """n elements f(k) of this type, nothing else"""
        es = m.mod.size(ty); k = Num.of(n); ok = m.prove('%s has room' % self.name, b_and(k >= 0, k * es <= self.size))
        if not ok: E().assume(k * es <= self.size)
        self.ty = ty; self.view = Arr(self.name, [k], [es], [(0, ty)], lambda c, i: f(i[0])); self.ver += 1
    def typed(self, m, ty):
        if self.view is None: 
            nm = self.name; self.ty = ty; self.view = Arr(nm, [self.size // m.mod.size(ty)], [m.mod.size(ty)], [(0, ty)], lambda c, i: Undef('uninitialised ' + nm))
        if self.ty != ty: raise Unsupported('%s holds %s, used as %s' % (self.name, self.ty, ty))
        return self.view
    def load(self, m, off, ty): return self.typed(m, ty).load(m, off, ty)
    def store(self, m, off, ty, v):
        if self.view is not None and self.ty != ty and off.isconst() and off.const() == 0: self.view = None
        self.typed(m, ty).store(m, off, ty, v); self.ver += 1
def wrap(v, bits):
    """two's complement value of the low bits"""
    if isinstance(v, Bits):
        if bits <= v.w: return Bits(bits, v.f)
        raise Unsupported('widening bits')
    if isinstance(v, Undef): return v
    lo, hi = -(1 << (bits - 1)), 1 << (bits - 1)
    if v.isconst():
        c = int(v.const()); return Num.of((c - lo) % (1 << bits) + lo)
    if E().valid(b_and_z(v >= lo, v < hi)): return v
    return (v - lo) % (1 << bits) + lo
def b_and_z(*c):
    r = b_and(*c); return z3.BoolVal(r) if isinstance(r, bool) else r.z
def unsigned(v, bits):
    if v.isconst(): return Num.of(int(v.const()) % (1 << bits))
    return v if bool(v >= 0) else v + (1 << bits)
def cdiv(a, b):
    if bool(a >= 0): return a // b if bool(b > 0) else -(a // -b)
    return -((-a) // b) if bool(b > 0) else (-a) // (-b)

def pm(a, b):
    """a modulo b, between 0 and b (b > 0)"""
    a, b = Num.of(a), Num.of(b)
    if a.isconst() and b.isconst(): return Num.of(int(a.const()) % int(b.const()))
    q = num.fn('pmq', [a, b], isint=True, numf=lambda x, y: x // y)
    return num.fn('pm', [a, b], isint=True, numf=lambda x, y: x % y,
                  axioms=lambda r: [z3.Implies(b.z > 0, z3.And(r.z >= 0, r.z < b.z, a.z == b.z * q.z + r.z)), z3.Implies(z3.And(a.z >= 0, a.z < b.z), r.z == a.z),
                                    z3.Implies(z3.And(a.z >= b.z, a.z - b.z < b.z), r.z == a.z - b.z), z3.Implies(z3.And(a.z < 0, a.z + b.z >= 0), r.z == a.z + b.z)])
def crem(a, b):
    """C remainder, in terms of pm"""
    if not bool(b > 0): raise Unsupported('remainder by a negative number')
    r = pm(a, b)
    if bool(a >= 0): return r
    return r if bool(r == 0) else r - b
class Throw(Exception):
    """a C++ exception of the class the code catches"""
    def __init__(self): self.obj = Rec('exception', {}, 64)
class Frame:
    def __init__(self, fn): self.fn, self.reg, self.vars, self.active = fn, {}, [], {}
    def var(self, name):
        for n, b in reversed(self.vars):
            if n == name: return b
        return None
class Env:
    """the variables of the current function by their source names"""
    def __init__(self, m, fr): self.m, self.fr = m, fr
    def __getitem__(self, n):
        b = self.fr.var(n)
        if b is None: raise Unsupported('no variable %s' % n)
        if 0 not in b.d: return Undef(n)
        return b.d[0][1]
    def has(self, n): return self.fr.var(n) is not None
class Loop:
    def __init__(self, inv, havoc, side=False, cut=False, fixed=()): self.inv, self.havoc, self.side, self.cut, self.fixed = inv, havoc, side or cut, cut, fixed

def sigof(v):
    if isinstance(v, Num): return repr(v.key())
    if isinstance(v, Ptr): return repr((id(v.b) if v.b is None else v.b.name, v.off.key()))
    if isinstance(v, (bool, int, str)): return repr(v)
    return 'other'
MAXUNROLL = 40
class Machine:
    """executes functions of a module; ext: {name: python function(machine, args)} for what is outside it"""
    def __init__(self, mods, ext=None):
        self.mods = mods if isinstance(mods, (list, tuple)) else [mods]; self.mod = self.mods[0]
        self.ext = dict(STD); self.ext.update(ext or {}); self.loops = {}; self.blocks = []; self.fresh = 0; self.depth = 0; self.bounds_done = set(); self.globals = {}; self.malloc_shape = lambda raw, es: [raw.size // es]; self.trace = []; self.mallocs = 0; self.usedext = set()
    def prove(self, name, c): return E().prove(name, c)
    def contract(self, key, inv, havoc, side=False, cut=False, fixed=()):
        """side: the establishing obligations are checked on a path of their own.
        cut: what was known before the loop (since self.mark) is dropped, so that one path goes on for all those that reach it;
        fixed: variables described by havoc which the loop itself leaves alone;
        whatever is neither described by havoc nor undefined from here on must be the same on all of them (checked)"""
        self.loops[key] = Loop(inv, havoc, side, cut, fixed)
    def cutpoint(self):
        e = E()
        if self.depth != 1: raise Unsupported('cut in a called function')
        del e.pc[self.mark:]; e.vcache.clear(); e.universals = []; e.side_done = set(); e.interest = []; e.hitwitness = {}; e.witnesses = []; self.bounds_done = set()
        return list(e.dec)
    def cutsame(self, fn, fr, h, key, d, dec, before):
        """one path goes on; the state that is kept must not depend on which"""
        for r, v in list(fr.reg.items()):
            if not (isinstance(v, Ptr) and getattr(v.b, 'reg', None) == r): del fr.reg[r]
        sig = []
        for n, b in fr.vars:
            if b.reg in fn.stored[h] or n in d: continue
            if n not in self.keep and n not in [fn.names.get(q, q) for _, q in fn.params]:
                if not isinstance(b, Arr): b.d = {0: (b.ty, Undef('variable %s after a cut' % n))} if 0 in b.d else b.d
                continue
            sig.append((b.reg, repr(sorted((o, t, sigof(v)) for o, (t, v) in b.d.items())) if not isinstance(b, Arr) else b.ver))
        loc = {id(b) for _, b in fr.vars}
        for b in self.blocks:
            if id(b) in loc or b.ver != before.get(id(b)): continue
            if b.ver != self.markver.get(id(b), 0): raise Unsupported('%s changed before loop %s and is not described there' % (b.name, key))
        c = E().__dict__.setdefault('cuts', {}); k = (E().cur, key)
        if k not in c: c[k] = (dec, sig)
        elif c[k][1] != sig: raise Unsupported('loop %s is reached with different values of %s' % (key, [x[0] for x, y in zip(sig, c[k][1]) if x != y]))
        elif c[k][0] != dec: raise PathEnd()
    def setmark(self, *keep): self.keep = keep; self.mark = len(E().pc); self.markver = {id(b): b.ver for b in self.blocks}
    def find(self, name):
        for md in self.mods:
            if name in md.fns: return md.fns[name]
        for md in self.mods:
            try: return md.find(name)
            except Unsupported: pass
        raise Unsupported('function %s' % name)
    def array(self, name, shape, comps=((0, 'double'),), f=None, strided=True, readonly=False, es=None, strides=None):
        """an array object; strided: arbitrary byte strides, otherwise C-contiguous"""
        from .api import func, integer
        item = es or sum(self.mod.size(t) for _, t in comps)
        if strides is None:
            if strided: strides = [integer('%s.stride%d' % (name, k), lo=8, hi=8, record=False) for k in range(len(shape))]
            else:
                strides = [Num.of(item)]
                for d in reversed(shape[1:]): strides.insert(0, strides[0] * Num.of(d))
        if f is None:
            def f(c, idx, name=name): 
                t = comps[c][1]; nm = name if len(comps) == 1 else '%s.%d' % (name, c)
                if t[0] == 'i':
                    w = int(t[1:]); lo, hi = -(1 << (w - 1)), 1 << (w - 1)
                    return func(nm, idx, True, -3, 9, axioms=lambda a: [a.z >= lo, a.z < hi])
                return func(nm, idx)
        a = Arr(name, shape, strides, list(comps), f, item, readonly); self.blocks.append(a); return a
    def rec(self, name, fields, size=None, regions=None):
        r = Rec(name, fields, size, regions); self.blocks.append(r); return r
    def struct(self, name, typ, values={}, regions={}):
        """a record of the C type, fields by name; those not given are undefined"""
        L = self.mod.layout(typ); f = {}
        for n, (o, sz, ty) in L.items():
            if n and ty is not None: v = values[n] if n in values else Undef('%s.%s' % (name, n)); f[o] = (ty, Num.of(v) if isinstance(v, (int, float)) else v)
        for n in list(values) + list(regions):
            if n not in L: raise Unsupported('field %s of %s' % (n, typ))
        b = self.rec(name, f, L[''][1], [(L[n][0], L[n][0] + L[n][1], b) for n, b in regions.items()]); b.L = L; return b
    def field(self, b, n): return b.d[b.L[n][0]][1]
    def setfield(self, b, n, v): o = b.L[n][0]; b.d[o] = (b.d[o][0], Num.of(v) if isinstance(v, (int, float)) else v); b.ver += 1
    def inbounds(self, arr, idx):
        k = (id(arr), tuple(i.key() for i in idx))
        if k in self.bounds_done: return
        c = b_and(*[b_and(i >= 0, i < d) for i, d in zip(idx, arr.shape)])
        ok = self.prove('in bounds of %s' % arr.name, c)
        if not ok: E().assume(c)
        self.bounds_done.add(k)
    # ---- evaluation
    def val(self, fr, o, ty=None):
        k = o[0]
        if k == 'reg':
            try: return fr.reg[o[1]]
            except KeyError: raise Unsupported('register %s' % o[1])
        if k == 'const':
            v = o[1]
            if v is None: return NULL
            if isinstance(v, bool): return v
            if isinstance(v, tuple): raise Unsupported('non-finite constant')
            if isinstance(v, int): return NULL if ty == 'ptr' else Num.of(v)
            return Num.of(v)
        if k == 'global': return self.global_(o[1])
        if k == 'undef': return Undef('undef')
        if k == 'gepexpr': return self.gep(o[1], self.val(fr, o[2][1], 'ptr'), [(t, self.val(fr, v, t)) for t, v in o[3]])
        raise Unsupported('operand')
    def global_(self, n):
        if n in self.globals: return self.globals[n]
        for md in self.mods:
            if n in md.fns: r = ('fn', n); self.globals[n] = r; return r
        for md in self.mods:
            if n in md.globals: b = const_global(self, n, md.globals[n], md); break
        else: raise Unsupported('global %s' % n)
        self.globals[n] = Ptr(b, 0); return self.globals[n]
    def gep(self, base, p, idx):
        if isinstance(p, Undef): bool(p)
        if not isinstance(p, Ptr): raise Unsupported('gep of %r' % (p,))
        off = p.off; t = base
        for k, (ty, v) in enumerate(idx):
            if isinstance(v, Undef): bool(v)
            if k == 0: off = off + v * self.mod.size(t)
            elif t[0] == '[':
                t = re.match(r'\[(\d+) x (.*)\]$', t).group(2); off = off + v * self.mod.size(t)
            else:
                o, t2 = self.mod.field_off(t, int(v.const())); off = off + o; t = t2
        return Ptr(p.b, off)
    def load(self, p, ty):
        if isinstance(p, Undef): bool(p)
        if p.b is None: self.prove('no access through a null pointer', False); raise PathEnd()
        return p.b.load(self, p.off, ty)
    def store(self, p, ty, v):
        if isinstance(p, Undef): bool(p)
        if p.b is None: self.prove('no access through a null pointer', False); raise PathEnd()
        p.b.store(self, p.off, ty, v)
    def call(self, name, args):
        """by (demangled) name"""
        fn = self.find(name)
        return self.run(fn, args)
    def run(self, fn, args):
        fn.parse()
        if self.depth > 30: raise Unsupported('call depth')
        old = self.mod; self.mod = fn.mod; self.depth += 1
        try: return self._run(fn, args)
        finally: self.mod = old; self.depth -= 1
    def _run(self, fn, args):
        fr = Frame(fn)
        for (t, n), v in zip(fn.params, args): fr.reg[n] = v
        prev, cur = None, fn.order[0]; visits = {}
        while True:
            if cur in fn.loops:
                inside = prev is not None and prev in fn.loops[cur]
                key = '%s:%d' % (fn.mod.short(fn), fn.loopno[cur]); sp = self.loops.get(key)
                if sp is None:
                    visits[cur] = visits.get(cur, 0) + 1 if inside else 0
                    if visits[cur] > MAXUNROLL: raise Unsupported('loop %s has no contract' % key)
                elif not inside: self.enter(fn, fr, cur, key, sp)
                else: self.again(fn, fr, cur, key, sp)
            for h in list(fr.active):
                if cur not in fn.loops[h]: del fr.active[h]
            for ins in fn.blocks[cur]:
                r = self.step(fr, ins, prev)
                if r is not None:
                    if r[0] == 'ret': return r[1]
                    prev, cur = cur, r[1]; break
            else: raise Unsupported('block without terminator')
    # ---- loops under contract
    def snapshot(self): return [(b, b.ver) for b in self.blocks]
    def enter(self, fn, fr, h, key, sp):
        env = Env(self, fr); st = {}; E().loopstate[key] = st
        if fn.drift: E().drift = True
        def ask(n, c): self.prove('loop %s establish %s' % (key, n), c)
        if not sp.side: sp.inv(env, ask)
        elif E().choose('loop %s established' % key): sp.inv(env, ask); raise PathEnd()
        before = {id(b): b.ver for b in self.blocks}
        dec = self.cutpoint() if sp.cut else None
        old = E().__dict__.get('havocking', False); E().havocking = True
        try: d = sp.havoc(env) or {}
        finally: E().havocking = old
        if sp.cut: self.cutsame(fn, fr, h, key, d, dec, before)
        changed = {id(b) for b in self.blocks if b.ver != before.get(id(b))}
        for n in d:
            if fr.var(n) is None: raise Unsupported('loop contract of %s names unknown variable %s' % (key, n))
        names = fn.stored[h]
        if any(fr.var(n).reg not in names and n not in sp.fixed for n in d):
            E().drift = True                      # the loop leaves alone a variable which changed when the contract was written
        for n, b in fr.vars:
            if n in d and b is fr.var(n): b.d[0] = (b.ty, d[n]); continue
            if b.reg in names and 0 in b.d and n is not None: b.d = {0: (b.ty, Undef('variable %s in loop %s' % (n, key)))}
        for r, v in list(fr.reg.items()):
            pass
        def use(n, c): E().assume(SBool.of(c))
        use.__name__ = 'use'
        sp.inv(env, use)
        fr.active[h] = dict(changed=changed, vers={id(b): b.ver for b in self.blocks}, vals={b.reg: dict(b.d) for n, b in fr.vars if not (n in d and b is fr.var(n)) and b.reg not in names}, d=d)
    def again(self, fn, fr, h, key, sp):
        env = Env(self, fr); st = fr.active.get(h)
        if st is None: raise Unsupported('loop %s entered in the middle' % key)
        for b in self.blocks:
            if id(b) in st['vers'] and b.ver != st['vers'][id(b)] and id(b) not in st['changed']: raise Unsupported('loop %s changes %s, which its contract does not describe' % (key, b.name))
        for n, b in fr.vars:
            if b.reg in st['vals'] and b.d != st['vals'][b.reg]: raise Unsupported('loop %s changes variable %s through a pointer' % (key, n))
        def ask(n, c): self.prove('loop %s preserve %s' % (key, n), c)
        sp.inv(env, ask)
        raise PathEnd()
    # ---- instructions
    def step(self, fr, i, prev):
        k = i[0]; V = self.val
        if k == 'load': fr.reg[i[1]] = self.load(V(fr, i[3], 'ptr'), i[2])
        elif k == 'store': self.store(V(fr, i[3], 'ptr'), i[1], V(fr, i[2], i[1]))
        elif k == 'gep': fr.reg[i[1]] = self.gep(i[2], V(fr, i[3], 'ptr'), [(t, V(fr, v, t)) for t, v in i[4]])
        elif k == 'bin': fr.reg[i[1]] = self.bin(i[2], i[3], V(fr, i[4]), V(fr, i[5]), i[6])
        elif k == 'cmp': fr.reg[i[1]] = self.cmp(i[2], i[3], i[4], V(fr, i[5], i[4]), V(fr, i[6], i[4]))
        elif k == 'cast': fr.reg[i[1]] = self.cast(i[2], i[3], V(fr, i[4], i[3]), i[5])
        elif k == 'br':
            if i[2] is None: return ('br', i[1])
            c = V(fr, i[1])
            return ('br', i[2] if (c if isinstance(c, bool) else bool(c)) else i[3])
        elif k in ('call', 'invoke'):
            try: r = self.docall(fr, i)
            except Throw as x:
                if k != 'invoke': raise
                fr.exc = x; return ('br', i[5])
            if i[1] is not None: fr.reg[i[1]] = r
            if k == 'invoke': return ('br', i[6])
        elif k == 'landingpad': fr.reg[i[1]] = {0: Ptr(fr.exc.obj, 0), 1: Num.of(1)}
        elif k == 'dbg':
            b = fr.reg.get(i[1])
            if isinstance(b, Ptr):
                n = fr.fn.names.get(i[2], i[2])
                fr.vars = [(a, x) for a, x in fr.vars if x is not b.b] + [(n, b.b)]
        elif k == 'alloca':
            if i[3] is not None and not (i[3][1][0] == 'const' and i[3][1][1] == 1): raise Unsupported('variable-length local')
            m = re.match(r'\[(\d+) x (.*)\]$', i[2])
            if m and m.group(2) == 'i8' and int(m.group(1)) >= 4: b = Mem(i[1], int(m.group(1))); b.reg = i[1]; b.ty = i[2]; self.blocks.append(b)
            elif m and m.group(2)[0] != '%' and m.group(2)[0] != '[':
                es = self.mod.size(m.group(2)); nm = i[1]
                b = Arr(nm, [int(m.group(1))], [es], [(0, m.group(2))], lambda c, idx: Undef('uninitialised ' + nm)); b.reg = i[1]; b.ty = i[2]; b.d = {}
                self.blocks.append(b)
            else: b = Var(i[1], i[2], self); b.reg = i[1]
            fr.reg[i[1]] = Ptr(b, 0)
        elif k == 'phi':
            for v, b in i[3]:
                if b == prev: fr.reg[i[1]] = V(fr, v, i[2]); break
            else: raise Unsupported('phi')
        elif k == 'select':
            c = V(fr, i[2]); t, v = i[3] if (c if isinstance(c, bool) else bool(c)) else i[4]; fr.reg[i[1]] = V(fr, v, t)
        elif k == 'switch':
            v = V(fr, i[2])
            for c, l in i[4]:
                t = v == c
                if t if isinstance(t, bool) else bool(t): return ('br', l)
            return ('br', i[3])
        elif k == 'ret': return ('ret', None if i[2] is None else V(fr, i[2], i[1]))
        elif k == 'fneg': fr.reg[i[1]] = -V(fr, i[2])
        elif k == 'copy': fr.reg[i[1]] = V(fr, i[2])
        elif k == 'extract':
            v = V(fr, i[2])
            for q in i[3]: v = v[q]
            fr.reg[i[1]] = v
        elif k == 'insert':
            v = V(fr, i[2]); v = {} if isinstance(v, Undef) else dict(v)
            if len(i[4]) != 1: raise Unsupported('nested insertvalue')
            v[i[4][0]] = V(fr, i[3]); fr.reg[i[1]] = v
        elif k == 'resume': raise Throw()
        elif k == 'unreachable': raise PathEnd()
        else: raise Unsupported('instruction %s' % (i[1] if len(i) > 1 else k,))
        return None
    def bin(self, o, ty, a, b, nsw):
        for x in (a, b):
            if isinstance(x, Undef): bool(x)
        if o == 'fadd': return a + b
        if o == 'fsub': return a - b
        if o == 'fmul': return a * b
        if o == 'fdiv':
            if b.isconst() and b.const() == 0: self.prove('no division by zero', False); raise PathEnd()
            return a / b
        if ty == 'i1':
            if o == 'xor':
                if b is True: return b_not(a)
                if b is False: return a
                return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))
            if o == 'and': return b_and(a, b)
            if o == 'or': return b_or(a, b)
            raise Unsupported('i1 ' + o)
        w = int(ty[1:])
        if isinstance(a, Bits) or isinstance(b, Bits) or o in ('and', 'or', 'xor'): return self.bitop(o, w, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and o == 'sub' and a.b is b.b: return a.off - b.off
        if isinstance(a, Ptr) or isinstance(b, Ptr): raise Unsupported('arithmetic on addresses')
        if o in ('add', 'sub', 'mul'):
            r = a + b if o == 'add' else a - b if o == 'sub' else a * b
            return r if nsw else wrap(r, w)
        if o in ('sdiv', 'srem', 'udiv', 'urem'):
            z = b == 0
            if not isinstance(z, bool) or z: 
                if not self.prove('no division by zero', b_not(z)): E().assume(b_not(z))
            if o[0] == 'u': a, b = unsigned(a, w), unsigned(b, w)
            if o[1:] == 'rem' and not (a.isconst() or b.isconst()): return crem(a, b)
            q = cdiv(a, b)
            return q if o[1:] == 'div' else a - b * q
        if o == 'shl':
            if not b.isconst(): raise Unsupported('variable shift')
            r = a * (1 << int(b.const())); return r if nsw else wrap(r, w)
        if o in ('lshr', 'ashr'):
            if not b.isconst(): raise Unsupported('variable shift')
            if o == 'lshr': a = unsigned(a, w)
            return a // (1 << int(b.const()))
        raise Unsupported(o)
    def bitop(self, o, w, a, b):
        if isinstance(a, Num) and isinstance(b, Num):
            if a.isconst() and b.isconst():
                x, y = int(a.const()), int(b.const()); return Num.of({'and': x & y, 'or': x | y, 'xor': x ^ y}[o])
            if a.isconst(): a, b = b, a
            if b.isconst():
                c = int(b.const()); full = (1 << w) - 1; u = c & full
                if o == 'and':
                    if u == 0: return Num.of(0)
                    if u == full: return a
                    if u & (u + 1) == 0: return a % (u + 1)
                    if u & (u - 1) == 0: return wrap(((a // u) % 2) * u, w)
                    t = (~u) & full
                    if t & (t + 1) == 0: return a - a % (t + 1)          # clears the low bits
                if o == 'xor' and u == full: return -1 - a
                if o in ('or', 'xor') and u == 0: return a
            if o in ('or', 'xor'):
                for x, y in ((a, b), (b, a)):
                    g = 1                       # a power of two that divides x; y smaller than it: no bit in common
                    while g < 1 << w and all((c / (2 * g)).denominator == 1 for c in x.n.values()) and num.p_isconst(x.d): g *= 2
                    if g > 1 and E().valid(b_and_z(y >= 0, y < g)): return x + y
            raise Unsupported('%s of numbers' % o)
        x, y = as_bits(a, w), as_bits(b, w)
        if o == 'and':
            r = Bits(w, lambda j: b_and(x.bit(j), y.bit(j)))
            for p, q in ((x, y), (y, x)):
                if getattr(p, 'single', None) is not None: r.maybe = (p.single, q.bit(p.single))
                c = getattr(p, 'const', None)
                if c is not None and 0 < bin(c).count('1') <= 8 and getattr(q, 'const', None) is None: r.some = [q.bit(Num.of(k)) for k in range(w) if c >> k & 1]
            return r
        if o == 'or': return Bits(w, lambda j: b_or(x.bit(j), y.bit(j)))
        if o == 'xor': return Bits(w, lambda j: b_or(b_and(x.bit(j), b_not(y.bit(j))), b_and(b_not(x.bit(j)), y.bit(j))))
        if o == 'add' or o == 'sub': raise Unsupported('arithmetic on bits')
        raise Unsupported(o)
    def cmp(self, kind, p, ty, a, b):
        for x in (a, b):
            if isinstance(x, Undef): bool(x)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported('comparison of a pointer')
            if a.b is b.b:
                if p == 'eq': return a.off == b.off
                if p == 'ne': return a.off != b.off
                return {'ult': a.off < b.off, 'ule': a.off <= b.off, 'ugt': a.off > b.off, 'uge': a.off >= b.off}[p]
            if p in ('eq', 'ne') : return p == 'ne'
            raise Unsupported('order of pointers to different objects')
        if isinstance(a, Bits) or isinstance(b, Bits): return self.cmpbits(p, int(ty[1:]), a, b)
        if isinstance(a, (bool, SBool)) or isinstance(b, (bool, SBool)):
            a, b = [x if isinstance(x, Num) else Num.of(1 if bool(x) else 0) for x in (a, b)]
        if kind == 'fcmp':
            q = p[1:] if p[0] in 'ou' and p not in ('ord', 'uno') else p
            if p == 'uno': return False
            if p == 'ord': return True
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q]
        if p[0] == 'u': 
            w = int(ty[1:]); a, b = unsigned(a, w), unsigned(b, w); p = 's' + p[1:]
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[p]()
    def cmpbits(self, p, w, a, b):
        if p not in ('eq', 'ne'): raise Unsupported('order of bit words')
        x, y = as_bits(a, w), as_bits(b, w)
        for u, v in ((x, y), (y, x)):
            if getattr(v, 'const', None) == 0 and getattr(u, 'maybe', None) is not None:
                z = b_not(u.maybe[1])            # one bit at most: zero exactly when it is clear
                return z if p == 'eq' else b_not(z)
            if getattr(v, 'const', None) == 0 and getattr(u, 'some', None) is not None:
                z = b_not(b_or(*u.some))         # no other bits
                return z if p == 'eq' else b_not(z)
        for u, v in ((x, y), (y, x)):            # both reduce to the same single bit
            if getattr(u, 'maybe', None) is not None and getattr(v, 'maybe', None) is not None:
                if bool(Num.of(u.maybe[0]) == Num.of(v.maybe[0])):
                    s, t = u.maybe[1], v.maybe[1]; r = b_or(b_and(s, t), b_and(b_not(s), b_not(t))); return r if p == 'eq' else b_not(r)
        t = E().choose('words equal')
        if t: E().universals.append(((w,), lambda idx: iff(x.bit(idx[0]), y.bit(idx[0]))))
        else: E().__dict__.setdefault('worddiff', []).append((x, y))
        return t if p == 'eq' else not t
    def cast(self, o, t, v, to):
        if isinstance(v, Undef): return v
        if o in ('fpext', 'fptrunc', 'bitcast'): return v
        if o == 'sext':
            if t == 'i1': return Num.of(-1 if bool(v) else 0)
            if isinstance(v, Bits): raise Unsupported('sext of bits')
            return v
        if o == 'zext':
            if t == 'i1': return Num.of(1) if (v if isinstance(v, bool) else bool(v)) else Num.of(0)
            if isinstance(v, Bits): raise Unsupported('zext of bits')
            return unsigned(v, int(t[1:]))
        if o == 'trunc':
            if isinstance(v, (bool, SBool)): return v
            if to == 'i1': return v % 2 == 1
            return wrap(v, int(to[1:]))
        if o == 'sitofp': return Num(v.n, v.d, False)
        if o == 'uitofp': return Num.of(1 if bool(v) else 0) if t == 'i1' else Num(unsigned(v, int(t[1:])).n, None, False)
        if o == 'fptosi': return num.trunc(v)
        if o == 'fptoui': return num.trunc(v)
        if o == 'ptrtoint': return v if isinstance(v, Ptr) else v
        raise Unsupported('cast ' + o)
    def docall(self, fr, i):
        c = i[3]
        if c[0] == 'reg':
            f = fr.reg[c[1]]
            if not (isinstance(f, tuple) and f[0] == 'fn'): raise Unsupported('indirect call')
            name = f[1]
        else: name = c[1]
        args = [self.val(fr, v, t) for t, v in i[4]]
        f = self.ext.get(name)
        if f is None:
            sh = None
            for md in self.mods:
                if name in md.fns: sh = md.short(md.fns[name])
            if sh in self.ext: f = self.ext[sh]
        if f is not None:
            self.usedext.add(name); old = E().__dict__.get('havocking', False); E().havocking = True       # what a call may leave is another value each time
            try: return f(self, *args)
            finally: E().havocking = old
        b = name.split('.')
        for k in range(len(b), 1, -1):
            if '.'.join(b[:k]) in INTR: return INTR['.'.join(b[:k])](self, *args)
        for md in self.mods:
            if name in md.fns: return self.run(md.fns[name], args)
        raise Unsupported('call of %s' % name)
def iff(a, b): return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))
def fabs(m, x): return abs(x)
INTR = {'llvm.eh.typeid.for': lambda m, *a: Num.of(1), 'llvm.fabs': fabs, 'llvm.floor': lambda m, x: num.floor(x), 'llvm.ceil': lambda m, x: num.ceil(x), 'llvm.sqrt': lambda m, x: num.sqrt(x), 'llvm.exp': lambda m, x: num.exp(x),
        'llvm.fmuladd': lambda m, a, b, c: a * b + c, 'llvm.lifetime': lambda m, *a: None, 'llvm.stacksave': lambda m, *a: NULL, 'llvm.stackrestore': lambda m, *a: None,
        'llvm.abs': lambda m, a, p: abs(a), 'llvm.va_start': lambda m, *a: None, 'llvm.va_end': lambda m, *a: None, 'llvm.trap': lambda m, *a: (_ for _ in ()).throw(PathEnd()),
        'llvm.memcpy': lambda m, d, s, n, v: memcpy(m, d, s, n), 'llvm.memset': lambda m, d, v, n, w: memset(m, d, v, n)}
def memcpy(m, d, s, n):
    if isinstance(d.b, Arr) and isinstance(s.b, Arr) and len(d.b.comps) > 1 and d.b.comps == s.b.comps and Num.of(n).isconst() and n.const() == d.b.item and d.b.strides == s.b.strides:
        # one element of an array of records
        (i, r), (j, q) = s.b.decode(m, s.off), d.b.decode(m, d.off); m.prove('an element is copied', r == 0 and q == 0); m.inbounds(s.b, i); m.inbounds(d.b, j)
        for c, v in enumerate([s.b.get(c, *i) for c in range(len(s.b.comps))]): d.b.put(c, j, v)
        return
    ty = next((b.comps[0][1] for b in (d.b, s.b) if isinstance(b, Arr) and len(b.comps) == 1), None)
    if ty is None or not Num.of(n).isconst(): raise Unsupported('memcpy')
    n, es = int(n.const()), m.mod.size(ty)
    if n % es or n // es > 64: raise Unsupported('memcpy of %d bytes of %s' % (n, ty))
    for v, q in [(m.load(s.add(q), ty), q) for q in range(0, n, es)]: m.store(d.add(q), ty, v)
def memset(m, d, v, n):
    if not (isinstance(d.b, Arr) and len(d.b.comps) == 1 and Num.of(n).isconst() and Num.of(v).isconst() and v.const() == 0): raise Unsupported('memset')
    ty = d.b.comps[0][1]; n, es = int(n.const()), m.mod.size(ty)
    if n % es or n // es > 64: raise Unsupported('memset of %d bytes of %s' % (n, ty))
    for q in range(0, n, es): m.store(d.add(q), ty, NULL if ty == 'ptr' else Num.of(0))
def malloc(m, n):
    m.mallocs += 1; r = Raw('malloc%d' % m.mallocs, n); m.blocks.append(r)
    return Ptr(r, 0)
def free(m, p):
    if p.b is None: return None
    if not isinstance(p.b, Raw): m.prove('free of allocated memory', False); raise PathEnd()
    m.prove('%s is freed once' % p.b.name, not p.b.freed); p.b.freed = True; p.b.ver += 1
def printf(m, *a): return Num.of(0)
def rethrow(m): raise Throw()
STD = dict(__cxa_rethrow=rethrow, __cxa_begin_catch=lambda m, p: p, __cxa_end_catch=lambda m: None, malloc=malloc, free=free, printf=printf, sqrt=lambda m, x: num.sqrt(x), sqrtf=lambda m, x: num.sqrt(x), sqrtl=lambda m, x: num.sqrt(x), exp=lambda m, x: num.exp(x), expf=lambda m, x: num.exp(x), fabs=fabs, fabsf=fabs, fabsl=fabs,
           floor=lambda m, x: num.floor(x), floorf=lambda m, x: num.floor(x), ceil=lambda m, x: num.ceil(x), ceilf=lambda m, x: num.ceil(x), puts=printf, fflush=printf)
for k, v in (('std::sqrt', 'sqrt'), ('std::abs', 'fabs'), ('std::floor', 'floor')): STD[k] = STD[v]

def const_global(m, n, text, md):
    """a global variable with its initial value (constants), or an unknown object"""
    t = re.sub(r'^(?:(?:private|internal|dso_local|external|common|linkonce_odr|weak|unnamed_addr|local_unnamed_addr|hidden|thread_local)\s+)*', '', text)
    ro = t.startswith('constant'); t = re.sub(r'^(?:constant|global)\s+', '', t)
    ty, r = take_type(t)
    mm = re.match(r'\[(\d+) x (i\d+)\]$', ty)
    if mm and (ro or getattr(m, 'globals_initial', True)):
        w = mm.group(2); nn = int(mm.group(1)); vals = None
        if r.startswith('c"'):
            s = r[2:r.rindex('"')]; vals = []; k = 0
            while k < len(s):
                if s[k] == '\\': vals.append(int(s[k + 1:k + 3], 16)); k += 3
                else: vals.append(ord(s[k])); k += 1
            vals = [v - 256 if v > 127 else v for v in vals]
        elif r.startswith('['):
            vals = [int(x.split()[-1]) for x in split_args(r[1:r.index(']')])]
        elif r.startswith('zeroinitializer'): vals = [0] * nn
        if vals is not None:
            a = Arr(n, [nn], [md.size(w)], [(0, w)], lambda c, idx: table(vals, idx[0], int(w[1:])), readonly=ro); a.vals = vals; m.blocks.append(a); return a
    mm = re.match(r'\[(\d+) x ptr\]$', ty)
    if mm and r.startswith('['):
        b = Rec(n, {}, 8 * int(mm.group(1))); b.vals_ptr = True
        for k, x in enumerate(split_args(r[1:r.rindex(']')])):
            try: b.d[8 * k] = ('ptr', m.val(None, op('ptr', take_type(x)[1], md), 'ptr'))
            except Unsupported: pass
        m.blocks.append(b); return b
    if re.match(r'(i\d+|ptr|double|float)$', ty):
        b = Rec(n, {}, md.size(ty)); b.ty = ty
        v = r.split(',')[0].strip()
        try: b.d[0] = (ty, m.val(None, op(ty, v, md), ty))
        except Unsupported: pass
        m.blocks.append(b); return b
    return Rec(n, {}, None)
def table(vals, i, w):
    """constant table entry at a symbolic index: powers of two and low-bit masks as bit words, others by case"""
    if i.isconst(): return Num.of(vals[int(i.const())])
    if all(v & ((1 << w) - 1) == (1 << k) for k, v in enumerate(vals)):
        r = Bits(w, lambda j: Num.of(j) == i); r.single = i; return r
    if all(v & ((1 << w) - 1) == (1 << k) - 1 for k, v in enumerate(vals)): return Bits(w, lambda j: Num.of(j) < i)
    if len(vals) > 40: raise Unsupported('table')
    def f(j):
        return b_or(*[b_and(i == k, as_bits(Num.of(v), w).bit(j)) for k, v in enumerate(vals)])
    return Bits(w, f)

# ------------------------------------------------------------------------------------------------- numpy arrays as C sees them
NPT = dict(BOOL=0, BYTE=1, UBYTE=2, SHORT=3, USHORT=4, INT=5, UINT=6, LONG=7, ULONG=8, LONGLONG=9, ULONGLONG=10, FLOAT=11, DOUBLE=12, LONGDOUBLE=13, CFLOAT=14, CDOUBLE=15, CLONGDOUBLE=16, OBJECT=17)
COMPS = dict(BOOL=[(0, 'i8')], BYTE=[(0, 'i8')], UBYTE=[(0, 'i8')], SHORT=[(0, 'i16')], USHORT=[(0, 'i16')], INT=[(0, 'i32')], UINT=[(0, 'i32')], LONG=[(0, 'i64')], ULONG=[(0, 'i64')], LONGLONG=[(0, 'i64')], ULONGLONG=[(0, 'i64')],
             FLOAT=[(0, 'float')], DOUBLE=[(0, 'double')], LONGDOUBLE=[(0, 'x86_fp80')], CFLOAT=[(0, 'float'), (4, 'float')], CDOUBLE=[(0, 'double'), (8, 'double')], CLONGDOUBLE=[(0, 'x86_fp80'), (16, 'x86_fp80')])
def np_array(m, name, shape, t, f=None, strided=True, data=None, typenum=None):
    """PyArrayObject* with its data, dimensions, strides, type number and reference count"""
    comps = COMPS[t] if t in COMPS else [(0, 'i64')]
    a = data if data is not None else m.array(name, shape, comps, f, strided)
    nd = len(shape)
    dims = m.array(name + '.dims', [nd], [(0, 'i64')], lambda c, i: pick(a.shape, i[0]), strided=False, readonly=True)
    strs = m.array(name + '.strides', [nd], [(0, 'i64')], lambda c, i: pick(a.strides, i[0]), strided=False, readonly=True)
    descr = m.rec(name + '.descr', {28: ('i32', typenum if typenum is not None else Num.of(NPT[t]))})
    o = m.rec(name, {0: ('i64', Num.of(7)), 8: ('ptr', Ptr(ARRTYPE, 0)), 16: ('ptr', Ptr(a, 0)), 24: ('i32', Num.of(nd)), 32: ('ptr', Ptr(dims, 0)), 40: ('ptr', Ptr(strs, 0)), 56: ('ptr', Ptr(descr, 0))})
    o.arr = a; return Ptr(o, 0)
ARRTYPE = Rec('PyArray_Type', {168: ('i64', Num.of(0))})
def pick(l, i):
    if i.isconst(): return l[int(i.const())]
    for k in range(len(l) - 1):
        if bool(i == k): return l[k]
    return l[-1]
