"""C API as the C sources see it: argument parsing, errors, reference counts, numpy array objects."""
from vc.api import *
from vc import llvm, num
from vc.llvm import Ptr, NULL, np_array

FLAGS = 0x0001 | 0x0100 | 0x0200 | 0x0400      # C-contiguous, aligned, native order, writeable
class World:
    """one call of a wrapper: objs are what the argument tuple holds, in order; None = optional argument left out"""
    def __init__(self, m, objs): self.m, self.objs, self.err, self.fmt = m, objs, None, None
FMT = {'l': ('i64', 64), 'i': ('i32', 32), 'd': ('double', 0), 'f': ('float', 0), 'L': ('i64', 64), 'h': ('i16', 16)}
def parse(fmt, w, m, rest):
    """PyArg_Parse*: stores the arguments by the format's conversion units"""
    k = 0; q = 0; rest = list(rest); opt = False; i = 0
    while k < len(fmt):
        c = fmt[k]
        if c == '|': opt = True; k += 1; continue
        if c in ':;': break
        if c in '()': k += 1; continue
        if c == 'O' and fmt[k:k + 2] == 'O!':
            rest.pop(0); tgt = rest.pop(0); v = w.objs[i]; m.store(tgt, 'ptr', v); k += 2
        elif c == 'O': m.store(rest.pop(0), 'ptr', w.objs[i]); k += 1
        elif c == 's': m.store(rest.pop(0), 'ptr', w.objs[i]); k += 1
        elif c in FMT:
            tgt = rest.pop(0); v = w.objs[i] if i < len(w.objs) else None; t, b = FMT[c]
            room(m, tgt, t)
            if v is not None:
                if not (isinstance(v, Num)): raise Unsupported('argument %d for %s' % (i, c))
                if b: 
                    if not bool(b_and(v >= -(1 << (b - 1)), v < (1 << (b - 1)))): w.err = 'overflow'; return Num.of(0)
                m.store(tgt, t, v)
            elif not opt: raise Unsupported('missing argument')
            k += 1
        else: raise Unsupported('format %s' % c)
        i += 1
    return Num.of(1)
def room(m, p, t):
    """the variable an argument is stored in has exactly the type of the conversion"""
    b = p.b; want = getattr(b, 'ty', None)
    if want is not None and want != t: m.prove('argument stored in a variable of its type (%s into %s)' % (t, want), False); raise PathEnd()
def cstr(m, p):
    if p.b is None: return None
    v = getattr(p.b, 'vals', None)
    if v is None: raise Unsupported('string')
    s = ''
    for c in v[int(p.off.const()):]:
        if c == 0: return s
        s += chr(c % 256)
    return s
def ext(w):
    def PT(m, args, fmt, *rest): w.fmt = cstr(m, fmt); return parse(w.fmt, w, m, rest)
    def PTK(m, args, kw, fmt, kwl, *rest):
        w.fmt = cstr(m, fmt); w.kw = []
        for k in range(40):
            p = m.load(kwl.add(8 * k), 'ptr')
            if p.b is None: break
            w.kw.append(cstr(m, p))
        return parse(w.fmt, w, m, rest)
    def err(m, exc, *a): w.err = 'error'; w.exc = exc; return NULL
    def dealloc(m, o): m.prove('no reference dropped that is not owned', False); raise PathEnd()
    def bv(m, fmt, *a): return ('built', cstr(m, fmt), a)
    return {'PyArg_ParseTuple': PT, 'PyArg_ParseTupleAndKeywords': PTK, 'PyErr_Format': err, 'PyErr_SetString': err, '_Py_Dealloc': dealloc, 'Py_BuildValue': bv}
def ndarray(m, name, shape, t, strided=False, flags=None, byteorder=None, **k):
    p = np_array(m, name, shape, t, strided=strided, **k)
    p.b.d[64] = ('i32', Num.of(FLAGS if flags is None else flags))
    p.b.d[56][1].b.d[26] = ('i8', Num.of(ord('=') if byteorder is None else byteorder))
    return p
def refs(nm, *arrs):
    for a in arrs: prove('%s: reference count of %s restored' % (nm, a.b.name), a.b.d[0][1] == 7)

def constants(m):
    """objects of the interpreter: None, the exception classes"""
    m.globals['_Py_NoneStruct'] = Ptr(m.rec('None', {0: ('i64', Num.of(7)), 8: ('ptr', NULL)}), 0)
    api = m.rec('PyArray_API', {16: ('ptr', Ptr(llvm.ARRTYPE, 0))}); a = Ptr(m.rec('&PyArray_API', {0: ('ptr', Ptr(api, 0))}), 0)
    m.globals['PyArray_API'] = m.globals['_ZL11PyArray_API'] = a
