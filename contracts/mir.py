"""The world of the Miriad wrapper: interpreter objects by kind, the C library routines it calls by contract."""
from vc.api import *
from vc import llvm, num
from vc.llvm import Ptr, NULL, Undef
from . import cc

H = dict(BYTE=1, INT=2, INT2=3, REAL=4, DBLE=5, TXT=6, CMPLX=7, INT8=8)
KIND = dict(a='BYTE', i='INT', j='INT2', l='INT8', r='REAL', d='DBLE', c='CMPLX')
SIZE = dict(a=1, i=4, j=2, l=8, r=4, d=8, c=8)
FLAG = dict(int=1 << 24, str=1 << 28, bytes=1 << 27, float=0, complex=0, other=0, index=0)
class W(cc.World):
    """one call; objects made by the interpreter are kept in self.made"""
    def __init__(self, m, objs=()):
        cc.World.__init__(self, m, list(objs)); self.types = {}; self.made = []; self.calls = []
        for k in FLAG: self.types[k] = m.rec('type ' + k, {168: ('i64', Num.of(FLAG[k]))})
        cc.constants(m); m.ext.update(cc.ext(self)); m.ext.update(self.ext())
        g = m.globals; g['PyFloat_Type'] = Ptr(self.types['float'], 0); g['PyComplex_Type'] = Ptr(self.types['complex'], 0)
        for n in ('ValueError', 'IOError', 'RuntimeError', 'MemoryError', 'OSError'): e = m.rec('PyExc_' + n, {}); g['PyExc_' + n] = Ptr(m.rec('&PyExc_' + n, {0: ('ptr', Ptr(e, 0))}), 0)
    def obj(self, kind, val=None, refs=7):
        o = self.m.rec('%s object' % kind, {0: ('i64', Num.of(refs)), 8: ('ptr', Ptr(self.types[kind], 0))}); o.kind, o.val = kind, val; self.made.append(o); return Ptr(o, 0)
    def text(self, s):
        """a C string"""
        v = [ord(c) for c in s] + [0]; a = self.m.array('text ' + s, [len(v)], [(0, 'i8')], lambda c, i: llvm.table(v, i[0], 8), strided=False, readonly=True); a.vals = v; return Ptr(a, 0)
    def ext(self):
        T = self
        def want(p, *kinds):
            if p.b is None or getattr(p.b, 'kind', None) not in kinds: prove('conversion of an object of the right kind', False); raise PathEnd()
            return p.b.val
        def utf8(m, o): want(o, 'str'); return T.utf(o)
        def utf8s(m, o, n): want(o, 'str'); m.store(n, 'i64', o.b.val[1]); return T.utf(o)
        return dict(PyLong_AsLong=lambda m, o: want(o, 'int', 'index'), PyFloat_AsDouble=lambda m, o: want(o, 'float'), PyComplex_RealAsDouble=lambda m, o: want(o, 'complex')[0], PyComplex_ImagAsDouble=lambda m, o: want(o, 'complex')[1],
                    PyLong_FromLong=lambda m, v: T.obj('int', v, 1), PyFloat_FromDouble=lambda m, v: T.obj('float', v, 1), PyComplex_FromDoubles=lambda m, a, b: T.obj('complex', (a, b), 1),
                    PyUnicode_AsUTF8=utf8, PyUnicode_AsUTF8AndSize=utf8s, PyIndex_Check=lambda m, o: Num.of(1 if o.b.kind in ('int', 'index') else 0), PyType_IsSubtype=lambda m, a, b: Num.of(1 if a.b is b.b else 0),
                    PyBytes_FromStringAndSize=lambda m, p, n: T.obj('bytes', (m.load(p, 'i8'), n), 1), PyUnicode_FromStringAndSize=lambda m, p, n: T.obj('str', (p, n), 1), Py_BuildValue=T.build,
                    **{'MiriadError::get_message': lambda m, p: NULL})
    @staticmethod
    def built_item(f, x):
        """an item of Py_BuildValue: kind of Python object and its value"""
        if f in 'NO': prove('no reference kept', x.b.d[0][1] == 1); return x.b.kind, (x if x.b.kind == 'array' else x.b.val)
        return {**dict.fromkeys('bhilLnkIKBH', 'int'), 'f': 'float', 'd': 'float', 's': 'str'}[f], x
    NPY = {5: ('INT', 'i32', 1, 'int'), 7: ('LONG', 'i64', 1, 'int'), 11: ('FLOAT', 'float', 1, 'f'), 12: ('DOUBLE', 'double', 1, 'f'), 14: ('CFLOAT', 'float', 2, 'c'), 15: ('CDOUBLE', 'double', 2, 'c')}
    def newarray(self, n, typenum, f=None):
        """a new contiguous one-dimensional array, seen as its real numbers (two to an element for complex types)"""
        nm, ty, q, _ = self.NPY[typenum]; m = self.m; es = m.mod.size(ty); k = len(self.made)
        a = m.array('new array %d' % k, [n * q], [(0, ty)], f or (lambda c, i: Undef('uninitialised array')), strides=[Num.of(es)])
        o = llvm.np_array(m, 'array object %d' % k, [n], nm, data=a, typenum=Num.of(typenum)); o.b.d[0] = ('i64', Num.of(1)); o.b.kind = 'array'; o.b.n = n; o.b.typenum = typenum; self.made.append(o.b)
        self.m.rec('x', {}); o.b.d[40] = ('ptr', Ptr(m.array('strides %d' % k, [1], [(0, 'i64')], lambda c, i: Num.of(es * q), strided=False, readonly=True), 0)); o.b.d[32] = ('ptr', Ptr(m.array('dims %d' % k, [1], [(0, 'i64')], lambda c, i: Num.of(n), strided=False, readonly=True), 0)); return o
    def api(self):
        """the numpy C API functions by contract"""
        T = self; t = self.m.globals['PyArray_API'].b.d[0][1].b
        def new(m, typ, nd, dims, tn, strides, data, item, flags, o):
            prove('a new array of default layout', bool(nd == 1) and strides.b is None and data.b is None and o.b is None and bool(flags == 0)); n = m.load(dims, 'i64'); prove('size not negative', n >= 0); return T.newarray(n, int(tn.const()))
        def ret(m, p): return p
        def descr(m, tn): return ('descr', tn)
        def fromany(m, o, dt, mn, mx, flags, ctx):
            f = int(flags.const()); prove('contiguous elements in native order', f & 1 == 1 and f & 0x100 == 0x100); a = o.b; tn = int(dt[1].const()); src = a.arr; _, ty, q, _ = T.NPY[tn]; sq = len(src.comps)
            prove('kind of number', (sq == 2) == (q == 2)); snt = int(a.d[56][1].b.d[28][1].const()); prove('conversion requested (%d to %d)' % (snt, tn), snt == tn or f & 0x10 == 0x10)
            prove('one-dimensional', bool(a.d[24][1] == 1))
            def el(c, i):
                if q == 1: v = src.get(0, i[0]); return llvm.wrap(v, int(ty[1:])) if ty[0] == 'i' else v
                k = i[0] // 2; return src.get(0, k) if bool(i[0] == 2 * k) else src.get(1, k)
            r = T.newarray(src.shape[0], tn, el); r.b.source = a; return r
        for k, (n, f) in {93: ('PyArray_New', new), 76: ('PyArray_Return', ret), 45: ('PyArray_DescrFromType', descr), 69: ('PyArray_FromAny', fromany)}.items(): t.d[8 * k] = ('ptr', ('fn', n)); self.m.ext[n] = f
        def dealloc(m, o):
            prove('only an object of its own is dropped', o.b in T.made and getattr(o.b, 'kind', '') == 'array'); o.b.gone = True
            if hasattr(o.b, 'arr'):
                def dead(*a): prove('array used after being dropped', False); raise PathEnd()
                o.b.arr.load = o.b.arr.store = dead
        self.m.ext['_Py_Dealloc'] = dealloc
    def utf(self, o):
        """bytes of a string object: content, length"""
        f, n = o.b.val
        if not hasattr(o.b, 'buf'): o.b.buf = self.m.array('utf8', [n + 1], [(0, 'i8')], lambda c, i: f(i[0]) if not bool(i[0] == n) else Num.of(0), strided=False, readonly=True)
        return Ptr(o.b.buf, 0)
    def build(self, m, fmt, *a):
        f = cc.cstr(m, fmt); self.built = (f, a)
        for c, x in zip([c for c in f if c.isalpha()], a):
            if c == 'O': x.b.d[0] = ('i64', x.b.d[0][1] + 1)
            if c == 's' : pass
        return self.obj('other', ('built', f, a), 1)
