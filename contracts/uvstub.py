"""aipy._miriad by contract: a data set as header items (typed elements at offsets), variables, and calls recorded."""
from vc.api import *
import types
from vc import seq, npsym, num
from vc.num import Num

SIZE = dict(a=1, i=4, j=2, l=8, r=4, d=8, c=8)
class Item:
    """els: number of elements and the k-th element; slots of 8 bytes of mixed type for 'freqs'"""
    def __init__(self, name): self.name, self.tag, self.n, self.f, self.mixed, self.ver = name, None, Num.of(0), lambda k: None, name == 'freqs', 0
    def base(self): return 0 if self.mixed else 0 if self.tag is None else max(4, SIZE[self.tag])
    def size(self, t): return 8 if self.mixed else SIZE[t]
    def slot(self, off, t):
        k = (Num.of(off) - self.base()) / self.size(t)
        if not all(c.denominator == 1 for c in k.n.values()) or not num.p_isconst(k.d): prove('offset of an element of %s' % self.name, False); raise PathEnd()
        return Num(k.n, k.d, True)
    def typ(self, k): return 'i' if bool(b_or(k == 0, (k - 1) % 3 == 0)) else 'd'
class Handle:
    def __init__(self, item, mode): self.item, self.mode, self.open = item, mode, True
class Module:
    """state of one path"""
    def __init__(self):
        self.items, self.handles, self.calls = {}, [], []; M = self; m = types.ModuleType('_miriad_contract'); self.mod = m; m.MAXCHAN = 65536
        class UV(object):
            def __init__(self, *a): self._args = a; M.calls.append(('open',) + a)
            def haccess(self, name, mode):
                if mode == 'write': it = M.items[name] = Item(name)
                else:
                    if name not in M.items: raise IOError('IO failed')
                    it = M.items[name]
                h = Handle(it, mode); M.handles.append(h); return h
            def _rdvr(self, name, type): M.calls.append(('_rdvr', name, type)); return M.rdvr(self, name, type)
            def _wrvr(self, name, type, val): M.calls.append(('_wrvr', name, type, val))
            def _select(self, *a): M.calls.append(('_select',) + a)
            def trackvr(self, *a): M.calls.append(('trackvr', self) + a)
            def copyvr(self, *a): M.calls.append(('copyvr', self) + a)
            def rewind(self): M.calls.append(('rewind', self))
            def raw_read(self, n): return M.raw_read(self, n)
            def raw_write(self, *a): M.calls.append(('raw_write', self) + a)
        m.UV = UV; self.rdvr = lambda uv, n, t: ('variable', n)
        m.haccess = None
        def live(h, *modes):
            if not isinstance(h, Handle) or not h.open: prove('an open item', False); raise PathEnd()
            prove('opened for this', h.mode in modes)
        def hwrite_init(h, t): live(h, 'write'); prove('type tag of an empty item', h.item.tag is None and bool(h.item.n == 0)); h.item.tag = t; return Num.of(max(4, SIZE[t]))
        def hread_init(h): live(h, 'read'); return h.item.tag, Num.of(max(4, SIZE[h.item.tag]))
        def hwrite(h, off, v, t):
            live(h, 'write'); it = h.item
            if t == 'a' and it.tag is None:
                s = v.encode(); prove('text follows what was written', bool(Num.of(off) == it.n)); old = getattr(it, 'bytes', b''); it.bytes = old + s; it.n = Num.of(len(it.bytes)); it.f = lambda k: it.bytes[int(Num.of(k).const()):][:1]; it.text = True; return len(s)
            k = it.slot(off, t); prove('elements are of the type of the item', it.tag == t if not it.mixed else it.typ(k) == t); prove('element follows the last', k == it.n)
            n, f = it.n, it.f; it.n = n + 1; it.f = lambda j: v if bool(Num.of(j) == n) else f(j); it.ver += 1; return Num.of(SIZE[t])
        def hread(h, off, t):
            live(h, 'read'); it = h.item
            if t == 'a':
                if Num.of(off).const() >= it.n.const(): raise IOError('IO failed')
                return it.f(off), 1
            k = it.slot(off, t); prove('read as its type', it.tag == t if not it.mixed else True); prove('not before the start', k >= 0)
            if not bool(k < it.n): raise IOError('IO failed')
            if it.mixed: prove('read as its type', it.typ(k) == t)
            return it.f(k), Num.of(SIZE[t])
        def hdaccess(h): live(h, 'read', 'write', 'append'); h.open = False
        m.hwrite_init, m.hread_init, m.hwrite, m.hread, m.hdaccess = hwrite_init, hread_init, hwrite, hread, hdaccess
        def ga(n):
            if n.startswith('__'): raise AttributeError(n)
            raise Unsupported('_miriad.' + n)
        m.__getattr__ = ga
    def closed(self): return not any(h.open for h in self.handles)
def stub(session):
    if not hasattr(session, 'miriad'): session.miriad = Module()
    return session.miriad.mod
