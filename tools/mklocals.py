"""Records contracts/locals.json from a tree (default /repo): the local names and loop counts of every function."""
import ast, glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
root = sys.argv[1] if len(sys.argv) > 1 else '/repo/aipy'
from vc import loops, llvm, names
names._R = {}
out = dict(py={}, c={})
def walk(body, st):
    for n in body:
        if isinstance(n, ast.ClassDef): walk(n.body, st + [n.name])
        elif isinstance(n, ast.FunctionDef):
            params = set(a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x])
            k = loops.nloops(n)
            if k: out['py'].setdefault('.'.join(st + [n.name]), []).append(dict(locals=[v for v in loops.assigned(n.body) if v not in params], loops=k))
for f in sorted(glob.glob(root + '/*.py')): walk(ast.parse(open(f).read()).body, [])
for src in '_miriad/mir/pack.c _miriad/mir/maskio.c _miriad/mir/uvio.c _miriad/mir/hio.c _miriad/miriad_wrap.cpp _deconv/deconv.cpp _dsp/grid/grid.c utils/utils.cpp'.split():
    m = llvm.Module(root, src)
    for n, f in sorted(m.fns.items()):
        try: f.parse()
        except Exception as e: print(src, n, e); continue
        if f.loops: out['c'].setdefault(src + ':' + m.short(f), []).append(dict(locals=list(dict.fromkeys(i[2] for b in f.order for i in f.blocks[b] if i[0] == 'dbg' and i[2])), loops=len(f.loops), shape=f.shape()))
with open(os.path.join(os.path.dirname(names._F), 'locals.json'), 'w') as f: json.dump(out, f, indent=0, sort_keys=True); f.write('\n')
print(len(out['py']), len(out['c']))
