"""python3-vt -m vc.prove <ID> --root <aipy dir> --tier T --out FILE: generate and discharge one property's obligations."""
import argparse, importlib, json, sys, time, os, traceback

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id'); ap.add_argument('--root', default='/repo/aipy'); ap.add_argument('--tier', default='quick'); ap.add_argument('--out')
    ap.add_argument('-v', action='store_true')
    o = ap.parse_args()
    sys.setrecursionlimit(20000); os.environ['VERIF_TIER'] = o.tier
    m = importlib.import_module('contracts.' + o.id)
    kw = dict(solver_ms=5000, budget_s=220.0) if o.tier == 'quick' else dict(solver_ms=20000, budget_s=300.0)
    t0 = time.time()
    S = m.build(o.root, **kw)
    d = S.result()
    d['wall_s'] = time.time() - t0
    if o.out: json.dump(d, open(o.out, 'w'), default=str)
    from collections import Counter
    print(Counter((b['status'], b['backend']) for b in d['obligations']), '%.1fs solver %.1fs' % (d['wall_s'], d['solver_s']))
    seen = set()
    for b in d['obligations']:
        if b['status'] != 'proved' and not (b['name'] in seen or seen.add(b['name'])): print(b['status'], 'soft' if b.get('soft') else '', b['name'], b['detail'][:300], b['witness'])
    if o.v:
        print(d['covers']); print(d['assumptions'])

if __name__ == '__main__': main()
