import argparse, importlib.util, json, os, sys, time, random, hashlib, traceback, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
import lib

def load(pid):
    import aipy
    root = os.environ['VERIF_ROOT']
    assert os.path.abspath(aipy.__file__).startswith(os.path.abspath(root)), aipy.__file__
    spec = importlib.util.spec_from_file_location('rac_' + pid, os.path.join(HERE, pid + '.py'))
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    return m

def findings(pid):
    p = os.path.join(HERE, '..', 'findings.json')
    try: return {f['key']: f for f in json.load(open(p)).get('known', []) if f['property'] == pid}
    except FileNotFoundError: return {}

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?'); ap.add_argument('--tier', default='quick'); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--out'); ap.add_argument('--budget', type=float, default=60); ap.add_argument('--skip', action='append', default=[])
    ap.add_argument('--replay'); ap.add_argument('--only')
    o = ap.parse_args()
    devnull = open(os.devnull, 'w')
    if o.replay:
        r = json.load(open(o.replay)); load(r['property'])
        c = lib.CHECKS[r['check']]
        try: c['f'](**r['inputs'])
        except lib.Skip: print('outside the precondition'); sys.exit(3)
        except lib.Known as e:
            print('known finding', e.key); sys.exit(0 if e.key in findings(r['property']) else 1)
        except Exception: traceback.print_exc(); print('REPLAY: fails'); sys.exit(1)
        print('REPLAY: holds'); sys.exit(0)
    load(o.id)
    known = findings(o.id)
    res = dict(evaluations=0, distinct=0, checks={}, failures=[], samples=[], assumptions=['the bounded part is run-time assertion checking on sampled inputs; it proves nothing beyond them'])
    prog = (o.out or '/tmp/rac') + '.progress'
    seen = set(); t0 = time.time()
    mult = 1 if o.tier == 'quick' else 12
    names = [n for n in lib.CHECKS if n not in o.skip and (not o.only or n == o.only)]
    for ci, name in enumerate(names):
        c = lib.CHECKS[name]
        rng = random.Random('%s/%d' % (name, o.seed))
        tstop = t0 + o.budget * (ci + 1) / len(names)
        st = dict(evaluations=0, skipped=0); fails = 0; k = 0
        n = len(c['corners']) + (c['n'] * mult if c['gen'] else 0)
        for k in range(n):
            if time.time() > tstop and k >= min(n, len(c['corners']) + 5): st['truncated_by_time'] = True; break
            inp = c['corners'][k] if k < len(c['corners']) else c['gen'](rng, k - len(c['corners']))
            js = json.dumps(inp, sort_keys=True, default=str)
            with open(prog, 'w') as f: json.dump(dict(check=name, inputs=inp), f, default=str)
            so = sys.stdout; sys.stdout = devnull
            try:
                try: c['f'](**inp)
                finally: sys.stdout = so
                st['evaluations'] += 1
                h = hashlib.md5((name + js).encode()).digest()
                seen.add(h)
                if st['evaluations'] == 1 and len(res['samples']) < 12: res['samples'].append(dict(check=name, inputs=json.loads(js) if len(js) < 400 else js[:400]))
            except lib.Skip: st['skipped'] += 1
            except lib.Known as e:
                st['evaluations'] += 1
                if e.key in known: res['failures'].append(dict(check=name, known='%s: %s' % (e.key, known[e.key]['what']), inputs={}, message=''))
                else: res['failures'].append(dict(check=name, inputs=inp, message='%s: %s' % (e.key, e))); fails += 1
            except Exception as e:
                st['evaluations'] += 1
                tb = traceback.format_exc()
                res['failures'].append(dict(check=name, inputs=inp, message='%s: %s' % (type(e).__name__, e), trace=tb[-2500:])); fails += 1
            if fails: break
        res['evaluations'] += st['evaluations']; res['checks'][name] = st
    res['distinct'] = len(seen)
    if o.out: json.dump(res, open(o.out, 'w'), default=str)
    else:
        print(json.dumps(res['checks'], indent=0))
        for f in res['failures']: print('FAIL', f['check'], f['message'], str(f['inputs'])[:300]); print(f.get('trace', ''))

if __name__ == '__main__': main()
