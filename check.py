#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]: decide one property for the current working tree of /repo.

1. copy /repo's sources to a scratch directory and build the extensions there
2. prover: generate the obligations of contracts/<ID>.py from those sources and discharge them
3. bounded: run rac/<ID>.py (run-time assertion checking of the same contracts) on the built code, seeded,
   plus the replay of every solver counterexample
4. verdict and evidence/<ID>.json
"""
import argparse, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'
VT = shutil.which('python3-vt') or sys.executable

def sh_env():
    e = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH', 'CC', 'CXX', 'CFLAGS', 'CXXFLAGS')}
    e.update(LANG='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', SETUPTOOLS_SCM_PRETEND_VERSION='3.0.2',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONFAULTHANDLER='1', PYTHONWARNINGS='ignore')
    return e

def prepare(scratch, asan=False):
    root = os.path.join(scratch, 'src')
    os.mkdir(root)
    shutil.copytree(os.path.join(REPO, 'aipy'), os.path.join(root, 'aipy'), ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc'))
    for f in ('setup.py', 'pyproject.toml', 'README.md', 'VERSION', 'setup.cfg', 'MANIFEST.in'):
        p = os.path.join(REPO, f)
        if os.path.exists(p): shutil.copy(p, root)
    for d in ('scripts', 'doc'):
        p = os.path.join(REPO, d)
        if os.path.isdir(p): shutil.copytree(p, os.path.join(root, d))
    e = sh_env(); e['PATH'] = '/opt/venv/bin:' + e.get('PATH', '')
    p = subprocess.run([VENV, 'setup.py', 'build_ext', '--inplace', '--force', '-j', '4'], cwd=root, env=e, capture_output=True, text=True)
    if p.returncode:
        sys.stdout.write(p.stdout[-3000:] + p.stderr[-3000:])
        raise SystemExit('build failed')
    return root

def run_rac(args, root, scratch, e, timeout):
    """-> (rc, timed_out, output)"""
    p = subprocess.Popen([VENV, os.path.join(HERE, 'rac', 'run.py')] + args, env=e, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, False, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        out, _ = p.communicate()
        return p.returncode, True, out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--keep', action='store_true'); ap.add_argument('--replay')
    ap.add_argument('--no-rac', action='store_true'); ap.add_argument('--no-proof', action='store_true')
    o = ap.parse_args()
    pid, tier = o.id, ('thorough' if o.tier == 'thorough' else 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try: rc = decide(o, pid, tier, seed, scratch, t0)
    finally:
        if not o.keep: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def decide(o, pid, tier, seed, scratch, t0):
    repdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(pid + '_'): os.unlink(os.path.join(repdir, f))
    prove_file = os.path.join(HERE, 'contracts', pid + '.py'); rac_file = os.path.join(HERE, 'rac', pid + '.py')
    # the prover only needs sources: start it before the build
    pj = os.path.join(scratch, 'proof.json')
    prover = None; plog = os.path.join(scratch, 'proof.log')
    has_proof = os.path.exists(prove_file) and not o.no_proof
    if has_proof:
        psrc = os.path.join(scratch, 'psrc'); os.mkdir(psrc)
        shutil.copytree(os.path.join(REPO, 'aipy'), os.path.join(psrc, 'aipy'), ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc'))
        prover = subprocess.Popen([VT, '-m', 'vc.prove', pid, '--root', os.path.join(psrc, 'aipy'), '--tier', tier, '--out', pj], cwd=HERE, env=dict(sh_env(), VERIF_SEED=str(seed), VC_DEADLINE='520' if tier == 'quick' else '700'),
                                  stdout=open(plog, 'w'), stderr=subprocess.STDOUT, start_new_session=True)
    root = prepare(scratch)
    e = sh_env(); e['PYTHONPATH'] = root; e['VERIF_ROOT'] = root; e['VERIF_SCRATCH'] = scratch; e['HOME'] = scratch; e['VERIF_SEED'] = str(seed)
    if o.replay:
        rc, to, out = run_rac(['--replay', os.path.abspath(o.replay)], root, scratch, e, 300)
        print(out); return 1 if (rc or to) else 0
    violations, known = [], []
    # ---- bounded part
    rj = os.path.join(scratch, 'rac.json')
    rac = dict(evaluations=0, distinct=0, checks={}, failures=[], samples=[], rule='')
    if os.path.exists(rac_file) and not o.no_rac:
        skip = []
        budget = 60 if tier == 'quick' else 480
        while True:
            args = [pid, '--tier', tier, '--seed', str(seed), '--out', rj, '--budget', str(budget)] + sum([['--skip', s] for s in skip], [])
            rc, to, out = run_rac(args, root, scratch, e, budget * 2 + 60)
            prog = rj + '.progress'
            if rc == 0 and not to: break
            # crash or hang: attribute it to the case in progress and replay that alone
            try: cur = json.load(open(prog))
            except Exception: cur = None
            if cur is None:
                print(out[-4000:]); print('bounded part failed to run'); return 2
            rp = os.path.join(repdir, '%s_%s.json' % (pid, cur['check']))
            cur.update(property=pid, kind='hang' if to else 'crash', output=out[-3000:])
            json.dump(cur, open(rp, 'w'), indent=1)
            rc2, to2, out2 = run_rac(['--replay', rp], root, scratch, e, 120)
            if rc2 or to2:
                cur['replay_output'] = out2[-3000:]; json.dump(cur, open(rp, 'w'), indent=1)
                violations.append((rp, '%s: %s' % (cur['check'], 'does not terminate' if to2 else 'process died (rc %s)' % rc2), False))
            else: print('NOTE: %s in check %s did not reproduce' % ('timeout' if to else 'crash', cur['check']))
            skip.append(cur['check'])
            if len(skip) > 6: break
        if os.path.exists(rj):
            rac = json.load(open(rj))
            for f in rac['failures']:
                if f.get('known'): known.append(f['known']); continue
                rp = os.path.join(repdir, '%s_%s.json' % (pid, f['check']))
                json.dump(dict(property=pid, **f), open(rp, 'w'), indent=1)
                violations.append((rp, '%s: %s' % (f['check'], f['message'][:300]), False))
    # ---- proof part
    proof = dict(obligations=[], functions={}, assumptions=[], solver_s=0.0, covers={}, bounded=[], backends={})
    undecided = []
    if prover is not None:
        lim = (420 if tier == 'quick' else 800) if not violations else 120      # a failing input is already in hand
        try: prover.wait(timeout=max(5, lim - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(prover.pid, signal.SIGKILL); prover.wait()
        if os.path.exists(pj): proof = json.load(open(pj))
        if prover.returncode != 0:
            undecided.append('prover stopped: rc=%s %s' % (prover.returncode, open(plog).read()[-600:]))
    failed = [b for b in proof['obligations'] if b['status'] in ('refuted', 'unknown') and not b.get('soft')]
    soft = [b for b in proof['obligations'] if b['status'] in ('refuted', 'unknown') and b.get('soft')]
    for b in soft: undecided.append('%s: %s' % (b['name'], b['detail'][:200]))
    # replay counterexamples on the real code
    hit = bool(violations)
    groups = {}
    for b in failed: groups.setdefault(b['name'].split(':')[0], []).append(b)
    for g, bs in groups.items():
        done = False
        for b in bs:
            r = b.get('replay')
            if not r or b.get('witness') is None: continue
            rp = os.path.join(repdir, '%s_cex_%s.json' % (pid, hashlib.md5(b['name'].encode()).hexdigest()[:8]))
            json.dump(dict(property=pid, check=r['check'], inputs=r['inputs'], obligation=b), open(rp, 'w'), indent=1)
            rc, to, out = run_rac(['--replay', rp], root, scratch, e, 120)
            if rc or to:
                if rc == 3: continue      # inputs outside the check's domain
                violations.append((rp, 'obligation %s fails; counterexample confirmed on the real code' % b['name'], False)); done = True; break
            os.unlink(rp)
        if not done:
            b = bs[0]
            if hit or any(not v[2] for v in violations):
                undecided.append('%s: %s (%s)' % (b['name'], b['status'], b['detail'][:160])); continue
            rp = os.path.join(repdir, '%s_obl_%s.json' % (pid, hashlib.md5(b['name'].encode()).hexdigest()[:8]))
            json.dump(dict(property=pid, obligation=b, all_failed=bs, note='no failing input found'), open(rp, 'w'), indent=1)
            violations.append((rp, 'obligation %s not discharged: %s %s' % (b['name'], b['status'], b['detail'][:200]), True))
    nobl = len(proof['obligations']); ndis = sum(1 for b in proof['obligations'] if b['status'] == 'proved')
    ran = rac['evaluations'] > 0
    if has_proof and nobl == 0 and not undecided: undecided.append('no obligations were generated')
    # ---- report
    for k in sorted(set(known)): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for u in undecided[:20]: print('UNDECIDED: %s (the bounded part stands in)' % u)
    concrete = [v for v in violations if not v[2]]
    shown = concrete if concrete else violations
    for rp, msg, nf in shown[:10]:
        print('  ' + msg.replace('\n', ' ')[:600])
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, ' no-failing-input-found' if nf else ''))
    from collections import Counter
    be = Counter(b['backend'] for b in proof['obligations'] if b['status'] == 'proved')
    level = manifest_level(pid)
    cov = dict(evaluations=rac['evaluations'], distinct_nontrivial=rac['distinct'], rule=rac.get('rule') or 'run-time assertion checking of the contracts on the built code; corner, structured and seeded random inputs; distinct by hash of the inputs',
               samples=rac.get('samples', [])[:6], bounded_checks=rac.get('checks', {}))
    cov.update(obligations=nobl, discharged=ndis, checker_cmd='python3-vt -m vc.prove %s --root <scratch>/aipy --tier %s' % (pid, tier),
               trusted_base=proof.get('trusted', []) + ['vc/ (verification-condition generator), z3 4.x, cvc5 1.1.2'],
               functions_under_contract=proof['functions'], backends=dict(be), solver_s=round(proof['solver_s'], 2), paths=proof.get('covers', {}),
               undecided=undecided, self_tests=proof.get('self_tests'), obligation_names=[b['name'] for b in proof['obligations']][:400])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=proof.get('assumptions', []) + rac.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(shown))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d/%d obligations discharged, %d evaluations (%d distinct), %d violation(s), %.1fs' % (pid, tier, ndis, nobl, rac['evaluations'], rac['distinct'], len(shown), time.time() - t0))
    return 1 if shown else 0

def manifest_level(pid):
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            if c['property'] == pid: return c['level']
    except Exception: pass
    return 'proof'

if __name__ == '__main__': main()
