#!/usr/bin/env python3
"""run_check.py CID [--tier quick|thorough] | CID --replay FILE

Decides one property of /repo's current working tree:
  1. deductive layer: contracts/CID.py, every obligation regenerated from the current source (pyvc.prove);
  2. bounded replay layer: replay/CID.py on concrete inputs of the real code (never counted as proved).
Exit 0: property held; exit 1 + VIOLATION line otherwise.  No other exit code on any outcome of the code."""
import sys, os, json, subprocess, time, hashlib, shutil, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def env():
    e = dict(os.environ)
    e.update(PYTHONHASHSEED='0', MPLBACKEND='Agg', PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return e


def start(args, log, cwd=HERE):
    return subprocess.Popen(args, cwd=cwd, env=env(), stdout=log, stderr=subprocess.STDOUT, start_new_session=True)


def wait(p, limit):
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        return False
    return True


def load(path):
    try:
        return json.load(open(path))
    except Exception:
        return None


def main():
    cid = sys.argv[1]
    if '--replay' in sys.argv:
        f = sys.argv[sys.argv.index('--replay') + 1]
        d = json.load(open(f))
        if d.get('kind') != 'input':
            print(json.dumps(d, indent=1))
            return 1
        tmp = tempfile.mkdtemp(prefix='vr_')
        try:
            return subprocess.call([PY, '-m', 'replay.base', 'case', cid, os.path.abspath(f)], cwd=HERE, env=env())
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ev_dir = os.path.join(HERE, 'evidence')
    rp_dir = os.path.join(ev_dir, 'replays')
    os.makedirs(rp_dir, exist_ok=True)
    for f in os.listdir(rp_dir):
        if f.startswith(cid + '-'):
            os.unlink(os.path.join(rp_dir, f))
    meta = {m['property']: m for m in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}.get(cid, {})
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % cid)
    quick = tier == 'quick'
    pb, rb = (200, 45) if quick else (500, 300)
    try:
        log1, log2 = open(tmp + '/p.log', 'w'), open(tmp + '/r.log', 'w')
        has_c = os.path.exists(os.path.join(HERE, 'contracts', cid + '.py'))
        p = start([PY, '-m', 'pyvc.prove', cid, tmp + '/p.json', str(pb)], log1) if has_c else None
        r = start([PY, '-m', 'replay.base', 'run', cid, tmp + '/r.json', tier, str(seed), str(rb)], log2)
        rok = wait(r, rb + 200)
        pok = wait(p, pb + 150) if p else True
        proof = (load(tmp + '/p.json') if p else None) or dict(
            obligations=[], unsupported={'all': dict(reason='no prover result: ' + open(tmp + '/p.log').read()[-800:])} if p else {},
            stats={}, functions=[], assumptions=[], error=None, wall_s=0)
        rep = load(tmp + '/r.json')
        if rep is None:
            rep = dict(evaluations=0, distinct=0, samples=[], violations=[], known=[], errors=[],
                       harness_error='replay layer gave no result: ' + open(tmp + '/r.log').read()[-1500:])
        # every obligation of the unchanged tree is discharged in well under a second; one that all back ends
        # leave open after the long retries is reported like a refuted one (as no-failing-input-found unless the
        # replay layer finds an input), with the solver's answer attached
        failed = [o for o in proof['obligations'] if o['status'] in ('refuted', 'unreachable', 'unknown')]
        extra = None
        if failed and not rep['violations'] and not rep.get('harness_error'):
            # look harder for a concrete failing input
            best = []
            for k in (1, 2):
                lg = open(tmp + '/r%d.log' % k, 'w')
                best.append(start([PY, '-m', 'replay.base', 'run', cid, tmp + '/r%d.json' % k, 'thorough',
                                   str(seed + 1000 * k), '60'], lg))
            for k, q in enumerate(best, 1):
                wait(q, 150)
                x = load(tmp + '/r%d.json' % k)
                if x:
                    rep['evaluations'] += x['evaluations']
                    rep['distinct'] += x['distinct']
                    if x['violations'] and not rep['violations']:
                        rep['violations'] = x['violations']
        viol_line = None
        if rep['violations']:
            v = rep['violations'][0]
            path = os.path.join(rp_dir, '%s-input.json' % cid)
            json.dump(dict(kind='input', property=cid, case=v['case'], message=v['msg'],
                           failed_obligations=[dict(name=o['name'], detail=o['detail']) for o in failed],
                           how='python3 run_check.py %s --replay %s' % (cid, path)), open(path, 'w'), indent=1, default=str)
            viol_line = 'VIOLATION property=%s replay=%s' % (cid, path)
            print('failing input: %s\n  %s' % (json.dumps(v['case'], default=str)[:600], v['msg'][:600]))
        elif failed:
            path = os.path.join(rp_dir, '%s-obligation.json' % cid)
            json.dump(dict(kind='obligation', property=cid,
                           failed_obligations=[dict(name=o['name'], status=o['status'], detail=o['detail']) for o in failed]),
                      open(path, 'w'), indent=1, default=str)
            viol_line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (cid, path)
        for o in failed:
            print('failed obligation: %s (%s) %s' % (o['name'], o['status'], str((o['detail'] or {}).get('reason'))[:300]))
        for l, u in proof['unsupported'].items():
            print('not proved (out of the verifier\'s reach on this source): %s: %s' % (l, u['reason'][-400:]))
        for k in rep.get('known', []):
            print('KNOWN-FINDING: property=%s %s: %s' % (cid, k['key'], k['msg'][:300]))
        if rep.get('harness_error'):
            print('replay harness: ' + rep['harness_error'])
        for e in rep.get('errors', []):
            print('replay harness error: ' + e['tb'])
        nobl = len(proof['obligations'])
        ndis = sum(o['status'] == 'proved' for o in proof['obligations'])
        ev = dict(property=cid, tier=tier, seed=seed, level=meta.get('level', 'proof'),
                  coverage=dict(
                      obligations=nobl, discharged=ndis, vcs=proof['stats'].get('vcs', 0),
                      paths=proof['stats'].get('paths', 0), solver_s=round(proof['stats'].get('solver_s', 0), 3),
                      by_backend=dict(z3=proof['stats'].get('z3', 0), cvc5=proof['stats'].get('cvc5', 0)),
                      functions_under_contract=proof['functions'],
                      obligation_names=[o['name'] for o in proof['obligations']],
                      undischarged=[o['name'] for o in proof['obligations'] if o['status'] != 'proved'],
                      out_of_reach={k: v['reason'][-300:] for k, v in proof['unsupported'].items()},
                      checker_cmd='%s -m pyvc.prove %s OUT.json' % (PY, cid),
                      trusted_base=['pyvc engine (/verif/pyvc): VC generation by path-forking symbolic execution in CPython',
                                    'z3 %s / cvc5' % '5.x', 'CPython semantics of the real code outside the symbolic proxies',
                                    'source rewriting R1-R4 of pyvc/loader.py'] + proof['assumptions'],
                      evaluations=rep['evaluations'], distinct_nontrivial=rep['distinct'],
                      rule=(rep.get('rule') or 'bounded replay cases of replay/%s.py, distinct by their JSON text' % cid),
                      bounded=(rep.get('bounds') or 'bounded replay layer: concrete sampled cases, not counted as proved'),
                      samples=rep['samples'],
                      explanation='deductive layer: obligations regenerated from the current source; bounded replay layer: '
                                  'evaluations on the real code'),
                  assumptions=proof['assumptions'], wall_s=round(time.time() - t0, 2),
                  violations=len(rep['violations']) + (len(failed) if not rep['violations'] else 0))
        json.dump(ev, open(os.path.join(ev_dir, cid + '.json'), 'w'), indent=1, default=str)
        print('%s: %d/%d obligations discharged (%d vcs, %d paths), %d replay cases, %.1f s' % (
            cid, ndis, nobl, ev['coverage']['vcs'], ev['coverage']['paths'], rep['evaluations'], time.time() - t0))
        if viol_line:
            print(viol_line)
            return 1
        if nobl == 0 and rep['evaluations'] == 0:
            print('no answer: neither layer ran')
            return 2
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
