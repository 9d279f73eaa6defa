"""Bounded replay layer: runs the real code from /repo on concrete cases (never counted as proved)."""
import sys, os, json, time, random, hashlib, importlib, signal, traceback, warnings

REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg, key)


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run_case(mod, case, limit=60):
    """None, or (message, key) if the case shows a violation."""
    random.seed(12345)
    try:
        import numpy as np
        np.random.seed(12345)
    except ImportError:
        pass
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        mod.check(case)
        return None
    except Violation as v:
        return (str(v), v.key)
    except Timeout:
        return ('no answer within %d s' % limit, 'timeout')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        # an exception coming out of the code under test on a valid input is a violation; one raised by the
        # harness itself (innermost frame outside the repository, no repository frame) is a harness error
        if any(f.filename.startswith(REPO) for f in tb):
            return ('%s: %s (at %s:%d)' % (type(e).__name__, str(e)[:300], tb[-1].filename, tb[-1].lineno),
                    getattr(mod, 'exc_key', lambda c, e: None)(case, e))
        # the oracle handles every result the code gives on the pinned tree: a result it cannot even read is wrong
        return ('result of the wrong shape: %s: %s (at %s:%d)' % (
            type(e).__name__, str(e)[:300], tb[-1].filename, tb[-1].lineno), None)
    finally:
        signal.alarm(0)


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:12]


def main():
    sys.path.insert(0, REPO)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    sys.dont_write_bytecode = True
    warnings.filterwarnings('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    mode, cid = sys.argv[1], sys.argv[2]
    try:
        mod = importlib.import_module('replay.' + cid)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if mode == 'case':
            print('import fails: %r' % e)
            sys.exit(1)
        json.dump(dict(evaluations=0, distinct=0, samples=[], known=[], errors=[],
                       violations=[dict(case='import', msg='importing the code under test fails: %r' % e)]
                       if any(f.filename.startswith(REPO) for f in tb) else [],
                       harness_error=traceback.format_exc() if not any(f.filename.startswith(REPO) for f in tb) else None),
                  open(sys.argv[3], 'w'))
        return
    if mode == 'case':
        d = json.load(open(sys.argv[3]))
        r = run_case(mod, d['case'])
        if r:
            print('reproduced: ' + r[0])
            sys.exit(1)
        print('not reproduced')
        return
    out, tier, seed, budget = sys.argv[3], sys.argv[4], int(sys.argv[5]), float(sys.argv[6])
    known = json.load(open(os.path.join(os.path.dirname(__file__), '..', 'known_findings.json')))
    kkeys = {k['key']: k for k in known['findings'] if k['property'] == cid}
    t0 = time.time()
    rng = random.Random(seed)
    seen, n, samples, viol, kn, errors = set(), 0, [], [], {}, []
    rounds = 0
    while True:
        produced = False
        for case in mod.cases(rng, tier):
            d = digest(case)
            if d in seen:
                if time.time() - t0 > budget:
                    break
                continue
            seen.add(d)
            produced = True
            n += 1
            if len(samples) < 3:
                samples.append(case)
            try:
                r = run_case(mod, case)
            except Exception:
                errors.append(dict(case=case, tb=traceback.format_exc()[-1500:]))
                if len(errors) > 5:
                    break
                continue
            if r:
                if r[1] in kkeys:
                    kn[r[1]] = r[0]
                else:
                    viol.append(dict(case=case, msg=r[0], key=r[1]))
                    if len(viol) >= 3:
                        break
            if time.time() - t0 > budget:
                break
        rounds += 1
        if not produced or viol or errors or time.time() - t0 > budget or rounds >= getattr(mod, 'ROUNDS', 1) * (
                1 if tier == 'quick' else 20):
            break
    json.dump(dict(evaluations=n, distinct=len(seen), samples=samples, violations=viol, errors=errors,
                   known=[dict(key=k, msg=m) for k, m in kn.items()], wall_s=time.time() - t0,
                   bounds=getattr(mod, 'BOUNDS', ''), rule=getattr(mod, 'RULE', '')), open(out, 'w'), default=str)


if __name__ == '__main__':
    sys.modules['replay.base'] = sys.modules['__main__']
    main()
