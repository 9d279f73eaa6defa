"""python -m pyvc.prove CID OUT.json [budget_s]  -- discharge every obligation of contracts/CID.py"""
import sys, os, json, time, importlib, traceback, warnings
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
warnings.filterwarnings('ignore')


def main():
    cid, out = sys.argv[1], sys.argv[2]
    budget = float(sys.argv[3]) if len(sys.argv) > 3 else 240
    t0 = time.time()
    import logging
    logging.disable(logging.CRITICAL)
    from pyvc import loader
    loader.install()
    from pyvc import engine
    c = engine.Ctx(cid, timeout_ms=int(os.environ.get('PYVC_TIMEOUT_MS', '10000')))
    c.crosscheck = os.environ.get('VERIF_TIER') == 'thorough'
    c.deadline = t0 + budget
    res = dict(unsupported={}, error=None)
    functions, assumptions = [], []
    try:
        mod = importlib.import_module('contracts.' + cid)
        assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
        c.mbqi = getattr(mod, 'MBQI', True)
        c.feas_ms = getattr(mod, 'FEAS_MS', None)
        c.opaque_div = getattr(mod, 'OPAQUE_DIV', False)
        c.timeout = getattr(mod, 'TIMEOUT_MS', c.timeout)
        for name in mod.CONTRACTS:
            label, fns, fn, kw = name['label'], name['functions'], name['verify'], name.get('kw', {})
            c.loops = []
            engine.CTORS.clear()
            n0 = len(c.order)
            st = time.time()
            try:
                undo = name['setup']() if name.get('setup') else None
                try:
                    c.run(label, lambda: fn(c), **kw)
                finally:
                    if undo:
                        undo()
                if not c.reached.get(label) and not name.get('may_not_return'):
                    c._rec(label + '/reachable')['status'] = 'unreachable'
                    c.obl[label + '/reachable']['vcs'] += 1
                    c.obl[label + '/reachable']['detail'] = dict(reason='no execution path reaches the end of the contract')
                functions += [f for f in fns if f not in functions]
            except engine.Unsupported as e:
                res['unsupported'][label] = dict(reason=str(e)[:500], functions=fns)
            except Exception as e:
                tb = traceback.format_exc()
                res['unsupported'][label] = dict(reason='contract harness: ' + tb[-1500:], functions=fns)
            finally:
                engine.CTX = None
    except Exception:
        res['error'] = traceback.format_exc()[-3000:]
    res.update(obligations=[dict(name=n, status=c.obl[n]['status'], vcs=c.obl[n]['vcs'], by=sorted(c.obl[n].get('by', [])),
                                 detail=c.obl[n]['detail']) for n in c.order],
               stats=c.stats, functions=functions, assumptions=assumptions, wall_s=time.time() - t0,
               sources=sorted(loader.SOURCES.values()))
    json.dump(res, open(out, 'w'), default=str)


main()
