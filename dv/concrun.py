"""Concrete side: runs contracts on the untouched code of /repo under CPython (cross-check and replay)."""

import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROFILES = ('lattice', 'dyadic', 'binary', 'uniform', 'mixed', 'wide')

def setup():
    sys.path.insert(0, HERE)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    sys.path.insert(0, os.environ.get('DV_REPO', '/repo'))
    sys.dont_write_bytecode = True
    os.environ.setdefault('QT_QPA_PLATFORM', 'offscreen')
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    from dv.symrun import load_contracts
    load_contracts()

class Timeout(BaseException):
    pass

def _alarm(*a):
    raise Timeout()

def run_one(k, values=None, rng=None, profile='lattice'):
    """returns (status, ctx, failure): ok / reject / fail / error"""
    import signal
    from dv.contract import ConcCtx, Reject, Failure, Stop
    c = ConcCtx(k, values, rng, profile)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 10)
    try:
        k.fn(c)
        return 'ok', c, None
    except Reject:
        return 'reject', c, None
    except Stop:
        return 'ok', c, None
    except Timeout:
        return 'fail', c, ('termination', 'no answer within 10 s')
    except Failure as f:
        return 'fail', c, (f.label, f.detail)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return 'fail', c, ('no exception', f'{type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].name}:{tb[-1].lineno}')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)

def cross_check(args):
    cid, seed, cases, budget, seeds_values = args
    from dv.contract import REGISTRY
    k = REGISTRY[cid]
    rng = random.Random(f'{seed}/{cid}')
    t0 = time.time()
    out = dict(id=cid, ok=0, reject=0, checks=0, fail=None, error=None, sample=None)
    # replays of solver models first
    for v in seeds_values or ():
        st, c, f = run_one(k, v, rng)
        if st == 'fail':
            out['fail'] = dict(inputs=c.inputs, label=f[0], detail=f[1], origin='solver model')
            return out
    n = 0
    cases = k.opts.get('cases', cases)
    while n < cases and time.time() - t0 < budget:
        profile = PROFILES[n % len(PROFILES)]
        vals = None
        if seeds_values and rng.random() < .5:
            base = rng.choice(seeds_values)
            vals = {}
            for a, b in base.items():
                if rng.random() < .75:
                    vals[a] = b
        n += 1
        st, c, f = run_one(k, vals, rng, profile)
        if st == 'ok':
            out['ok'] += 1
            out['checks'] += c.nchecks
            if out['sample'] is None and out['ok'] == 3:
                out['sample'] = c.inputs
        elif st == 'reject':
            out['reject'] += 1
            cases += 1 if cases < 20*k.opts.get('cases', 300) else 0
        elif st == 'fail':
            out['fail'] = dict(inputs=c.inputs, label=f[0], detail=f[1], origin='search', profile=profile)
            return out
        else:
            out['error'] = f[1]
            return out
    out['wall'] = time.time() - t0
    return out

def _safe(args):
    try:
        return cross_check(args)
    except BaseException:
        return dict(id=args[0], ok=0, reject=0, checks=0, fail=None, error=traceback.format_exc()[-1500:])

def main():
    job = json.load(sys.stdin)
    setup()
    from dv.contract import REGISTRY
    items = []
    for it in job['items']:
        items.append((it['id'], job['seed'], it.get('cases', 300), it.get('budget', 6), it.get('values')))
    with mp.get_context('fork').Pool(job.get('jobs', 8), maxtasksperchild=4) as pool:
        # a run that never ends would decide nothing
        cutoff = time.time() + job.get('cutoff', 330)
        res = []
        for i, a in [(i, pool.apply_async(_safe, (i,))) for i in items]:
            try:
                res.append(a.get(max(.01, cutoff - time.time())))
            except mp.TimeoutError:
                res.append(dict(id=i[0], ok=0, reject=0, checks=0, fail=None, error=None))
        pool.terminate()
    sys.stdout.write('\n@@JSON@@' + json.dumps(res, default=str))

if __name__ == '__main__':
    main()
