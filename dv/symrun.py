"""Symbolic side: proves contracts against the current source of /repo.  Reads a JSON job on stdin, writes JSON."""

import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def setup():
    sys.path.insert(0, HERE)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    sys.setrecursionlimit(20000)
    os.environ.setdefault('QT_QPA_PLATFORM', 'offscreen')
    from dv import load
    load.install()

def load_contracts(names=None):
    import glob
    for path in sorted(glob.glob(os.path.join(HERE, 'contracts', '*.py'))):
        n = os.path.basename(path)[:-3]
        if n.startswith('_'):
            continue
        if names is None or n in names:
            importlib.import_module('contracts.' + n)

BASE = None

def preimport():
    '''import the modules of /repo that the contracts reach, outside of any path'''
    global BASE
    from dv import sym, load
    eng = sym.Engine()
    sym.E = eng
    root = load.REPO
    for top in ('Patro', 'IntervalArithmetic'):
        try:
            __import__(top)
        except Exception:
            pass
    # the text of an interval (log messages) has no effect and formats its numbers in C code
    try:
        import IntervalArithmetic
        for k in ('Interval', 'Interval2D'):
            getattr(IntervalArithmetic, k).__str__ = lambda self: type(self).__name__
    except (ImportError, AttributeError):
        pass
    skip = ('MplPainter', 'QtPainter', 'QmlApplication', 'QtQuick', 'QtApplication', 'Application', 'Tools', 'Runtime', '__main__')
    for d, ds, fs in os.walk(os.path.join(root, 'Patro')):
        ds[:] = sorted(x for x in ds if x not in skip and x != '__pycache__')
        for f in sorted(fs):
            if not f.endswith('.py') or f.split('.')[0] in skip:
                continue
            n = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, '.')
            if n.endswith('.__init__'):
                n = n[:-9]
            try:
                importlib.import_module(n)
            except (Exception, SystemExit):
                pass
    BASE = eng.snapshot()

def run_contract(cid, prove_ms, deadline_s):
    from dv import sym
    from dv.contract import REGISTRY, SymCtx, Stop, STUB_MANAGER, Failure, resolve
    k = REGISTRY[cid]
    t0 = time.time()
    out = dict(id=cid, status='error', obligations={}, failures=[], stubs=[], paths=0, note='')
    deadline_s = k.opts.get('deadline', deadline_s)
    eng = sym.Engine(max_paths=k.opts.get('max_paths', 3000), deadline=t0 + deadline_s)
    eng.base = BASE
    eng.reset_path([])
    sym.E = eng
    ctx = SymCtx(eng, k, k.opts.get('prove_ms', prove_ms))
    STUB_MANAGER.ctx = ctx
    STUB_MANAGER.disabled = set(k.targets)
    if k.opts.get('inline'):
        from dv.contract import STUBS
        STUB_MANAGER.disabled = set(STUBS)
    feasible = [0, 0]
    def body():
        ctx.cur = {}
        try:
            k.fn(ctx)
        except Stop:
            pass
        except Exception as e:
            if isinstance(e, (sym.z3.Z3Exception,)):
                raise sym.Unsupported(f'z3: {e}')
            # an exception of the code, reached through an attribute access or operator of the contract,
            # or an unusable result
            try:
                ctx._exception(e)
            except Stop:
                return
        # vacuity: is the end of this path reachable?
        if feasible[0] < 1:
            r = eng.check([], 3000)
            feasible[0 if r == 'sat' else 1] += 1
        else:
            feasible[0] += 1
    try:
        eng.explore(body)
        out['status'] = 'done'
    except sym.Unsupported as e:
        out['status'] = 'unsupported'
        tb = traceback.extract_tb(e.__traceback__)
        out['note'] = f'{e} at ' + ' <- '.join(f'{f.filename.split("/")[-1]}:{f.name}:{f.lineno}' for f in reversed(tb[-6:]))
    except sym.PathBudget as e:
        out['status'] = 'budget'
        out['note'] = str(e)
    except sym.poly.TooBig as e:
        out['status'] = 'unsupported'
        out['note'] = 'normal form too big'
    except RecursionError as e:
        out['status'] = 'unsupported'
        out['note'] = 'recursion limit'
    except Exception as e:
        out['status'] = 'error'
        out['note'] = traceback.format_exc()[-1500:]
    out['obligations'] = ctx.results
    out['failures'] = ctx.failures
    out['stubs'] = sorted(ctx.used_stubs)
    out['paths'] = eng.stats['paths']
    out['sat_paths'] = feasible[0]
    out['bounded'] = k.opts.get('bounded', '')
    out['loops'] = sorted(getattr(eng, 'loop_log', set()))
    missing = []
    for t in k.targets:
        try:
            resolve(t)
        except Exception:
            missing.append(t)
    out['missing'] = missing
    out['solver'] = dict(sym.SOLVER_STATS)
    for n in sym.SOLVER_STATS:
        sym.SOLVER_STATS[n] = 0 if isinstance(sym.SOLVER_STATS[n], int) else 0.
    out['wall'] = time.time() - t0
    return out

def nothing(cid, status, note, k=None):
    """the result of a contract nothing was decided of"""
    return dict(id=cid, status=status, note=note, obligations={}, failures=[], stubs=[], paths=0, sat_paths=0, missing=[],
                solver={}, wall=0, bounded=k.opts.get('bounded', '') if k else '', loops=[])

def _worker(args):
    cid, ms, dl = args
    try:
        return run_contract(cid, ms, dl)
    except BaseException as e:
        return nothing(cid, 'error', traceback.format_exc()[-1500:])

def main():
    job = json.load(sys.stdin)
    setup()
    from dv.contract import REGISTRY, STUBS, STUB_MANAGER
    load_contracts()
    t0 = time.time()
    # import everything a contract of the job may touch before forking
    props = job.get('props')
    ids = job.get('ids') or [k.id for k in REGISTRY.values()
                             if set(props) & set(k.props) and not k.opts.get('concrete_only')]
    preimport()
    STUB_MANAGER.install()
    done = {}
    todo = list(ids)
    budget = job.get('budget', 600)
    # a contract that is not decided in time gets its bounded stand-in (a run that never ends would decide nothing)
    cutoff = t0 + job.get('cutoff', 480)
    with mp.get_context('fork').Pool(job.get('jobs', 8), maxtasksperchild=12) as pool:
        while todo:
            waiting = {i: pool.apply_async(_worker, ((i, job.get('prove_ms', 8000), job.get('deadline', 150)),)) for i in todo}
            res = []
            for i, a in waiting.items():
                try:
                    r = a.get(max(.01, cutoff - time.time()))
                except mp.TimeoutError:
                    r = nothing(i, 'budget', 'time', k=REGISTRY[i])
                res.append(r)
                done[i] = r
            nxt = set()
            for r in res:
                for t in r['stubs']:
                    if STUBS[t].id not in done:
                        nxt.add(STUBS[t].id)
            todo = sorted(nxt)
            if time.time() - t0 > budget:
                break
        pool.terminate()
    json.dump(dict(results=list(done.values()), wall=time.time()-t0), sys.stdout)

if __name__ == '__main__':
    main()
