"""Decide one property:  python dv/check.py V01

exit 0: every obligation accepted (or a stated bounded stand-in passed); exit 1 with VIOLATION lines otherwise."""

import glob
import hashlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('DV_PYTHON', '/opt/venv/bin/python')

def env():
    e = dict(os.environ)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    e['QT_QPA_PLATFORM'] = 'offscreen'
    e['MPLBACKEND'] = 'Agg'
    e['OMP_NUM_THREADS'] = e['OPENBLAS_NUM_THREADS'] = '1'
    return e

def run(module, job, timeout):
    p = subprocess.run([PY, os.path.join(HERE, 'dv', module)], input=json.dumps(job), capture_output=True, text=True,
                       cwd=HERE, env=env(), timeout=timeout)
    out = p.stdout
    if '@@JSON@@' in out:
        out = out.split('@@JSON@@')[1]
    try:
        return json.loads(out)
    except Exception:
        sys.stderr.write(p.stdout[-3000:] + p.stderr[-6000:])
        raise SystemExit(2)

def known_findings(prop):
    path = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f'finding: property={prop} '):
                out.append(line[len(f'finding: property={prop} '):])
    return out

TRUSTED = [
    'CPython semantics of the executed source (the source of /repo is executed by CPython itself on symbolic numbers)',
    'dv/: path explorer, shims of float/int/math/numpy, ring normaliser, loop rule',
    'z3 4.x (Python library) and cvc5 1.1.2 for the non-linear real obligations',
    'machine floating point arithmetic treated as real arithmetic; float literals read as their decimal value',
    'sqrt, cos, sin, atan, atan2, acos, asin, floor, rint, round known only through their defining facts',
]

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    verbose = '-v' in sys.argv
    thorough = tier == 'thorough'
    t0 = time.time()
    sys.path.insert(0, HERE)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    for f in glob.glob(os.path.join(HERE, 'evidence', f'replay_{prop}_*.json')):
        os.remove(f)

    sres = run('symrun.py', dict(props=[prop], prove_ms=30000 if thorough else 10000,
                                 deadline=600 if thorough else 200, budget=500, cutoff=600 if thorough else 480), 880)
    results = {r['id']: r for r in sres['results']}

    # concrete-only contracts of this property
    meta = run('meta.py', dict(prop=prop), 120)
    conc_only = meta['concrete_only']

    items = []
    for cid, r in results.items():
        vals = []
        for f in r['failures']:
            for v in (f['inputs'], f['inputs_alt']):
                if v and v not in vals:
                    vals.append(v)
        bad = bool(r['failures']) or r['status'] != 'done'
        items.append(dict(id=cid, values=vals, cases=(4000 if thorough else 250) if not bad else 12000,
                          budget=(25 if thorough else 4) if not bad else 45))
    for cid in conc_only:
        items.append(dict(id=cid, values=[], cases=20000 if thorough else 3000, budget=60 if thorough else 15))
    # the whole has to end in time
    share = min(1., 8*170/max(1, sum(i['budget'] for i in items)))
    for i in items:
        i['budget'] *= share
    # longest first
    items.sort(key=lambda i: -i['budget'])
    cres = run('concrun.py', dict(seed=seed, items=items), 880)
    conc = {r['id']: r for r in cres}

    violations, undecided, errors, notes = [], [], [], []
    n_obl = n_dis = b_obl = b_dis = 0
    funcs, backends, bounded_funcs, bounded_backends = set(), {}, set(), {}
    obligations_listing = []
    for cid, r in sorted(results.items()):
        k = meta['contracts'].get(cid, {})
        for label, o in r['obligations'].items():
            n = o['proved'] + o['failed']
            if r.get('bounded') or r['status'] != 'done':
                # never counted as proved
                b_obl += n
                b_dis += o['proved']
                used = bounded_backends
            else:
                n_obl += n
                n_dis += o['proved']
                used = backends
            for b, x in o['backends'].items():
                used[b] = used.get(b, 0) + x
        if r['status'] == 'done' and not r['failures'] and r['obligations']:
            (bounded_funcs if r.get('bounded') else funcs).update(k.get('targets', []))
        cf = conc.get(cid, {})
        if cf.get('fail'):
            f = cf['fail']
            violations.append(dict(contract=cid, obligation=f['label'], detail=f['detail'], inputs=f['inputs'],
                                   origin=f['origin'], verifier=r['failures'][:3], targets=k.get('targets'), found=True))
        elif r['failures']:
            f = r['failures'][0]
            violations.append(dict(contract=cid, obligation=f['label'], detail=f['detail'], inputs=f['inputs'],
                                   origin='verifier', verifier=r['failures'][:6], targets=k.get('targets'), found=False))
        elif r['status'] in ('unsupported', 'budget'):
            undecided.append(f'{cid}: {r["status"]} ({r["note"]}); bounded stand-in: {cf.get("ok", 0)} concrete cases')
        elif r['status'] == 'error':
            errors.append(f'{cid}: {r["note"]}')
        elif not r['obligations'] or not r['sat_paths'] and not cf.get('ok'):
            errors.append(f'{cid}: vacuous contract')
        if cf.get('error'):
            errors.append(f'{cid}: {cf["error"]}')
        if r['missing']:
            notes.append(f'{cid}: missing targets {r["missing"]}')
    for cid in conc_only:
        cf = conc[cid]
        if cf.get('fail'):
            f = cf['fail']
            violations.append(dict(contract=cid, obligation=f['label'], detail=f['detail'], inputs=f['inputs'],
                                   origin=f['origin'], verifier=[], targets=meta['contracts'][cid]['targets'], found=True))
        if cf.get('error'):
            errors.append(f'{cid}: {cf["error"]}')

    # known findings
    reported = []
    for kf in known_findings(prop):
        key = kf.split(' ')[0]      # contract/obligation
        hit = [v for v in violations if f'{v["contract"]}/{v["obligation"].replace(" ", "_")}' == key]
        print(f'KNOWN-FINDING: property={prop} {kf}')
        for v in hit:
            violations.remove(v)
        reported.append(kf)

    solver = dict(z3=0, z3_s=0., cvc5=0, cvc5_s=0.)
    for r in results.values():
        for n, v in r.get('solver', {}).items():
            solver[n] = solver.get(n, 0) + v

    out_lines = []
    for i, v in enumerate(violations):
        path = os.path.join('evidence', f'replay_{prop}_{i}.json')
        v['replay_cmd'] = f'{PY} {HERE}/dv/replay.py {HERE}/{path}'
        with open(os.path.join(HERE, path), 'w') as fh:
            json.dump(v, fh, indent=1, default=str)
        line = f'VIOLATION property={prop} replay={path}'
        if not v['found']:
            line += ' no-failing-input-found'
        # the solver line must stay alone
        print(f'  obligation {v["contract"]}/{v["obligation"]} of {v["targets"]}: {v["detail"]} inputs={str(v["inputs"])[:300]}')
        out_lines.append(line)
    with open(os.path.join(HERE, 'MANIFEST.json')) as fh:
        claim = {k['property']: k for k in json.load(fh)['checks']}.get(prop, {})
    level = claim.get('level', 'other')
    bounded = sorted(f'{cid}: {r["bounded"]}' for cid, r in results.items() if r.get('bounded'))
    bounded += [f'{cid}: {meta["contracts"][cid]["bounded"] or "concrete cases only"}' for cid in conc_only]
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(
            obligations=n_obl, discharged=n_dis, explanation=claim.get('level_note', ''),
            checker_cmd=f'{PY} dv/check.py {prop}',
            trusted_base=TRUSTED,
            functions_under_contract=sorted(funcs),
            contracts=len(results), paths=sum(r['paths'] for r in results.values()),
            backends=backends, solver_calls=dict(z3=solver['z3'], cvc5=solver['cvc5']),
            solver_seconds=round(solver['z3_s'] + solver['cvc5_s'], 2),
            loops=sorted({l for r in results.values() for l in r.get('loops', [])}),
            per_contract={cid: dict(status=r['status'], obligations=sum(o['proved']+o['failed'] for o in r['obligations'].values()),
                                    paths=r['paths'], stubs=r['stubs'], wall=round(r['wall'], 2)) for cid, r in sorted(results.items())},
            bounded_standins=bounded, bounded_obligations=b_obl, bounded_discharged=b_dis, bounded_backends=bounded_backends,
            functions_bounded_only=sorted(bounded_funcs - funcs), undecided=undecided, notes=notes,
            cross_check=dict(engine='CPython on the untouched code', accepted=sum(r['ok'] for r in cres),
                             rejected=sum(r['reject'] for r in cres), checks=sum(r['checks'] for r in cres),
                             samples=[dict(id=r['id'], inputs=r['sample']) for r in cres if r.get('sample')][:4]),
            known_findings=reported,
        ),
        assumptions=TRUSTED[3:] + meta['assumptions'],
        wall_s=round(time.time()-t0, 2), violations=len(violations))
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1, default=str)
    if verbose:
        for cid, r in sorted(results.items()):
            print(f'{cid:40s} {r["status"]:12s} paths={r["paths"]:4d} obl={sum(o["proved"]+o["failed"] for o in r["obligations"].values()):4d} '
                  f'fail={len(r["failures"])} conc={conc.get(cid, {}).get("ok")}/{conc.get(cid, {}).get("reject")} {r["wall"]:.1f}s {r["note"][-700:]}')
        for cid in conc_only:
            print(f'{cid:40s} concrete ok={conc[cid]["ok"]} rej={conc[cid]["reject"]}')
    for u in undecided:
        print('bounded stand-in used: ' + u[:600])
    for n in notes:
        print('note: ' + n)
    print(f'{prop}: {n_dis}/{n_obl} obligations discharged, {b_dis}/{b_obl} bounded, {len(results)} contracts, '
          f'{sum(r["ok"] for r in cres)} concrete cross-checks, {time.time()-t0:.1f} s')
    for l in out_lines:
        print(l)
    if violations:
        sys.exit(1)
    if errors:
        for e in errors:
            print('ERROR ' + e)
        sys.exit(2)
    if n_obl == 0 and b_obl == 0 and not conc_only:
        print('ERROR zero obligations')
        sys.exit(2)
    sys.exit(0)

if __name__ == '__main__':
    main()
