"""Confirm a planted bug in a scratch copy and keep it under seeded/.

usage: plant.py SPEC.py   (SPEC defines ID, PROPERTY, EDITS=[(file, old, new)...], DEMO (Python text), NEEDS, BREAKS)
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'

def tests(repo):
    """stable tests that no longer pass in this copy"""
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    out = os.path.join(repo, '..', 'junit.xml')
    subprocess.run([PY, '-m', 'pytest', 'unit-test', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors',
                    '-o', 'junit_family=xunit2', '--junitxml=' + out], cwd=repo, env=dict(os.environ, PYTHONPATH=repo),
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    import xml.etree.ElementTree as ET
    ok = set()
    for t in ET.parse(out).iter('testcase'):
        if not list(t):
            ok.add(t.get('classname') + '::' + t.get('name'))
    return [b for b in base if b not in ok]

def plant(spec):
    d = tempfile.mkdtemp(prefix='plant')
    repo = d + '/repo'
    shutil.copytree('/repo', repo, symlinks=True)
    for f, o, n in spec['EDITS']:
        p = os.path.join(repo, f)
        s = open(p).read()
        assert s.count(o) == 1, (f, o, s.count(o))
        open(p, 'w').write(s.replace(o, n))
    diff = subprocess.check_output(['git', 'diff'], cwd=repo, text=True)
    # lines removed must be lines of the original repository
    base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
    bad = False
    for f in {e[0] for e in spec['EDITS']}:
        orig = set(l.strip() for l in subprocess.check_output(['git', '-C', '/repo', 'show', f'{base}:{f}'], text=True).splitlines())
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:].strip() not in orig:
                print('not an original line:', l); bad = True
    assert not bad
    dest = os.path.join(HERE, 'seeded', spec['ID'])
    os.makedirs(d + '/s')
    open(d + '/s/patch.diff', 'w').write(diff)
    open(d + '/s/demo.py', 'w').write(spec['DEMO'])
    open(d + '/s/demo.sh', 'w').write('#!/bin/bash\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=spec['PROPERTY'], needs=spec['NEEDS'], what_it_breaks=spec['BREAKS']), open(d + '/s/meta.json', 'w'), indent=1)
    r0 = subprocess.run(['bash', d + '/s/demo.sh'], cwd='/repo', capture_output=True, text=True)
    r1 = subprocess.run(['bash', d + '/s/demo.sh'], cwd=repo, capture_output=True, text=True)
    m = tests(repo)
    print(spec['ID'], 'unchanged:', r0.returncode, 'patched:', r1.returncode, 'tests lost:', m)
    if r0.returncode: print(r0.stdout, r0.stderr)
    print('   ', (r1.stdout + r1.stderr).strip().splitlines()[-1:])
    good = r0.returncode == 0 and r1.returncode != 0 and not m and 'SyntaxError' not in r1.stderr
    if good:
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(d + '/s', dest)
        r = subprocess.run([PY, 'dv/check.py', spec['PROPERTY']], cwd=HERE, env=dict(os.environ, DV_REPO=repo), capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
        print('    check exit', r.returncode, len(lines), 'violations', *[l[:160] for l in lines[:2]])
        if r.returncode not in (0, 1): print(r.stdout[-500:], r.stderr[-500:])
    else:
        print('    NOT KEPT')
    shutil.rmtree(d)

for path in sys.argv[1:]:
    text = open(path).read()
    for block in text.split('#=====\n'):
        if block.strip():
            ns = {}
            exec(block, ns)
            plant(ns)
