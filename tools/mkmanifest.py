"""Write MANIFEST.json from properties.jsonl and the contracts present."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.chdir(HERE)
from dv.symrun import load_contracts
from dv.contract import REGISTRY
load_contracts()
props = [json.loads(l) for l in open('properties.jsonl')]
have = {p for k in REGISTRY.values() for p in k.props}
NA = json.load(open('tools/not_applicable.json')) if os.path.exists('tools/not_applicable.json') else {}
NOTES = json.load(open('tools/level_notes.json')) if os.path.exists('tools/level_notes.json') else {}
# the deciding obligations are bounded
OTHER = ('D01', 'F02', 'L02', 'P02', 'Q01')
PY = '/opt/venv/bin/python'
checks, na = [], []
for p in props:
    i = p['id']
    if i in have and i not in NA:
        checks.append(dict(
            property=i,
            quick_cmd=f'{PY} dv/check.py {i}', thorough_cmd=f'VERIF_TIER=thorough {PY} dv/check.py {i}',
            technique='contract-based deductive verification: symbolic VC generation from the real source, ring normaliser + z3/cvc5',
            level='other' if i in OTHER else 'proof',
            level_note=NOTES.get(i, 'Every path of each function under contract is proved for all real inputs; floats are treated as reals. '
                                    'A CPython run of the same contracts on the untouched code cross-checks the engine.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd=f'{PY} -c "import sys; sys.path.append(\'/opt/veriftools/pyvenv/lib/python3.12/site-packages\'); import numpy, z3"',
         checks=checks, not_applicable=na,
         notes='Checks run the verifier in dv/ with the contracts in contracts/ on the current source of /repo; see DESIGN.md.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
