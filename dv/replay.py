"""Re-run a recorded violation on the untouched code:  python dv/replay.py evidence/replay_X_0.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dv import concrun
def main():
    v = json.load(open(sys.argv[1]))
    print(json.dumps(v, indent=1))
    concrun.setup()
    from dv.contract import REGISTRY
    if not v['found']:
        print('no failing input was found; the failed obligation and the verifier output are above')
        return
    st, c, f = concrun.run_one(REGISTRY[v['contract']], v['inputs'])
    print(st, f)
    sys.exit(1 if st == 'fail' else 0)
if __name__ == '__main__':
    main()
