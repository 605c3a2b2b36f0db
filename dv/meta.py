"""Contract metadata of a property (no repository code is imported)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main():
    job = json.load(sys.stdin)
    sys.path.insert(0, HERE)
    from dv.symrun import load_contracts
    from dv.contract import REGISTRY
    load_contracts()
    p = job['prop']
    out = dict(
        concrete_only=[k.id for k in REGISTRY.values() if p in k.props and k.opts.get('concrete_only')],
        contracts={k.id: dict(targets=k.targets, doc=k.doc, bounded=k.opts.get('bounded', ''), props=k.props)
                   for k in REGISTRY.values()},
        assumptions=sorted({a for k in REGISTRY.values() if p in k.props for a in k.opts.get('assumes', ())}))
    json.dump(out, sys.stdout)
if __name__ == '__main__':
    main()
