"""python3 -m vf.gen : write properties.jsonl and MANIFEST.json from vf/props.py and vf/registry.py"""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import props, registry

V = registry.HERE


def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for p in props.LIST:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in props.LIST:
        r = registry.PROPS.get(p['id'])
        if r is None:
            na.append(dict(property=p['id'], reason=props.NA.get(p['id'], 'no check yet')))
            continue
        proofs = sorted({s for s, _, _ in r.get('proofs', [])})
        checks.append(dict(property=p['id'], quick_cmd='python3-vt -m vf.check ' + p['id'],
                           thorough_cmd='python3-vt -m vf.check %s --tier=thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'],
                           technique=('contract-based deductive verification of the compiled source (specs/%s.py, LVC + z3)' % ', '.join(proofs) if proofs else 'bounded')
                           + ('; contract drivers on the real code replay failures and bound the rest' if proofs else ' native runs of executable contracts on the real code'),
                           level=r['level'], level_note=r['note']))
    m = dict(version=1, setup_cmd='python3-vt -m vf.setup', checks=checks, not_applicable=na,
             notes='See DESIGN.md. No hooks in /repo: checks compile /repo sources as they are.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)


if __name__ == '__main__':
    main()
