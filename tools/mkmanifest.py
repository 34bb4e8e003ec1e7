"""Writes MANIFEST.json from the properties, the contracts and the scenario suites that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pyvc.registry import Registry
import contracts.load as L
R = Registry(); L.load(R)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    fns = [k.split(':')[1] for k, c in R.contracts.items() if i in c.props and not c.trusted and not c.inline]
    if not fns or not os.path.exists(os.path.join(HERE, 'scenarios', i.lower() + '.py')):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'python3-vt check.py {i} --tier quick',
        'thorough_cmd': f'python3-vt check.py {i} --tier thorough',
        'technique': 'contract-based deductive verification: VCs generated from the real functions on every run, discharged by z3 (cvc5 where z3 answers unknown); '
                     'failed obligations replayed on the real code',
        'level': 'proof',
        'level_note': f'{len(fns)} functions under contract: ' + ', '.join(fns) + '. Trusted: the VC generator pyvc, z3 and cvc5, the typed view of '
                      'objects and the assumed contracts of dependencies listed in the evidence file. A function that leaves the supported '
                      'subset is reported as not verified and only the labelled bounded scenario suite speaks for it in that run.'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
