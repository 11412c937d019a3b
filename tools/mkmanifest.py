"""Writes MANIFEST.json from the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
import registry
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    s = registry.PROPS.get(p)
    if s is None:
        na.append({'property': p, 'reason': registry.NOT_APPLICABLE.get(p, 'contracts for this property are not built yet')})
        continue
    checks.append({'property': p, 'quick_cmd': 'bash check.sh %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough bash check.sh %s' % p,
                   'technique': s.get('technique', 'contract-based deductive verification of the crate\'s own MIR (extracted from the compiler on every run), obligations discharged by z3'),
                   'level': s.get('level', 'proof'), 'level_note': s.get('note', registry.NOTE)})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: private items are reached through the compiler (MIR of the crate as built). See DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
