"""Writes MANIFEST.json from the list of checks. Run after adding a check: python3 py/mkmanifest.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': './check.py setup', 'checks': [], 'not_applicable': [],
     'hooks': {'guard': 'none', 'enable': 'no change to /repo is needed: the checks compile /repo/lib and /repo/bin with their own flags, and interpose at link or load time', 'source_commits': []},
     'notes': 'Tier and seed come from VERIF_TIER and VERIF_SEED; check.py --tier/--seed override them. ./check.py replay FILE re-runs a reported case.'}
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        t, note, level = registry.INFO[i]
        m['checks'].append({'property': i, 'quick_cmd': './check.py %s' % i, 'thorough_cmd': './check.py %s --tier thorough' % i, 'technique': t, 'level': level, 'level_note': note})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'the check is not built yet'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
