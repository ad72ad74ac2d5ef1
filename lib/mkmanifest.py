"""Writes /verif/MANIFEST.json from the registry."""
import json, os, registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK_COMMITS = ['b9b88be']
NOT_APPLICABLE = {}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 lib/setup.py',
     'hooks': {'guard': 'ECCLAB_VERIF', 'enable': 'AddressSanitizer builds of the checks pass -DECCLAB_VERIF to the compiler (lib/core.py: VARIANTS)', 'source_commits': HOOK_COMMITS},
     'checks': [dict(property=p, quick_cmd='./check ' + p, thorough_cmd='VERIF_TIER=thorough ./check ' + p, evidence_file='evidence/%s.json' % p,
                     technique=registry.METHOD[p][0], level=registry.CHECKS[p][2]['level'], level_note=registry.METHOD[p][1]) for p in props if p in registry.CHECKS],
     'not_applicable': [dict(property=p, reason=NOT_APPLICABLE.get(p, 'check not built yet')) for p in props if p not in registry.CHECKS]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
