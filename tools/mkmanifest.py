#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists the properties with a working check."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {}
exec(open(os.path.join(HERE, 'tools', 'claimed.py')).read())
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        tech, note = CLAIMED[i]
        checks.append({
            'property': i,
            'quick_cmd': f'bash run.sh {i}',
            'thorough_cmd': f'VERIF_TIER=thorough bash run.sh {i}',
            'evidence_file': f'evidence/{i}.json',
            'technique': tech,
            'level': 'exploration',
            'level_note': note,
        })
    else:
        na.append({'property': i, 'reason': 'its generated-input check is not built yet (work in progress)'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}
open(os.path.join(HERE, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass
