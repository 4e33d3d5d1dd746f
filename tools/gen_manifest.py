#!/opt/veriftools/pyvenv/bin/python3
"""Writes MANIFEST.json from vf/registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
from vf import registry
ids = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
checks = [dict(property=p, quick_cmd='./check.py ' + p, thorough_cmd='./check.py %s --tier thorough' % p, technique=registry.technique(p), level=registry.level(p), level_note=registry.note(p)) for p in ids if p not in registry.NOT_APPLICABLE]
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[dict(property=p, reason=registry.NOT_APPLICABLE[p]) for p in ids if p in registry.NOT_APPLICABLE],
         notes='No hooks: the checks read the unmodified sources of /repo. Every check re-extracts and rebuilds what it needs from /repo\'s working tree.')
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'checks')
