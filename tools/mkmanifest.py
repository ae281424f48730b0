#!/usr/bin/env python3-vt
"""Regenerates MANIFEST.json from registry.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, 'engine')]
import registry
checks = []
for pid in sorted(registry.SPECS):
    s = registry.SPECS[pid]
    checks.append(dict(property=pid, quick_cmd='python3-vt check.py %s quick' % pid, thorough_cmd='python3-vt check.py %s thorough' % pid,
                       technique=s.get('technique', registry.TECHNIQUE), level='model_checking',
                       level_note=s['description'] + ' ' + registry.LEVEL_NOTE))
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
na = [dict(property=p, reason=registry.NOT_APPLICABLE.get(p, 'no check yet')) for p in props if p not in registry.SPECS]
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=na),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
