#!/usr/bin/env python3-vt
"""check.py <property id> [quick|thorough]: decide one property on /repo's current tree."""
import os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.path.insert(0, ROOT)
import driver, registry

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = registry.SPECS[pid]
    if 'run' in spec:
        return spec['run'](pid, tier, seed)
    units = spec['units'](tier)
    return driver.check(pid, units, tier, seed, spec['description'], spec.get('assumptions', []) + registry.COMMON_ASSUMPTIONS,
                        budget=700 if tier == 'thorough' else 240, ntraces=8 if tier == 'thorough' else 3,
                        ndump=10 if tier == 'thorough' else 0)

sys.exit(main())
