#!/usr/bin/env python3
import json, checks
m = dict(version=1, setup_cmd='python3 setup.py', checks=[dict(property=k, quick_cmd='python3 run.py %s quick' % k, thorough_cmd='python3 run.py %s thorough' % k, technique=v['technique'], level=v.get('level', 'exploration'), level_note=v['note']) for k, v in checks.CHECKS.items()])
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
na = [dict(property=p, reason=checks.NA.get(p, 'machinery not built yet')) for p in props if p not in checks.CHECKS] if hasattr(checks, 'NA') else [dict(property=p, reason='machinery not built yet') for p in props if p not in checks.CHECKS]
m['not_applicable'] = na
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
