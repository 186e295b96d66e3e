"""writes MANIFEST.json"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTE = {}
exec(open(os.path.join(here, 'tools', 'levels.py')).read())
checks = []
for p in props:
    i = p['id']
    if i in NOT_APPLICABLE:
        continue
    level, tech, note = LEVELS.get(i, DEFAULT)
    checks.append(dict(property=i, quick_cmd=f'python3-vt check.py {i} --tier quick', thorough_cmd=f'python3-vt check.py {i} --tier thorough',
                       evidence_file=f'evidence/{i}.json', technique=tech, level=level, level_note=note))
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks)
if NOT_APPLICABLE:
    m['not_applicable'] = [dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()]
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
