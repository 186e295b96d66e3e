#!/usr/bin/env python3-vt
"""replay.py <file>: runs the case of a replay file on the real code again"""
import importlib
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from oracle import common  # noqa: E402
common.setup_path()
d = json.load(open(sys.argv[1]))
for o in d.get('failed_obligations') or []:
    print('failed obligation:', o['name'], o.get('detail', ''))
if d['case'] is None:
    print('no failing input was found for the failed obligations')
    sys.exit(1)
mod = importlib.import_module('oracle.' + d['property'].lower())
msg = mod.check(d['case'])
print(json.dumps(d['case'], ensure_ascii=False))
print(msg or 'the property holds for this case')
sys.exit(1 if msg else 0)
