#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS
V = os.path.dirname(HERE)
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in PROPS:
        s = PROPS[p]
        checks.append({'property': p, 'quick_cmd': 'python3 tools/check.py %s' % p,
                       'thorough_cmd': 'python3 tools/check.py %s thorough' % p,
                       'technique': s['technique'], 'level': s.get('level', 'exploration'), 'level_note': s['note']})
    else:
        na.append({'property': p, 'reason': 'The monitor for this property is not built yet.'})
m = {'version': 1,
     'setup_cmd': 'python3 tools/build.py asan tsan msan plain fsync cli',
     'hooks': {'guard': 'URKEL_VERIF', 'enable': "cmake -DCMAKE_C_FLAGS='... -DURKEL_VERIF' (tools/build.py, out of tree)",
               'source_commits': ['58502ee']},
     'checks': checks, 'not_applicable': na}
if not any('cli' == os.path.basename(f)[:3] for f in os.listdir(os.path.join(V, 'mon')) if f == 'cli_main.cpp'):
    m['setup_cmd'] = 'python3 tools/build.py asan tsan'
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    f.write(json.dumps(m, indent=1) + '\n')
