#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from hv import registry  # noqa: E402

props = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
na = {}
checks = []
for p in props:
    e = registry.CHECKS.get(p)
    if not e:
        na[p] = 'No check has been built yet.'
        continue
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s --tier quick' % p,
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                   'technique': e['technique'], 'level': e['level'], 'level_note': e['note']})
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout
hooks = [x.split()[0] for x in log.splitlines() if x.split(' ', 1)[1].startswith('hook:')]
m = {'version': 1, 'setup_cmd': 'python3 setup.py',
     'hooks': {'guard': 'cfg hop_verif (rustc --cfg hop_verif)',
               'enable': "RUSTFLAGS='--cfg hop_verif' when building the harness crates in /verif/harness",
               'source_commits': hooks},
     'checks': checks,
     'not_applicable': [{'property': p, 'reason': r} for p, r in na.items()]}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
