#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 run.py setup', hooks=dict(guard='none', enable='no hooks: the checks compile the headers and kernels of /repo as they are'), checks=[], not_applicable=[])
for i in ids:
    if i in PROPS:
        m['checks'].append(dict(property=i, quick_cmd='python3 run.py check %s --tier quick' % i, thorough_cmd='python3 run.py check %s --tier thorough' % i,
                                technique=PROPS[i]['technique'], level='exploration', level_note=PROPS[i]['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'not built yet: the check for this property is still being written')))
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
