#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the check modules in mc/"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
PY = '/opt/venv/bin/python'
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'mc', i.lower() + '.py')):
        checks.append(dict(
            property=i, quick_cmd=f'{PY} run.py {i} --tier quick',
            thorough_cmd=f'{PY} run.py {i} --tier thorough',
            evidence_file=f'evidence/{i}.json', level='model_checking',
            technique='explicit-state/stateless model checking: exhaustive enumeration of all operation '
                      'histories of a bounded alphabet, executed on the real code and compared state by '
                      'state with an independent reference model',
            level_note='bounded exhaustive exploration of the real implementation; no claim about values '
                       'outside the alphabets listed in DESIGN.md and in the evidence'))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd=f'{PY} -c "import numpy, scipy"', checks=checks, not_applicable=na,
               notes='run.py --replay FILE repeats one history; no hooks are needed in /repo'),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
