#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
checks, na = [], []
for line in open(root + '/properties.jsonl'):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(f'{root}/mc/checks/{i.lower()}.py'):
        checks.append({
            'property': i,
            'quick_cmd': f'{PY} mc/run.py {i} --tier quick',
            'thorough_cmd': f'{PY} mc/run.py {i} --tier thorough',
            'technique': 'stateless bounded model checking of the implementation: exhaustive deviation-bounded enumeration against an independent reference model',
            'level': 'model_checking',
            'level_note': 'Every execution of the stated bounded choice space runs the real code in-process and is compared with an independent '
                          'reference (ISO 32000 reader/writer or document model in mc/); nothing is sampled. Trusts the reference, the harness '
                          'alphabets and the bounds recorded in the evidence file.'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': f'{PY} -m compileall -q mc', 'checks': checks, 'not_applicable': na,
     'notes': 'Pure Python: checks import pdfsyntax from /repo directly, nothing to build. No hooks were needed. PDFSYNTAX_REPO can point the checks at another copy.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
