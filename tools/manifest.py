#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
HIST = 'bounded exhaustive exploration of operation histories of the real code against a reference model, compared after every step'
SPACE = 'bounded exhaustive exploration of the real code over every input of a finite space, against a reference model'
FAULT = 'bounded exhaustive exploration of operation histories and of every fault point in them, on the real code'
T = {p['id']: SPACE for p in props}
for i in ('R01', 'V01', 'V03', 'Q01'): T[i] = HIST
T['V02'] = FAULT
NOTE = {}
exec(open(os.path.join(here, 'tools', 'notes.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTE:
        checks.append({'property': i, 'quick_cmd': './run.sh %s quick' % i, 'thorough_cmd': './run.sh %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': 'model checking: ' + T[i],
                       'level': 'model_checking', 'level_note': NOTE[i]})
    else:
        na.append({'property': i, 'reason': 'no check yet'})
m = {'version': 1, 'setup_cmd': './run.sh build',
     'hooks': {'guard': 'cfg trellis_verif', 'enable': 'RUSTFLAGS="--cfg trellis_verif" (run.sh does this for P08 and C02)',
               'source_commits': ['d8c0e74', 'c03987c']},
     'checks': checks, 'not_applicable': na,
     'notes': 'Every check builds the harness crate mc against /repo and enumerates its space completely; see DESIGN.md.'}
m['hooks']['source_commits'] = HOOKS
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
