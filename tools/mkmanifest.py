"""Write MANIFEST.json from properties.jsonl."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
HIST = {'C01': 'ITMSweep', 'C08': 'ITMControl', 'C19': 'ITMInterleave', 'C24': 'ITMStore', 'C30': 'ITMWorkflow',
        'C31': 'ITMThreads'}
checks = []
for p in props:
    i = p['id']
    how = ('TLC exhausts the control model %s; every history it emits is replayed into the real code' % HIST[i]
           if i in HIST else 'TLC enumerates the input classes (ITMScenario); the real code runs on seeded members of each')
    checks.append({
        'property': i,
        'quick_cmd': '/opt/venv/bin/python harness/check.py %s' % i,
        'thorough_cmd': '/opt/venv/bin/python harness/check.py %s --thorough' % i,
        'technique': 'TLA+ specification checked with TLC; spec-generated histories/classes replayed into the code, '
                     'recorded traces validated against the specification (ITMTrace) by TLC',
        'level': 'model_checking',
        'level_note': how + '; TLC then validates each recorded trace step by step against the executable '
                      'specification. Bounded: holds for the explored traces; trusts TLC, the Real64 arithmetic '
                      'override, the recorder in harness/, and the stated numeric tolerances.',
    })
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python harness/setup.py',
     'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo: the code is driven through its public functions and scripts. Defects found and '
              'repaired are listed in KNOWN_FINDINGS.txt; there is no open finding.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
