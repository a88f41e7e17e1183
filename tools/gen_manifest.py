"""Writes /verif/MANIFEST.json from the properties that have a harness."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    pid = p['id']
    path = os.path.join(ROOT, 'harness', pid.lower() + '.py')
    if os.path.exists(path) and pid not in NA:
        src = open(path).read()
        m = re.search(r"^NOTE = '''(.*?)'''", src, re.S | re.M)
        note = ' '.join(m.group(1).split()) if m else ''
        checks.append(dict(
            property=pid,
            quick_cmd=f'./check.py {pid} --tier quick',
            thorough_cmd=f'./check.py {pid} --tier thorough',
            technique='bounded symbolic execution of the real Python source (own engine, AST-instrumented on every run) with z3 deciding every branch and assertion; counterexamples replayed on the plain code',
            level='model_checking',
            level_note=('Holds for every input within the bounds listed in the evidence (all feasible paths explored, assertions discharged by z3). ' + note).strip(),
        ))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py', checks=checks, not_applicable=na,
               notes='See DESIGN.md. Recorded and repaired defects: known_findings.txt.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
