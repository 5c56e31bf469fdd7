"""Writes MANIFEST.json for the checks that exist (run by hand, the result is committed)."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(here, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'kmon', 'checks', i.lower() + '.py')):
        n = NOTES[i]
        checks.append(dict(
            property=i, quick_cmd='./check.sh %s quick' % i,
            thorough_cmd='./check.sh %s thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='runtime monitoring: ' + n[0], level='exploration', level_note=n[1]))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'/repo\'); import kajiki"',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo: the monitors observe kajiki at its public boundary (rendered '
               'text, calls to functions in the context, exceptions, loader results). '
               'known_findings.json lists known findings and repaired defects.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not built')
