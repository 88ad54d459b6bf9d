#!/usr/bin/env python3
"""Write MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import checks as CH
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
chk, na = [], []
for p in props:
    c = CH.CHECKS.get(p['id'])
    if c is None:
        na.append(dict(property=p['id'], reason='the check is not built yet'))
        continue
    chk.append(dict(property=p['id'], quick_cmd='python3 run.py %s' % p['id'],
                    thorough_cmd='VERIF_TIER=thorough python3 run.py %s' % p['id'],
                    technique=c.get('technique', 'property-based testing (rapid): ' + c['oracle']),
                    level='exploration',
                    level_note=c.get('note', 'No counterexample among the generated cases counted in the evidence file; nothing is proved. ')
                    + ' Trusted: the harness\'s own reference geometry (harness/geo), the generators\' coverage and the numeric tolerances given in DESIGN.md.'))
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=chk, not_applicable=na,
         notes='No hooks: every check uses exported functions or the built commands. Known findings and repaired defects: known_findings.txt.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(chk), 'claimed', len(na), 'not')
