#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and checks.py, so that claims and checks stay in step."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
C, NA = {}, {}
def check(pid, src, **kw): C[pid] = kw
def not_applicable(pid, reason): NA[pid] = reason
exec(open(os.path.join(V, 'checks.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
m = dict(version=1, setup_cmd='python3 run.py setup', checks=[], not_applicable=[],
         notes='All checks: python3 run.py check <id>. A violation is replayed alone before it is reported; replay files are run with python3 run.py replay <file>. No hook is needed in /repo: seams are put in from outside with compiler options.')
for p in props:
    i = p['id']
    if i in C:
        m['checks'].append(dict(property=i, quick_cmd='python3 run.py check ' + i, thorough_cmd='VERIF_TIER=thorough python3 run.py check ' + i,
                                evidence_file='evidence/%s.json' % i, technique=C[i].get('technique', 'explicit-state exhaustive enumeration on the real code'),
                                level='model_checking', level_note=C[i].get('note', '') + (' Assumes: ' + '; '.join(C[i]['assumptions']) + '.' if C[i].get('assumptions') else '')))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'not built yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
