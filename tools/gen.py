"""Writes properties.jsonl and MANIFEST.json from the tables below (keeps both in step)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, V + '/tools')
from props import PROPS, NA, TECH
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=True) + '\n')
sys.path.insert(0, V + '/sa')
from check import registry
reg = registry()
checks, na = [], []
for p in PROPS:
    i = p['id']
    if i in reg:
        checks.append(dict(property=i, quick_cmd='python3 sa/check.py %s quick' % i, thorough_cmd='python3 sa/check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=TECH.get(i, ('abstract interpretation of the LLVM IR', ''))[0], level='other',
                           level_note=reg[i][1] + ' ' + TECH.get(i, ('', ''))[1] +
                           ' Trusted: clang front end, the library model (sa/models.py), the analyser. States that touch code without a model are reported as undecided, never as violations.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
