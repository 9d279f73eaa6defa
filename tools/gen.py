"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from tools.props import PROPS, NA
with open(H + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['forall']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
        assert len(p['title']) <= 80, p['title']
checks = []
for p in PROPS:
    if p['id'] in NA:
        continue
    if not os.path.exists('%s/replay/%s.py' % (H, p['id'])):
        print('no check yet', p['id'])
        continue
    cmd = 'python3 run_check.py %s' % p['id']
    checks.append(dict(property=p['id'], quick_cmd=cmd + ' --tier quick', thorough_cmd=cmd + ' --tier thorough',
                       technique=p.get('technique', 'contracts on the real functions, verification conditions discharged by z3/cvc5 '
                       '(pyvc), with a bounded replay layer for failing inputs'),
                       level=p.get('level', 'proof'), level_note=p['note']))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()]), open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks')
