"""writes MANIFEST.json from mirv/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mirv import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
T = 'contracts on the functions of /repo, discharged over rustc MIR with z3 (mirv); failing inputs replayed on the real program'
m = dict(version=1, setup_cmd='./check --setup', checks=[], not_applicable=[])
for i in ids:
    p = props.PROPS.get(i)
    if not p: m['not_applicable'].append(dict(property=i, reason=props.NA.get(i, 'check under construction'))); continue
    m['checks'].append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'./check {i} --thorough', technique=p.get('tech') or T, level=p['level'], level_note=p['note'] + ('; not proved: ' + p['gap'] if p['gap'] else '') + '. Trusts: ' + ', '.join(props.TRUSTED) + '.'))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
