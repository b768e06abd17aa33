"""MANIFEST.json from the list of claimed properties"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
cl = json.load(open(R + '/tools/claims.json'))
m = {'version': 1, 'setup_cmd': 'python3-vt -m pv.selftest', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in cl['claimed']:
        m['checks'].append({
            'property': i, 'quick_cmd': 'python3-vt check.py %s' % i,
            'thorough_cmd': 'python3-vt check.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
            'technique': 'contract-based deductive verification (own verification-condition generator over the real '
                         'code, z3 and cvc5)',
            'level': cl.get('level', {}).get(i, 'proof'), 'level_note': cl['claimed'][i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': cl['not_applicable'].get(i, 'no check yet')})
with open(R + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
