"""claim.py ID NOTE [ASSUMPTION...]: record a claimed property"""
import json, os, sys, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, note, ass = sys.argv[1], sys.argv[2], sys.argv[3:]
c = json.load(open(R + '/tools/claims.json')); c['claimed'][i] = note; c['not_applicable'].pop(i, None)
c['claimed'] = dict(sorted(c['claimed'].items()))
json.dump(c, open(R + '/tools/claims.json', 'w'), indent=1)
m = json.load(open(R + '/specs/meta.json')); m.setdefault(i, {})['assumptions'] = ass
m = dict(sorted(m.items()))
json.dump(m, open(R + '/specs/meta.json', 'w'), indent=1)
subprocess.check_call([sys.executable, R + '/tools/gen_manifest.py'])
