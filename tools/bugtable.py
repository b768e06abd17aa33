"""rewrites the table of planted bugs in DESIGN.md from a log of runbugs.py"""
import json, os, sys, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
db = R + '/tools/bugresults.json'
res = json.load(open(db)) if os.path.exists(db) else {}
for l in open(sys.argv[1]) if len(sys.argv) > 1 else ():
    m = re.match(r'(\S+)\s+(CAUGHT|MISSED) exit (\d+)\s+(\d+) s\s*(.*)', l)
    if m:
        c = re.search(r'replay/(\S+)\.json(.*)', m.group(5))
        res[m.group(1)] = [m.group(2), (c.group(1) + c.group(2)) if c else '']
ids = sorted(os.listdir(R + '/seeded'))
res = {k: res[k] for k in ids if k in res}
json.dump(res, open(db, 'w'), indent=1)
rows = ['<!-- bugs -->', '| bug | needs | caught by |', '|---|---|---|']
for i in ids:
    m = json.load(open(R + '/seeded/%s/meta.json' % i))
    rows.append('| %s | %s | %s |' % (i, m['needs'], {'CAUGHT': res.get(i, ['', ''])[1], 'MISSED': '**missed**'}.get(res.get(i, ['?'])[0], 'not run')))
rows.append('<!-- /bugs -->')
s = open(R + '/DESIGN.md').read()
t = '\n'.join(rows)
s = re.sub(r'<!-- bugs -->.*<!-- /bugs -->', lambda m: t, s, flags=re.S) if '<!-- bugs -->' in s else s.replace('BUGTABLE', t)
open(R + '/DESIGN.md', 'w').write(s)
