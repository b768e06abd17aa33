"""Builds /verif/seeded/<id>/ from the bug descriptions in tools/bugs/*.py and
confirms each: applies, builds, stable tests pass, the demo passes without and
fails with the change.  Not used by any check.

usage: mkbug.py [id ...]
"""
import glob, json, os, runpy, shutil, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/mkbug.wt'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=WT, PYTHONHASHSEED='0')
DEMO = '''#!/bin/bash
# exit 0: the property holds for the tried inputs
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    bugs = {}
    for f in sorted(glob.glob(R + '/tools/bugs/*.py')):
        for b in runpy.run_path(f)['BUGS']:
            assert b['id'] not in bugs, b['id']
            bugs[b['id']] = b
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    for i in sys.argv[1:] or [x for x in bugs if not os.path.exists(R + '/seeded/%s/patch.diff' % x)]:
        b = bugs[i]
        shutil.rmtree(WT, ignore_errors=True)
        shutil.copytree('/repo', WT, symlinks=True)
        sh(['git', 'checkout', '-q', '--', '.'], cwd=WT)
        for fn, old, new in b['edits']:
            p = WT + '/' + fn
            s = open(p).read()
            assert s.count(old) == 1, (i, fn, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        d = R + '/seeded/' + i
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh(['git', 'diff'], cwd=WT).stdout)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider'] +
               ['%s.py::%s' % ('/'.join(t.split('::')[0].split('.')[:-1]), t.split('::')[0].split('.')[-1] + '::' + t.split('::')[1])
                for t in stable], cwd=WT, env=ENV)
        ok = r.returncode == 0
        w = sh(['bash', d + '/demo.sh'], cwd=WT, env=ENV)
        g = sh(['bash', d + '/demo.sh'], cwd='/repo', env=ENV)
        print(i, b['property'], 'tests', 'pass' if ok else 'FAIL', '| demo patched', w.returncode,
              '| clean', g.returncode, '' if ok and w.returncode and not g.returncode else '<<<<<< BAD')
        if not ok:
            print(r.stdout[-900:])
        if g.returncode:
            print(g.stdout[-900:])
        print('    ', w.stdout.strip().splitlines()[-1:].__repr__()[:300])
        shutil.rmtree(WT)


main()
