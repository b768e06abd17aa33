"""Runs the check of its property against every seeded bug, in scratch copies.
Not used by any check.   usage: runbugs.py [-j N] [id ...]"""
import glob, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
j = 2
if a and a[0] == '-j':
    j = int(a[1]); a = a[2:]
V = '/tmp/rb.verif'
shutil.rmtree(V, ignore_errors=True)
shutil.copytree(R, V, ignore=shutil.ignore_patterns('.git', 'seeded', '__pycache__'))


def run(i):
    m = json.load(open(R + '/seeded/%s/meta.json' % i))
    d = '/tmp/rb.' + i
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', d])
    subprocess.check_call(['git', 'apply', R + '/seeded/%s/patch.diff' % i], cwd=d)
    t = time.time()
    r = subprocess.run([sys.executable, 'check.py', m['property']], cwd=V, env=dict(os.environ, PV_REPO=d, VERIF_SEED='1', VERIF_TIER='quick'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % m['property'])]
    shutil.rmtree(d)
    print('%-24s %s exit %d %3.0f s  %s' % (i, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', r.returncode, time.time() - t, v[0][:160] if v else r.stdout[-300:]), flush=True)


ids = a or sorted(os.path.basename(x) for x in glob.glob(R + '/seeded/*'))
with ThreadPoolExecutor(j) as ex:
    list(ex.map(run, ids))
