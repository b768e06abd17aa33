"""the verifier proves what holds and refuses what does not"""
import json
import subprocess
import sys
import concurrent.futures as cf

from .worker import ROOT


def go(cid):
    p = subprocess.run(['python3-vt', '-m', 'pv.worker', 'selftest', cid, '--budget', '60'], cwd=ROOT,
                       capture_output=True, text=True)
    try:
        return cid, json.loads(p.stdout)['status'], json.loads(p.stdout)['problem']
    except ValueError:
        return cid, 'crash', p.stderr[-500:]


def main():
    p = subprocess.run(['python3-vt', '-m', 'pv.native', 'list', 'selftest'], cwd=ROOT, capture_output=True, text=True)
    ids = [c['id'] for c in json.loads(p.stdout)]
    bad = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for cid, st, pb in ex.map(go, ids):
            ok = st == 'proved' if cid.startswith('T.ok_') else st != 'proved'
            print(cid, st, pb or '', '' if ok else '<- WRONG')
            bad += not ok
    return 1 if bad or not ids else 0


if __name__ == '__main__':
    sys.exit(main())
