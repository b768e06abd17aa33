"""Run contracts natively, on the unmodified code.

  list SPEC...                      contract ids
  sample SPEC IDS SEED SECONDS N    random inputs: N accepted runs per contract
  replay FILE                       run the inputs recorded in FILE
  search FILE                       look for a failing input near the models in FILE
Output is JSON on stdout."""
import importlib
import json
import os
import random
import resource
import sys
import time
import traceback

from .worker import setup_path
from .contract import CONTRACTS, ConcS, Violation, Reject


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def load(specs):
    setup_path()
    for s in specs:
        importlib.import_module('specs.' + s)


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def run_once(con, S, seconds=20):
    """None, or (obligation, detail)"""
    import signal
    # processor time, not wall time: the machine may be busy
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        con.fn(S)
    except Reject:
        raise
    except Violation as v:
        return v.name, v.detail
    except Timeout:
        return 'termination', 'no result after %d seconds' % seconds
    except RecursionError as e:
        return 'unexpected exception', 'RecursionError: %s' % e
    except Exception as e:
        return 'unexpected exception', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return None


def make(con, tables, seed, vary):
    return ConcS(con, tables=tables, rng=random.Random(seed), vary=vary)


def sample(ids, seed, seconds, n):
    out = {}
    for cid in ids:
        con = CONTRACTS[cid]
        t0 = time.time()
        acc = rej = 0
        viol = None
        seen = set()
        first = None
        k = 0
        want = max(1, int(con.samples * n))
        while acc < want and time.time() - t0 < seconds and k < want * 50:
            s = '%s:%s:%d' % (cid, seed, k)
            k += 1
            S = make(con, None, s, 0)
            try:
                r = run_once(con, S)
            except Reject:
                rej += 1
                continue
            acc += 1
            key = json.dumps(S.log, sort_keys=True, default=str)
            if key not in seen and S.checked:
                seen.add(key)
            if first is None:
                first = S.log
            if r is not None:
                viol = {'contract': cid, 'tables': None, 'seed': s, 'vary': 0, 'obligation': r[0],
                        'detail': r[1][:3000], 'inputs': S.log}
                break
        out[cid] = {'accepted': acc, 'rejected': rej, 'distinct': len(seen), 'violation': viol,
                    'sample': first, 'wall_s': round(time.time() - t0, 2)}
    return out


def replay(rec):
    con = CONTRACTS[rec['contract']]
    S = make(con, rec.get('tables'), rec.get('seed', '0'), rec.get('vary', 0))
    try:
        r = run_once(con, S, 60)
    except Reject:
        return None, S
    return r, S


def search(recs, seconds, seed):
    """recs: [{'contract', 'tables', 'obligation'}]; first failing input"""
    t0 = time.time()
    tried = 0
    attempts = []
    for rec in recs:
        attempts.append((rec, 0, 0))
    for k in range(1, 400):
        for rec in recs:
            attempts.append((rec, 1, k))
    for rec, vary, k in attempts:
        if time.time() - t0 > seconds * 0.6:
            break
        r2 = dict(rec, seed='%s:%d' % (seed, k), vary=vary)
        tried += 1
        r, S = replay(r2)
        if r is not None:
            return {'contract': rec['contract'], 'tables': rec['tables'], 'seed': r2['seed'], 'vary': vary,
                    'obligation': r[0], 'detail': r[1][:3000], 'inputs': S.log}, tried
    k = 0
    ids = sorted({r['contract'] for r in recs})
    while time.time() - t0 < seconds:
        for cid in ids:
            r2 = {'contract': cid, 'tables': None, 'seed': 'search:%s:%s:%d' % (cid, seed, k), 'vary': 0}
            tried += 1
            r, S = replay(r2)
            if r is not None:
                return dict(r2, obligation=r[0], detail=r[1][:3000], inputs=S.log), tried
        k += 1
    return None, tried


def main(a):
    limit()
    out = sys.stdout
    sys.stdout = sys.stderr
    if a[0] == 'list':
        load(a[1:])
        r = [{'id': c.id, 'bounded': c.bounded, 'thorough_only': c.thorough_only, 'native_only': c.native_only, 'budget': c.budget,
              'desc': c.desc, 'spec': c.fn.__module__.split('.')[-1]} for c in CONTRACTS.values()]
    elif a[0] == 'sample':
        load([a[1]])
        r = sample(a[2].split(','), a[3], float(a[4]), float(a[5]))
    elif a[0] == 'search':
        with open(a[1]) as f:
            d = json.load(f)
        load([d['spec']])
        v, tried = search(d['recs'], d['seconds'], d['seed'])
        r = {'violation': v, 'tried': tried}
    elif a[0] == 'replay':
        with open(a[1]) as f:
            d = json.load(f)
        load([d['spec']])
        if d.get('replay') is None:
            r = {'violation': None, 'note': 'no failing input recorded; failed obligation follows', 'record': d}
        else:
            v, S = replay(d['replay'])
            r = {'violation': v, 'inputs': S.log}
    print(json.dumps(r, default=str), file=out)
    return 1 if a[0] == 'replay' and r['violation'] else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
