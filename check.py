#!/usr/bin/env python3
"""check.py PROPERTY: verify all contracts of a property against /repo.

exit 0: the property held on everything explored
exit 1: VIOLATION property=<id> replay=<path> on stdout
exit 2: the machinery itself failed"""
import concurrent.futures as cf
import hashlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PV_REPO', '/repo')
PY = 'python3-vt'
TRUSTED = [
    'pv/sym.py, pv/models.py, pv/hooks.py, pv/loops.py: generation of the proof obligations (exact integers, byte '
    'ropes, lists, induction over loops); cross-checked natively on every run',
    'pv/rewrite.py: mechanical rewriting of the function bodies of /repo and of python-bitcointx on every run',
    'z3 5.3.2 (first back end), cvc5 1.1.2 (for what z3 leaves open)',
    'CPython 3.12 semantics of everything outside of the modelled builtins',
]


def env():
    e = dict(os.environ)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    e.pop('ELEMENTSTX_TESTS_SECP256K1_PATH', None)
    return e


def sub(args, timeout):
    """run a part of the machinery in a process group of its own"""
    p = subprocess.Popen([PY, '-m'] + args, cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         env=env(), start_new_session=True)
    try:
        out, err = p.communicate(timeout=max(5, timeout))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return None, 'timeout'
    return subprocess.CompletedProcess(args, p.returncode, out, err), err[-3000:]


def work(spec, cid, budget, tmp, end):
    budget = max(10, min(budget, end - time.time()))
    out = os.path.join(tmp, cid.replace('/', '_') + '.json')
    p, err = sub(['pv.worker', spec, cid, '--out', out, '--budget', str(budget), '--jobs', '4'], budget + 60)
    try:
        with open(out) as f:
            return json.load(f)
    except (OSError, ValueError):
        return {'contract': cid, 'status': 'undecided', 'problem': 'worker failed: %s' % err[-800:], 'obligations': {},
                'bad': [], 'functions': [], 'discharged': 0, 'total': 0, 'by': {}, 'queries': 0, 'solver_s': 0,
                'cvc5_queries': 0, 'wall_s': 0, 'paths': 0, 'infeasible': 0, 'desc': '', 'bounded': None, 'stubs': []}


def stand_in(c):
    """record of a contract that is only run on samples"""
    return {'contract': c['id'], 'status': 'sampled', 'problem': None, 'obligations': {}, 'bad': [], 'functions': [],
            'discharged': 0, 'total': 0, 'by': {}, 'queries': 0, 'solver_s': 0, 'cvc5_queries': 0, 'wall_s': 0,
            'paths': 0, 'infeasible': 0, 'desc': c['desc'], 'bounded': c['bounded'] or 'random samples', 'stubs': []}


def native_sample(spec, ids, seed, seconds, n):
    p, err = sub(['pv.native', 'sample', spec, ','.join(ids), str(seed), str(seconds), str(n)],
                 seconds * len(ids) + 120)
    if p is None or p.returncode != 0:
        return {i: {'accepted': 0, 'rejected': 0, 'distinct': 0, 'violation': None, 'sample': None,
                    'error': err[-1500:]} for i in ids}
    return json.loads(p.stdout)


def load_findings():
    r = []
    try:
        with open(os.path.join(ROOT, 'known_findings.txt')) as f:
            for l in f:
                if l.startswith('KNOWN-FINDING: '):
                    d = dict(x.split('=', 1) for x in l.split()[1:] if '=' in x and x.split('=')[0] in
                             ('property', 'contract', 'obligation'))
                    r.append((d.get('property'), d.get('contract'), d.get('obligation', '').replace('_', ' '),
                              l.strip()))
    except OSError:
        pass
    return r


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = prop.lower()
    p, err = sub(['pv.native', 'list', spec], 120)
    if p is None or p.returncode != 0:
        print('cannot load the contracts of %s against %s:\n%s' % (prop, REPO, err))
        return 2
    cons = [c for c in json.loads(p.stdout) if c['id'].startswith(prop + '.') and (tier == 'thorough' or not c['thorough_only'])]
    ids = [c['id'] for c in cons]
    scale = 4.0 if tier == 'thorough' else 1.0
    end = t0 + (780 if tier == 'quick' else 3000)      # of the verifier, then 45 s of search
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    results, samples = {}, {}
    with tempfile.TemporaryDirectory(prefix='pv-') as tmp:
        with cf.ThreadPoolExecutor(8) as ex:
            # long contracts first
            order = sorted(cons, key=lambda c: -c['budget'])
            futs = {ex.submit(work, spec, c['id'], min(c['budget'] * scale, 3000), tmp, end - 150): c['id'] for c in order
                    if not c['native_only']}
            results.update({c['id']: stand_in(c) for c in cons if c['native_only']})
            nat = [ex.submit(native_sample, spec, ids[k::4], seed, 6 * scale, scale) for k in range(4) if ids[k::4]]
            for f in nat:
                samples.update(f.result())
            for f in cf.as_completed(futs):
                results[futs[f]] = f.result()
        # bounded search behind whatever was not proved
        viol = []
        for cid in ids:
            v = samples[cid]['violation']
            if v and not any(b.get('model') for b in results[cid]['bad']):
                viol.append((cid, v, True, results[cid]))
        todo = [cid for cid in ids if results[cid]['status'] not in ('proved', 'sampled') and cid not in [x[0] for x in viol]]

        def hunt(cid):
            r = results[cid]
            recs = [{'contract': cid, 'tables': b['model'], 'obligation': b['name']} for b in r['bad']
                    if b.get('model')] or [{'contract': cid, 'tables': None, 'obligation': ''}]
            fn = os.path.join(tmp, 'search-%s.json' % cid)
            with open(fn, 'w') as f:
                json.dump({'spec': spec, 'recs': recs, 'seconds': max(10, min(45, end - time.time() - 20)) if tier == 'quick' else 150,
                           'seed': seed}, f)
            p, err = sub(['pv.native', 'search', fn], 400)
            if p is None or p.returncode != 0:
                return cid, None, err
            d = json.loads(p.stdout)
            r['searched'] = d['tried']
            return cid, d['violation'] or samples[cid]['violation'], ''
        with cf.ThreadPoolExecutor(8) as ex:
            for cid, v, err in ex.map(hunt, todo):
                r = results[cid]
                if v:
                    viol.append((cid, v, True, r))
                else:
                    firm = [b for b in r['bad'] if b['status'] == 'refuted' and not b.get('notes')]
                    # nothing but the end of the time budget excuses an
                    # obligation that is not accepted
                    pb = r['problem'] or ''
                    if not firm and r['bad']:
                        firm = r['bad']
                    if not firm and not pb.startswith('time budget') and not pb.startswith('worker failed: timeout'):
                        firm = [{'name': 'verification conditions of the contract', 'detail': pb, 'formula': None,
                                 'model': None}]
                    if firm:
                        b = firm[0]
                        viol.append((cid, {'obligation': b['name'], 'detail': b['detail'], 'formula': b['formula'],
                                           'model': b['model']}, False, r))
    # known findings
    findings = load_findings()
    known, fresh = [], []
    for x in viol:
        for fp, fc, fo, line in findings:
            if fp == prop and fc == x[0] and (not fo or fo == x[1]['obligation']):
                known.append((x, line))
                break
        else:
            fresh.append(x)
    tot = sum(r['total'] for r in results.values())
    dis = sum(r['discharged'] for r in results.values())
    by = {}
    for r in results.values():
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
    undec = [cid for cid in ids if results[cid]['status'] not in ('proved', 'sampled') and cid not in [x[0] for x in viol]]
    funcs = sorted({f for r in results.values() for f in r['functions']})
    files = sorted({f.split(':')[1].split(':')[0] if f.startswith('dep') else f.split(':')[0] for f in funcs})
    hashes = {}
    for f in files:
        for base in (REPO, '/opt/venv/lib/python3.12/site-packages'):
            q = os.path.join(base, f)
            if os.path.isfile(q):
                hashes[q] = hashlib.sha256(open(q, 'rb').read()).hexdigest()[:16]
    meta = {}
    try:
        meta = json.load(open(os.path.join(ROOT, 'specs', 'meta.json'))).get(prop, {})
    except (OSError, ValueError):
        pass
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': tot, 'discharged': dis,
            'checker_cmd': 'cd /verif && python3-vt -m pv.worker %s <contract>' % spec,
            'trusted_base': TRUSTED + meta.get('trusted', []),
            'back_ends': by,
            'solver_queries': sum(r['queries'] for r in results.values()),
            'solver_s': round(sum(r['solver_s'] for r in results.values()), 2),
            'cvc5_queries': sum(r['cvc5_queries'] for r in results.values()),
            'paths': sum(r['paths'] for r in results.values()),
            'contracts': [{
                'id': cid, 'statement': results[cid]['desc'], 'status': results[cid]['status'],
                'label': 'bounded: %s' % results[cid]['bounded'] if results[cid]['bounded'] else 'unbounded',
                'problem': results[cid]['problem'], 'paths': results[cid]['paths'],
                'obligations': results[cid]['obligations'], 'wall_s': results[cid]['wall_s'],
                'native_runs': samples[cid]['accepted'], 'native_distinct': samples[cid]['distinct'],
                'bounded_search_runs': results[cid].get('searched', 0),
            } for cid in ids],
            'proved': [cid for cid in ids if results[cid]['status'] == 'proved' and not results[cid]['bounded']],
            'bounded': [cid for cid in ids if results[cid]['status'] in ('proved', 'sampled') and results[cid]['bounded']],
            'undecided': undec,
            'functions_under_contract': [f for f in funcs if f.startswith('elementstx')],
            'dependency_functions_verified_through': [f for f in funcs if not f.startswith('elementstx')],
            'callee_contracts_used': sorted({x for r in results.values() for x in r.get('stubs', [])}),
            'sources': hashes,
            'native_cross_check': {
                'runs': sum(s['accepted'] for s in samples.values()),
                'distinct': sum(s['distinct'] for s in samples.values()),
                'rejected_by_precondition': sum(s['rejected'] for s in samples.values()),
            },
            'samples': [{cid: samples[cid].get('sample')} for cid in ids[:3]],
        },
        'assumptions': meta.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(fresh),
    }
    if not any(not results[cid]['bounded'] for cid in ids):
        ev['level'] = 'other'
        ev['coverage']['explanation'] = (
            'bounded, not proved: every contract fixes the numbers of inputs and outputs (see the labels); within '
            'the bound every obligation generated from the current source is discharged for all contents')
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    print('%s: %d contracts, %d/%d obligations discharged %s, %d paths, %d native runs, %.1f s' % (
        prop, len(ids), dis, tot, by, ev['coverage']['paths'], ev['coverage']['native_cross_check']['runs'],
        time.time() - t0))
    for cid in undec:
        print('UNDECIDED %s (%s): only the bounded search of %d native runs, no violation found' % (
            cid, results[cid]['problem'], results[cid].get('searched', 0) + samples[cid]['accepted']))
    for cid in ids:
        if samples[cid].get('error'):
            print('native run of %s failed: %s' % (cid, samples[cid]['error'][-600:]))
        elif samples[cid]['accepted'] == 0:
            print('VACUOUS? no random input of %s satisfies its precondition' % cid)
    for x, line in known:
        print(line)
    n = 0
    for cid, v, confirmed, r in fresh:
        n += 1
        path = os.path.join(ROOT, 'evidence', 'replay', '%s.json' % cid)
        with open(path, 'w') as f:
            json.dump({'spec': spec, 'property': prop, 'contract': cid, 'failed_obligation': v['obligation'],
                       'detail': v['detail'], 'replay': v if confirmed else None,
                       'verifier_output': r['bad'], 'statement': r['desc'],
                       'how': 'cd /verif && python3-vt -m pv.native replay %s' % path}, f, indent=1, default=str)
        print('failed: %s / %s: %s' % (cid, v['obligation'], str(v['detail'])[:600]))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if confirmed else ' no-failing-input-found'))
    if fresh:
        return 1
    if not ids or tot == 0 and not any(s['accepted'] for s in samples.values()):
        print('nothing was explored')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
