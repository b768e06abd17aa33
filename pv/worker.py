"""verify one contract: explore all paths, discharge all obligations"""
import importlib
import json
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'


def setup_path():
    sys.dont_write_bytecode = True
    for p in (SITE, REPO, ROOT):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


def monitor(paths):
    """names of the functions of the code under verification that run"""
    seen = set()
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, 'pv')

    def start(code, off):
        fn = code.co_filename
        if fn in paths:
            seen.add((fn, code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    return seen


def explore(contract, deadline, work=None, slice_s=None, max_paths=20000, verbose=False, stop_at=6):
    """explore paths depth first; returns the results and what is left"""
    from . import sym
    from .contract import SymS, Failed
    stats = sym.Stats()
    work = [[]] if work is None else work
    results = []
    npaths = ninf = 0
    problem = None
    t0 = time.time()
    while work:
        if slice_s is not None and time.time() - t0 > slice_s:
            break
        prefix = work.pop()
        if time.time() > deadline:
            problem = 'time budget exhausted'
            break
        npaths += 1
        if npaths > max_paths:
            problem = 'too many paths'
            break
        c = sym.Ctx(prefix, stats, timeout_ms=contract.solver_ms)
        c.deadline = deadline
        sym.CTX = c
        S = SymS(c, contract)
        try:
            try:
                contract.fn(S)
            except Failed:
                pass
            except sym.Infeasible:
                ninf += 1
            except sym.Unsupported as e:
                problem = 'unsupported: %s' % e
                if verbose:
                    traceback.print_exc()
            except Exception as e:
                # an exception that the contract does not allow
                tb = traceback.format_exc()
                try:
                    r, model = c.prove(sym.z3.BoolVal(False))
                    if r == 'sat' and 'linear' in c.__dict__:
                        model.update(c.linear.model())
                except sym.EngineStop as e2:
                    r, model = 'unknown', None
                if verbose:
                    print(tb, file=sys.stderr)
                if r == 'sat':
                    S.results.append(('unexpected exception', 'refuted', '%s: %s' % (type(e).__name__, e), model,
                                      tb[-1500:], list(c.notes)))
                elif r == 'unknown':
                    S.results.append(('unexpected exception', 'unknown', '%s: %s' % (type(e).__name__, e), None,
                                      tb[-1500:], list(c.notes)))
        finally:
            c.undo(0)
            sym.CTX = None
        results += S.results
        if verbose:
            print('path', npaths, [(r[0], r[1]) for r in S.results][-3:], 'pending', len(c.frames[0].pending),
                  file=sys.stderr)
        work.extend(c.frames[0].pending)
        if problem:
            break
        if sum(1 for r in results if r[1] == 'refuted') >= stop_at:
            problem = 'stopped after %d refuted obligations' % stop_at
            break
    stats.paths = npaths - ninf
    return results, problem, stats, npaths, ninf, work


_G = {}


def _task(work):
    from . import stubs
    con, deadline = _G['con'], _G['deadline']
    try:
        results, problem, stats, npaths, ninf, left = explore(con, deadline, work, 1.0)
    except BaseException as e:
        return [], 'internal: %s: %s' % (type(e).__name__, e), None, 0, 0, [], set(), set()
    return results, problem, stats, npaths, ninf, left, set(_G['seen']), set(stubs.USED)


def explore_parallel(con, deadline, jobs, seen):
    """as explore; subtrees of the path tree are given to several processes"""
    import concurrent.futures as cf
    import multiprocessing as mp
    from . import sym, stubs
    _G.update(con=con, deadline=deadline, seen=seen)
    results, problem, stats, npaths, ninf, work = explore(con, deadline, None, 2.0)
    if not work or problem:
        return results, problem, stats, npaths, ninf
    queue = list(work)
    refuted = sum(1 for r in results if r[1] == 'refuted')
    with cf.ProcessPoolExecutor(jobs, mp_context=mp.get_context('forkserver' if False else 'fork')) as ex:
        running = set()
        while queue or running:
            while queue and len(running) < jobs * 2 and problem is None:
                # the oldest prefixes are the biggest subtrees
                running.add(ex.submit(_task, [queue.pop(0)]))
            if not running:
                break
            done, running = cf.wait(running, return_when=cf.FIRST_COMPLETED)
            for f in done:
                try:
                    r, pb, st, n, i, left, sn, us = f.result()
                except Exception as e:
                    problem = problem or 'internal: %s: %s' % (type(e).__name__, e)
                    continue
                results += r
                npaths += n
                ninf += i
                queue += left
                seen |= sn
                stubs.USED |= us
                if st is not None:
                    for k in ('queries', 'solver_s', 'cvc5_queries', 'cvc5_s', 'unknown', 'paths'):
                        setattr(stats, k, getattr(stats, k) + getattr(st, k))
                    for k, v in st.by.items():
                        stats.by[k] = stats.by.get(k, 0) + v
                problem = problem or pb
            refuted = sum(1 for r in results if r[1] == 'refuted')
            if refuted >= 6 and problem is None:
                problem = 'stopped after %d refuted obligations' % refuted
            if problem:
                queue = []
    return results, problem, stats, npaths, ninf


def run(spec, cid, budget=None, verbose=False, jobs=1):
    setup_path()
    from . import rewrite
    rewrite.install()
    sys.setrecursionlimit(6000)
    importlib.import_module('specs.' + spec)
    from .contract import CONTRACTS
    from . import stubs
    stubs.install()
    from . import ctypes_model
    ctypes_model.install()
    if "specs.lib" in sys.modules:
        stubs.install_elements()
    con = CONTRACTS[cid]
    seen = monitor(set(rewrite.LOADED.values()))
    t0 = time.time()
    b = budget or con.budget
    if jobs > 1:
        results, problem, stats, npaths, ninf = explore_parallel(con, t0 + b, jobs, seen)
    else:
        results, problem, stats, npaths, ninf, _ = explore(con, t0 + b, verbose=verbose)
    obl = {}
    for r in results:
        o = obl.setdefault(r[0], {'proved': 0, 'refuted': 0, 'unknown': 0})
        o[r[1]] += 1
    bad = [r for r in results if r[1] != 'proved']
    ok = not bad and problem is None and results
    prefix = {REPO: 'repo', SITE: 'dep', ROOT: 'spec'}
    funcs = []
    for f, q in sorted(seen):
        if '__pv_' in q or '<lambda>' in q or '<listcomp>' in q or '<genexpr>' in q:
            continue
        for p, t in prefix.items():
            if f.startswith(p + '/'):
                if t != 'spec':
                    funcs.append('%s:%s' % (f[len(p) + 1:], q))
                break
    return {
        'contract': cid, 'desc': con.desc, 'bounded': con.bounded,
        'status': 'proved' if ok else ('refuted' if any(r[1] == 'refuted' for r in results) else 'undecided'),
        'problem': problem if problem else (None if results else 'no obligation was generated'),
        'paths': npaths - ninf, 'infeasible': ninf, 'obligations': obl,
        'discharged': sum(o['proved'] for o in obl.values()),
        'total': sum(sum(o.values()) for o in obl.values()),
        'by': stats.by, 'queries': stats.queries, 'solver_s': round(stats.solver_s, 2),
        'cvc5_queries': stats.cvc5_queries, 'wall_s': round(time.time() - t0, 2),
        'functions': funcs, 'stubs': sorted(stubs.USED),
        'bad': [{'name': r[0], 'status': r[1], 'detail': str(r[2])[:500], 'model': r[3], 'formula': r[4], 'notes': r[5]}
                for r in bad[:12]],
    }


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('spec')
    ap.add_argument('cid')
    ap.add_argument('--out')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int, default=1)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    try:
        r = run(a.spec, a.cid, a.budget, a.v, a.jobs)
    except BaseException as e:
        if a.v:
            raise
        r = {'contract': a.cid, 'status': 'undecided', 'problem': 'internal: %s: %s' % (type(e).__name__, e),
             'trace': traceback.format_exc()[-3000:], 'obligations': {}, 'bad': [], 'functions': [], 'discharged': 0,
             'total': 0, 'by': {}, 'queries': 0, 'solver_s': 0, 'cvc5_queries': 0, 'wall_s': 0, 'paths': 0,
             'infeasible': 0, 'desc': '', 'bounded': None}
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(r, f)
    else:
        print(json.dumps(r, indent=1))
