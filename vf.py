"""Check runner: proof jobs (pyvc) + concrete contract search on the real code, evidence, replay files.

usage: vf.py <property> [--tier quick|thorough] | vf.py --replay <file> | vf.py --list
Outcomes: exit 0 (property held on everything explored), exit 1 + VIOLATION line.
"""
import argparse
import base64
import importlib
import io
import json
import multiprocessing as mp
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback

# refuted obligations of these kinds are violations (bounds and cover obligations only leave the job undecided)
ALARM = ('post', 'frame', 'exc', 'lemma', 'inv', 'pre')
LONG = 4            # factor of the second, longer search when an obligation is refuted or open
JOBS_S = 420        # wall-clock limit of all proof jobs of one quick check
HERE = os.path.dirname(os.path.abspath(__file__))
EVDIR = os.environ.get('VF_EVIDENCE') or os.path.join(HERE, 'evidence')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import pyvc  # noqa: E402  (sets sys.path for z3 and the repository)


class Job:
    """one proof job: body(ctx, interp_factory) explored over all paths"""

    def __init__(self, name, body, budget=150, timeout_ms=5000, branch_ms=1500, max_paths=4000, concretize=None,
                 tier='quick', weight=1.0, bounded=None, expect=None):
        self.name, self.body = name, body
        self.budget, self.timeout_ms, self.branch_ms, self.max_paths = budget, timeout_ms, branch_ms, max_paths
        self.concretize = concretize       # (model values of ctx.inputs) -> case or None
        self.tier = tier
        self.bounded = bounded             # text of a size bound, or None for an unbounded proof
        self.expect = expect


class CaseTimeout(BaseException):
    pass


def quiet_import(name):
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        return importlib.import_module(name)
    finally:
        sys.stdout = old


def load(prop):
    return quiet_import('contracts.' + prop.lower())


# ------------------------------------------------------------------------------------------------ proof jobs
def run_job(prop, idx, tier, q):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        mod = load(prop)
        job = [j for j in mod.jobs(tier)][idx]
        q.put((idx, prove(job)))
    except BaseException as e:
        q.put((idx, dict(name=f'job{idx}', obligations=[], unsupported=f'internal: {type(e).__name__}: {e}',
                         trace=[], paths=0, ended=0, solver_time=0, wall=0, cases=[],
                         tb=traceback.format_exc()[-3000:])))


def prove(job):
    from pyvc.ctx import Run
    from pyvc.terms import Unsupported, ForkNeeded, Raised
    from pyvc.interp import Interp, ReturnSig, BreakSig, ContinueSig
    from pyvc import models
    t0 = time.time()
    run = Run(job.name, timeout_ms=job.timeout_ms, branch_ms=job.branch_ms, budget_s=job.budget,
              max_paths=job.max_paths)
    traces = set()
    assumed = set()

    def factory(contracts=None, loops=None, **kw):
        it = Interp(models.M, contracts, loops, **kw)
        it.trace = traces
        it.assumed = assumed
        return it
    unsupported = None
    tb = ''
    try:
        run.explore(lambda c: job.body(c, factory))
    except Unsupported as e:
        unsupported = f'outside the verifier\'s reach: {e}'
        tb = traceback.format_exc()[-1500:]
    except (ForkNeeded, ReturnSig, BreakSig, ContinueSig) as e:
        unsupported = f'internal control flow: {type(e).__name__}'
        tb = traceback.format_exc()[-1500:]
    except Raised as e:
        unsupported = f'unexpected exception in the specification: {e.exc!r}'
        tb = traceback.format_exc()[-1500:]
    except RecursionError:
        unsupported = 'term too deep'
    except MemoryError:
        unsupported = 'memory'
    except Exception as e:
        unsupported = f'engine error: {type(e).__name__}: {e}'
        tb = traceback.format_exc()[-2500:]
    obs = []
    cases = []
    for o in run.obligations.values():
        obs.append(dict(name=o.name, status=o.status, time=round(o.time, 4), backend=o.backend, kind=o.kind,
                        note=o.note[:800] if o.status != 'proved' else ''))
        if o.status != 'proved' and o.model is not None and job.concretize is not None:
            try:
                vals = {}
                for inp in o.smt[2]:
                    vals[getattr(inp, 'name', str(inp))] = inp.concretize(o.model)
                case = job.concretize(vals)
                if case is not None:
                    cases.append((o.name, case))
            except Exception as e:
                obs[-1]['note'] += f' [model not concretised: {type(e).__name__}: {e}]'
    return dict(name=job.name, obligations=obs, unsupported=unsupported, trace=sorted(traces),
                assumed=sorted(assumed), paths=run.paths, ended=run.ended, solver_time=run.solver_time,
                wall=time.time() - t0, cases=cases, tb=tb, bounded=job.bounded)


def run_jobs(prop, mod, tier, par=8):
    jobs = mod.jobs(tier)
    if not jobs:
        return []
    deadline = time.time() + (JOBS_S if tier == 'quick' else 4 * JOBS_S)
    q = mp.Queue()
    res = {}
    pend = list(range(len(jobs)))
    live = {}
    while pend or live:
        while pend and time.time() > deadline:
            i = pend.pop(0)
            res[i] = dict(name=jobs[i].name, obligations=[], trace=[], paths=0, ended=0, solver_time=0, wall=0, cases=[],
                          assumed=[], bounded=jobs[i].bounded, unsupported='time budget of the check exhausted')
        while pend and len(live) < par:
            i = pend.pop(0)
            p = mp.Process(target=run_job, args=(prop, i, tier, q), daemon=False)
            p.start()
            live[i] = (p, time.time())
        try:
            i, r = q.get(timeout=0.2)
            res[i] = r
            p, _ = live.pop(i)
            p.join(5)
            if p.is_alive():
                p.kill()
        except Exception:
            pass
        for i, (p, t) in list(live.items()):
            over = time.time() - t > jobs[i].budget * 1.25 + 20 or time.time() > deadline
            if over or (not p.is_alive() and q.empty()):
                if not over:
                    time.sleep(0.3)
                    if not q.empty():
                        continue
                p.kill()
                p.join()
                live.pop(i)
                if i not in res:
                    res[i] = dict(name=jobs[i].name, obligations=[], trace=[], paths=0, ended=0, solver_time=0,
                                  wall=time.time() - t, cases=[], assumed=[], bounded=jobs[i].bounded,
                                  unsupported='time budget exhausted' if over else 'prover process died')
    return [res[i] for i in range(len(jobs))]


# ------------------------------------------------------------------------------------------------ concrete search
def _alarm(*_):
    raise CaseTimeout()


def eval_case(mod, case, limit=60):
    """None if the contract holds on the real code for this case, else a message"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        return mod.check(case)
    except CaseTimeout:
        return f'no answer within {limit} s'
    except Exception as e:
        return f'unexpected exception {type(e).__name__}: {e} at ' + \
            ' < '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(traceback.extract_tb(e.__traceback__)[-4:]))
    finally:
        signal.alarm(0)
        sys.stdout = old


def search_worker(prop, tier, seed, part, nparts, budget, q):
    try:
        import warnings
        warnings.simplefilter('ignore')
        import numpy as np
        np.seterr(all='ignore')
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        mod = load(prop)
        t0 = time.time()
        n = 0
        kinds = {}
        samples = []
        rng = random.Random(f'{seed}/{prop}/{part}')
        np.random.seed((seed * 1009 + part) % (1 << 31))
        end = t0 + budget
        while time.time() < end:
            before = rng.getstate()
            for case in mod.cases(rng, tier, part, nparts):
                if time.time() > end:
                    break
                msg = eval_case(mod, case)
                n += 1
                k = case[0] if isinstance(case, tuple) and case and isinstance(case[0], str) else 'case'
                kinds[k] = kinds.get(k, 0) + 1
                if kinds[k] <= 1 and len(samples) < 4:
                    samples.append(repr(case)[:400])
                if msg is not None:
                    case, msg = shrink(mod, case, msg)
                    q.put(('fail', part, n, kinds, samples, (case, msg)))
                    return
            # a finite generator that draws on the random source is run again while time is left
            # (in the first search for at most half of its budget)
            if rng.getstate() == before or (seed < 1000 and time.time() - t0 > budget / 2):
                break
        q.put(('ok', part, n, kinds, samples, None))
    except BaseException as e:
        q.put(('error', part, 0, {}, [], f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-2500:]))


def shrink(mod, case, msg):
    f = getattr(mod, 'shrink', None)
    if f is None:
        return case, msg
    t0 = time.time()
    improved = True
    while improved and time.time() - t0 < 10:
        improved = False
        for c in f(case):
            if time.time() - t0 > 10:
                break
            m = eval_case(mod, c)
            if m is not None:
                case, msg, improved = c, m, True
                break
    return case, msg


def run_search(prop, tier, seed, budget, nparts):
    q = mp.Queue()
    ps = []
    for k in range(nparts):
        p = mp.Process(target=search_worker, args=(prop, tier, seed, k, nparts, budget, q))
        p.start()
        ps.append(p)
    out = []
    t0 = time.time()
    while len(out) < nparts and time.time() - t0 < budget * 1.3 + 120:
        try:
            out.append(q.get(timeout=0.5))
            if out[-1][0] == 'fail':
                break
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
    for p in ps:
        if p.is_alive():
            p.kill()
        p.join()
    return out


# ------------------------------------------------------------------------------------------------ replay files
def write_replay(prop, d):
    path = os.path.join(EVDIR, f'replay_{prop}.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(d, f, indent=1, default=str)
    return path


def case_record(prop, case, msg, origin):
    return dict(property=prop, origin=origin, message=msg, case_repr=repr(case)[:20000],
                case_pickle=base64.b64encode(pickle.dumps(case)).decode(),
                replay_cmd=f'cd /verif && /opt/venv/bin/python vf.py --replay evidence/replay_{prop}.json')


def replay(path):
    d = json.load(open(path))
    if 'case_pickle' not in d:
        print('no failing input recorded; failed obligation:', d.get('obligation'))
        print(d.get('verifier_output', ''))
        return 1
    mod = load(d['property'])
    case = pickle.loads(base64.b64decode(d['case_pickle']))
    msg = eval_case(mod, case)
    print('case:', repr(case)[:2000])
    print('result:', msg or 'contract holds')
    return 1 if msg else 0


# ------------------------------------------------------------------------------------------------ main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs-only', action='store_true')
    ap.add_argument('--search-only', action='store_true')
    ap.add_argument('--job')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop, tier = a.property, a.tier
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    import z3  # noqa: F401  loaded once before forking
    mod = load(prop)
    if a.job:
        i = [j.name for j in mod.jobs(tier)].index(a.job)
        r = prove(mod.jobs(tier)[i])
        show(r, True)
        return 0
    search_budget = getattr(mod, 'SEARCH_S', 20) * (1 if tier == 'quick' else 12)
    nparts = 2 if tier == 'quick' else 4
    results = [] if a.search_only else run_jobs(prop, mod, tier)
    if a.v:
        for r in results:
            show(r, True)
    failures = []      # (case, msg, origin)
    for r in results:
        for oname, case in r['cases']:
            msg = eval_case(mod, case)
            if msg is not None:
                failures.append((case, msg, f'counterexample of obligation "{oname}" ({r["name"]}) replayed on the real code'))
                break
        if failures:
            break
    search = []
    if not failures and not a.jobs_only:
        search = run_search(prop, tier, seed, search_budget, nparts)
        for s in search:
            if s[0] == 'fail':
                failures.append((s[5][0], s[5][1], 'run-time contract check on the real code'))
    refuted = [(r, o) for r in results for o in r['obligations'] if o['status'] == 'failed' and o['kind'] in ALARM]
    def is_open(r):
        return bool(r['unsupported']) or not r['obligations'] or any(o['status'] != 'proved' for o in r['obligations'])
    if any(is_open(r) for r in results) and not failures and not a.jobs_only:
        # an obligation is refuted or left open (never so on the unchanged tree): look longer for a failing input
        left = (780 if tier == 'quick' else 3600) - (time.time() - t0)
        more = run_search(prop, tier, seed + 1000, max(10, min(LONG * search_budget, 200, left - 130)), 6)
        search = search + more
        for s in more:
            if s[0] == 'fail':
                failures.append((s[5][0], s[5][1], 'run-time contract check on the real code'))
    known = known_findings(prop)
    kf_lines = []
    if hasattr(mod, 'known'):
        for item in mod.known():
            # item: (id, still_fails, text)
            if item[1] and item[0] in known:
                kf_lines.append(f'KNOWN-FINDING: property={prop} {known[item[0]]}')
            elif item[1]:
                failures.append((('known', item[0]), item[2], 'finite enumeration'))
    obs = [o for r in results for o in r['obligations']]
    proved = [o for o in obs if o['status'] == 'proved']
    undecided = [r for r in results if r['unsupported'] or any(o['status'] != 'proved' for o in r['obligations'])
                 or not r['obligations'] or (r['ended'] == 0 and r['paths'] == 0)]
    errors = [s for s in search if s[0] == 'error']
    violation = None
    if failures:
        case, msg, origin = failures[0]
        d = case_record(prop, case, msg, origin)
        d['failed_obligations'] = [dict(job=r['name'], **o) for r, o in refuted][:5]
        violation = f'VIOLATION property={prop} replay={write_replay(prop, d)}'
        print(msg)
    elif refuted:
        r, o = refuted[0]
        d = dict(property=prop, origin='refuted obligation', job=r['name'], obligation=o['name'], verifier_output=o['note'],
                 functions=r['trace'], all_failed=[dict(job=rr['name'], **oo) for rr, oo in refuted][:10])
        violation = f'VIOLATION property={prop} replay={write_replay(prop, d)} no-failing-input-found'
    for l in kf_lines:
        print(l)
    for r in results:
        show(r, False)
    nsearch = sum(s[2] for s in search)
    kinds = {}
    for s in search:
        for k, v in s[3].items():
            kinds[k] = kinds.get(k, 0) + v
    print(f'{prop} {tier}: {len(proved)}/{len(obs)} obligations discharged in {len(results)} proof jobs, '
          f'{nsearch} run-time contract evaluations, {time.time() - t0:.1f} s')
    evidence(prop, tier, seed, mod, results, obs, proved, undecided, search, nsearch, kinds, t0, violation, kf_lines)
    if violation:
        print(violation)
        return 1
    if errors and not obs:
        print('search failed:', errors[0][5])
        return 3
    if not a.jobs_only and not a.search_only and nsearch == 0 and hasattr(mod, 'cases'):
        print('no run-time contract evaluation took place', errors)
        return 3
    if errors:
        print('search error:', errors[0][5])
        return 3
    return 0


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {k['key']: k['what'] for k in d.get('known', []) if k['property'] == prop}


def show(r, verbose):
    st = 'proved' if not r['unsupported'] and r['obligations'] and all(o['status'] == 'proved' for o in r['obligations']) else \
        'REFUTED' if any(o['status'] == 'failed' for o in r['obligations']) else 'undecided'
    n = len(r['obligations'])
    print(f"  [{st}] {r['name']}: {sum(o['status'] == 'proved' for o in r['obligations'])}/{n} obligations, {r['paths']} paths, "
          f"{r['wall']:.1f} s" + (f" -- {r['unsupported']}" if r['unsupported'] else ''))
    if verbose or st != 'proved':
        for o in r['obligations']:
            if o['status'] != 'proved':
                print(f"      {o['status']}: {o['name']} ({o['kind']}) {o['note'][:500]}")
        if verbose and r.get('tb'):
            print(r['tb'])


COMMON_ASSUMPTIONS = [
    'Python integers and machine/numpy integers are mathematical integers; floating point numbers are real numbers plus an explicit NaN (rounding, overflow and infinities are outside the proofs; the run-time contract check executes the real arithmetic).',
    'Library functions (numpy, bitstring, struct, scipy) obey the models in pyvc/models.py, which are cross-checked against the real libraries by tools/crosscheck.py (setup_cmd).',
    'log, exp, sqrt, erf and powers of two are uninterpreted functions constrained by sign, monotonicity and special-value axioms.',
    'Termination of unbounded loops is not proved.',
]


def evidence(prop, tier, seed, mod, results, obs, proved, undecided, search, nsearch, kinds, t0, violation, kf):
    by = {}
    for o in proved:
        by[o['backend']] = by.get(o['backend'], 0) + 1
    funcs = sorted({t for r in results for t in r['trace']})
    level = 'proof' if results and proved else 'other'
    samples = [x for s in search for x in s[4]][:4]
    cov = dict(
        obligations=len(obs), discharged=len(proved),
        checker_cmd=f'/opt/venv/bin/python vf.py {prop} --tier {tier}',
        trusted_base=['pyvc (the verifier in /verif/pyvc: symbolic semantics of the Python subset and of library calls)',
                      'z3 python bindings', 'cvc5 1.1.2'] + sorted(set(getattr(mod, 'TRUSTED', []))),
        functions_under_contract=funcs,
        assumed_contracts=sorted({a for r in results for a in r.get('assumed', [])}),
        discharged_by_backend=by,
        solver_time_s=round(sum(r['solver_time'] for r in results), 2),
        proof_jobs=[dict(name=r['name'], obligations=len(r['obligations']),
                         discharged=sum(o['status'] == 'proved' for o in r['obligations']), paths=r['paths'],
                         undecided=r['unsupported'] or '', bounded=r.get('bounded') or '',
                         wall_s=round(r['wall'], 2)) for r in results],
        obligation_names=sorted({o['name'] for o in obs})[:200],
        undecided_jobs_covered_only_by_bounded_check=[r['name'] for r in undecided],
        runtime_contract_evaluations=nsearch, runtime_contract_kinds=kinds, runtime_contract_samples=samples,
        runtime_contract_label='bounded: concrete executions of the real code against the contract, never counted as proved',
        known_findings=kf,
    )
    if level == 'other':
        cov['explanation'] = getattr(mod, 'EXPLANATION', 'bounded check of the contract on the real code')
    ex = getattr(mod, 'extra_evidence', None)
    if ex:
        cov.update(ex())
    d = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
             assumptions=COMMON_ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', [])),
             wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(EVDIR, exist_ok=True)
    with open(os.path.join(EVDIR, f'{prop}.json'), 'w') as f:
        json.dump(d, f, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
