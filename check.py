#!/usr/bin/env python
"""check.py PROPERTY [--tier quick|thorough] -- decide one property by symbolic execution.

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>":
a counterexample that reproduces on the unmodified code.  Exit 2: the check itself failed.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

EVID = os.environ.get('SYMKJ_EVIDENCE') or os.path.join(HERE, 'evidence')
REPO = os.environ.get('SYMKJ_REPO', '/repo')      # another tree only while developing the checks


def enc(o):
    """JSON-safe values that survive the round trip (bytes, tuples)."""
    if isinstance(o, bytes):
        return {'__bytes__': o.decode('latin-1')}
    raise TypeError(repr(o))


def replay_file(prop, found):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    txt = json.dumps(dict(property=prop, **found), default=repr, indent=1, sort_keys=True)
    h = hashlib.sha1(txt.encode('utf-8', 'surrogatepass')).hexdigest()[:12]
    p = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(p, 'w', encoding='utf-8') as f:
        f.write(txt)
    return p


def replay(path):
    """Run the counterexample in a fresh interpreter on the unmodified code."""
    p = subprocess.run([sys.executable, os.path.join(HERE, 'replay.py'), path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def load_known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings']
                if k['property'] == prop and k.get('status') == 'known']


def _run(job):
    from symkj import worker
    return worker.run_job(job)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--only', help='run only scenarios whose name contains this')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('--strict', action='store_true', help='exit 2 if a single scenario is undecided')
    ap.add_argument('--dump', help='write the validated cases to this file')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    prop = args.property
    t0 = time.time()

    from symkj import worker, solver
    worker.setup(REPO, HERE)
    mod = importlib.import_module('props.' + prop.lower())
    plan = mod.plan(args.tier)           # [(func, params)] or [(func, params, opts)]
    budget = 120 if args.tier == 'quick' else 2400
    jobs = []
    for item in plan:
        func, params = item[0], item[1]
        opts = item[2] if len(item) > 2 else {}
        if args.only and args.only not in func + json.dumps(params, sort_keys=True):
            continue
        jobs.append(dict(prop=prop, module=prop.lower(), func=func, params=params,
                         budget=opts.get('budget', budget), max_paths=opts.get('max_paths'),
                         conc_cap=opts.get('conc_cap'),
                         max_found=3, debug=args.debug))
    results = []
    violations, spurious, errors = [], [], []
    known_hit = []
    known = load_known(prop)
    hard = 540 if args.tier == 'quick' else None     # what is left then is reported as not explored
    late = False
    ctx = multiprocessing.get_context('fork')
    pool = ctx.Pool(args.jobs, maxtasksperchild=None)
    try:
        it = pool.imap_unordered(_run, jobs, chunksize=1)
        while True:
            try:
                r = it.next(timeout=max(1, t0 + hard - time.time()) if hard else None)
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                late = True
                break
            results.append(r)
            if args.v:
                print('%-14s %-70s paths %5d q %5d %6.1fs %s %s' % (
                    r['job']['func'], json.dumps(r['job']['params'])[:70], r['stats']['paths'],
                    r['queries'], r['wall'], r['incomplete'] or '', r['concretised'] or ''))
            if r['error']:
                errors.append(r['error'])
            for f in r['found']:
                path = replay_file(prop, f)
                rc, out = replay(path)
                if rc == 1:
                    k = match_known(known, f, out)
                    if k:
                        known_hit.append(k)
                    else:
                        violations.append((path, f, out))
                else:
                    spurious.append((path, f, rc, out))
            if violations:
                break
    finally:
        pool.terminate()
        pool.join()

    kept = []
    for r in results:
        kept.extend(r.pop('kept'))
    asked, bad, und = 0, [], 0
    if not violations:
        step = max(1, len(kept) // (1500 if args.tier == 'quick' else 6000))
        try:
            asked, bad, und = solver.crosscheck(kept[::step])
        except Exception as ex:
            bad = [('cross-check failed: %s' % ex,)]
    validated = (0, [], [])
    if not violations:
        validated = validate(prop, results)
        for case, why in validated[1]:
            if case is None:
                errors.append(why)
                continue
            f = dict(msg='the unmodified code violates the property on a path the engine passed',
                     inputs=case['inputs'], detail=None, job=case['job'])
            path = replay_file(prop, f)
            rc, out = replay(path)
            if rc == 1:
                k = match_known(known, f, out)
                if k:
                    known_hit.append(k)
                else:
                    violations.append((path, f, out))
            elif not histories(prop, known, known_hit, violations, case, validated[2]):
                errors.append('unstable validation: %s' % why)
            if violations:
                break
    if args.dump:
        with open(args.dump, 'w', encoding='utf-8') as fh:
            json.dump(validated[2], fh, default=repr)
    # vacuity: every scenario must reach an assertion
    vacuous = [r['job'] for r in results if not r['reached'].get('assert') and not r['found'] and not r['error']]
    write_evidence(prop, mod, args.tier, results, violations, spurious, errors, known_hit,
                   (asked, len(bad), und), vacuous, t0, len(jobs), validated)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if violations:
        path, f, out = violations[0]
        print('counterexample: %s' % f['msg'])
        print('inputs: %s' % json.dumps(f['inputs'], default=repr, ensure_ascii=True))
        print('scenario: %s %s' % (f['job']['func'], json.dumps(f['job']['params'])))
        print(out.encode('ascii', 'backslashreplace').decode()[-1500:])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    rc = 0
    # A scenario the engine could not execute, or whose counterexample the real code does not reproduce (a wrong model of a
    # builtin), is undecided: it is reported here and in the evidence, and too many of them mean that the check has no answer.
    for path, f, code, out in spurious:
        print('UNDECIDED: counterexample does not reproduce (%s): %s %s' % (code, f['msg'], path))
        print('  detail: %s' % json.dumps(f.get('detail'), default=repr)[:1500])
        print('  inputs: %s' % json.dumps(f['inputs'], default=repr))
        print('  replay said: %s' % out.encode('ascii', 'backslashreplace').decode()[-800:])
    for e in errors:
        print('UNDECIDED: %s' % e)
    undecided = set(json.dumps([f['job']['func'], f['job']['params']], sort_keys=True) for _, f, _, _ in spurious)
    undecided = len(undecided) + len(errors)
    if undecided and (args.strict or undecided * 5 > len(jobs)):
        print('ERROR: %d of %d scenarios are undecided' % (undecided, len(jobs)))
        rc = 2
    if bad:
        print('ERROR: solvers disagree: %r' % (bad[:2],))
        rc = 2
    if vacuous and not args.only and (args.strict or len(vacuous) * 5 > len(jobs)):
        print('ERROR: vacuous scenarios: %s' % vacuous)
        rc = 2
    print('%s %s: %d scenarios, %d paths, %d queries, %.1fs solver, %.1fs wall%s' % (
        prop, args.tier, len(results), sum(r['stats']['paths'] for r in results),
        sum(r['queries'] for r in results), sum(r['solver_time'] for r in results),
        time.time() - t0, '' if not late and not any(r['incomplete'] for r in results) else ' (some budgets hit)'))
    return rc


def histories(prop, known, known_hit, violations, case, cases):
    """A case that fails only after other cases ran in the same process (the code keeps
    something between renderings): find a short list of earlier cases that brings it out."""
    before = cases[:next(i for i, c in enumerate(cases) if c is case)]

    def attempt(bef):
        f = dict(msg='the unmodified code violates the property after the earlier cases in '
                     '"before" ran in the same process', inputs=case['inputs'], detail=None,
                 job=case['job'], before=bef)
        path = replay_file(prop, f)
        rc, out = replay(path)
        if rc != 1:
            os.remove(path)
        return rc, out, path, f
    best = attempt(before)
    if best[0] != 1:
        return False
    size = max(1, len(before) // 2)
    for _ in range(40):
        for i in range(0, len(before), size):
            less = before[:i] + before[i + size:]
            r = attempt(less)
            if r[0] == 1:
                os.remove(best[2])
                best, before = r, less
                break
        else:
            if size == 1:
                break
            size = max(1, size // 2)
    k = match_known(known, best[3], best[1])
    if k:
        known_hit.append(k)
    else:
        violations.append((best[2], best[3], best[1]))
    return True


def match_known(known, f, out):
    for k in known:
        m = k['match']
        if m.get('func') not in (None, f['job']['func']):
            continue
        if m.get('replay_contains') and m['replay_contains'] not in out:
            continue
        if any(f['job']['params'].get(a) != b for a, b in m.get('params', {}).items()):
            continue
        return k
    return None


def large(mod, results):
    L = [r['job'] for r in results if getattr(getattr(mod, r['job']['func'], None), '__module__', '') == 'props.large']
    L = ['%s %s' % (j['func'], ' '.join('%s=%s' % i for i in sorted(j['params'].items()))) for j in L]
    return '; fixed large sizes with symbolic values: ' + '; '.join(sorted(L)) if L else ''


def write_evidence(prop, mod, tier, results, violations, spurious, errors, known_hit, cross,
                   vacuous, t0, njobs, validated):
    from symkj import worker
    tot = {}
    conc = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r['concretised'].items():
            conc[k] = conc.get(k, 0) + v
    funcs = dict((m, sorted(set(v))) for m, v in worker.STATE['finder'].loaded.items()
                 if m.startswith('kajiki') and v)
    samples = []
    for r in results:
        for c in r['samples'][:1]:
            if len(samples) < 6:
                samples.append(dict(scenario=c['job']['func'], params=c['job']['params'],
                                    inputs=c['inputs']))
    incomplete = [dict(scenario=r['job'], why=r['incomplete']) for r in results
                  if r['incomplete']]
    cov = dict(
        states=tot.get('paths', 0),
        transitions=tot.get('branches', 0),
        traces_validated_against_impl=validated[0],
        samples=samples,
        exhaustive=not incomplete and not errors and not spurious and not tot.get('limited') and len(results) == njobs,
        scenarios=len(results),
        solver_queries=sum(r['queries'] for r in results),
        solver_cache_hits=sum(r['cache_hits'] for r in results),
        solver_time_s=round(sum(r['solver_time'] for r in results), 2),
        assertions_decided=tot.get('asserts', 0),
        infeasible_paths=tot.get('aborted', 0),
        solver_unknown=tot.get('unknown', 0),
        second_solver=dict(asked=cross[0], disagreements=cross[1], undecided=cross[2]),
        bounds=mod.BOUNDS + large(mod, results), outside=getattr(mod, 'OUTSIDE', ''),
        values_pinned_at=conc, values_not_explored_after_pinning=tot.get('limited', 0),
        incomplete=incomplete, vacuous=vacuous,
        undecided=[dict(job=f['job'], why=f['msg']) for _, f, _, _ in spurious] + [str(e)[-500:] for e in errors],
        functions_encoded=funcs,
        per_scenario=[dict(job=r['job'], paths=r['stats']['paths'], queries=r['queries'],
                           wall_s=round(r['wall'], 2), reached=r['reached']) for r in results],
    )
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')),
              level='model_checking', coverage=cov,
              assumptions=ASSUMPTIONS + list(getattr(mod, 'ASSUMES', [])),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)


ASSUMPTIONS = [
    'the models of Python builtins (str methods, re, %, repr, dict, int) in symkj agree with '
    'the interpreter; sampled paths are replayed natively on every run',
    'expat treats all ordinary characters of character data alike (symkj/xmlmodel.py)',
    'eval(repr(s)) == s for str',
]


def validate(prop, results):
    """Replay the models of sampled paths on the unmodified code: they must pass."""
    cases = [c for r in results for c in r['samples']]
    cases.sort(key=lambda c: json.dumps([c['job'], c['inputs']], sort_keys=True, default=repr))
    if not cases:
        return 0, [], []
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-batch-%d.json' % (prop, os.getpid()))
    with open(p, 'w', encoding='utf-8') as f:
        json.dump(cases, f, default=repr)
    try:
        r = subprocess.run([sys.executable, os.path.join(HERE, 'replay.py'), '--batch', p],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        out = r.stdout.decode('utf-8').strip().splitlines()
        if not out:
            return 0, [(None, 'validation run died: '
                        + r.stderr.decode('utf-8', 'replace')[-500:])], cases
        bad = json.loads(out[-1])
    finally:
        os.remove(p)
    return len(cases), [(cases[i], why) for i, why in bad], cases


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
